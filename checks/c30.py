"""Plots show the model's own values at the abilities on their axes: curves, surfaces, scales, histories and relationships."""
import functools
import itertools
import types
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic, GradedResponse, NominalResponse, GeneralizedPartialCredit
from irtorch.rescale import Reverse
from .common import ZOO, Cfg, ref_2pl, ref_gpc, ref_grm, ref_nominal, grm_order
from .scales import affine, curved

PLOT = ("information", "entropy", "probabilities", "derivative", "score", "likelihood")


class Trace(types.SimpleNamespace):
    pass


def traces(fig):
    out = []
    for t in fig.data:
        get = lambda k: None if getattr(t, k, None) is None else np.array(getattr(t, k), dtype=object)
        out.append(Trace(kind=t.type, mode=getattr(t, "mode", None), name=t.name, x=get("x"), y=get("y"), z=get("z")))
    return out


def trained(ctx, m, n, latent, lo=-2, hi=2):
    """abilities of the training respondents, all different from each other"""
    m.algorithm = types.SimpleNamespace(training_theta_scores=None, train_data=None, training_history={})
    if not n:
        return None
    t, xs = ctx.theta(n, latent, lo, hi, "tr")
    for d in range(latent):
        for a, b in itertools.combinations(range(n), 2):
            ctx.assume(ctx.abs(xs[a][d] - xs[b][d]) >= 0.05)
    m.algorithm.training_theta_scores = t
    return xs


def median(ctx, xs):
    """the lower middle value, as torch.median"""
    v = list(xs)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            if ctx.branch(v[j] > v[j + 1]):
                v[j], v[j + 1] = v[j + 1], v[j]
    return v[(len(v) - 1) // 2]


def line(lo, hi, steps):
    return [lo + (hi - lo) * k / (steps - 1) for k in range(steps)]


def grid(ctx, cfg, shown, steps, rng, tr, fixed, second=None):
    """the abilities (or transformed abilities) on the axes, and the values of the others"""
    def ends(d, given):
        if given is not None:
            return given
        if tr is None:
            return -3, 3
        col = [r[d] for r in tr]
        return functools.reduce(ctx.min, col), functools.reduce(ctx.max, col)
    rest = [d for d in range(cfg.latent) if d not in shown]
    vals = {}
    for k, d in enumerate(rest):
        vals[d] = fixed[k] if fixed is not None else (median(ctx, [r[d] for r in tr]) if tr is not None else 0)
    first = line(*ends(shown[0], rng), steps)
    axes = [(a,) for a in first] if len(shown) == 1 else list(itertools.product(first, line(*ends(shown[1], second), steps)))
    pts = []
    for ax in axes:
        x = dict(vals)
        x.update(zip(shown, ax))
        pts.append([x[d] for d in range(cfg.latent)])
    return pts


def entropy_of(ctx, ps):
    return -sum((p * ctx.log(p + 1e-10) for p in ps), 0) / ctx.log(2)


def values(ctx, m, cfg, what, pts, item, items, data, degrees, steps):
    """what each plot has to show at each ability: one list of curves"""
    K = len(pts)
    ps = [cfg.ref(ctx, m, cfg, x) for x in pts]
    chosen = range(cfg.items) if items is None else [i - 1 for i in items]
    if what == "probabilities":
        return [[ps[k][item - 1][c] for k in range(K)] for c in range(cfg.cats[item - 1])]
    if what == "entropy":
        return [[entropy_of(ctx, ps[k][item - 1][:cfg.cats[item - 1]]) for k in range(K)]]
    if what == "score":
        return [[sum((c * ps[k][i][c] for i in chosen for c in range(cfg.cats[i])), 0) for k in range(K)]]
    if what == "likelihood":
        return [[sum((ctx.log(ps[k][i][data[i]]) for i in chosen if data[i] is not None), 0) for k in range(K)]]
    raise AssertionError(what)


def picture(cfg, what, shown=(0,), steps=3, rng=None, second=None, train=0, fixed=None, item=2, items=None, data=None, degrees=None, scale=None,
            rescale=True, loose=False):
    """one kind of plot; `scale` gives the transformation in place"""
    def f(ctx):
        m = cfg.model(ctx)
        tr = trained(ctx, m, train, cfg.latent)
        fx = None if fixed is None else [ctx.real(f"fx{k}", -2, 2) for k in range(fixed)]
        fwd, scales = (lambda x: x), []
        invertible = False
        if scale is not None:
            s, fwd = scale(ctx, cfg.latent)
            m.add_scale_transformation(s)
            invertible = s.invertible
        on_scale = scale is not None and rescale
        src = tr
        if on_scale and invertible and tr is not None:
            src = [fwd(r) for r in tr]
        pts = grid(ctx, cfg, shown, steps, rng, src, fx, second)
        # the axis of an invertible scale of a fitted model is laid out in that scale
        back = on_scale and invertible and tr is not None
        thetas = [s.undo(p) for p in pts] if back else pts
        axis = pts if back else [fwd(p) for p in pts] if on_scale else pts
        kw = dict(latent_variables=tuple(d + 1 for d in shown), steps=steps, theta_range=rng, rescale=rescale)
        if second is not None:
            kw["second_theta_range"] = second
        if fx is not None:
            kw["fixed_thetas"] = ctx.tensor(np.array(fx, dtype=object))
        if what == "entropy":
            fig = m.plot.item_entropy(item, **kw)
        elif what == "probabilities":
            fig = m.plot.item_probabilities(item, **kw)
        elif what == "score":
            fig = m.plot.expected_sum_score(items=items, **kw)
        elif what == "likelihood":
            row = torch.tensor([[float("nan") if v is None else float(v) for v in data]])
            fig = m.plot.log_likelihood(row, items=items, **kw)
        elif what == "information":
            fig = m.plot.information(items=items, degrees=degrees, **kw)
        tz = [t for t in traces(fig) if t.kind in ("scatter", "surface", "scattergl")]
        if what == "information":
            th = ctx.tensor(np.array(thetas, dtype=object))
            info = ctx.vals(m.information(th, item=True, degrees=degrees, rescale=rescale)).reshape(len(thetas), -1)
            chosen = range(cfg.items) if items is None else [i - 1 for i in items]
            want = [[sum((info[k, i] for i in chosen), 0) for k in range(len(thetas))]]
        else:
            want = values(ctx, m, cfg, what, thetas, item, items, data, degrees, steps)
        ctx.prove(len(tz) == len(want), "one curve per category" if what == "probabilities" else "one curve")
        for c, (t, w) in enumerate(zip(tz, want)):
            if len(shown) == 1:
                n = len(t.x)
                ctx.prove(len(t.y) == n and (n == steps or (loose and n == steps - 1)), f"curve {c}: every ability of the grid is shown")
                for k in range(n):
                    ctx.eq(t.x[k], axis[k][shown[0]], f"curve {c}, point {k}: position on the axis", tol=1e-4)
                    ctx.eq(t.y[k], w[k], f"curve {c}, point {k}: the model's value there", tol=1e-4)
            else:
                ctx.prove(t.x.shape == t.y.shape == t.z.shape == (steps, steps), f"surface {c}: a full grid")
                for k, (a, b) in enumerate(itertools.product(range(steps), repeat=2)):
                    ctx.eq(t.x[a, b], axis[k][shown[0]], f"surface {c}, point {a},{b}: first axis", tol=1e-4)
                    ctx.eq(t.y[a, b], axis[k][shown[1]], f"surface {c}, point {a},{b}: second axis", tol=1e-4)
                    ctx.eq(t.z[a, b], w[k], f"surface {c}, point {a},{b}: the model's value there", tol=1e-4)
    return f


# ------------------------------------------------------------------ scales
def shifted(ctx, d):
    """an invertible scale with different units and origins per latent variable"""
    a = [ctx.real(f"sa{k}", 0.5, 2) for k in range(d)]
    b = [ctx.real(f"sb{k}", -5, 5) for k in range(d)]
    A, B = ctx.tensor(np.array(a, dtype=object)), ctx.tensor(np.array(b, dtype=object))

    from irtorch.rescale import Scale

    class Units(Scale):
        def __init__(self):
            super().__init__(invertible=True)

        def transform(self, t):
            return t * A + B

        def inverse(self, t):
            return (t - B) / A

        def jacobian(self, t):
            return torch.diag_embed(A.expand(t.shape[0], -1))
    s = Units()
    s.undo = lambda p: [(p[k] - b[k]) / a[k] for k in range(d)]
    return s, lambda x: [a[k] * x[k] + b[k] for k in range(d)]


def oneway(ctx, d):
    """a scale without an inverse: cubic, increasing"""
    s = curved(ctx)
    p, q = ctx.vals(s.p)[0], ctx.vals(s.q)[0]
    s.first = lambda t: torch.zeros(t.shape[1])
    return s, lambda x: [p * v + q * v * v * v for v in x]


def reverse(ctx, d):
    s = Reverse([True] * d)
    s.undo = lambda p: [-v for v in p]
    return s, lambda x: [-v for v in x]


C1 = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
C3 = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[2, 3]), 1, [2, 3], ref=ref_gpc)
D2 = Cfg("GPC-2d", lambda: GeneralizedPartialCredit(latent_variables=2, item_categories=[2, 3]), 2, [2, 3], ref=ref_gpc)
D3 = Cfg("2PL-3d", lambda: TwoParameterLogistic(latent_variables=3, items=2), 3, [2, 2], ref=ref_2pl)

DATA = [1, 2]
for what in ("entropy", "probabilities", "score", "likelihood", "information"):
    k = dict(data=DATA) if what == "likelihood" else {}
    dg = dict(degrees=[60, 30]) if what == "information" else {}
    add(f"{what}/given", picture(C3, what, rng=(-1.5, 2.0), **k))
    add(f"{what}/default", picture(C3, what, item=1, **k))
    add(f"{what}/trained", picture(C3, what, train=3, **k))
    add(f"{what}/units", picture(C3, what, train=2, scale=shifted, **k))
    add(f"{what}/units/off", picture(C3, what, train=2, scale=shifted, rescale=False, **k))
    add(f"{what}/untrained units", picture(C3, what, rng=(-1.0, 1.0), scale=shifted, **k))
    add(f"{what}/one way", picture(C3, what, train=2, scale=oneway, **k))
    add(f"{what}/second of two", picture(D2, what, shown=(1,), train=3, **k, **dg))
    add(f"{what}/second of two/units", picture(D2, what, shown=(1,), train=3, scale=shifted, **k, **dg))
    add(f"{what}/second of two/fixed", picture(D2, what, shown=(1,), rng=(-1.0, 2.0), fixed=1, **k, **dg))
    add(f"{what}/surface", picture(D2, what, shown=(0, 1), train=2, steps=2, **k, **dg))
    add(f"{what}/surface/swapped/units", picture(D2, what, shown=(1, 0), train=2, steps=2, scale=shifted, **k, **dg))
    add(f"{what}/surface/ranges", picture(D2, what, shown=(0, 1), rng=(-1.0, 2.0), second=(0.0, 3.0), steps=2, **k, **dg))

# ------------------------------------------------------------ other models, more dimensions, subsets of items, skipped items
NM = Cfg("NR-mc", lambda: NominalResponse(item_categories=[3, 2], mc_correct=[1, 0]), 1, [3, 2], ref=ref_nominal, mc=[1, 0])
GR = Cfg("GRM", lambda: GradedResponse(item_categories=[2, 3]), 1, [2, 3], ref=ref_grm, order=grm_order)
W3 = Cfg("2PL-w", lambda: TwoParameterLogistic(items=3), 1, [2, 2, 2], ref=ref_2pl)
add("entropy/NR-mc", picture(NM, "entropy", item=1, rng=(-1.0, 2.0)))
add("probabilities/NR-mc", picture(NM, "probabilities", item=1, rng=(-1.0, 2.0)))
add("probabilities/NR-mc/two", picture(NM, "probabilities", item=2, rng=(-1.0, 2.0)))
add("probabilities/GRM", picture(GR, "probabilities", item=2, train=2))
add("score/GRM", picture(GR, "score", train=2))
for what in ("score", "likelihood", "information"):
    k = dict(data=[1, 0, 1]) if what == "likelihood" else {}
    for items in ([3], [3, 1], [2]):
        add(f"{what}/items/{'-'.join(map(str, items))}", picture(W3, what, items=items, rng=(-1.0, 1.0), **k))
add("likelihood/skipped", picture(W3, "likelihood", data=[1, None, 0], rng=(-1.0, 1.0)))
add("likelihood/skipped/items", picture(W3, "likelihood", data=[None, 1, 0], items=[1, 2], rng=(-1.0, 1.0)))
add("likelihood/skipped/surface", picture(D2, "likelihood", data=[None, 2], shown=(0, 1), train=2, steps=2))
for what in ("entropy", "probabilities", "score", "likelihood", "information"):
    k = dict(data=[1, 0]) if what == "likelihood" else {}
    dg = dict(degrees=[60, 30, 90]) if what == "information" else {}
    add(f"{what}/3d/one", picture(D3, what, shown=(1,), train=2, steps=2, scale=shifted, **k, **dg))
    add(f"{what}/3d/one/fixed", picture(D3, what, shown=(2,), rng=(-1.0, 2.0), steps=2, fixed=2, **k, **dg))
    add(f"{what}/3d/surface", picture(D3, what, shown=(2, 0), train=2, steps=2, scale=shifted, **k, **dg))
    add(f"{what}/3d/surface/untrained", picture(D3, what, shown=(0, 2), steps=2, **k, **dg))
    add(f"{what}/one way/second of two", picture(D2, what, shown=(1,), train=3, steps=2, scale=oneway, **k, **(dict(degrees=[60, 30]) if dg else {})))
    add(f"{what}/reversed", picture(C3, what, train=2, scale=reverse, **(dict(data=DATA) if k else {})))
    add(f"{what}/reversed/untrained", picture(C3, what, scale=reverse, loose=True, **(dict(data=DATA) if k else {})))
    add(f"{what}/steps", picture(C3, what, train=2, steps=5, scale=shifted, **(dict(data=DATA) if k else {})), tier="thorough")


# ------------------------------------------------------------ scales with a flat part at one end
def flat(what, falling, steps=4):
    """below (or, falling, above) some ability every transformed ability is the same: that tail may be left out, the rest may not"""
    def f(ctx):
        from irtorch.rescale import Scale
        m = C3.model(ctx)
        trained(ctx, m, 0, 1)
        c = ctx.real("c", -2.5, 2.5)
        C = ctx.tensor([c])

        class Floor(Scale):
            def __init__(self):
                super().__init__(invertible=False)

            def transform(self, t):
                return torch.maximum(-t if falling else t, C)

            def inverse(self, t):
                raise NotImplementedError

            def jacobian(self, t):
                return torch.ones(t.shape[0], 1, 1)
        m.add_scale_transformation(Floor())
        grid = line(-3, 3, steps)
        for g in grid:
            ctx.assume(ctx.abs((-g if falling else g) - c) >= 0.01)
        up = [ctx.branch((-g if falling else g) > c) for g in grid]
        kw = dict(steps=steps)
        if what == "entropy":
            fig = m.plot.item_entropy(2, **kw)
        elif what == "probabilities":
            fig = m.plot.item_probabilities(2, **kw)
        elif what == "score":
            fig = m.plot.expected_sum_score(**kw)
        elif what == "likelihood":
            fig = m.plot.log_likelihood(torch.tensor([[1.0, 2.0]]), **kw)
        else:
            fig = m.plot.information(rescale=True, **kw)
        if what == "information":
            I = ctx.vals(m.information(ctx.tensor(np.array([[g] for g in grid], dtype=object)), item=False)).reshape(-1)
            want = [list(I)]
        else:
            want = values(ctx, m, C3, what, [[g] for g in grid], 2, None, [1, 2], None, steps)
        for c_, (t, w) in enumerate(zip([t for t in traces(fig) if t.kind == "scatter"], want)):
            need = [k for k in range(steps) if up[k]]
            n = len(t.x)
            at = 0 if falling else steps - n
            ctx.prove(n >= len(need) - (1 if falling and len(need) == steps else 0) and len(t.y) == n, f"curve {c_}: no ability beyond the flat part is left out")
            for k in range(n):
                j = at + k
                ctx.eq(t.x[k], (-grid[j] if falling else grid[j]) if up[j] else c, f"curve {c_}, point {k}: position on the axis", tol=1e-4)
                ctx.eq(t.y[k], w[j], f"curve {c_}, point {k}: the model's value there", tol=1e-4)
    return f


for what in ("entropy", "probabilities", "score", "likelihood", "information"):
    add(f"{what}/flat", flat(what, False))
    add(f"{what}/flat/falling", flat(what, True))


# ------------------------------------------------------------ derivative curves, group fit, log-likelihood by expected score
def derivative(cfg, item, scale=None, rescale=True, shown=(0,), deg=None):
    def f(ctx):
        m = cfg.model(ctx)
        trained(ctx, m, 0, cfg.latent)
        fwd = lambda x: x
        if scale is not None:
            s, fwd = scale(ctx, cfg.latent)
            m.add_scale_transformation(s)
        fig = m.plot.item_probabilities(item, latent_variables=tuple(d + 1 for d in shown), steps=3, theta_range=(-1.0, 2.0), plot_derivative=True, rescale=rescale)
        axis = [[0.0] * cfg.latent for _ in range(3)]
        for k, v in enumerate(line(-1.0, 2.0, 3)):
            axis[k][shown[0]] = v
        th = torch.tensor(axis)
        G = ctx.vals(m.probability_gradients(th, rescale))
        tz = traces(fig)
        ctx.prove(len(tz) == cfg.cats[item - 1], "one curve per category")
        for c, t in enumerate(tz):
            for k in range(3):
                ctx.eq(t.x[k], fwd(axis[k])[shown[0]] if scale is not None and rescale else axis[k][shown[0]], f"curve {c}, point {k}: position on the axis", tol=1e-4)
                ctx.eq(t.y[k], G[k, item - 1, c, shown[0]], f"curve {c}, point {k}: derivative of the probability", tol=1e-4)
    return f


add("derivative/plain", derivative(C3, 2))
add("derivative/first", derivative(C3, 1))
add("derivative/scale", derivative(C3, 2, scale=shifted))
add("derivative/scale/off", derivative(C3, 2, scale=shifted, rescale=False))
add("derivative/second of two", derivative(D2, 2, shown=(1,)))
add("derivative/second of two/scale", derivative(D2, 2, shown=(1,), scale=shifted))


def groupfit(item, scale=None, rescale=True, groups=2):
    def f(ctx):
        m = C3.model(ctx)
        trained(ctx, m, 0, 1)
        if scale is not None:
            s, fwd = scale(ctx, 1)
            m.add_scale_transformation(s)
        n = 5
        th = torch.tensor([[0.5], [-1.0], [1.5], [0.0], [-0.25]])
        d = ctx.ints("x", (n, 2), 0, [1, 2])
        for ix in np.ndindex(n, 2):
            d[ix] = ctx.concretize(d[ix]) if hasattr(ctx, "concretize") and ix[0] < 2 and ix[1] == item - 1 else d[ix]
        data = ctx.tensor(d)
        fig = m.plot.item_probabilities(item, steps=3, theta_range=(-1.0, 1.0), plot_group_fit=True, group_fit_groups=groups, group_fit_data=data,
                                        group_fit_population_theta=th, rescale=rescale)
        O, M, mid = m.evaluate.latent_group_probabilities(data=data, theta=th, groups=groups, rescale=rescale)
        O, M, mid = ctx.vals(O), ctx.vals(M), ctx.vals(mid)
        tz = traces(fig)
        marks = [t for t in tz if t.mode == "markers"]
        K = C3.cats[item - 1]
        ctx.prove(len([t for t in tz if t.mode == "lines"]) == K and len(marks) == 2 * K, "a curve and two sets of points per category")
        for c in range(K):
            for t, src, nm in ((marks[2 * c], O, "Data"), (marks[2 * c + 1], M, "Model")):
                ctx.prove(t.name == nm, f"category {c}: {nm} is named")
                for g in range(groups):
                    ctx.eq(t.x[g], mid[g], f"category {c}, group {g}: placed at the group's mean ability", tol=1e-4)
                    ctx.eq(t.y[g], src[g, item - 1, c], f"category {c}, group {g}: {nm} proportion", tol=1e-4)
    return f


add("group fit/one", groupfit(1))
add("group fit/two", groupfit(2))
add("group fit/scale", groupfit(2, scale=shifted))


def by_score(skipped=False, train=0):
    """the likelihood against the expected sum score"""
    def f(ctx):
        m = ctx.build(C1.build)
        m.eval()
        ctx.symbolize(m, "p", -2, 2, ranges={"weight_param": (0.25, 2)})
        tr = trained(ctx, m, train, 1)
        data = [1, None if skipped else 0]
        pts = grid(ctx, C1, (0,), 3, None, tr, None)
        fig = m.plot.log_likelihood(torch.tensor([[float("nan") if v is None else float(v) for v in data]]), steps=3, expected_sum_score=True)
        t = [t for t in traces(fig) if t.kind == "scatter"][0]
        y = values(ctx, m, C1, "likelihood", pts, 0, None, data, None, 3)[0]
        x = values(ctx, m, C1, "score", pts, 0, None, None, None, 3)[0]
        ctx.prove(len(t.x) == len(t.y) == 3, "every ability of the grid is shown")
        for k in range(3):
            ctx.eq(t.x[k], x[k], f"point {k}: expected score", tol=1e-4)
            ctx.eq(t.y[k], y[k], f"point {k}: log-likelihood", tol=1e-4)
    return f


add("likelihood/by score", by_score())
add("likelihood/by score/skipped", by_score(True))
add("likelihood/by score/trained", by_score(train=2), tier="thorough")


def observed(build, data, score):
    """the line and label of the observed sum score: correct responses for multiple choice models, observed responses only"""
    def f(ctx):
        m = ctx.build(build)
        m.eval()
        ctx.symbolize(m, "p", -2, 2, ranges={"weight_param": (0.25, 1)})
        fig = m.plot.log_likelihood(torch.tensor([data]), steps=2, expected_sum_score=True)
        ctx.prove(len(fig.layout.shapes) == 1 and len(fig.layout.annotations) == 1, "one line, one label")
        ctx.eq(fig.layout.shapes[0].x0, score, "position of the line", tol=1e-5)
        ctx.eq(fig.layout.shapes[0].x1, score, "end of the line", tol=1e-5)
        ctx.eq(fig.layout.annotations[0].x, score, "position of the label", tol=1e-5)
        ctx.prove(float(fig.layout.annotations[0].text.split(":")[1]) == score, "text of the label")
    return f


NAN = float("nan")
add("observed/2PL", observed(C1.build, [1.0, 1.0], 2))
add("observed/2PL/skipped", observed(C1.build, [NAN, 1.0], 1))
add("observed/2PL/-1", observed(C1.build, [-1.0, 1.0], 1))
add("observed/NR-mc", observed(lambda: NominalResponse(item_categories=[3, 2], mc_correct=[1, 0]), [2.0, 0.0], 1))
add("observed/NR-mc/skipped", observed(lambda: NominalResponse(item_categories=[3, 2], mc_correct=[1, 0]), [1.0, NAN], 1))
add("observed/Nest", observed(ZOO["Nest"].build, [1.0, 0.0], 2))


# ------------------------------------------------------------ scale transformations, distributions, relationships, history
def scales(d, shown, train, fixed=False, rng=None, scale=shifted):
    cfg = {1: C1, 2: D2, 3: D3}[d]

    def f(ctx):
        m = ctx.build(cfg.build)
        tr = trained(ctx, m, train, d)
        s, fwd = scale(ctx, d)
        m.add_scale_transformation(s)
        fx = [ctx.real(f"fx{k}", -2, 2) for k in range(d - 1)] if fixed else None
        fig = m.plot.scale_transformations(shown + 1, steps=3, input_theta_range=rng, fixed_thetas=None if fx is None else ctx.tensor(np.array(fx, dtype=object)))
        pts = grid(ctx, cfg, (shown,), 3, rng, tr, fx)
        tz = traces(fig)
        ctx.prove(len(tz) == d, "one curve per transformed latent variable")
        for i, t in enumerate(tz):
            for k in range(3):
                ctx.eq(t.x[k], pts[k][shown], f"curve {i}, point {k}: original ability", tol=1e-4)
                ctx.eq(t.y[k], fwd(pts[k])[i], f"curve {i}, point {k}: transformed ability", tol=1e-4)
    return f


add("scales/one", scales(1, 0, 0))
add("scales/one/trained", scales(1, 0, 3))
add("scales/two", scales(2, 1, 2))
add("scales/two/fixed", scales(2, 0, 0, True, (-1.0, 1.0)))
add("scales/three", scales(3, 1, 2))
add("scales/one way", scales(2, 1, 2, scale=oneway))


def distribution(given, shown=1, scale=None, rescale=True):
    def f(ctx):
        m = ctx.build(D2.build)
        trained(ctx, m, 0, 2)
        th, xs = ctx.theta(3, 2, -2, 2, "s")
        calls = []

        def scores(data=None, **k):
            calls.append((data, k))
            return th
        if given:
            m.latent_scores = None
            fig = m.plot.latent_score_distribution(scores_to_plot=th, latent_variables=(shown + 1,))
        else:
            data = torch.tensor([[0.0, 2.0], [1.0, 1.0], [1.0, 0.0]])
            m.latent_scores = scores
            if given is None:
                m.algorithm.train_data = data
            fig = m.plot.latent_score_distribution(population_data=None if given is None else data, latent_variables=(shown + 1,), rescale=rescale, theta_estimation="EAP")
            (got, k), = calls
            ctx.prove(got.shape == data.shape and bool((got == data).all()), "scores of the given (or training) responses")
            ctx.prove(k.get("rescale", True) is rescale and k.get("theta_estimation") == "EAP", "the requested estimator and scale are used")
        for t in traces(fig):
            ctx.prove(len(t.x) == 3, "one value per respondent")
            for r in range(3):
                ctx.eq(t.x[r], xs[r][shown], f"{t.kind}: ability of respondent {r} on the requested latent variable", tol=1e-4)
    return f


add("distribution/given", distribution(True))
add("distribution/given/first", distribution(True, 0))
add("distribution/data", distribution(False))
add("distribution/data/original", distribution(False, 0, rescale=False))
add("distribution/training data", distribution(None))


def contour(order):
    """two latent variables: the cells counted by NumPy are drawn at their centres, on the right axes"""
    def f(ctx):
        m = ctx.build(D2.build)
        th, xs = ctx.theta(3, 2, -2, 2, "s")
        Z = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]]
        ex, ey = [0.0, 1.0, 4.0, 6.0], [10.0, 12.0, 13.0, 20.0]
        calls = []

        def histogram2d(x, y, bins=10, *more, **k):
            calls.append((list(x), list(y), dict(bins=bins)))
            return np.array(Z), np.array(ex), np.array(ey)
        with mock.patch.object(np, "histogram2d", histogram2d):
            fig = m.plot.latent_score_distribution(scores_to_plot=th, latent_variables=tuple(o + 1 for o in order), contour_plot_bins=3)
        (a, b, k), = calls
        for r in range(3):
            ctx.eq(a[r], xs[r][order[0]], f"respondent {r} is counted at its first requested latent variable", tol=1e-4)
            ctx.eq(b[r], xs[r][order[1]], f"respondent {r} is counted at its second requested latent variable", tol=1e-4)
        ctx.prove(len(a) == 3 and len(b) == 3, "every respondent is counted once")
        ctx.prove(k.get("bins") == 3, "the requested number of bins")
        t, = traces(fig)
        ctx.eqs(list(t.x), [(p + q) / 2 for p, q in zip(ex, ex[1:])], "first axis: cell centres")
        ctx.eqs(list(t.y), [(p + q) / 2 for p, q in zip(ey, ey[1:])], "second axis: cell centres")
        for i in range(3):
            for j in range(3):
                ctx.eq(float(np.asarray(t.z)[j][i]), Z[i][j], f"cell {i}, {j} is drawn where it was counted")
    return f


add("distribution/two", contour((0, 1)))
add("distribution/two/swapped", contour((1, 0)))


def relations(given):
    def f(ctx):
        m = D2.model(ctx)
        trained(ctx, m, 0, 2)
        th, _ = ctx.theta(2, 2, -2, 2, "s")
        if given == "relationships":
            R = ctx.reals("r", (2, 2), -2, 2)
            fig = m.plot.item_latent_variable_relationships(relationships=ctx.tensor(R))
        else:
            if given == "trained":
                m.algorithm.training_theta_scores = th
                fig = m.plot.item_latent_variable_relationships()
            else:
                m.algorithm.training_theta_scores = torch.zeros(3, 2)
                fig = m.plot.item_latent_variable_relationships(theta=th)
            G = ctx.vals(m.expected_item_score_gradients(th))
            R = (G[0] + G[1]) / 2
        t, = traces(fig)
        ctx.prove(t.z.shape == (2, 2) and list(t.x) == ["1", "2"] and list(t.y) == ["Item 1", "Item 2"], "items by latent variables")
        for i, d in np.ndindex(2, 2):
            ctx.eq(t.z[i, d], R[i, d], f"item {i}, latent variable {d}", tol=1e-4)
    return f


for g in ("relationships", "trained", "theta"):
    add(f"relationships/{g}", relations(g))


def history(kinds):
    def f(ctx):
        m = ctx.build(C1.build)
        trained(ctx, m, 0, 1)
        want = {}
        for k, n in kinds.items():
            want[k] = [ctx.real(f"{k}{j}", 0, 50) for j in range(n)]
            m.algorithm.training_history[k] = list(want[k])
        fig = m.plot.training_history()
        names = {"train_loss": "Training", "validation_loss": "Validation"}
        tz = {t.name: t for t in traces(fig)}
        ctx.prove(sorted(tz) == sorted(names[k] for k, v in want.items() if v), "one curve per recorded loss")
        for k, v in want.items():
            if v:
                t = tz[names[k]]
                ctx.prove(list(t.x) == list(range(1, len(v) + 1)), f"{k}: numbered from one")
                for j, y in enumerate(v):
                    ctx.eq(t.y[j], y, f"{k}: loss {j}", tol=1e-4)
    return f


add("history/training", history(dict(train_loss=3)))
add("history/both", history(dict(train_loss=3, validation_loss=2)))
add("history/empty validation", history(dict(train_loss=2, validation_loss=0)))
