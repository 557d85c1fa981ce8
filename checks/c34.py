"""Results follow from the arguments and the current state of the model, not from earlier calls."""
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic
from irtorch.outlier_detector import OutlierDetector
from irtorch.quantile_mv_normal import QuantileMVNormal
from irtorch.irt_dataset import PytorchIRTDataset
from irtorch.rescale import Bit
from irtorch import latent_variable_functions as L
from .calls import DATA, PLAIN, MODELS, flatten, table
from .common import Cfg, ZOO
from . import scales as SC

PLAIN = {k: v for k, v in PLAIN.items() if k != "sample_test_data"}
# further operations on responses or abilities alone
PLAIN.update({
    "expected_scores-total": (("GPC",), lambda ctx, m, c, d, t: m.expected_scores(t, return_item_scores=False)),
    "information-total": (("GPC",), lambda ctx, m, c, d, t: m.information(t, item=False)),
})


def attempt(fn, *a):
    try:
        return flatten(fn(*a))
    except (ValueError, RuntimeError) as e:
        return type(e).__name__


def same(ctx, a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        ctx.prove(a == b if type(a) is type(b) else False, f"{what}: refused either way or never")
        return
    ctx.prove(len(a) == len(b), f"{what}: as many results")
    for k, (u, v) in enumerate(zip(a, b)):
        if isinstance(u, (torch.Tensor, np.ndarray)):
            A = ctx.vals(u.detach()) if isinstance(u, torch.Tensor) else np.asarray(u, dtype=object)
            B = ctx.vals(v.detach()) if isinstance(v, torch.Tensor) else np.asarray(v, dtype=object)
            ctx.prove(A.shape == B.shape, f"{what}: result {k} has the same shape")
            for ix in np.ndindex(*A.shape):
                if isinstance(A[ix], str):
                    ctx.prove(A[ix] == B[ix], f"{what}: result {k} {list(ix)}")
                    continue
                if ctx.branch(ctx.isnan(A[ix])):
                    ctx.prove(ctx.isnan(B[ix]), f"{what}: result {k} {list(ix)} is missing as well")
                else:
                    ctx.eq(A[ix], B[ix], f"{what}: result {k} {list(ix)}", tol=1e-4)


def other_rows(cfg, n):
    return torch.tensor([[float((r + 2 * i + 1) % k) for i, k in enumerate(cfg.cats)] for r in range(n)])


def afterwards(cfg, fn, before, n):
    """the operation after other calls, against the operation on a new model"""
    def f(ctx):
        d = ctx.ints("x", (n, cfg.items), 0, [k - 1 for k in cfg.cats])
        for ix in np.ndindex(*d.shape):
            d[ix] = ctx.concretize(d[ix])
        th, x = cfg.th(ctx, n)
        data = ctx.tensor(d)
        m, fresh = cfg.model(ctx), cfg.model(ctx)
        keep = [p.detach().clone() for p in m.parameters()]
        if before == "parameters":                    # the same call while the model had other parameters
            with torch.no_grad():
                for k, p in enumerate(m.parameters()):
                    p.copy_(p * 0.5 + 0.25 * (1 + k % 3))
            attempt(fn, ctx, m, cfg, data.clone(), th.clone())
            attempt(fn, ctx, m, cfg, data, th)
            with torch.no_grad():
                for p, q in zip(m.parameters(), keep):
                    p.copy_(q)
        else:                                         # the same model, other respondents
            k = n if before == "arguments" else n + 1
            d1, t1 = other_rows(cfg, k), torch.linspace(-1.5, 1.25, k * cfg.latent).reshape(k, cfg.latent)
            attempt(fn, ctx, m, cfg, d1, t1)
            if before == "arguments":                 # and the same tensors with other contents
                d1.copy_(data)
                t1.copy_(th)
                data, th = d1, t1
        got = attempt(fn, ctx, m, cfg, data, th)
        want = attempt(fn, ctx, fresh, cfg, ctx.tensor(d), ctx.tensor(x))
        same(ctx, got, want, "after other calls as on a new model")
    return f


def registry():
    for name, (models, fn) in list(DATA.items()) + list(PLAIN.items()):
        yield name, models[0], fn


for name, c, fn in registry():
    for before in ("parameters", "arguments", "size"):
        add(f"{name}/{before}", afterwards(MODELS[c], fn, before, 2 if name in PLAIN else 1), timeout=200)


def families(cfg):
    """probabilities, expected scores, log-likelihood and parameter table of every model family after use with other parameters and other abilities"""
    def f(ctx):
        th, x = cfg.th(ctx)
        m, fresh = cfg.model(ctx), cfg.model(ctx)
        keep = [p.detach().clone() for p in m.parameters()]
        with torch.no_grad():
            for k, p in enumerate(m.parameters()):
                p.copy_(torch.full(p.shape, 0.25 * (1 + k % 3)) + 0.5 * torch.arange(p.numel()).reshape(p.shape))
        d = torch.tensor([[float((2 * i + 1) % k) for i, k in enumerate(cfg.cats)]])
        def use(m, t, n=1):
            r = [m.item_probabilities(t), m.expected_scores(t)]
            if cfg.kind != "mix":
                r.append(m.log_likelihood(d.repeat(n, 1), m(t), loss_reduction="sum"))
            if hasattr(m, "item_parameters"):
                r += table(m.item_parameters())
            return r
        use(m, th.clone())
        use(m, th)
        with torch.no_grad():
            for p, q in zip(m.parameters(), keep):
                p.copy_(q)
        use(m, torch.linspace(-1, 1, 3 * cfg.latent).reshape(3, cfg.latent), 3)
        same(ctx, use(m, th), use(fresh, th), "after other calls")
    return f


for c in ZOO.values():
    add(f"probabilities/{c.name}", families(c))

TWO = MODELS["2PL"]


def rescaled(ctx):
    """other scales attached, used, detached: only the scales attached now count"""
    th, x = TWO.th(ctx, 2)
    m, fresh = TWO.model(ctx), TWO.model(ctx)
    m.add_scale_transformation(SC.affine(ctx, "old", 1))
    use = lambda m: flatten([m.transform_theta(th), m.inverse_transform_theta(th), m.theta_transform_jacobian(th), m.probability_gradients(th),
                             m.information(th), m.expected_item_score_gradients(th), m.population_discrimination(th)])
    use(m)
    m.detach_scale_transformations()
    plain = use(m)
    same(ctx, plain, use(fresh), "detached scales")
    for k in (m, fresh):
        k.add_scale_transformation(SC.affine(ctx, "new", 1))
    same(ctx, use(m), use(fresh), "scales attached now")
    for k in (m, fresh):
        k.add_scale_transformation(SC.affine(ctx, "more", 1))
    same(ctx, use(m), use(fresh), "a scale more")
add("scales", rescaled)


def retrained(how):
    """scoring uses the training abilities (or the population covariance) the model has now"""
    def f(ctx):
        d = ctx.ints("x", (1, 2), 0, 1)
        for ix in np.ndindex(*d.shape):
            d[ix] = ctx.concretize(d[ix])
        data = ctx.tensor(d)
        m, fresh = TWO.model(ctx), TWO.model(ctx)
        A = lambda **k: type("A", (), k)()
        if how == "covariance":
            old, new = A(covariance_matrix=torch.eye(1)), A(covariance_matrix=ctx.tensor([[ctx.real("v", 0.25, 3)]]))
        else:
            t = ctx.reals("train", (2, 1), -2, 2)
            ctx.assume(t[1, 0] - t[0, 0] >= 0.25)
            old, new = A(training_theta_scores=torch.tensor([[-1.0], [1.5], [2.0]])), A(training_theta_scores=ctx.tensor(t))
        use = lambda m: flatten([m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=2, device="cpu")]
                                + ([] if how == "covariance" else [m._initial_theta_from_training_data(data, device="cpu"),
                                                                        m.evaluate.sum_score_probabilities(latent_density_method="data")]))
        m.algorithm = old
        use(m)
        m.algorithm = new
        fresh.algorithm = new
        same(ctx, use(m), use(fresh), f"new {how}")
        m.algorithm = None
        fresh.algorithm = None
        if how == "covariance":
            same(ctx, use(m), use(fresh), "no algorithm any more")
    return f


add("retrained/abilities", retrained("abilities"))
add("retrained/covariance", retrained("covariance"))


def reused(build, use, n=1, d=1, lo=-3, hi=3):
    """one object used with several abilities, against a new object"""
    def f(ctx):
        th, x = ctx.theta(n, d, lo, hi)
        a, b = build(ctx), build(ctx)
        k = torch.linspace(-1.5, 1.25, (n + 1) * d).reshape(n + 1, d)
        attempt(use, a, k)
        k = k[:n].clone()
        attempt(use, a, k)
        k.copy_(th)
        got = attempt(use, a, k)
        same(ctx, got, attempt(use, b, th), "used before or not")
        same(ctx, attempt(use, a, k), got, "once more")
    return f


def bit(positive):
    def build(ctx):
        m = TWO.model(ctx)
        w = ctx.param(m, "weight_param").reshape(-1)
        for v in w:
            ctx.assume(v >= 0.125 if positive else v <= -0.125)
        return Bit(m, start_theta=ctx.tensor([ctx.real("start", -2, 0) * (1 if positive else -1)]), grid_points=2)
    return build


add("bit/+", reused(bit(True), lambda b, t: [b.transform(t), b.jacobian(t)]))
add("bit/-", reused(bit(False), lambda b, t: [b.transform(t), b.jacobian(t)]))
add("flow", reused(lambda ctx: SC.flow(ctx, 1), lambda s, t: [s.transform(t), s.jacobian(t)]))
add("flow/inverse", reused(lambda ctx: SC.flow(ctx, 1), lambda s, t: [s.inverse(t)]))
add("link", reused(lambda ctx: SC.link(ctx, False), lambda s, t: [s.transform(t), s.jacobian(t)]))
add("rotate", reused(lambda ctx: SC.rotate(ctx), lambda s, t: [s.transform(t), s.inverse(t), s.jacobian(t)], d=2))
add("spline", reused(lambda ctx: SC.half_spline(ctx, 1), lambda s, t: [*s(t), *s(t, inverse=True)]))
add("outliers", reused(lambda ctx: OutlierDetector(), lambda o, t: [o.identify_outliers(t), o.is_outlier(t, t), o.smallest_largest_non_outlier(t)], n=3))


def refitted(ctx):
    """a quantile density fitted to other abilities first"""
    x = ctx.reals("t", (3, 1), -2, 2)
    ctx.assume(x[1, 0] - x[0, 0] >= 0.25)
    ctx.assume(x[2, 0] - x[1, 0] >= 0.25)
    th = ctx.tensor(x)
    at = ctx.tensor([[ctx.real("u", -3, 3)]])
    a, b = QuantileMVNormal(), QuantileMVNormal()
    a.fit(torch.tensor([[-2.0], [0.5], [0.75], [3.0]]))
    a.pdf(at)
    a.fit(th)
    b.fit(th)
    same(ctx, [a.pdf(at)], [b.pdf(at)], "density fitted last")
add("quantile density", refitted)
