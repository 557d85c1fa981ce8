"""Models are built for the items, options and relations they are given: a specification from data equals the explicit one,
impossible specifications are refused, every possible one gives a usable model, and resetting restores the starting values of a
newly built model, whatever the parameters were before."""
import itertools
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import (OneParameterLogistic, TwoParameterLogistic, ThreeParameterLogistic, GeneralizedPartialCredit,
                            GradedResponse, NominalResponse, NestedLogit, MonotoneNN, MonotonePolynomial,
                            MonotoneBSpline, SurprisalSpline, ModelMix)
from .common import ZOO, Cfg, responses

ASSUMPTIONS = ["numbers drawn when a model is built or reset are symbolic; comparisons of two models assume the same draws in the same order"]

KN = dict(knots=[0.0], degree=2)
NN = dict(hidden_dim=[2], use_bounded_activation=False)
nested = lambda lv=1, **k: lambda data=None, item_categories=None, **kk: NestedLogit(
    mc_correct=[1, 0], correct_response_model=TwoParameterLogistic(latent_variables=lv, items=2), data=data, item_categories=item_categories,
    latent_variables=lv, **{**k, **kk})
POLY = {
    "GPC": (GeneralizedPartialCredit, {}), "GRM": (GradedResponse, {}), "NR": (NominalResponse, {}), "NN": (MonotoneNN, NN),
    "NN-items": (MonotoneNN, dict(separate="items", **NN)), "Poly": (MonotonePolynomial, {}), "BSp": (MonotoneBSpline, KN),
    "BSp-cat": (MonotoneBSpline, dict(separate="categories", **KN)), "Surp": (SurprisalSpline, KN), "Nest": (nested(), {}),
    "Nest-bsp": (nested(incorrect_response_model="bspline", **KN), {}),
}


def caught(f, kinds=(ValueError, AssertionError, TypeError)):
    try:
        return f(), None
    except kinds as e:
        return None, e


def same_structure(ctx, a, b, what):
    """same items and the same parameters and masks (shapes; values of what is not random)"""
    ctx.prove(list(a.item_categories) == list(b.item_categories) and a.items == b.items and a.latent_variables == b.latent_variables
              and a.max_item_responses == b.max_item_responses, f"{what}: items, categories and latent variables")
    sa, sb = a.state_dict(), b.state_dict()
    ctx.prove(list(sa) == list(sb), f"{what}: the same parameters and masks")
    for k in sa:
        ctx.prove(tuple(sa[k].shape) == tuple(sb[k].shape) and sa[k].dtype == sb[k].dtype, f"{what}: size of {k}")
    for n, t in a.named_buffers():
        ctx.eqs(ctx.vals(t), ctx.vals(dict(b.named_buffers())[n]), f"{what}: {n}")


# ------------------------------------------------------------ from data, missing responses coded either way
def from_data(name, miss, lv):
    cls, kw = POLY[name]

    def f(ctx):
        data, d, w = responses(ctx, Cfg("x", None, 1, [3, 3]), 2, miss, only=[(0, 0), (1, 1)])
        least = 2 if name.startswith("Nest") else 1
        for i in range(2):
            ctx.assume(ctx.or_(*[ctx.and_(not w[r, i], d[r, i] >= least) for r in range(2)]))
        m = cls(data=data, latent_variables=lv, **kw) if not name.startswith("Nest") else cls(data=data, **kw)
        cats = []
        for i in range(2):
            top = 0
            for r in range(2):
                if not w[r, i]:
                    top = ctx.max(top, d[r, i])
            ctx.eq(m.item_categories[i], top + 1, f"item {i} has one category more than its highest observed response", tol=0)
            cats.append(int(m.item_categories[i]))
        same_structure(ctx, m, cls(item_categories=cats, latent_variables=lv, **kw) if not name.startswith("Nest")
                       else cls(item_categories=cats, **kw), "built from data as from its category counts")
    return f


for name in POLY:
    for miss in ("nan", "-1"):
        add(f"from data/{name}/{miss}", from_data(name, miss, 1))
    if not name.startswith("Nest"):
        add(f"from data/{name}/2d", from_data(name, "nan", 2))


def from_binary(cls, lv):
    def f(ctx):
        data, d, w = responses(ctx, Cfg("x", None, 1, [2, 2, 2]), 2, "nan", fork=False)
        k = {} if cls is OneParameterLogistic else dict(latent_variables=lv)
        m = cls(data=data, **k)
        ctx.prove(list(m.item_categories) == [2, 2, 2], "binary items whatever was answered")
        same_structure(ctx, m, cls(items=3, **k), "built from data as from the number of items")
    return f


for cls, lv in ((OneParameterLogistic, 1), (TwoParameterLogistic, 1), (TwoParameterLogistic, 2), (ThreeParameterLogistic, 1), (ThreeParameterLogistic, 3)):
    add(f"from data/{cls.__name__}/{lv}", from_binary(cls, lv))


# ------------------------------------------------------------ relations
REL = {
    "2PL": (lambda r, lv: TwoParameterLogistic(latent_variables=lv, items=2, item_theta_relationships=r), lambda n, cats: n),
    "3PL": (lambda r, lv: ThreeParameterLogistic(latent_variables=lv, items=2, item_theta_relationships=r), lambda n, cats: n),
    "GPC": (lambda r, lv: GeneralizedPartialCredit(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r), None),
    "GRM": (lambda r, lv: GradedResponse(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r), None),
    "NR": (lambda r, lv: NominalResponse(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r), None),
    "NN": (lambda r, lv: MonotoneNN(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r, **NN), None),
    "NN-items": (lambda r, lv: MonotoneNN(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r, separate="items", **NN), None),
    "Poly": (lambda r, lv: MonotonePolynomial(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r), None),
    "Surp": (lambda r, lv: SurprisalSpline(latent_variables=lv, item_categories=[3, 2], item_theta_relationships=r, **KN), None),
    "Nest": (lambda r, lv: NestedLogit(mc_correct=[1, 0], correct_response_model=TwoParameterLogistic(latent_variables=lv, items=2, item_theta_relationships=r),
                                       latent_variables=lv, item_categories=[3, 4], item_theta_relationships=r), None),
    "Nest-bsp": (lambda r, lv: NestedLogit(mc_correct=[1, 0], correct_response_model=TwoParameterLogistic(latent_variables=lv, items=2, item_theta_relationships=r),
                                           incorrect_response_model="bspline", latent_variables=lv, item_categories=[3, 4],
                                           item_theta_relationships=r, **KN), None),
}


def relations(name, lv):
    """an arbitrary relation matrix: refused exactly when an item is related to nothing; otherwise the built model depends
    on exactly the related abilities"""
    build = REL[name][0]

    def f(ctx):
        rel = np.empty((2, lv), dtype=object)
        for ix in np.ndindex(2, lv):
            rel[ix] = ctx.branch(ctx.bool(f"rel_{ix[0]}_{ix[1]}"))
        m, err = caught(lambda: build(torch.tensor(rel.astype(bool).tolist()), lv))
        possible = all(any(rel[i]) for i in range(2))
        ctx.prove((err is None) == possible, "an item related to no ability is refused, anything else is accepted")
        if m is None:
            return
        m.eval()
        ctx.symbolize(m, "p", -2, 2)
        base = [ctx.real(f"t{k}", -2, 2) for k in range(lv)]
        p = ctx.vals(m.item_probabilities(ctx.tensor([base])))[0]
        for k in range(lv):
            moved = list(base)
            moved[k] = ctx.real(f"s{k}", -2, 2)
            q = ctx.vals(m.item_probabilities(ctx.tensor([moved])))[0]
            for i in range(2):
                if not rel[i][k]:
                    ctx.eqs(p[i], q[i], f"item {i} unrelated to ability {k}")
                elif rel[i][k] and name in ("2PL", "3PL", "GPC", "GRM"):
                    ctx.possible(ctx.or_(*[ctx.abs(p[i][c] - q[i][c]) > 1e-3 for c in range(2)]), f"item {i} reacts to ability {k}")
    return f


for name in REL:
    add(f"relations/{name}", relations(name, 2))


def bad_relations(ctx):
    for name, (build, _) in REL.items():
        for what, r in (("one row too few", torch.ones(1, 2).bool()), ("one ability too many", torch.ones(2, 3).bool()),
                        ("an item without any ability", torch.tensor([[True, False], [False, False]]))):
            ctx.prove(caught(lambda: build(r, 2))[1] is not None, f"{name}: relations with {what} are refused")
    for cls, kw in list(POLY.values()) + [(c, {}) for c in (OneParameterLogistic, TwoParameterLogistic, ThreeParameterLogistic)]:
        ctx.prove(caught(lambda: cls(**kw))[1] is not None, f"{getattr(cls, '__name__', 'NestedLogit')}: neither data nor items is refused")
    ctx.prove(caught(lambda: ModelMix([TwoParameterLogistic(items=2), TwoParameterLogistic(latent_variables=2, items=2)]))[1] is not None,
              "models with different latent variables are not mixed")
    for bad in ([4, 3], [3, 6, 2]):
        ctx.prove(caught(lambda: MonotoneNN(item_categories=[2, 2], hidden_dim=bad))[1] is not None, f"bounded activations with hidden layers {bad} are refused")
    ctx.prove(caught(lambda: MonotoneNN(item_categories=[2, 2], hidden_dim=[2, 3], use_bounded_activation=False))[1] is not None,
              "unbounded activations with odd hidden layers are refused")


add("refused", bad_relations)


def correct_options(name, build):
    def f(ctx):
        a, b = ctx.int("correct_0", 0, 4), ctx.int("correct_1", 0, 4)
        ca, cb = int(ctx.concretize(a)), int(ctx.concretize(b))
        m, err = caught(lambda: build([ca, cb]))
        ctx.prove(ctx.implies(err is None, ctx.and_(a < 3, b < 4)) if err is None else ctx.or_(a >= 3, b >= 4),
                  "a correct option is accepted exactly when the item has it")
        if m is not None:
            ctx.prove(list(m.mc_correct) == [ca, cb], "the correct options are kept")
    return f


for name, build in (("NR", lambda c: NominalResponse(item_categories=[3, 4], mc_correct=c)), ("NN", lambda c: MonotoneNN(item_categories=[3, 4], mc_correct=c, **NN)),
                    ("Nest", lambda c: NestedLogit(mc_correct=c, correct_response_model=TwoParameterLogistic(items=2), item_categories=[3, 4]))):
    add(f"correct options/{name}", correct_options(name, build))


# ------------------------------------------------------------ starting values
START = {n: ZOO[n] for n in ("1PL", "2PL", "2PL-2d", "3PL", "3PL-2d", "GPC", "GPC-2d", "GRM", "GRM-2d", "NR", "NR-2d", "NR-mc", "Mix", "Mix-3pl")}


def reset(cfg):
    def f(ctx):
        ctx_fresh = cfg.build()
        n = len(ctx.draws("randn")), len(ctx.draws("rand"))
        m = cfg.model(ctx)
        m.reset_parameters()
        a, b = dict(ctx_fresh.named_parameters()), dict(m.named_parameters())
        ctx.prove(list(a) == list(b), "the same parameters")
        for tag, k in zip(("randn", "rand"), n):
            d = ctx.draws(tag)
            ctx.prove(len(d) == 2 * k, "as many random numbers as for a new model")
            for x, y in zip(d[:k], d[k:]):
                ctx.assume(x == y)
        for q in a:
            ctx.prove(tuple(a[q].shape) == tuple(b[q].shape), f"size of {q}")
            ctx.prove(a[q].requires_grad == b[q].requires_grad, f"{q} can be estimated")
            ctx.eqs(ctx.vals(b[q]), ctx.vals(a[q]), f"{q} is reset to its starting value", tol=1e-6)
    return f


def fresh(cfg):
    """whatever the random numbers drawn, a new model gives proper probabilities"""
    def f(ctx):
        m = cfg.build()
        th, x = cfg.th(ctx)
        p = m.item_probabilities(th)
        ctx.shape(p, (1, cfg.items, cfg.maxcat), "item_probabilities")
        v = ctx.vals(p)
        for i in range(cfg.items):
            for c in range(cfg.cats[i]):
                ctx.le(0, v[0, i, c], f"P[{i},{c}] >= 0", tol=1e-6)
            ctx.eq(ctx.sum(list(v[0, i])), 1, f"sum P[{i}]", tol=1e-5)
    return f


for n, c in START.items():
    add(f"reset/{n}", reset(c))
for n, c in ZOO.items():
    if n in ("GRM", "GRM-2d", "NR", "NR-2d", "3PL", "Mix-3pl", "Nest", "GPC-2d"):
        add(f"new model/{n}", fresh(c))
