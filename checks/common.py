"""Model zoo shared by the checks: small configurations of every IRT model with all their
parameters symbolic, plus an independent reference for their response probabilities."""
import math
import numpy as np
import torch
from irtorch.models import (OneParameterLogistic, TwoParameterLogistic, ThreeParameterLogistic, GeneralizedPartialCredit,
                            GradedResponse, NominalResponse, NestedLogit, MonotoneNN, MonotonePolynomial,
                            MonotoneBSpline, SurprisalSpline, ModelMix)

B = lambda rows: torch.tensor(rows, dtype=torch.bool)


class Cfg:
    def __init__(self, name, build, latent, cats, rel=None, ref=None, mc=None, kind="", heavy=False, ranges=None, lo=-2, hi=2,
                 order=None, directions=None, pre=None):
        self.name, self.build, self.latent, self.cats = name, build, latent, list(cats)
        self.rel, self.ref, self.mc, self.kind, self.heavy = rel, ref, mc, kind, heavy
        self.ranges, self.lo, self.hi, self.order, self.pre = ranges or {}, lo, hi, order, pre
        self.items, self.maxcat = len(self.cats), max(self.cats)

    def related(self, i, k):
        return True if self.rel is None else bool(self.rel[i][k])

    def model(self, ctx, only=None):
        """the model with symbolic parameters"""
        m = ctx.build(self.build)
        m.eval()
        ctx.symbolize(m, "p", self.lo, self.hi, ranges=self.ranges)
        if self.order is not None:
            self.order(ctx, m, self)
        return m

    def th(self, ctx, n=1, lo=-2, hi=2, name="th"):
        return ctx.theta(n, self.latent, lo, hi, name)


# ------------------------------------------------------------ parameter layouts (documented order: items, then latent variables)
def weights_of(ctx, m, cfg):
    w = list(ctx.param(m, "weight_param"))
    rows, k = [], 0
    for i in range(cfg.items):
        row = []
        for d in range(cfg.latent):
            if cfg.related(i, d):
                row.append(w[k])
                k += 1
            else:
                row.append(0)
        rows.append(row)
    return rows


def biases_of(ctx, m, cfg):
    b = list(ctx.param(m, "bias_param"))
    rows, k = [], 0
    for i in range(cfg.items):
        rows.append([b[k + c] for c in range(cfg.cats[i] - 1)])
        k += cfg.cats[i] - 1
    return rows


def dot(a, x):
    r = 0
    for p, q in zip(a, x):
        r = r + p * q
    return r


def pad(ps, n):
    return list(ps) + [0] * (n - len(ps))


def ref_1pl(ctx, m, cfg, x):
    b = list(ctx.param(m, "bias_param"))
    out = []
    for i in range(cfg.items):
        p = ctx.sigmoid(x[0] + b[i])
        out.append([1 - p, p])
    return out


def ref_2pl(ctx, m, cfg, x):
    a, b = weights_of(ctx, m, cfg), list(ctx.param(m, "bias_param"))
    out = []
    for i in range(cfg.items):
        p = ctx.sigmoid(dot(a[i], x) + b[i])
        out.append([1 - p, p])
    return out


def ref_3pl(ctx, m, cfg, x):
    a, b, g = weights_of(ctx, m, cfg), list(ctx.param(m, "bias_param")), list(ctx.param(m, "guessing_param"))
    out = []
    for i in range(cfg.items):
        c = ctx.sigmoid(g[i])
        p = c + (1 - c) * ctx.sigmoid(dot(a[i], x) + b[i])
        out.append([1 - p, p])
    return out


def ref_gpc(ctx, m, cfg, x):
    a, b = weights_of(ctx, m, cfg), biases_of(ctx, m, cfg)
    out = []
    for i in range(cfg.items):
        s = dot(a[i], x)
        out.append(pad(ctx.softmax([0] + [k * s + b[i][k - 1] for k in range(1, cfg.cats[i])]), cfg.maxcat))
    return out


def ref_grm(ctx, m, cfg, x):
    a, b = weights_of(ctx, m, cfg), biases_of(ctx, m, cfg)
    out = []
    for i in range(cfg.items):
        s = dot(a[i], x)
        g = [1] + [ctx.sigmoid(s + b[i][k - 1]) for k in range(1, cfg.cats[i])] + [0]
        out.append(pad([g[k] - g[k + 1] for k in range(cfg.cats[i])], cfg.maxcat))
    return out


def ref_nominal_params(ctx, m, cfg):
    w = list(ctx.param(m, "weight_param"))
    b = biases_of(ctx, m, cfg)
    k = 0
    A, D = [], []
    for i in range(cfg.items):
        rows = []
        for c in range(cfg.cats[i] - 1):
            row = []
            for d in range(cfg.latent):
                if cfg.related(i, d):
                    row.append(w[k])
                    k += 1
                else:
                    row.append(0)
            rows.append(row)
        A.append([[-sum((r[d] for r in rows), 0) for d in range(cfg.latent)]] + rows)
        D.append([-sum(b[i], 0)] + b[i])
    return A, D


def ref_nominal(ctx, m, cfg, x):
    A, D = ref_nominal_params(ctx, m, cfg)
    return [pad(ctx.softmax([dot(A[i][c], x) + D[i][c] for c in range(cfg.cats[i])]), cfg.maxcat) for i in range(cfg.items)]


def softplus(ctx, x):
    return ctx.log(1 + ctx.exp(x))


def grm_order(ctx, m, cfg):
    """Samejima's model needs ordered thresholds d_1 >= d_2 >= ..."""
    b = biases_of(ctx, m, cfg)
    for row in b:
        for u, v in zip(row, row[1:]):
            ctx.assume(u >= v + 0.0078125)


def mix_order(idx, sub):
    def f(ctx, m, cfg):
        grm_order(ctx, m.models[idx], sub)
    return f


REL2 = [[True, True], [True, False], [False, True]]
REL2b = [[True, True], [False, True]]

REL3 = [[True, False, True], [False, True, True]]
ZOO = {}


def zoo(name, *a, **k):
    ZOO[name] = Cfg(name, *a, **k)
    return ZOO[name]


zoo("1PL", lambda: OneParameterLogistic(items=3), 1, [2, 2, 2], ref=ref_1pl, kind="1pl")
zoo("2PL", lambda: TwoParameterLogistic(items=3), 1, [2, 2, 2], ref=ref_2pl, kind="2pl")
zoo("2PL-2d", lambda: TwoParameterLogistic(latent_variables=2, items=3, item_theta_relationships=B(REL2)), 2, [2, 2, 2],
    rel=REL2, ref=ref_2pl, kind="2pl")
zoo("3PL", lambda: ThreeParameterLogistic(items=2), 1, [2, 2], ref=ref_3pl, kind="3pl")
zoo("3PL-2d", lambda: ThreeParameterLogistic(latent_variables=2, items=2, item_theta_relationships=B(REL2b)), 2, [2, 2],
    rel=REL2b, ref=ref_3pl, kind="3pl")
zoo("GPC", lambda: GeneralizedPartialCredit(item_categories=[2, 4, 3]), 1, [2, 4, 3], ref=ref_gpc, kind="gpc")
zoo("GPC-2d", lambda: GeneralizedPartialCredit(latent_variables=2, item_categories=[3, 2, 4], item_theta_relationships=B(REL2)), 2,
    [3, 2, 4], rel=REL2, ref=ref_gpc, kind="gpc")
zoo("GPC-3d", lambda: GeneralizedPartialCredit(latent_variables=3, item_categories=[2, 3], item_theta_relationships=B(REL3)), 3, [2, 3],
    rel=REL3, ref=ref_gpc, kind="gpc")
zoo("GRM", lambda: GradedResponse(item_categories=[3, 2, 4]), 1, [3, 2, 4], ref=ref_grm, kind="grm", order=grm_order)
zoo("GRM-2d", lambda: GradedResponse(latent_variables=2, item_categories=[2, 3], item_theta_relationships=B(REL2b)), 2, [2, 3],
    rel=REL2b, ref=ref_grm, kind="grm", order=grm_order)
zoo("NR", lambda: NominalResponse(item_categories=[3, 4, 2]), 1, [3, 4, 2], ref=ref_nominal, kind="nr")
zoo("NR-2d", lambda: NominalResponse(latent_variables=2, item_categories=[3, 2], item_theta_relationships=B(REL2b)), 2, [3, 2],
    rel=REL2b, ref=ref_nominal, kind="nr")
zoo("NR-mc", lambda: NominalResponse(item_categories=[3, 4], mc_correct=[1, 2]), 1, [3, 4], ref=ref_nominal, mc=[1, 2], kind="nr")

# ------------------------------------------------------------ flexible models
zoo("NN", lambda: MonotoneNN(item_categories=[3, 2], hidden_dim=[3]), 1, [3, 2], kind="nn", heavy=True)
zoo("NN-unb", lambda: MonotoneNN(item_categories=[3, 2], hidden_dim=[2], use_bounded_activation=False,
                                 negative_latent_variable_item_relationships=False), 1, [3, 2], kind="nn", heavy=True)
zoo("NN-items", lambda: MonotoneNN(item_categories=[3, 2], hidden_dim=[3], separate="items"), 1, [3, 2], kind="nn", heavy=True)
zoo("NN-2d", lambda: MonotoneNN(latent_variables=2, item_categories=[3, 2], hidden_dim=[2], use_bounded_activation=False,
                                item_theta_relationships=B(REL2b)), 2, [3, 2], rel=REL2b, kind="nn", heavy=True)
zoo("NN-deep", lambda: MonotoneNN(item_categories=[2, 3], hidden_dim=[2, 2], use_bounded_activation=False, separate="items"), 1,
    [2, 3], kind="nn", heavy=True)
zoo("NN-mc", lambda: MonotoneNN(item_categories=[3, 3], hidden_dim=[2], use_bounded_activation=False, mc_correct=[1, 2]), 1,
    [3, 3], kind="nn", mc=[1, 2], heavy=True)
zoo("NN-mc-uneq", lambda: MonotoneNN(item_categories=[4, 3], hidden_dim=[2], use_bounded_activation=False, mc_correct=[0, 2]), 1,
    [4, 3], kind="nn", mc=[0, 2], heavy=True)
zoo("Poly", lambda: MonotonePolynomial(item_categories=[3, 2]), 1, [3, 2], kind="poly")
zoo("Poly-items", lambda: MonotonePolynomial(item_categories=[3, 2], separate="items"), 1, [3, 2], kind="poly")
zoo("Poly-pos", lambda: MonotonePolynomial(item_categories=[2, 3], negative_latent_variable_item_relationships=False), 1, [2, 3],
    kind="poly")
zoo("Poly-5", lambda: MonotonePolynomial(item_categories=[2, 2], degree=5, negative_latent_variable_item_relationships=False), 1,
    [2, 2], kind="poly")
zoo("Poly-2d", lambda: MonotonePolynomial(latent_variables=2, item_categories=[2, 3], item_theta_relationships=B(REL2b)), 2, [2, 3],
    rel=REL2b, kind="poly")
zoo("BSp", lambda: MonotoneBSpline(item_categories=[3, 2], knots=[0.0], degree=2), 1, [3, 2], kind="bspline", heavy=True)
zoo("BSp-cat", lambda: MonotoneBSpline(item_categories=[3, 2], knots=[0.0], degree=2, separate="categories"), 1, [3, 2],
    kind="bspline", heavy=True)
zoo("BSp-2d", lambda: MonotoneBSpline(latent_variables=2, item_categories=[2, 3], knots=[0.0], degree=2), 2, [2, 3],
    kind="bspline", heavy=True)
zoo("BSp-cat-2d", lambda: MonotoneBSpline(latent_variables=2, item_categories=[3, 2], knots=[0.0], degree=1, separate="categories"), 2, [3, 2],
    kind="bspline", heavy=True)
zoo("Surp", lambda: SurprisalSpline(item_categories=[3, 2], knots=[0.0], degree=2), 1, [3, 2], kind="surp", heavy=True)
zoo("Surp-2d", lambda: SurprisalSpline(latent_variables=2, item_categories=[2, 3], knots=[0.0], degree=2,
                                       item_theta_relationships=B(REL2b)), 2, [2, 3], rel=REL2b, kind="surp", heavy=True)
zoo("Nest", lambda: NestedLogit(mc_correct=[1, 0], correct_response_model=ThreeParameterLogistic(items=2), item_categories=[4, 3]), 1,
    [4, 3], mc=[1, 0], kind="nest")
zoo("Nest-2d", lambda: NestedLogit(mc_correct=[2, 0], correct_response_model=TwoParameterLogistic(latent_variables=2, items=2),
                                   latent_variables=2, item_categories=[3, 3], item_theta_relationships=B(REL2b)), 2, [3, 3],
    mc=[2, 0], kind="nest")
zoo("Nest-bsp", lambda: NestedLogit(mc_correct=[1, 0], correct_response_model=TwoParameterLogistic(items=2), item_categories=[4, 3],
                                    incorrect_response_model="bspline", knots=[0.0], degree=2), 1, [4, 3], mc=[1, 0], kind="nest",
    heavy=True)
zoo("Nest-bsp-2d", lambda: NestedLogit(mc_correct=[0, 2], correct_response_model=TwoParameterLogistic(latent_variables=2, items=2,
                                                                                                      item_theta_relationships=B(REL2b)),
                                       item_categories=[3, 4], incorrect_response_model="bspline", knots=[0.0], degree=1, latent_variables=2,
                                       item_theta_relationships=B(REL2b)), 2, [3, 4], rel=REL2b, mc=[0, 2], kind="nest", heavy=True)
zoo("Mix", lambda: ModelMix([TwoParameterLogistic(items=2), GeneralizedPartialCredit(item_categories=[3])]), 1, [2, 2, 3], kind="mix")
zoo("Mix-2d", lambda: ModelMix([GeneralizedPartialCredit(latent_variables=2, item_categories=[4, 2]),
                                NominalResponse(latent_variables=2, item_categories=[3])]), 2, [4, 2, 3], kind="mix")

zoo("Mix-3pl", lambda: ModelMix([ThreeParameterLogistic(items=2), GradedResponse(item_categories=[4]), OneParameterLogistic(items=1)]), 1,
    [2, 2, 4, 2], kind="mix", order=mix_order(1, Cfg("GRM-sub", None, 1, [4])))
zoo("Mix-surp", lambda: ModelMix([SurprisalSpline(item_categories=[2], knots=[0.0], degree=1),
                                  NestedLogit(mc_correct=[1], correct_response_model=TwoParameterLogistic(items=1), item_categories=[3])]), 1,
    [2, 3], kind="mix", heavy=True)

# ------------------------------------------------------------ three latent variables, longer tests
REL3b = [[False, True, True], [True, True, False], [True, False, False]]
zoo("2PL-3d", lambda: TwoParameterLogistic(latent_variables=3, items=3, item_theta_relationships=B(REL3b)), 3, [2, 2, 2], rel=REL3b,
    ref=ref_2pl, kind="2pl")
zoo("3PL-3d", lambda: ThreeParameterLogistic(latent_variables=3, items=2, item_theta_relationships=B(REL3)), 3, [2, 2], rel=REL3,
    ref=ref_3pl, kind="3pl")
zoo("GRM-3d", lambda: GradedResponse(latent_variables=3, item_categories=[3, 2], item_theta_relationships=B(REL3)), 3, [3, 2],
    rel=REL3, ref=ref_grm, kind="grm", order=grm_order)
zoo("NR-3d", lambda: NominalResponse(latent_variables=3, item_categories=[2, 3], item_theta_relationships=B(REL3)), 3, [2, 3],
    rel=REL3, ref=ref_nominal, kind="nr")
zoo("Poly-3d", lambda: MonotonePolynomial(latent_variables=3, item_categories=[3, 2], separate="items", item_theta_relationships=B(REL3)), 3,
    [3, 2], rel=REL3, kind="poly")
zoo("NN-3d", lambda: MonotoneNN(latent_variables=3, item_categories=[2, 2], hidden_dim=[2], use_bounded_activation=False, separate="items",
                                item_theta_relationships=B(REL3)), 3, [2, 2], rel=REL3, kind="nn", heavy=True)
zoo("Surp-3d", lambda: SurprisalSpline(latent_variables=3, item_categories=[2, 3], knots=[0.0], degree=1, item_theta_relationships=B(REL3)), 3,
    [2, 3], rel=REL3, kind="surp", heavy=True)
zoo("GPC-5", lambda: GeneralizedPartialCredit(item_categories=[2, 5, 3, 2, 4]), 1, [2, 5, 3, 2, 4], ref=ref_gpc, kind="gpc")
zoo("NR-5", lambda: NominalResponse(item_categories=[4, 2, 5, 3, 3], mc_correct=[3, 0, 4, 1, 1]), 1, [4, 2, 5, 3, 3], ref=ref_nominal,
    mc=[3, 0, 4, 1, 1], kind="nr")
zoo("GRM-5", lambda: GradedResponse(item_categories=[5, 2, 3, 4]), 1, [5, 2, 3, 4], ref=ref_grm, kind="grm", order=grm_order)


# ------------------------------------------------------------ response data
def responses(ctx, cfg, n, miss=None, fork=True, name="x", only=None):
    """n x items responses (any category); miss: None, "nan" or "-1" codes an arbitrary subset (of the cells listed in only) as missing.
    returns the tensor, the integer responses and the missing flags; fork: one path per missing pattern"""
    d = ctx.ints(name, (n, cfg.items), 0, [k - 1 for k in cfg.cats])
    w = np.empty((n, cfg.items), dtype=object)
    v = np.empty((n, cfg.items), dtype=object)
    for ix in np.ndindex(n, cfg.items):
        if miss is None or only is not None and ix not in only:
            w[ix], v[ix] = False, d[ix]
        else:
            b = ctx.bool(f"{name}_missing_{ix[0]}_{ix[1]}")
            code = math.nan if miss == "nan" else -1
            if fork:
                b = ctx.branch(b)
                v[ix] = code if b else d[ix]
            else:
                v[ix] = ctx.missing(b, d[ix], code)
            w[ix] = b
    return ctx.tensor(v), d, w


def pick(ctx, row, d, K):
    """row[d] for an integer d in 0..K-1"""
    r = row[K - 1]
    for k in range(K - 2, -1, -1):
        r = ctx.ite(d == k, row[k], r)
    return r


def mean_of(ctx, xs):
    return ctx.sum(xs) / len(xs)
