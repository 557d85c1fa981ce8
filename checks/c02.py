"""Response probabilities equal the documented model formulas, evaluated at the model's parameters and at
the parameters it reports."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import NestedLogit, ThreeParameterLogistic, TwoParameterLogistic, NominalResponse, ModelMix, GeneralizedPartialCredit
from irtorch.torch_modules import MonotonePolynomialModule
from .common import ZOO, Cfg, B, REL2b, dot, pad, softplus, weights_of, biases_of, ref_2pl, ref_3pl, ref_nominal, ref_gpc


def probs(cfg, n=1):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        p = m.item_probabilities(th)
        ctx.shape(p, (n, cfg.items, cfg.maxcat), "item_probabilities")
        for r in range(n):
            ctx.eqs(ctx.vals(p)[r], np.array(cfg.ref(ctx, m, cfg, list(x[r])), dtype=object), f"P(theta_{r})", tol=1e-4)
    return f


for c in list(ZOO.values()):
    if c.ref is not None:
        add(f"formula/{c.name}", probs(c))
add("formula/2PL-2d/rows", probs(ZOO["2PL-2d"], 2))
add("formula/GPC-2d/rows", probs(ZOO["GPC-2d"], 2))


# ---- the formula at the *reported* parameters
def reported(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        x = list(x[0])
        P = ctx.vals(m.item_probabilities(th))[0]
        df = m.item_parameters()
        col = {c: ctx.vals(df[c].to_numpy()) for c in df.columns}
        ctx.prove(df.shape[0] == cfg.items, "one row of parameters per item")
        for i in range(cfg.items):
            K = cfg.cats[i]
            if cfg.kind == "nr":
                a = [[col[f"a{d+1}{k+1}"][i] for d in range(cfg.latent)] for k in range(K)]
                d = [col[f"d{k+1}"][i] for k in range(K)]
                ref = ctx.softmax([dot(a[k], x) + d[k] for k in range(K)])
                ctx.eq(ctx.sum(d), 0, f"reported d sum to zero[{i}]")
                for l in range(cfg.latent):
                    ctx.eq(ctx.sum([a[k][l] for k in range(K)]), 0, f"reported a sum to zero[{i},{l}]")
            elif cfg.kind == "1pl":
                s = ctx.sigmoid(x[0] + col["d"][i])
                ref = [1 - s, s]
            else:
                a = [col[f"a{l+1}"][i] for l in range(cfg.latent)]
                s = dot(a, x)
                if cfg.kind in ("2pl", "3pl"):
                    p = ctx.sigmoid(s + col["d"][i])
                    if cfg.kind == "3pl":
                        p = col["c"][i] + (1 - col["c"][i]) * p
                    ref = [1 - p, p]
                elif cfg.kind == "gpc":
                    d = [col[f"d{k+1}"][i] for k in range(K)]
                    ctx.eq(d[0], 0, f"first category intercept is the reference[{i}]")
                    ref = ctx.softmax([k * s + d[k] for k in range(K)])
                elif cfg.kind == "grm":
                    g = [1] + [ctx.sigmoid(s + col[f"d{k}"][i]) for k in range(1, K)] + [0]
                    ref = [g[k] - g[k + 1] for k in range(K)]
            ctx.eqs(P[i], np.array(pad(ref, cfg.maxcat), dtype=object), f"P at reported parameters[{i}]", tol=1e-4)
    return f


for c in list(ZOO.values()):
    if c.kind in ("1pl", "2pl", "3pl", "gpc", "grm", "nr"):
        add(f"reported/{c.name}", reported(c))


# ---- traditional parametrisation (unidimensional): difficulties
def irt_format(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        x = x[0][0]
        for w in ctx.param(m, "weight_param"):
            ctx.assume(ctx.or_(w >= 0.125, w <= -0.125))
        P = ctx.vals(m.item_probabilities(th))[0]
        df = m.item_parameters(irt_format=True)
        col = {c: ctx.vals(df[c].to_numpy()) for c in df.columns}
        for i in range(cfg.items):
            K = cfg.cats[i]
            a = col["a1"][i]
            if cfg.kind in ("2pl", "3pl"):
                p = ctx.sigmoid(a * (x - col["b"][i]))
                if cfg.kind == "3pl":
                    p = col["c"][i] + (1 - col["c"][i]) * p
                ref = [1 - p, p]
            elif cfg.kind == "grm":
                g = [1] + [ctx.sigmoid(a * (x - col[f"b{k}"][i])) for k in range(1, K)] + [0]
                ref = [g[k] - g[k + 1] for k in range(K)]
            else:
                z = [0]
                for k in range(1, K):
                    z.append(z[-1] + a * (x - col[f"b{k}"][i]))
                ref = ctx.softmax(z)
            ctx.eqs(P[i], np.array(pad(ref, cfg.maxcat), dtype=object), f"P at difficulties[{i}]", tol=1e-4)
    return f


for n in ("2PL", "3PL", "GRM", "GPC"):
    add(f"irt_format/{n}", irt_format(ZOO[n]))


# ---- nested logit, mixes
def nested(cfg, sub, subref, incat, rel):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        x = list(x[0])
        P = ctx.vals(m.item_probabilities(th))[0]
        C = subref(ctx, m.correct_response_model, sub, x)
        inc = Cfg("inc", None, cfg.latent, incat, rel=rel)
        I = ref_nominal(ctx, m.nominal_response_model, inc, x)
        for i in range(cfg.items):
            ref, j = [], 0
            for k in range(cfg.cats[i]):
                if k == cfg.mc[i]:
                    ref.append(C[i][1])
                else:
                    ref.append(C[i][0] * I[i][j])
                    j += 1
            ctx.eqs(P[i], np.array(pad(ref, cfg.maxcat), dtype=object), f"P nested[{i}]", tol=1e-4)
    return f


add("nested/3PL", nested(ZOO["Nest"], Cfg("s", None, 1, [2, 2]), ref_3pl, [3, 2], None))
add("nested/2PL-2d", nested(ZOO["Nest-2d"], Cfg("s", None, 2, [2, 2]), ref_2pl, [2, 2], REL2b))


def mix(cfg, parts):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        x = list(x[0])
        P = ctx.vals(m.item_probabilities(th))[0]
        ref = []
        for k, (sub, r) in enumerate(parts):
            ref += [pad(row, cfg.maxcat) for row in r(ctx, m.models[k], sub, x)]
        ctx.eqs(P, np.array(ref, dtype=object), "P of the mix", tol=1e-4)
    return f


add("mix/2PL+GPC", mix(ZOO["Mix"], [(Cfg("s", None, 1, [2, 2]), ref_2pl), (Cfg("s", None, 1, [3]), ref_gpc)]))
add("mix/GPC+NR-2d", mix(ZOO["Mix-2d"], [(Cfg("s", None, 2, [4, 2]), ref_gpc), (Cfg("s", None, 2, [3]), ref_nominal)]))


# ---- one function per item: category effects are multiples of it
def per_item(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, 2)
        P = ctx.vals(m.item_probabilities(th))
        for i in range(cfg.items):
            base = ctx.log(P[1, i, 1] / P[1, i, 0]) - ctx.log(P[0, i, 1] / P[0, i, 0])
            for k in range(2, cfg.cats[i]):
                e = ctx.log(P[1, i, k] / P[1, i, 0]) - ctx.log(P[0, i, k] / P[0, i, 0])
                ctx.eq(e, k * base, f"effect of category {k} of item {i} is {k} times the item's function", tol=1e-3)
    return f


for n in ("Poly-items", "NN-items", "BSp", "GPC"):
    add(f"per_item/{n}", per_item(ZOO[n]))


# ---- polynomial coefficients
def poly_coef(ctx):
    m = ctx.build(lambda: MonotonePolynomialModule(3, 1, 1, intercept=True))
    ctx.symbolize(m, "p", -2, 2)
    t, x = ctx.theta(1, 1, -2, 2)
    y = ctx.vals(m(t))[0, 0]
    co, ic = m.get_polynomial_coefficients()
    co, ic = ctx.vals(co), ctx.vals(ic)
    v = ic[0]
    for k in range(co.shape[0]):
        v = v + co[k, 0, 0] * ctx.prod([x[0, 0]] * (k + 1))
    ctx.eq(y, v, "the reported coefficients give the polynomial's value")


add("poly_coefficients", poly_coef)
