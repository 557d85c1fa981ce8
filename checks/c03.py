"""Log-likelihood of response data = sum of log response probabilities over the observed responses."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import (ModelMix, ThreeParameterLogistic, GradedResponse, MonotonePolynomial, NestedLogit, TwoParameterLogistic,
                            MonotoneBSpline, GeneralizedPartialCredit, SurprisalSpline, MonotoneNN)
from .common import ZOO, Cfg, zoo, mix_order

MIX = {}
_g = Cfg("g", None, 1, [3])
MIX["Mix-3PL"] = Cfg("Mix-3PL", lambda: ModelMix([ThreeParameterLogistic(items=2), GradedResponse(item_categories=[3])]), 1, [2, 2, 3],
                     kind="mix", order=mix_order(1, _g))
MIX["Mix-Nest"] = Cfg("Mix-Nest", lambda: ModelMix([MonotonePolynomial(item_categories=[3]), NestedLogit(
    mc_correct=[1], correct_response_model=TwoParameterLogistic(items=1), item_categories=[3])]), 1, [3, 3], kind="mix")
MIX["Mix-BSp"] = Cfg("Mix-BSp", lambda: ModelMix([MonotoneBSpline(item_categories=[2], knots=[0.0], degree=1),
                                                  GeneralizedPartialCredit(item_categories=[4])]), 1, [2, 4], kind="mix")


def chosen(ctx, row, d, K):
    """row[d] for an integer d in 0..K-1"""
    r = row[K - 1]
    for k in range(K - 2, -1, -1):
        r = ctx.ite(d == k, row[k], r)
    return r


def loglik(cfg, n, miss, reduction, mask_none=False):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        d = ctx.ints("x", (n, cfg.items), 0, [k - 1 for k in cfg.cats])
        if cfg.heavy:       # one path per response pattern keeps the formulas small
            for ix in np.ndindex(*d.shape):
                d[ix] = ctx.concretize(d[ix])
        if miss:
            w = np.empty((n, cfg.items), dtype=object)
            v = d.copy()
            for ix in np.ndindex(n, cfg.items):
                w[ix] = ctx.bool(f"m_{ix[0]}_{ix[1]}")
                v[ix] = ctx.missing(w[ix], d[ix])
            mask = ctx.tensor(w, torch.bool)
        else:
            v, w, mask = d, None, None
        P = ctx.vals(m.item_probabilities(th))
        r = m.log_likelihood(ctx.tensor(v), m(th), mask, loss_reduction=reduction)
        logs = np.empty((n, cfg.items), dtype=object)
        for a in range(n):
            for i in range(cfg.items):
                # log p per category (the integer code selects it)
                K = cfg.cats[i]
                logs[a, i] = chosen(ctx, [ctx.log(P[a, i, k]) for k in range(K)], d[a, i], K)
        if reduction == "sum":
            tot = 0
            for ix in np.ndindex(n, cfg.items):
                tot = tot + (ctx.ite(w[ix], 0, logs[ix]) if miss else logs[ix])
            ctx.eq(ctx.vals(r)[()], tot, "summed log-likelihood", tol=1e-3)
        else:
            ctx.shape(r, (n * cfg.items,), "unreduced log-likelihood")
            rv = ctx.vals(r).reshape(n, cfg.items)
            for ix in np.ndindex(n, cfg.items):
                if miss:
                    ctx.prove(ctx.or_(ctx.not_(w[ix]), ctx.isnan(rv[ix])), f"missing response {list(ix)} contributes nothing")
                    ctx.eq(ctx.ite(w[ix], 0, rv[ix]), ctx.ite(w[ix], 0, logs[ix]), f"log-likelihood of response {list(ix)}")
                else:
                    ctx.eq(rv[ix], logs[ix], f"log-likelihood of response {list(ix)}", tol=1e-3)
    return f


for c in list(ZOO.values()) + list(MIX.values()):
    add(f"sum/{c.name}", loglik(c, 1, False, "sum"))
    if c.kind != "mix":
        add(f"none/{c.name}", loglik(c, 1, False, "none"))
for n in ("2PL", "3PL", "GPC", "GRM-2d", "NR", "Nest", "Surp", "BSp", "Poly", "NN-unb", "Mix"):
    c = ZOO[n]
    add(f"missing_sum/{n}", loglik(c, 1 if c.items > 2 or c.heavy else 2, True, "sum"))
    if c.kind != "mix":
        add(f"missing_none/{n}", loglik(c, 1 if c.items > 2 or c.heavy else 2, True, "none"))
add("missing_sum/Mix-Nest", loglik(MIX["Mix-Nest"], 2, True, "sum"))
# respondent-by-item layout of a mix's unreduced log-likelihood
add("none_rows/Mix", loglik(ZOO["Mix"], 2, False, "none"))


def far(cfg, side):
    """abilities far out, where probabilities leave the range of single precision but their logs do not"""
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, lo=min(side * 60, side * 600), hi=max(side * 60, side * 600))
        d = ctx.ints("x", (1, cfg.items), 0, [k - 1 for k in cfg.cats])
        for ix in np.ndindex(*d.shape):
            d[ix] = ctx.concretize(d[ix])
        r = m.log_likelihood(ctx.tensor(d), m(th), None, loss_reduction="none")
        rv = ctx.vals(r).reshape(cfg.items)
        for i in range(cfg.items):
            ctx.finite(rv[i], f"log-likelihood of the response to item {i}")
    return f


# families whose log-likelihood is computed from logits
for n in ("1PL", "2PL", "2PL-2d", "GPC", "GPC-2d", "NR", "NR-2d", "Poly", "BSp", "Surp", "NN-unb"):
    for s in (1, -1):
        add(f"far/{n}/{'+-'[s < 0]}", far(ZOO[n], s), float_range=True)
