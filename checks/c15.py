"""Grouped fit: respondents are ordered by ability, cut into groups and compared with the model group by group."""
import itertools
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, ModelMix
from .calls import unscored
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal, responses, pick, mean_of
from .scales import affine

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
TWOD = Cfg("2PL-2d", lambda: TwoParameterLogistic(items=1, latent_variables=2), 2, [2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[0, 2]), 1, [2, 3], ref=ref_nominal, mc=[0, 2])


def order_of(ctx, vals, sep=0.125):
    """the respondents in ascending order of vals (one path per order; near-ties left out)"""
    n = len(vals)
    perms = list(itertools.permutations(range(n)))
    for p in perms[:-1]:
        if ctx.branch(ctx.and_(*[vals[a] + sep <= vals[b] for a, b in zip(p, p[1:])])):
            return list(p)
    ctx.assume(ctx.and_(*[vals[a] + sep <= vals[b] for a, b in zip(perms[-1], perms[-1][1:])]))
    return list(perms[-1])


def sizes(n, groups):
    return [n // groups + (g < n % groups) for g in range(groups)]


def cut(order, groups):
    out, k = [], 0
    for s in sizes(len(order), groups):
        out.append(order[k:k + s])
        k += s
    return out


def case(ctx, cfg, n, groups, miss, latent, scale):
    m = cfg.model(ctx)
    th, x = cfg.th(ctx, n)
    data, d, w = responses(ctx, cfg, n, miss)
    if scale is not None:
        scale(ctx, m)
        z = ctx.vals(m.transform_theta(th))
    else:
        z = x
    order = order_of(ctx, [z[r, latent - 1] for r in range(n)])
    return m, th, z, data, d, w, cut(order, groups)


def probabilities(cfg, n, groups, miss=None, latent=1, scale=None, rescale=True):
    def f(ctx):
        m, th, z, data, d, w, gs = case(ctx, cfg, n, groups, miss, latent, scale)
        D, P, mid = m.evaluate.latent_group_probabilities(data=data, theta=th, latent_variable=latent, groups=groups, rescale=rescale)
        D, P, mid = ctx.vals(D), ctx.vals(P), ctx.vals(mid)
        pr = ctx.vals(m.item_probabilities(th))
        ctx.prove(D.shape == (groups, cfg.items, cfg.maxcat) and P.shape == D.shape and mid.shape == (groups,), "one row per group")
        for g, rows in enumerate(gs):
            ctx.eq(mid[g], mean_of(ctx, [z[r, latent - 1] for r in rows]), f"mid point of group {g}")
            for i in range(cfg.items):
                obs = [r for r in rows if not w[r, i]]
                for k in range(cfg.maxcat):
                    ctx.eq(P[g, i, k], mean_of(ctx, [pr[r, i, k] for r in rows]), f"model probability of category {k} of item {i} in group {g}")
                    if obs:
                        ctx.eq(D[g, i, k], mean_of(ctx, [ctx.ite(d[r, i] == k, 1, 0) for r in obs]), f"observed share of category {k} of item {i} in group {g}")
    return f


def residuals(cfg, n, groups, standardize, miss=None, latent=1, scale=None, default=False):
    def f(ctx):
        m, th, z, data, d, w, gs = case(ctx, cfg, n, groups, miss, latent, scale)
        if default:
            m.algorithm = type("Fitted", (), {"train_data": data})()
        R, mid = m.evaluate.group_fit_residuals(data=None if default else data, theta=th, latent_variable=latent, groups=groups, standardize=standardize)
        R, mid = ctx.vals(R), ctx.vals(mid)
        pr = ctx.vals(m.item_probabilities(th))
        for g, rows in enumerate(gs):
            ctx.eq(mid[g], mean_of(ctx, [z[r, latent - 1] for r in rows]), f"mid point of group {g}")
            for i in range(cfg.items):
                obs = [r for r in rows if not w[r, i]]
                if not obs:
                    continue
                for k in range(cfg.cats[i]):
                    p = mean_of(ctx, [pr[r, i, k] for r in rows])
                    raw = mean_of(ctx, [ctx.ite(d[r, i] == k, 1, 0) for r in obs]) - p
                    if standardize:
                        ctx.eq(R[g, i, k], raw / ctx.sqrt(p * (1 - p) / len(rows)), f"standardized residual of category {k} of item {i} in group {g}", tol=5e-3)
                    else:
                        ctx.eq(R[g, i, k], raw, f"residual of category {k} of item {i} in group {g}")
                for k in range(cfg.cats[i], cfg.maxcat):
                    ctx.prove(ctx.isnan(R[g, i, k]), f"category {k} item {i} does not have has no residual")
    return f


def loglik(cfg, n, groups, miss=None, latent=1):
    def f(ctx):
        m, th, z, data, d, w, gs = case(ctx, cfg, n, groups, miss, latent, None)
        L = ctx.vals(m.evaluate.group_fit_log_likelihood(data=data, theta=th, latent_variable=latent, groups=groups))
        pr = ctx.vals(m.item_probabilities(th))
        ctx.prove(L.shape == (groups,), "one value per group")
        for g, rows in enumerate(gs):
            tot = ctx.sum([ctx.log(pick(ctx, pr[r, i], d[r, i], cfg.cats[i])) for r in rows for i in range(cfg.items) if not w[r, i]])
            ctx.eq(L[g], tot / len(rows), f"average log-likelihood of group {g}")
    return f


add("probabilities/2PL", probabilities(TWO, 2, 2))
add("probabilities/2PL-one-group", probabilities(TWO, 2, 1))
add("probabilities/2PL-uneven", probabilities(Cfg("one", lambda: TwoParameterLogistic(items=1), 1, [2]), 3, 2))
add("probabilities/2PL-nan", probabilities(Cfg("one", lambda: TwoParameterLogistic(items=1), 1, [2]), 3, 2, "nan"))
add("probabilities/2PL--1", probabilities(Cfg("one", lambda: TwoParameterLogistic(items=1), 1, [2]), 3, 2, "-1"))
add("probabilities/GPC", probabilities(GPC, 2, 2))
add("probabilities/NR-mc", probabilities(NR, 2, 2))
add("probabilities/second", probabilities(TWOD, 2, 2, latent=2))
add("probabilities/scale", probabilities(TWOD, 2, 2, latent=2, scale=lambda ctx, m: m.add_scale_transformation(affine(ctx, "A"))))
add("residuals/2PL", residuals(TWO, 2, 2, False))
add("residuals/GPC-nan", residuals(Cfg("one3", lambda: GeneralizedPartialCredit(item_categories=[3]), 1, [3]), 2, 2, False, "nan"))
add("residuals/GPC", residuals(GPC, 2, 1, False))
add("standardized/2PL", residuals(TWO, 2, 2, True))
add("standardized/uneven", residuals(Cfg("one", lambda: TwoParameterLogistic(items=1), 1, [2]), 3, 2, True))
add("standardized/default", residuals(TWO, 2, 1, True, default=True))
add("loglik/2PL", loglik(TWO, 2, 2))
add("loglik/2PL-nan", loglik(TWO, 2, 2, "nan"))
add("loglik/uneven--1", loglik(Cfg("one", lambda: TwoParameterLogistic(items=1), 1, [2]), 3, 2, "-1"))
add("loglik/second", loglik(TWOD, 2, 2, latent=2))
add("loglik/GPC", loglik(GPC, 2, 1))

# abilities estimated by the model
add("unscored/probabilities", unscored(lambda m, d, t: list(m.evaluate.latent_group_probabilities(data=d, theta=t, groups=2))))
add("unscored/residuals", unscored(lambda m, d, t: list(m.evaluate.group_fit_residuals(data=d, theta=t, groups=1))))
add("unscored/log_likelihood", unscored(lambda m, d, t: [m.evaluate.group_fit_log_likelihood(data=d, theta=t, groups=2)]))
