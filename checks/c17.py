"""Imputation keeps observed responses and fills the missing ones as documented."""
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch import _internal_utils as U
from irtorch import utils as X
from irtorch.models import GeneralizedPartialCredit, NominalResponse, TwoParameterLogistic
from .common import Cfg, ref_gpc, ref_nominal, ref_2pl, responses, mean_of

GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 4]), 1, [3, 4], ref=ref_gpc)
GPC2 = Cfg("GPC-2d", lambda: GeneralizedPartialCredit(latent_variables=2, item_categories=[3, 2]), 2, [3, 2], ref=ref_gpc)
TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[3, 4], mc_correct=[1, 3]), 1, [3, 4], ref=ref_nominal, mc=[1, 3])
NR0 = Cfg("NR-mc0", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[0, 0]), 1, [2, 3], ref=ref_nominal, mc=[0, 0])
NR2 = Cfg("NR-mc2", lambda: NominalResponse(item_categories=[4, 2], mc_correct=[2, 1]), 1, [4, 2], ref=ref_nominal, mc=[2, 1])

WHERE = {"internal": U.impute_missing_internal, "utils": X.impute_missing}


def kept(ctx, G, d, w):
    for r, i in np.ndindex(*d.shape):
        if not w[r, i]:
            ctx.eq(G[r, i], d[r, i], f"observed response [{r},{i}] is kept", tol=0)


def zero(where, miss, n):
    def f(ctx):
        data, d, w = responses(ctx, GPC, n, miss)
        G = ctx.vals(WHERE[where](data, "zero"))
        ctx.prove(G.shape == d.shape, "same shape")
        kept(ctx, G, d, w)
        for r, i in np.ndindex(*d.shape):
            if w[r, i]:
                ctx.eq(G[r, i], 0, f"missing response [{r},{i}] is scored zero", tol=0)
    return f


def mean(where, miss, n):
    def f(ctx):
        data, d, w = responses(ctx, GPC, n, miss)
        G = ctx.vals(WHERE[where](data, "mean"))
        ctx.prove(G.shape == d.shape, "same shape")
        kept(ctx, G, d, w)
        for i in range(d.shape[1]):
            o = [d[r, i] for r in range(n) if not w[r, i]]
            for r in range(n):
                if w[r, i] and o:
                    ctx.eq(G[r, i], mean_of(ctx, o), f"missing response [{r},{i}] becomes the mean of the observed responses to that item")
    return f


def incorrect(where, cfg, miss, n, how):
    def f(ctx):
        data, d, w = responses(ctx, cfg, n, miss)
        cats = cfg.cats
        if how == "model":
            m = cfg.model(ctx)
            G = WHERE[where](data, "random incorrect", model=m)
        elif how == "categories":
            G = WHERE[where](data, "random incorrect", mc_correct=list(cfg.mc), item_categories=list(cats))
        else:
            for i in range(cfg.items):
                o = [d[r, i] for r in range(n) if not w[r, i]]
                if not o:
                    return
                ctx.assume(ctx.or_(*[v == cats[i] - 1 for v in o]))
            G = WHERE[where](data, "random incorrect", mc_correct=list(cfg.mc))
        G = ctx.vals(G)
        ctx.prove(G.shape == d.shape, "same shape")
        kept(ctx, G, d, w)
        for r, i in np.ndindex(*d.shape):
            if w[r, i]:
                ok = ctx.or_(*[G[r, i] == k for k in range(cats[i]) if k != cfg.mc[i]])
                ctx.prove(ok, f"missing response [{r},{i}] becomes one of the item's incorrect options")
                for k in range(cats[i]):
                    if k != cfg.mc[i]:
                        ctx.possible(G[r, i] == k, f"incorrect option {k} of item {i} can be imputed for respondent {r}")
    return f


def prior(cfg, miss, n):
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss)
        G = ctx.vals(X.impute_missing(data, "prior expected", model=m))
        P = ctx.vals(m.item_probabilities(torch.zeros(1, cfg.latent)))
        kept(ctx, G, d, w)
        for i in range(cfg.items):
            e = ctx.sum([k * P[0, i, k] for k in range(cfg.cats[i])])
            for r in range(n):
                if w[r, i]:
                    ctx.le(ctx.abs(G[r, i] - e), 0.5, f"missing response [{r},{i}] becomes the expected score at the prior mean, rounded", tol=1e-3)
                    ctx.prove(ctx.or_(*[G[r, i] == k for k in range(cfg.cats[i])]), f"missing response [{r},{i}] becomes a valid score")
    return f


def refuses(ctx):
    """requests that cannot be met are refused rather than answered wrongly"""
    data, d, w = responses(ctx, GPC, 1, "nan")
    two, nr = ctx.build(TWO.build), ctx.build(NR.build)
    bad = {"prior expected needs a model": lambda: X.impute_missing(data, "prior expected"),
           "prior expected is for ordered scores": lambda: X.impute_missing(data, "prior expected", model=nr),
           "random incorrect needs correct options": lambda: X.impute_missing(data, "random incorrect"),
           "random incorrect is for multiple choice": lambda: X.impute_missing(data, "random incorrect", model=two),
           "internal random incorrect needs correct options": lambda: U.impute_missing_internal(data, "random incorrect"),
           "unknown method": lambda: X.impute_missing(data, "median"), "unknown internal method": lambda: U.impute_missing_internal(data, "median")}
    for what, g in bad.items():
        try:
            g()
            ctx.prove(False, what)
        except ValueError:
            ctx.prove(True, what)


for where in WHERE:
    for miss in ("nan", "-1"):
        add(f"zero/{where}/{miss}", zero(where, miss, 2))
        add(f"mean/{where}/{miss}", mean(where, miss, 2))
        add(f"mean-3/{where}/{miss}", mean(where, miss, 3), tier="thorough")
    for c in (NR, NR0, NR2):
        add(f"incorrect/{where}/{c.name}/nan", incorrect(where, c, "nan", 2, "categories"))
        add(f"incorrect/{where}/{c.name}/-1", incorrect(where, c, "-1", 1, "categories"))
    add(f"incorrect-observed/{where}", incorrect(where, NR0, "nan", 2, "observed"))
    add(f"incorrect/{where}/three", incorrect(where, NR0, "nan", 3, "categories"), tier="thorough")
add("incorrect/model/NR-mc", incorrect("utils", NR, "nan", 2, "model"))
for c in (GPC, GPC2, TWO):
    add(f"prior/{c.name}", prior(c, "nan", 1 if c is GPC else 2))
add("refuses", refuses)
