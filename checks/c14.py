"""Fit statistics of the evaluator are the stated functions of the responses and the model's probabilities."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, NestedLogit
from .calls import unscored
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal, responses, pick, mean_of

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NRMC = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[0, 2]), 1, [2, 3], ref=ref_nominal, mc=[0, 2])
NEST = Cfg("Nest", lambda: NestedLogit(mc_correct=[1, 0], correct_response_model=TwoParameterLogistic(items=2), item_categories=[3, 2]), 1, [3, 2],
           mc=[1, 0])

ONE = Cfg("NR1", lambda: NominalResponse(item_categories=[3]), 1, [3], ref=ref_nominal)

ONE2 = Cfg("one", lambda: TwoParameterLogistic(items=1), 1, [2], ref=ref_2pl)


def case(ctx, cfg, n, miss):
    m = cfg.model(ctx)
    th, x = cfg.th(ctx, n)
    data, d, w = responses(ctx, cfg, n, miss)
    P = ctx.vals(m.item_probabilities(th))
    return m, th, data, d, w, P


def score(cfg, i, k):
    return (1 if k == cfg.mc[i] else 0) if cfg.mc else k


def expected(ctx, cfg, P, r, i):
    return ctx.sum([score(cfg, i, k) * P[r, i, k] for k in range(cfg.cats[i])])


def means(ctx, got, table, w, what, tol=1e-3):
    """averages over items / respondents / everything of the observed entries"""
    n, items = table.shape
    obs = lambda cells: [table[c] for c in cells if not w[c]]
    if what == "items":
        rows = [[(r, i) for i in range(items)] for r in range(n)]
    elif what == "respondents":
        rows = [[(r, i) for r in range(n)] for i in range(items)]
    else:
        rows = [[(r, i) for r in range(n) for i in range(items)]]
    g = ctx.vals(got).reshape(-1)
    ctx.prove(len(g) == len(rows), f"one average per {what}")
    for k, cells in enumerate(rows):
        o = obs(cells)
        if o:
            ctx.eq(g[k], mean_of(ctx, o), f"average {what} [{k}] over the observed responses", tol=tol)
        else:
            ctx.prove(ctx.isnan(g[k]), f"no observed response: average {what} [{k}] is missing")


def residuals(cfg, miss, n=2):
    def f(ctx):
        m, th, data, d, w, P = case(ctx, cfg, n, miss)
        R = m.evaluate.residuals(data=data, theta=th)
        ctx.shape(R, (n, cfg.items), "residuals")
        R = ctx.vals(R)
        table = np.empty((n, cfg.items), dtype=object)
        for r, i in np.ndindex(n, cfg.items):
            table[r, i] = 1 - pick(ctx, P[r, i], d[r, i], cfg.cats[i]) if cfg.mc else d[r, i] - expected(ctx, cfg, P, r, i)
            if w[r, i]:
                ctx.prove(ctx.isnan(R[r, i]), f"residual {r},{i} of a missing response is missing")
            else:
                ctx.eq(R[r, i], table[r, i], f"residual {r},{i}")
        for what in ("items", "respondents", "everything"):
            means(ctx, m.evaluate.residuals(data=data, theta=th, average_over=what), table, w, what)
    return f


def loglik(cfg, miss, n=2):
    def f(ctx):
        m, th, data, d, w, P = case(ctx, cfg, n, miss)
        table = np.empty((n, cfg.items), dtype=object)
        for r, i in np.ndindex(n, cfg.items):
            table[r, i] = ctx.log(pick(ctx, P[r, i], d[r, i], cfg.cats[i]))
        L = ctx.vals(m.evaluate.log_likelihood(data=data, theta=th, reduction="none")).reshape(n, cfg.items)
        for ix in np.ndindex(n, cfg.items):
            if w[ix]:
                ctx.prove(ctx.isnan(L[ix]), f"log-likelihood {list(ix)} of a missing response is missing")
            else:
                ctx.eq(L[ix], table[ix], f"log-likelihood {list(ix)}")
        for level, what in (("item", "respondents"), ("respondent", "items"), ("all", "everything")):
            means(ctx, m.evaluate.log_likelihood(data=data, theta=th, reduction="mean", level=level), table, w, what)
            s = ctx.vals(m.evaluate.log_likelihood(data=data, theta=th, reduction="sum", level=level)).reshape(-1)
            tot = {"item": [[(r, i) for r in range(n)] for i in range(cfg.items)], "respondent": [[(r, i) for i in range(cfg.items)] for r in range(n)],
                   "all": [[(r, i) for r in range(n) for i in range(cfg.items)]]}[level]
            ctx.prove(len(s) == len(tot), f"one sum per {level}")
            for k, cells in enumerate(tot):
                ctx.eq(s[k], ctx.sum([table[c] for c in cells if not w[c]]), f"summed log-likelihood per {level} [{k}]")
    return f


def likeliest(ctx, P, r, i, K):
    """the category with the largest probability (one path each; near-ties are left out)"""
    for k in range(K - 1):
        if ctx.branch(ctx.and_(*[P[r, i, k] >= P[r, i, j] + 1e-4 for j in range(K) if j != k])):
            return k
    ctx.assume(ctx.and_(*[P[r, i, K - 1] >= P[r, i, j] + 1e-4 for j in range(K - 1)]))
    return K - 1


def accuracy(cfg, miss, n=2):
    def f(ctx):
        m, th, data, d, w, P = case(ctx, cfg, n, miss)
        table = np.empty((n, cfg.items), dtype=object)
        for r, i in np.ndindex(n, cfg.items):
            table[r, i] = ctx.ite(d[r, i] == likeliest(ctx, P, r, i, cfg.cats[i]), 1, 0)
        for level, what in (("item", "respondents"), ("respondent", "items"), ("all", "everything")):
            means(ctx, m.evaluate.accuracy(data=data, theta=th, level=level), table, w, what)
    return f


def infit(cfg, miss, n=2):
    def f(ctx):
        m, th, data, d, w, P = case(ctx, cfg, n, miss)
        sq, var = {}, {}
        for r, i in np.ndindex(n, cfg.items):
            E = expected(ctx, cfg, P, r, i)
            var[r, i] = ctx.sum([(score(cfg, i, k) - E) * (score(cfg, i, k) - E) * P[r, i, k] for k in range(cfg.cats[i])])
            obs = ctx.ite(d[r, i] == cfg.mc[i], 1, 0) if cfg.mc else d[r, i]
            sq[r, i] = (obs - E) * (obs - E)
        for level in ("item", "respondent"):
            inf, outf = m.evaluate.infit_outfit(data=data, theta=th, level=level)
            inf, outf = ctx.vals(inf), ctx.vals(outf)
            K = cfg.items if level == "item" else n
            ctx.prove(inf.shape == (K,) and outf.shape == (K,), f"one infit and outfit per {level}")
            for k in range(K):
                cells = [c for c in (((r, k) for r in range(n)) if level == "item" else ((k, i) for i in range(cfg.items))) if not w[c]]
                if not cells:
                    continue
                ctx.eq(inf[k] * ctx.sum([var[c] for c in cells]), ctx.sum([sq[c] for c in cells]), f"infit of {level} {k}")
                ctx.eq(outf[k], ctx.sum([sq[c] / var[c] for c in cells]) / len(cells), f"outfit of {level} {k}")
    return f


def predictions(cfg, miss, n=2):
    def f(ctx):
        m, th, data, d, w, P = case(ctx, cfg, n, miss)
        top = {(r, i): likeliest(ctx, P, r, i, cfg.cats[i]) for r, i in np.ndindex(n, cfg.items)}
        for ix in np.ndindex(n, cfg.items):
            d[ix] = ctx.concretize(d[ix])
        df = m.evaluate.predictions(data=data, theta=th)
        for i in range(cfg.items):
            rows = [r for r in range(n) if not w[r, i]]
            K = cfg.cats[i]
            tot = {c: 0 for c in ("precision", "recall", "f1", "w_precision", "w_recall", "w_f1")}
            if not rows:
                continue
            for k in range(K):
                tp = sum(top[r, i] == k and d[r, i] == k for r in rows)
                pp = sum(top[r, i] == k for r in rows)
                ob = sum(d[r, i] == k for r in rows)
                pr, re, f1 = (tp / pp, tp / ob, 2 * tp / (pp + ob)) if tp else (0, 0, 0)
                for c, v in (("precision", pr), ("recall", re), ("f1", f1)):
                    tot[c] = tot[c] + v / K
                    tot["w_" + c] = tot["w_" + c] + v * ob / len(rows)
            for c, v in tot.items():
                ctx.eq(df[c].to_numpy()[i], v, f"{c} of item {i}")
    return f


for cfg in (TWO, GPC, NRMC, NEST):
    for miss in (None, "nan", "-1"):
        s = f"{cfg.name}/{miss}"
        if miss != "-1" or cfg is GPC:
            add(f"residuals/{s}", residuals(cfg, miss))
            add(f"loglik/{s}", loglik(cfg, miss))
            add(f"infit/{s}", infit(cfg, miss))
            if cfg is not NEST:
                add(f"accuracy/{s}", accuracy(cfg, miss, 1))
add("accuracy/two", accuracy(TWO, None))
add("accuracy/one/nan", accuracy(ONE2, "nan"))
add("accuracy/one/-1", accuracy(ONE2, "-1"))
add("accuracy/two/nan", accuracy(TWO, "nan"), tier="thorough", timeout=600, budget=600)
add("predictions/2PL", predictions(TWO, None, 1))
add("predictions/two", predictions(TWO, None), tier="thorough", timeout=600, budget=600)
add("predictions/one/nan", predictions(ONE2, "nan"))
add("predictions/one/-1", predictions(ONE2, "-1"))
add("predictions/NR1", predictions(ONE, None, 1))
add("predictions/NR1-2", predictions(ONE, "nan"), tier="thorough", timeout=700, budget=700)


add("unscored/residuals", unscored(lambda m, d, t: [m.evaluate.residuals(data=d, theta=t)]))
add("unscored/accuracy", unscored(lambda m, d, t: [m.evaluate.accuracy(data=d, theta=t, level="respondent")]))
add("unscored/infit_outfit", unscored(lambda m, d, t: list(m.evaluate.infit_outfit(data=d, theta=t))))
add("unscored/log_likelihood", unscored(lambda m, d, t: [m.evaluate.log_likelihood(data=d, theta=t, level="item")]))
add("unscored/predictions", unscored(lambda m, d, t: [torch.as_tensor(c) if not isinstance(c, np.ndarray) or c.dtype != object else c
                                                      for c in (m.evaluate.predictions(data=d, theta=t)[k].to_numpy() for k in ("precision", "recall", "f1"))]))
