"""Q3 is the correlation of the residuals of each item pair; correlations handle missing values pairwise."""
from unittest import mock
import numpy as np
import torch
import pandas as pd
from torchsym.run import add
from irtorch import _internal_utils as U
from irtorch import evaluator as EV
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic
from .common import Cfg, ref_2pl, ref_gpc, responses, mean_of

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
THREE = Cfg("2PL-3", lambda: TwoParameterLogistic(items=3), 1, [2, 2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[2, 3]), 1, [2, 3], ref=ref_gpc)


def pearson(ctx, a, b):
    """(covariance sum, product of the sums of squares)"""
    ma, mb = mean_of(ctx, a), mean_of(ctx, b)
    return (ctx.sum([(p - ma) * (q - mb) for p, q in zip(a, b)]),
            ctx.sum([(p - ma) * (p - ma) for p in a]), ctx.sum([(q - mb) * (q - mb) for q in b]))


def spread(ctx, a):
    m = mean_of(ctx, a)
    ctx.assume(ctx.sum([(p - m) * (p - m) for p in a]) >= 0.05)


def judge(ctx, g, x, seen, i, j, tol=1e-3):
    rows = [r for r in range(x.shape[0]) if seen[r][i] and seen[r][j]]
    if len(rows) < 2:
        ctx.eq(g[i, j], 0, f"items {i},{j}: no correlation without two respondents answering both", tol=0)
        return
    a, b = [x[r, i] for r in rows], [x[r, j] for r in rows]
    spread(ctx, a), spread(ctx, b)
    c, va, vb = pearson(ctx, a, b)
    ctx.eq(g[i, j], c / (ctx.sqrt(va) * ctx.sqrt(vb)), f"items {i},{j}: correlation over the respondents answering both", tol=tol)
    ctx.eq(g[i, j], g[j, i], f"items {i},{j}: symmetric")


def correlation(n, cols, miss=()):
    def f(ctx):
        x = ctx.reals("x", (n, cols), -2, 2)
        gone = {(r, c) for r, c in miss}
        full = np.array([[float("nan") if (r, c) in gone else x[r, c] for c in range(cols)] for r in range(n)], dtype=object)
        seen = [[(r, c) not in gone for c in range(cols)] for r in range(n)]
        g = ctx.vals(U.correlation_matrix(ctx.tensor(full)))
        ctx.prove(g.shape == (cols, cols), "one correlation per pair of columns")
        for i in range(cols):
            o = [x[r, i] for r in range(n) if seen[r][i]]
            if len(o) > 1:
                spread(ctx, o)
            ctx.eq(g[i, i], 1, f"column {i} correlates perfectly with itself")
            for j in range(i + 1, cols):
                judge(ctx, g, x, seen, i, j)
    return f


def bounded(n):
  def f(ctx):
    x = ctx.reals("x", (n, 2), -2, 2)
    for c in range(2):
        spread(ctx, list(x[:, c]))
    g = ctx.vals(U.correlation_matrix(ctx.tensor(x)))
    ctx.le(g[0, 1], 1, "at most one", tol=1e-3)
    ctx.le(-1, g[0, 1], "at least minus one", tol=1e-3)
  return f


def shape(ctx):
    x = ctx.tensor(ctx.reals("x", (3,), -1, 1))
    try:
        U.correlation_matrix(x)
        ok = False
    except ValueError:
        ok = True
    ctx.prove(ok, "one-dimensional input is refused")


add("correlation/3x2", correlation(3, 2))
add("correlation/2x3", correlation(2, 3))
add("correlation/4x2", correlation(4, 2), tier="thorough")
add("correlation/3x2/missing", correlation(3, 2, [(1, 0)]))
add("correlation/3x2/two missing", correlation(3, 2, [(1, 0), (2, 1)]))
add("correlation/4x2/missing", correlation(4, 2, [(0, 0), (2, 1)]))
add("correlation/3x3/missing", correlation(3, 3, [(0, 1)]))
add("correlation/bounded/2", bounded(2))
add("correlation/bounded/3", bounded(3), tier="thorough", timeout=300)
add("correlation/shape", shape)


def items_of(df):
    return np.array([[df.iloc[i, j] for j in range(df.shape[1])] for i in range(df.shape[0])], dtype=object)


def q3(cfg, n, miss=None, from_model=False):
    """the statistic of given responses and abilities, from the model's own expected scores"""
    def f(ctx):
        m = cfg.model(ctx)
        th, xs = cfg.th(ctx, n)
        data, d, w = responses(ctx, cfg, n, miss)
        m.latent_scores = lambda *a, **k: (ctx.prove(k.get("rescale") is False, "abilities on the original scale"), th)[1]
        got, calls = {}, []

        def corr(x):
            calls.append(x)
            c = ctx.reals(f"c{len(calls)}", (cfg.items, cfg.items), -1, 1)
            for i in range(cfg.items):
                for j in range(i):
                    c[i, j] = c[j, i]
            got["c"] = c.copy()
            return ctx.tensor(c)
        with mock.patch.object(EV, "correlation_matrix", corr):
            q, p = m.evaluate.q3(data, theta=None if from_model else th)
        ctx.prove(p is None, "no p-values unless asked for")
        ctx.prove(len(calls) == 1, "one correlation matrix")
        R = ctx.vals(calls[0])
        E = ctx.vals(m.expected_scores(th, return_item_scores=True))
        for r, i in np.ndindex(n, cfg.items):
            if w[r, i]:
                ctx.prove(ctx.isnan(R[r, i]), f"[{r},{i}]: a missing response has no residual")
            else:
                ctx.eq(R[r, i], d[r, i] - E[r, i], f"[{r},{i}]: residual is response minus expected score")
        Q = items_of(q)
        ctx.prove(list(q.columns) == list(q.index) == [f"Item {i + 1}" for i in range(cfg.items)], "items are named")
        for i in range(cfg.items):
            ctx.prove(ctx.isnan(Q[i, i]), f"item {i}: no correlation with itself")
            for j in range(cfg.items):
                if i != j:
                    ctx.eq(Q[i, j], got["c"][i, j], f"Q3 of items {i},{j} is their residual correlation", tol=6e-4)
    return f


add("q3/2PL", q3(TWO, 2))
add("q3/2PL/abilities estimated", q3(TWO, 2, from_model=True))
add("q3/GPC/missing", q3(GPC, 2, "nan"))


def pvalues(samples, n=2):
    def f(ctx):
        cfg = TWO
        m = cfg.model(ctx)
        th, xs = cfg.th(ctx, n)
        data, d, w = responses(ctx, cfg, n)
        sim, calls, drawn = [], [], []

        def sample(theta):
            ctx.prove(theta is th, "data are simulated for the respondents' abilities")
            v = ctx.ints(f"s{len(sim)}", (n, cfg.items), 0, 1)
            sim.append(v)
            return ctx.tensor(v)

        def corr(x):
            c = ctx.real(f"c{len(calls)}", -1, 1)
            calls.append((x, c))
            return ctx.tensor(np.array([[1.0, c], [c, 1.0]], dtype=object))
        m.sample_test_data = sample
        with mock.patch.object(EV, "correlation_matrix", corr):
            q, p = m.evaluate.q3(data, theta=th, sample_hypothesis_test=True, samples=samples)
        ctx.prove(len(calls) == samples + 1 and len(sim) == samples, "one correlation matrix for the data and for each simulated data set")
        E = ctx.vals(m.expected_scores(th, return_item_scores=True))
        for k, (x, c) in enumerate(calls):
            R = ctx.vals(x)
            src = d if k == 0 else sim[k - 1]
            for r, i in np.ndindex(n, cfg.items):
                ctx.eq(R[r, i], src[r, i] - E[r, i], f"residuals of {'the data' if k == 0 else f'simulated data {k}'} [{r},{i}]")
        o = calls[0][1]
        for _, c in calls[1:]:
            ctx.assume(ctx.abs(c - o) >= 1e-3)
        less = ctx.sum([ctx.ite(c < o, 1, 0) for _, c in calls[1:]])
        want = 2 * ctx.min(less, samples - less) / samples
        P = items_of(p)
        ctx.prove(list(p.columns) == list(p.index) == ["Item 1", "Item 2"], "items are named")
        for i in range(2):
            ctx.prove(ctx.isnan(P[i, i]), f"item {i}: no p-value with itself")
        ctx.eq(P[0, 1], want, "two-sided share of simulated correlations beyond the observed one", tol=6e-4)
        ctx.eq(P[1, 0], want, "p-values are symmetric", tol=6e-4)
        ctx.eq(items_of(q)[0, 1], o, "Q3 of the pair", tol=6e-4)
    return f


add("q3/p-values/3", pvalues(3))
add("q3/p-values/4", pvalues(4), tier="thorough")
