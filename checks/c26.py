"""Mutual information difference: observed minus expected mutual information of each item pair, from the entropies of responses."""
import itertools
import math
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch import _internal_utils as U
from irtorch import evaluator as EV
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic
from .common import Cfg, ref_2pl, ref_gpc, responses
from .c27 import items_of

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[2, 3]), 1, [2, 3], ref=ref_gpc)
EPS = 1e-10


def H(ctx, ps, base):
    """entropy of a distribution; impossible outcomes contribute nothing"""
    return -ctx.sum([p * ctx.log(p + EPS) for p in ps]) / ctx.log(base)


def entropy(n, base):
    def f(ctx):
        p = ctx.reals("p", (2, n), 0.01, 0.5)
        for r in range(2):
            p[r, n - 1] = 1 - ctx.sum(list(p[r, :n - 1]))
            ctx.assume(p[r, n - 1] >= 0)
        g = ctx.vals(U.entropy(ctx.tensor(p), base) if base != 2 else U.entropy(ctx.tensor(p)))
        ctx.prove(g.shape == (2,), "one entropy per distribution")
        for r in range(2):
            ctx.eq(g[r], H(ctx, list(p[r]), base), f"entropy of distribution {r}")
    return f


def bounds(ctx):
    p = ctx.real("p", 0, 1)
    g = ctx.vals(U.entropy(ctx.tensor(np.array([[p, 1 - p]], dtype=object))))[0]
    ctx.le(0, g, "not negative", tol=1e-5)
    ctx.finite(g, "finite, also for impossible outcomes")


def zeros(ctx):
    """impossible outcomes (padding) change nothing"""
    p = ctx.real("p", 0.01, 0.99)
    a = ctx.vals(U.entropy(ctx.tensor(np.array([[p, 1 - p]], dtype=object))))[0]
    b = ctx.vals(U.entropy(ctx.tensor(np.array([[p, 0.0, 1 - p, 0.0]], dtype=object))))[0]
    ctx.eq(a, b, "padding with impossible outcomes does not change the entropy")
    c = ctx.vals(U.entropy(ctx.tensor(np.array([[0.0, 1.0]], dtype=object))))[0]
    ctx.eq(c, 0, "a certain outcome has no entropy")


def refused(ctx):
    p = ctx.reals("p", (2,), 0.1, 1)
    ctx.assume(ctx.or_(p[0] + p[1] >= 1.01, p[0] + p[1] <= 0.99))
    try:
        U.entropy(ctx.tensor(p))
        ok = False
    except RuntimeError:
        ok = True
    ctx.prove(ok, "weights that do not add up to one are refused")


for n in (2, 3):
    for b in (2.0, 10.0):
        add(f"entropy/{n}/{b:g}", entropy(n, b))
add("entropy/bounds", bounds)
add("entropy/zeros", zeros)
add("entropy/refused", refused)


def joint(ctx, cfg, d, w, i, j, base):
    """entropy of the joint responses to items i and j among those who answered both"""
    rows = [r for r in range(d.shape[0]) if not w[r, i] and not w[r, j]]
    ps = []
    for a in range(cfg.cats[i]):
        for b in range(cfg.cats[j]):
            if i == j and a != b:
                continue
            ps.append(ctx.sum([ctx.ite(ctx.and_(d[r, i] == a, d[r, j] == b), 1, 0) for r in rows]) / len(rows))
    return H(ctx, ps, base), len(rows)


def patterns(ctx, d):
    """one path per response pattern"""
    for ix in np.ndindex(*d.shape):
        d[ix] = ctx.concretize(d[ix])


def joint_entropies(cfg, n, miss, base, holes=None):
    def f(ctx):
        if holes is None:
            data, d, w = responses(ctx, cfg, n, miss)
        else:
            _, d, w = responses(ctx, cfg, n)
            v = d.copy()
            for h in holes:
                w[h] = ctx.branch(ctx.bool(f"gone{h[0]}{h[1]}"))
                v[h] = {"nan": math.nan, "-1": -1}[miss] if w[h] else d[h]
            data = ctx.tensor(v)
        for i in range(cfg.items):
            for j in range(cfg.items):
                if sum(1 for r in range(n) if not w[r, i] and not w[r, j]) < 2:
                    return
        patterns(ctx, d)
        g = ctx.vals(U.joint_entropy_matrix(data, base))
        ctx.prove(g.shape == (cfg.items, cfg.items), "one entropy per item pair")
        for i, j in np.ndindex(cfg.items, cfg.items):
            ctx.eq(g[i, j], joint(ctx, cfg, d, w, i, j, base)[0], f"entropy of the responses to items {i} and {j}", tol=1e-4)
    return f


add("joint/2PL/3", joint_entropies(TWO, 3, None, 2.0))
add("joint/GPC/2", joint_entropies(GPC, 2, None, 10.0))
add("joint/2PL/3/missing", joint_entropies(TWO, 3, "nan", 2.0, [(0, 0), (0, 1)]))
add("joint/2PL/4/missing", joint_entropies(TWO, 4, "nan", 2.0, [(0, 0), (2, 1)]), tier="thorough", max_paths=2000, timeout=600)
add("joint/2PL/3/missing -1", joint_entropies(TWO, 3, "-1", 2.0, [(1, 0)]))
add("joint/GPC/3", joint_entropies(GPC, 3, None, 2.0), tier="thorough")


def mid(cfg, n, base=2.0, given=True):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        data, d, w = responses(ctx, cfg, n)
        m.latent_scores = lambda *a, **k: (ctx.prove(k.get("rescale") is False, "abilities on the original scale"), th)[1]
        J, calls = ctx.reals("J", (cfg.items, cfg.items), 0, 3), []
        for i in range(cfg.items):
            for j in range(i):
                J[i, j] = J[j, i]

        def jem(dat, log_base=2.0):
            calls.append((dat, log_base))
            return ctx.tensor(J)
        with mock.patch.object(EV, "joint_entropy_matrix", jem):
            kw = {} if base == 2.0 else {"log_base": base}
            a, b, p = m.evaluate.mutual_information_difference(data, theta=th if given else None, **kw)
        ctx.prove(p is None, "no p-values unless asked for")
        ctx.prove(len(calls) == 1 and calls[0][1] == base, "the entropies of the data are taken once, in the requested unit")
        D = ctx.vals(calls[0][0])
        for r, i in np.ndindex(n, cfg.items):
            ctx.eq(D[r, i], d[r, i], f"[{r},{i}] the data given are used", tol=0)
        P = [cfg.ref(ctx, m, cfg, list(x[r])) for r in range(n)]
        A, B = items_of(a), items_of(b)
        names = [f"Item {i + 1}" for i in range(cfg.items)]
        ctx.prove(all(list(t.columns) == list(t.index) == names for t in (a, b)), "items are named")
        for i, j in np.ndindex(cfg.items, cfg.items):
            if i == j:
                continue
            e = expected(ctx, cfg, P, i, j, base)
            obs = J[i, i] + J[j, j] - J[i, j]
            ctx.eq(A[i, j], obs - e, f"items {i},{j}: observed minus expected mutual information", tol=2e-4)
            ctx.eq(B[i, j], ctx.abs(A[i, j]), f"items {i},{j}: absolute value")
    return f


def expected(ctx, cfg, P, i, j, base):
    n = len(P)
    pi = [ctx.sum([P[r][i][a] for r in range(n)]) / n for a in range(cfg.cats[i])]
    pj = [ctx.sum([P[r][j][a] for r in range(n)]) / n for a in range(cfg.cats[j])]
    pij = [ctx.sum([P[r][i][a] * P[r][j][b] for r in range(n)]) / n for a in range(cfg.cats[i]) for b in range(cfg.cats[j])]
    return H(ctx, pi, base) + H(ctx, pj, base) - H(ctx, pij, base)


add("mid/2PL/1", mid(TWO, 1))
add("mid/2PL/2", mid(TWO, 2))
add("mid/2PL/2/abilities estimated", mid(TWO, 2, given=False))
add("mid/2PL/1/base 10", mid(TWO, 1, 10.0))
add("mid/GPC/1", mid(GPC, 1))
add("mid/GPC/2", mid(GPC, 2), tier="thorough")


def pvalues(samples, n=2):
    """the share of data sets simulated under the model with a larger statistic"""
    def f(ctx):
        cfg = TWO
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        h, hj = ctx.reals("h", (2,), 0, 1), ctx.reals("hj", (2, 2), 0, 2)
        hj[1, 0] = hj[0, 1]

        def ent(probabilities, log_base=2.0):
            return ctx.tensor(h if probabilities.dim() == 2 else hj)
        data, d, w = responses(ctx, cfg, n)
        J, sim = [], []

        def jem(dat, log_base=2.0):
            v = ctx.reals(f"J{len(J)}_", (2, 2), 0, 3)
            v[1, 0] = v[0, 1]
            J.append((dat, log_base, v))
            return ctx.tensor(v)

        def sample(theta):
            ctx.prove(theta is th, "data are simulated for the respondents' abilities")
            sim.append(torch.full((n, 2), float(len(sim))))
            return sim[-1]
        m.sample_test_data = sample
        with mock.patch.object(EV, "joint_entropy_matrix", jem), mock.patch.object(EV, "entropy", ent):
            a, b, p = m.evaluate.mutual_information_difference(data, theta=th, sample_hypothesis_test=True, samples=samples)
        ctx.prove(len(J) == samples + 1 and len(sim) == samples, "one entropy matrix for the data and one per simulated data set")
        ctx.prove(all(J[k + 1][0] is sim[k] for k in range(samples)) and all(c[1] == 2.0 for c in J), "of each simulated data set")
        e = h[0] + h[1] - hj[0, 1]
        stat = [ctx.abs(v[0, 0] + v[1, 1] - v[0, 1] - e) for _, _, v in J]
        for s in stat[1:]:
            ctx.assume(ctx.abs(s - stat[0]) >= 1e-3)
        T = items_of(p)
        for i in range(2):
            ctx.prove(ctx.isnan(T[i, i]), f"item {i}: no p-value with itself")
        want = ctx.sum([ctx.ite(s > stat[0], 1, 0) for s in stat[1:]]) / samples
        ctx.eq(T[0, 1], want, "share of simulated statistics above the observed one", tol=6e-4)
        ctx.eq(T[1, 0], want, "p-values are symmetric", tol=6e-4)
    return f


add("mid/p-values/2", pvalues(2))
add("mid/p-values/3", pvalues(3), tier="thorough")
