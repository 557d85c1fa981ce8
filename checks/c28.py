"""Simulated responses follow the stated distribution: the model's response probabilities, or random guessing."""
import itertools
import numpy as np
import torch
from torchsym.run import add
from irtorch import _internal_utils as U
from irtorch.models import GeneralizedPartialCredit, NominalResponse, TwoParameterLogistic, GradedResponse, ModelMix
from irtorch.rescale import Bit
from .common import Cfg, ref_gpc, ref_nominal, ref_2pl, ref_grm, responses

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
TWO2 = Cfg("2PL-2d", lambda: TwoParameterLogistic(latent_variables=2, items=2), 2, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[2, 4]), 1, [2, 4], ref=ref_gpc)
GPC1 = Cfg("GPC-desc", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[3, 2], mc_correct=[1, 0]), 1, [3, 2], ref=ref_nominal, mc=[1, 0])
MC3 = Cfg("NR-mc3", lambda: NominalResponse(item_categories=[3, 4, 2], mc_correct=[1, 3, 0]), 1, [3, 4, 2], ref=ref_nominal, mc=[1, 3, 0])


def by_cell(ctx, n, items, what):
    """the random choices behind the cells of an n x items table, whether drawn by row or by column"""
    d = ctx.categorical_draws()
    ctx.prove(len(d) == n * items, f"{what}: one random choice per respondent and item")
    calls = [len(c[0]) for c in ctx.stub_calls("torch.multinomial")]
    return d, calls


def sampled(cfg, n):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        g = m.sample_test_data(th)
        ctx.shape(g, (n, cfg.items), "sampled responses")
        ctx.prove(g.dtype == torch.float32, "responses are numbers like any test data")
        G, P = ctx.vals(g), ctx.vals(m.item_probabilities(th))
        d, calls = by_cell(ctx, n, cfg.items, "sample")
        columns = len(calls) == cfg.items and cfg.items != n
        for r in range(n):
            ref = cfg.ref(ctx, m, cfg, list(x[r]))
            for i in range(cfg.items):
                v, w = d[i * n + r if columns else r * cfg.items + i]
                ctx.eq(G[r, i], v, f"response [{r},{i}] is the value drawn", tol=0)
                ctx.le(0, G[r, i], f"response [{r},{i}] is a category")
                ctx.le(G[r, i], cfg.cats[i] - 1, f"response [{r},{i}] is one of the item's categories")
                tot = ctx.sum(list(w))
                for k in range(cfg.maxcat):
                    ctx.eq(w[k] / tot, P[r, i, k], f"respondent {r}, item {i}: category {k} is drawn with the model's probability")
                    ctx.eq(w[k] / tot, ref[i][k], f"respondent {r}, item {i}: category {k} is drawn with the documented probability")
    return f


for c in (TWO, TWO2, GPC, GPC1, NR):
    add(f"sample/{c.name}", sampled(c, 1))
add("sample/2PL/3", sampled(TWO, 3))
add("sample/GPC/3", sampled(GPC, 3))


def guessing(cats, mc, n, given=True):
    def f(ctx):
        items = len(cats)
        p = [ctx.real(f"g{i}", 0, 0.99) for i in range(items)] if given else None
        if given:
            with FLOATS(ctx):
                g = U.random_guessing_data(list(cats), n, p, mc)
        else:
            g = U.random_guessing_data(list(cats), n, mc_correct=mc)
        ctx.shape(g, (n, items), "guessed responses")
        G = ctx.vals(g)
        drawn = [i for i in range(items) if mc is not None or cats[i] == 2]
        d = ctx.categorical_draws()
        ctx.prove(len(d) == n * len(drawn), "one random choice per respondent and guessable item")
        for r, i in np.ndindex(n, items):
            if i not in drawn:
                ctx.eq(G[r, i], 0, f"[{r},{i}]: items with more than two scores get none by guessing", tol=0)
                continue
            v, w = d[drawn.index(i) * n + r]
            q = p[i] if given else (1 / cats[i] if mc is not None else 0.0)
            right = int(mc[i]) if mc is not None else 1
            ctx.eq(G[r, i], v, f"[{r},{i}]: the value drawn", tol=0)
            tot = ctx.sum(list(w))
            ctx.prove(len(w) == cats[i], f"[{r},{i}]: one weight per category of the item")
            for k in range(cats[i]):
                ctx.eq(w[k] / tot, q if k == right else (1 - q) / (cats[i] - 1), f"[{r},{i}]: weight of category {k}")
    return f


class FLOATS:
    """guessing probabilities are arbitrary floats: symbolic numbers count as such"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        if self.ctx.symbolic:
            from torchsym.tensor import SymScalar
            plain = isinstance

            def isinst(a, b):
                return plain(a, SymScalar) or plain(a, b) if b is float else plain(a, b)
            U.isinstance = isinst

    def __exit__(self, *a):
        U.__dict__.pop("isinstance", None)


add("guess/binary", guessing([2, 2], None, 2))
add("guess/mixed", guessing([2, 3], None, 2))
add("guess/binary/default", guessing([2, 2], None, 2, given=False))
add("guess/mc", guessing([3, 4], [1, 0], 2))
add("guess/mc/last", guessing([4, 3], [3, 2], 1))
add("guess/mc/two options", guessing([2, 2, 3], [0, 1, 0], 1))
add("guess/mc/default", guessing([3, 2], [1, 0], 2, given=False))


def refused(ctx):
    k = ctx.real("k", 1, 3)
    l = ctx.real("l", -3, -0.001)
    for bad, what in (([k, 0.5], "probabilities from one"), ([0.5, l], "negative probabilities"), ([0.5], "too few probabilities"),
                      ((0.5, 0.5), "something else than a list"), (0.5, "a single number")):
        try:
            with FLOATS(ctx):
                U.random_guessing_data([2, 3], 3, bad, [0, 1])
            answered = True
        except ValueError:
            answered = False
        ctx.prove(not answered, f"{what} are refused")


add("guess/refused", refused)


def starting(items, given, estimation="MAP", through_init=False):
    """the starting ability of bit scores for multiple choice tests is the median ability of random guessers"""
    def f(ctx):
        cfg = MC3
        m = cfg.model(ctx)
        n = 3
        its = items or [0, 1, 2]
        th = ctx.reals("th", (n, 1), -2, 2)
        seen = []

        def scores(data=None, theta_estimation=None, rescale=True, **kw):
            seen.append((data.clone(), theta_estimation, rescale))
            return ctx.tensor(th)
        m.latent_scores = scores
        p = [0.25 + 0.125 * k for k in range(len(its))] if given else None
        kw = dict(theta_estimation=estimation, items=items, guessing_probabilities=p, guessing_iterations=n)
        b = Bit(m, start_theta=torch.zeros(1))
        b.bit_score_starting_theta_mc(**kw)
        ctx.prove(len(seen) == 1, "the guessers are scored once")
        data, est, rescale = seen[0]
        ctx.prove(est == estimation and rescale is False, "by the requested method on the original scale")
        ctx.shape(data, (n, 3), "guessers' responses")
        D = ctx.vals(data)
        d = ctx.categorical_draws()
        ctx.prove(len(d) == n * len(its), "one random choice per guesser and selected item")
        for r, i in np.ndindex(n, 3):
            if i not in its:
                ctx.prove(ctx.isnan(D[r, i]), f"[{r},{i}]: items left out are missing")
                continue
            j = its.index(i)
            v, w = d[j * n + r]
            ctx.eq(D[r, i], v, f"[{r},{i}]: the response drawn", tol=0)
            q = p[j] if given else 1 / cfg.cats[i]
            tot = ctx.sum(list(w))
            ctx.prove(len(w) == cfg.cats[i], f"[{r},{i}]: one weight per option of the item")
            for k in range(cfg.cats[i]):
                ctx.eq(w[k] / tot, q if k == cfg.mc[i] else (1 - q) / (cfg.cats[i] - 1), f"[{r},{i}]: weight of option {k}")
        s = ctx.vals(b._start_theta)
        ctx.prove(s.shape == (1,), "one starting ability")
        a, c, e = th[:, 0]
        med = ctx.max(ctx.min(a, c), ctx.min(ctx.max(a, c), e))
        ctx.eq(s[0], med, "the median ability of the guessers", tol=1e-5)
    return f


add("start", starting(None, False))
add("start/items", starting([2, 0], False))
add("start/given", starting([1, 2], True, "EAP"))
