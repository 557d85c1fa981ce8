"""Expected scores, their gradients, population difficulty and discrimination."""
import numpy as np
import torch
from torchsym.run import add
from .common import ZOO, Cfg


def score(cfg, i, k):
    return (1 if k == cfg.mc[i] else 0) if cfg.mc is not None and cfg.kind != "mix" else k


def expect(ctx, cfg, P, r, i):
    return ctx.sum([score(cfg, i, k) * P[r, i, k] for k in range(cfg.cats[i])])


def top(cfg, i):
    return 1 if cfg.mc is not None else cfg.cats[i] - 1


def scores(cfg, n):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        P = ctx.vals(m.item_probabilities(th))
        E = m.expected_scores(th)
        T = m.expected_scores(th, return_item_scores=False)
        ctx.shape(E, (n, cfg.items), "expected item scores")
        ctx.shape(T, (n,), "expected sum scores")
        E, T = ctx.vals(E), ctx.vals(T)
        for r in range(n):
            for i in range(cfg.items):
                ctx.eq(E[r, i], expect(ctx, cfg, P, r, i), f"respondent {r} item {i}: expected score is the mean score", tol=2e-3)
                ctx.le(0, E[r, i], f"respondent {r} item {i}: expected score is not below 0")
                ctx.le(E[r, i], top(cfg, i), f"respondent {r} item {i}: expected score is not above the maximum")
            ctx.eq(T[r], ctx.sum([E[r, i] for i in range(cfg.items)]), f"respondent {r}: expected sum score is the sum over items", tol=2e-3)
    return f


def gradients(cfg, n):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        J = ctx.jac(m.item_probabilities, th)
        for by in (True, False):
            G = m.expected_item_score_gradients(th.clone(), rescale_by_item_score=by, rescale=False)
            ctx.shape(G, (n, cfg.items, cfg.latent), "expected score gradients")
            G = ctx.vals(G)
            for r in range(n):
                for i in range(cfg.items):
                    for d in range(cfg.latent):
                        want = ctx.sum([score(cfg, i, k) * J[r, i, k, r, d] for k in range(cfg.cats[i])])
                        if by:
                            want = want / top(cfg, i)
                        ctx.eq(G[r, i, d], want, f"respondent {r} item {i} ability {d}: gradient of the {'proportion' if by else 'score'}", tol=4e-3)
    return f


def population(cfg, n, grad=True):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        P = ctx.vals(m.item_probabilities(th))
        D = m.population_difficulty(th.clone())
        ctx.shape(D, (cfg.items,), "population difficulty")
        D = ctx.vals(D)
        for i in range(cfg.items):
            want = ctx.sum([1 - expect(ctx, cfg, P, r, i) / top(cfg, i) for r in range(n)]) / n
            ctx.eq(D[i], want, f"item {i}: population difficulty is the mean proportion of missed points", tol=2e-3)
            ctx.le(0, D[i], f"item {i}: difficulty is at least 0")
            ctx.le(D[i], 1, f"item {i}: difficulty is at most 1")
        if not grad:
            return
        A = m.population_discrimination(th.clone(), rescale=False)
        ctx.shape(A, (cfg.items, cfg.latent), "population discrimination")
        A = ctx.vals(A)
        G = ctx.vals(m.expected_item_score_gradients(th.clone(), rescale=False))
        for i in range(cfg.items):
            for d in range(cfg.latent):
                ctx.eq(A[i, d], ctx.sum([G[r, i, d] for r in range(n)]) / n, f"item {i} ability {d}: population discrimination is the mean gradient", tol=2e-3)
    return f


for c in ZOO.values():
    add(f"scores/{c.name}", scores(c, 1 if c.heavy else 2))
for n in ("1PL", "2PL-2d", "3PL-2d", "GPC", "GPC-2d", "GRM", "NR-mc", "NR-2d", "Nest", "Nest-2d", "Mix", "Mix-3pl", "Poly", "Poly-2d", "BSp", "BSp-2d", "Surp", "NN-unb", "NN-mc"):
    add(f"gradients/{n}", gradients(ZOO[n], 1 if ZOO[n].heavy else 2))
for n in ("2PL", "GPC", "GRM", "NR-mc", "Nest", "Mix", "Poly-2d", "Surp", "NN-mc", "NN-mc-uneq"):
    add(f"population/{n}", population(ZOO[n], 2, grad=not ZOO[n].heavy))
