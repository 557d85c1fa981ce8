"""Probability gradients and Fisher information equal their definitions."""
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import ModelMix, TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, MonotoneNN
from .common import ZOO, Cfg


def gradients(cfg, n=1):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        G = m.probability_gradients(th, rescale=False)
        ctx.shape(G, (n, cfg.items, cfg.maxcat, cfg.latent), "probability gradients")
        G = ctx.vals(G)
        J = ctx.jac(m.item_probabilities, th)
        for r in range(n):
            for i in range(cfg.items):
                for k in range(cfg.maxcat):
                    for d in range(cfg.latent):
                        want = J[r, i, k, r, d] if k < cfg.cats[i] else 0
                        ctx.eq(G[r, i, k, d], want, f"respondent {r} item {i} category {k} ability {d}: gradient is the derivative", tol=4e-3)
    return f


def information(cfg, n=1, jac=True):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        P = ctx.vals(m.item_probabilities(th))
        if jac:
            J = ctx.jac(m.item_probabilities, th)
            g = lambda r, i, k, d: J[r, i, k, r, d]
        else:
            G = ctx.vals(m.probability_gradients(th, rescale=False))
            g = lambda r, i, k, d: G[r, i, k, d]
        I = m.information(th, item=True, rescale=False)
        ctx.shape(I, (n, cfg.items, cfg.latent, cfg.latent), "item information")
        T = m.information(th, item=False, rescale=False)
        ctx.shape(T, (n, cfg.latent, cfg.latent), "test information")
        I, T = ctx.vals(I), ctx.vals(T)
        L = range(cfg.latent)
        for r in range(n):
            for i in range(cfg.items):
                for a in L:
                    for b in L:
                        want = ctx.sum([g(r, i, k, a) * g(r, i, k, b) / P[r, i, k] for k in range(cfg.cats[i])])
                        ctx.eq(I[r, i, a, b], want, f"respondent {r} item {i}: information [{a},{b}]", tol=4e-3)
            for a in L:
                for b in L:
                    ctx.eq(T[r, a, b], ctx.sum([I[r, i, a, b] for i in range(cfg.items)]), f"test information [{a},{b}] is the sum over items", tol=4e-3)
    return f


def psd(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, 1)
        I = ctx.vals(m.information(th, item=True, rescale=False))[0]
        v = [ctx.real(f"v{a}", -1, 1) for a in range(cfg.latent)]
        for i in range(cfg.items):
            for a in range(cfg.latent):
                for b in range(a):
                    ctx.eq(I[i, a, b], I[i, b, a], f"item {i}: information is symmetric")
            ctx.le(0, ctx.sum([v[a] * I[i, a, b] * v[b] for a in range(cfg.latent) for b in range(cfg.latent)]), f"item {i}: information is positive semi-definite")
    return f


def directional(cfg, degrees):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, 1)
        I = ctx.vals(m.information(th, item=True, rescale=False))
        D = m.information(th, item=True, degrees=degrees, rescale=False)
        E = m.information(th, item=False, degrees=degrees, rescale=False)
        if cfg.latent == 1:
            ctx.eqs(ctx.vals(D), I, "one ability: the angle is ignored")
            return
        ctx.shape(D, (1, cfg.items), "directional item information")
        ctx.shape(E, (1,), "directional test information")
        c = [{0: 1, 60: 0.5, 90: 0, 120: -0.5, 180: -1}[z] for z in degrees]
        tot = 0
        for i in range(cfg.items):
            want = ctx.sum([c[a] * c[b] * I[0, i, a, b] for a in range(cfg.latent) for b in range(cfg.latent)])
            tot = tot + want
            ctx.eq(ctx.vals(D)[0, i], want, f"item {i}: information along {degrees}", tol=2e-3)
        ctx.eq(ctx.vals(E)[0], tot, f"test information along {degrees}", tol=2e-3)
    return f


SMALL_NN = Cfg("NN", lambda: MonotoneNN(item_categories=[2], hidden_dim=[3]), 1, [2], kind="nn", heavy=True)
SMALL_NN2 = Cfg("NN-2d", lambda: MonotoneNN(latent_variables=2, item_categories=[2], hidden_dim=[2], use_bounded_activation=False),
                2, [2], kind="nn", heavy=True)
for c in ZOO.values():
    c = {"NN": SMALL_NN, "NN-2d": SMALL_NN2}.get(c.name, c)
    add(f"gradients/{c.name}", gradients(c, 2 if c.name in ("2PL-2d", "GPC", "Mix-2d", "Nest") else 1))
    if c.name == "Surp-3d":     # no answer from the solver in time
        continue
    add(f"information/{c.name}", information(c, 2 if c.name in ("2PL-2d", "NR-mc") else 1, jac=not c.heavy))
for n in ("2PL-2d", "3PL-2d", "GPC-2d", "GRM-2d", "NR-2d", "Poly-2d", "Nest-2d", "Mix-2d", "3PL", "GRM"):
    add(f"psd/{n}", psd(ZOO[n]), qtimeout=40000, timeout=240)
for n in ("2PL-2d", "GPC-2d", "NR-2d", "Mix-2d"):
    add(f"directional/{n}", directional(ZOO[n], [120, 60]))
    add(f"directional-b/{n}", directional(ZOO[n], [0, 90]))
    add(f"directional-c/{n}", directional(ZOO[n], [60, 180]))
add("directional/2PL", directional(ZOO["2PL"], [60]))
