"""Missing responses coded -1 and coded NaN give the same results, and a respondent's missing responses carry no information."""
import math
import numpy as np
import torch
from torchsym.run import add
from .calls import DATA, MODELS, flatten
from .common import responses


def coded(ctx, cfg, n, d, w, code):
    return ctx.tensor(np.array([[ctx.missing(w[r, i], d[r, i], code) for i in range(cfg.items)] for r in range(n)], dtype=object))


def same(name, cfg, fn, n):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        d = ctx.ints("x", (n, cfg.items), 0, [k - 1 for k in cfg.cats])
        w = np.array([[ctx.branch(ctx.bool(f"missing_{r}_{i}")) for i in range(cfg.items)] for r in range(n)], dtype=object)
        res = []
        for code in (math.nan, -1):
            v = coded(ctx, cfg, n, d, w, code)
            try:
                out = flatten(fn(ctx, m, cfg, v, th))
            except (ValueError, RuntimeError) as e:
                out = type(e).__name__
            res.append(out)
        a, b = res
        ctx.prove((type(a) is str) == (type(b) is str) and len(a) == len(b), "both codings are accepted alike")
        if type(a) is str or type(b) is str:
            return
        for k, (p, q) in enumerate(zip(a, b)):
            p, q = ctx.vals(p), ctx.vals(q)
            ctx.prove(p.shape == q.shape, f"result {k} has the same shape for both codings")
            for ix in np.ndindex(*p.shape):
                ctx.eq(p[ix], q[ix], f"result {k}{list(ix)} is the same for both codings")
    return f


def irrelevant(name, cfg, fn, n):
    """the value hidden behind a missing code cannot matter, nor can one respondent's missing data change another's result"""
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, 2)
        d = ctx.ints("x", (2, cfg.items), 0, [k - 1 for k in cfg.cats])
        w = np.array([[ctx.branch(ctx.bool(f"missing_{r}_{i}")) for i in range(cfg.items)] for r in range(2)], dtype=object)
        v = coded(ctx, cfg, 2, d, w, math.nan)
        both = ctx.vals(fn(ctx, m, cfg, v, th))
        for r in range(2):
            one = ctx.vals(fn(ctx, m, cfg, v[r:r + 1], th[r:r + 1]))
            for ix in np.ndindex(*one.shape[1:]):
                ctx.eq(both[(r,) + ix], one[(0,) + ix], f"respondent {r}{list(ix)} is scored independently of the other's missing responses")
    return f


for name, (models, fn) in DATA.items():
    for c in models:
        add(f"codes/{name}/{c}", same(name, MODELS[c], fn, 2 if c == "2PL" else 1))
for name in ("latent_scores-EAP", "latent_scores-NN-onehot", "latent_scores-NN-zero", "initial_theta", "evaluate.residuals"):
    add(f"alone/{name}", irrelevant(name, MODELS["2PL"], DATA[name][1], 2))
