"""Valid probability distributions."""
from torchsym.run import add
from .common import ZOO

def h(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        p = m.item_probabilities(th)
        ctx.shape(p, (1, cfg.items, cfg.maxcat), "item_probabilities")
        v = ctx.vals(p)
        for i in range(cfg.items):
            for c in range(cfg.maxcat):
                if c < cfg.cats[i]:
                    ctx.le(0, v[0, i, c], f"P[{i},{c}] >= 0", tol=1e-6)
                    ctx.le(v[0, i, c], 1, f"P[{i},{c}] <= 1", tol=1e-6)
                else:
                    ctx.eq(v[0, i, c], 0, f"P[{i},{c}] of a category the item lacks", tol=0)
            ctx.eq(ctx.sum(list(v[0, i])), 1, f"sum P[{i}]", tol=1e-5)
    return f

for c in ZOO.values():
    add(f"probs/{c.name}", h(c))


def far(cfg, side):
    """abilities far out, where single precision overflows and underflows"""
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, lo=min(side * 60, side * 3000), hi=max(side * 60, side * 3000))
        v = ctx.vals(m.item_probabilities(th))
        for i in range(cfg.items):
            for c in range(cfg.maxcat):
                ctx.finite(v[0, i, c], f"P[{i},{c}]")
                ctx.le(0, v[0, i, c], f"P[{i},{c}] >= 0", tol=1e-6)
            ctx.eq(ctx.sum(list(v[0, i])), 1, f"sum P[{i}]", tol=1e-5)
    return f

for c in ZOO.values():
    for s in (1, -1) if c.name not in ("NN", "NN-2d", "NN-deep", "NN-mc-uneq") else ():
        add(f"far/{c.name}/{'+-'[s < 0]}", far(c, s), float_range=True, tier="thorough" if c.name == "NN-mc" else "quick")


def steep(cfg, lo, hi, t):
    """parameters so large that single precision overflows and underflows"""
    def f(ctx):
        m = ctx.build(cfg.build)
        m.eval()
        ctx.symbolize(m, "p", lo, hi)
        if cfg.order is not None:
            cfg.order(ctx, m, cfg)
        th, x = cfg.th(ctx, lo=t[0], hi=t[1])
        v = ctx.vals(m.item_probabilities(th))
        for i in range(cfg.items):
            for c in range(cfg.maxcat):
                ctx.finite(v[0, i, c], f"P[{i},{c}]")
                ctx.le(0, v[0, i, c], f"P[{i},{c}] >= 0", tol=1e-6)
            ctx.eq(ctx.sum(list(v[0, i])), 1, f"sum P[{i}]", tol=1e-5)
    return f

for c in ZOO.values():
    if c.name != "Surp-3d":     # no answer from the solver in time
        add(f"steep/{c.name}/+", steep(c, 60, 600, (1, 3)), float_range=True)
    add(f"steep/{c.name}/-", steep(c, -600, -60, (1, 3)), float_range=True)
