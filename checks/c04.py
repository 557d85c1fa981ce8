"""Monotone models: higher ability moves every adjacent category odds (hence the expected score) in the reported direction."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import (TwoParameterLogistic, GradedResponse, MonotoneNN, MonotonePolynomial, NominalResponse,
                            GeneralizedPartialCredit, NestedLogit, ThreeParameterLogistic)
from .common import ZOO, Cfg, B, REL2, REL2b, ref_gpc, ref_grm, grm_order, weights_of

C = dict(ZOO)
for c in (Cfg("NN-2d-cat-uneq", lambda: MonotoneNN(latent_variables=2, item_categories=[2, 3], hidden_dim=[2], use_bounded_activation=False,
                                                   item_theta_relationships=B([[False, True], [True, True]])), 2, [2, 3],
              rel=[[False, True], [True, True]], kind="nn", heavy=True),
          Cfg("NN-items-2d", lambda: MonotoneNN(latent_variables=2, item_categories=[2, 3], hidden_dim=[2], separate="items",
                                                use_bounded_activation=False, item_theta_relationships=B(REL2b)), 2, [2, 3],
              rel=REL2b, kind="nn", heavy=True),
          Cfg("NN-pos-bounded", lambda: MonotoneNN(item_categories=[2, 2], hidden_dim=[3], negative_latent_variable_item_relationships=False),
              1, [2, 2], kind="nn", heavy=True),
          Cfg("Poly-2d-items", lambda: MonotonePolynomial(latent_variables=2, item_categories=[2, 3], separate="items",
                                                          item_theta_relationships=B(REL2b)), 2, [2, 3], rel=REL2b, kind="poly"),
          Cfg("Poly-1", lambda: MonotonePolynomial(item_categories=[3, 2], degree=1), 1, [3, 2], kind="poly")):
    C[c.name] = c


def directions(ctx, m, cfg, x=None):
    """reported directions (int matrix); models based on slopes report them without data"""
    return ctx.vals(m.item_theta_relationship_directions())


def odds(ctx, cfg, i, P, Q):
    """pairs (u, v): u >= 0 <=> odds moved up, from values P and their change Q"""
    K = cfg.cats[i]
    if cfg.kind == "grm":
        return [sum((Q[c] for c in range(k, K)), 0) for k in range(1, K)]
    if cfg.heavy:
        g = [(cfg.mc[i], k) for k in range(K) if k != cfg.mc[i]] if cfg.mc is not None else [(k + 1, k) for k in range(K - 1)]
        return [Q[k] / P[k] - Q[j] / P[j] for k, j in g]
    if cfg.mc is not None:
        c = cfg.mc[i]
        return [Q[c] * P[k] - P[c] * Q[k] for k in range(K) if k != c]
    return [Q[k + 1] * P[k] - P[k + 1] * Q[k] for k in range(K - 1)]


def slope(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        D = directions(ctx, m, cfg)
        ctx.prove(D.shape == (cfg.items, cfg.latent), "one direction per item and latent variable")
        P = ctx.vals(m.item_probabilities(th))[0]
        J = ctx.jac(m.item_probabilities, th)[0]
        for i in range(cfg.items):
            for d in range(cfg.latent):
                if cfg.heavy:
                    D[i, d] = ctx.concretize(D[i, d])
                for o in odds(ctx, cfg, i, P[i], J[i, :, 0, d]):
                    ctx.le(0, D[i, d] * o, f"item {i}: odds follow the reported direction of ability {d}")
                if not cfg.related(i, d):
                    ctx.eq(D[i, d], 0, f"item {i}: no direction for the unrelated ability {d}")
                elif cfg.kind in ("bspline",):
                    ctx.eq(D[i, d], 1, f"item {i}: positive direction")
    return f


def pairs(cfg, d=0, fixed=()):
    """two arbitrary abilities that differ in ability d; the parameters named in fixed keep generic values"""
    def f(ctx):
        m = ctx.build(cfg.build)
        m.eval()
        names = [n for n, _ in m.named_parameters()]
        with ctx.outside(), torch.no_grad():
            for n, p in m.named_parameters():
                if any(n.endswith(z) for z in fixed):
                    p.copy_(((torch.arange(p.numel()) * 5 % 7 - 3).float() / 4).view(p.shape))
        ctx.symbolize(m, "p", cfg.lo, cfg.hi, only=[n for n in names if not any(n.endswith(z) for z in fixed)], ranges=cfg.ranges)
        if cfg.order is not None:
            cfg.order(ctx, m, cfg)
        x = ctx.reals("th", (1, cfg.latent), -2, 2)
        h = ctx.real("h", 0, 3)
        y = x.copy()
        y[0, d] = x[0, d] + h
        D = directions(ctx, m, cfg)
        P = ctx.vals(m.item_probabilities(ctx.tensor(np.concatenate([x, y]))))
        for i in range(cfg.items):
            if cfg.heavy:
                D[i, d] = ctx.concretize(D[i, d])
            for o in odds(ctx, cfg, i, P[0, i], P[1, i]) if cfg.kind != "grm" else odds(ctx, cfg, i, None, P[1, i] - P[0, i]):
                ctx.le(0, D[i, d] * o, f"item {i}: higher ability {d} moves the odds in the reported direction")
    return f


SL = ["1PL", "2PL", "2PL-2d", "3PL", "3PL-2d", "GPC", "GPC-2d", "GRM", "GRM-2d", "NN", "NN-unb", "NN-items", "NN-2d", "NN-deep",
      "NN-mc", "NN-mc-uneq", "NN-2d-cat-uneq", "NN-items-2d", "NN-pos-bounded", "Poly", "Poly-items", "Poly-pos", "Poly-5", "Poly-2d", "Poly-2d-items", "Poly-1",
      "BSp", "BSp-cat", "BSp-2d"]
for n in SL:
    add(f"slope/{n}", slope(C[n]))
for n in ("1PL", "2PL", "2PL-2d", "3PL", "GPC", "GPC-2d", "GRM"):
    add(f"pairs/{n}", pairs(C[n], C[n].latent - 1))


def positive(cfg):
    """without negative relations every direction is +1"""
    def f(ctx):
        m = cfg.model(ctx)
        D = directions(ctx, m, cfg)
        for ix in np.ndindex(*D.shape):
            ctx.eq(D[ix], 1, f"direction {list(ix)}")
    return f


for n in ("NN-unb", "NN-pos-bounded", "Poly-pos", "Poly-5", "BSp", "BSp-cat", "BSp-2d", "1PL"):
    add(f"positive/{n}", positive(C[n]))


def declared(cfg):
    """slope models report the sign of the slope"""
    def f(ctx):
        m = cfg.model(ctx)
        D = directions(ctx, m, cfg)
        W = weights_of(ctx, m, cfg)
        for i in range(cfg.items):
            for d in range(cfg.latent):
                w = W[i][d]
                ctx.prove(ctx.and_(ctx.implies(w > 0, D[i, d] == 1) if not isinstance(w, int) else D[i, d] == 0,
                                   ctx.implies(w < 0, D[i, d] == -1) if not isinstance(w, int) else True), f"direction {i},{d} is the sign of the slope")
    return f


for n in ("2PL", "2PL-2d", "3PL-2d", "GPC-2d", "GRM-2d"):
    add(f"declared/{n}", declared(C[n]))


def nested(cfg):
    """nested logit: the directions are those of the probability of a correct answer, per item and ability"""
    def f(ctx):
        m = cfg.model(ctx)
        D = directions(ctx, m, cfg)
        ctx.prove(D.shape == (cfg.items, cfg.latent), "one direction per item and ability")
        base = [ctx.real(f"t{k}", -2, 2) for k in range(cfg.latent)]
        p = ctx.vals(m.item_probabilities(ctx.tensor([base])))[0]
        for k in range(cfg.latent):
            moved = list(base)
            moved[k] = base[k] + 1
            q = ctx.vals(m.item_probabilities(ctx.tensor([moved])))[0]
            for i in range(cfg.items):
                c = cfg.mc[i]
                up, down = D[i, k] > 0, D[i, k] < 0
                ctx.prove(ctx.implies(up, q[i][c] >= p[i][c]), f"item {i}, ability {k}: a positive direction never lowers the probability of the correct option")
                ctx.prove(ctx.implies(down, q[i][c] <= p[i][c]), f"item {i}, ability {k}: a negative direction never raises it")
                ctx.prove(ctx.implies(ctx.not_(ctx.or_(up, down)), ctx.and_(p[i][c] - q[i][c] <= 1e-4, q[i][c] - p[i][c] <= 1e-4)),
                          f"item {i}, ability {k}: no direction, no change")
    return f


for n in ("Nest", "Nest-2d", "Nest-bsp"):
    add(f"nested/{n}", nested(ZOO[n]))


def regression(cfg, n):
    """directions of the general models: sign of the slope of expected scores on the given abilities"""
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        sx = ctx.sum(x[:, 0]) / n
        v = ctx.sum([(t - sx) * (t - sx) for t in x[:, 0]])
        ctx.assume(v > 0.01)
        E = ctx.vals(m.expected_scores(th))
        D = ctx.vals(m.item_theta_relationship_directions(th))
        for i in range(cfg.items):
            cov = ctx.sum([(x[r, 0] - sx) * E[r, i] for r in range(n)])
            ctx.le(0, D[i, 0] * cov, f"item {i}: direction agrees with the regression slope", tol=1e-4)
            ctx.prove(ctx.or_(cov == 0, ctx.not_(D[i, 0] == 0)), f"item {i}: a clear slope has a direction")
    return f


add("regression/NR", regression(Cfg("NRs", lambda: NominalResponse(item_categories=[2, 3]), 1, [2, 3], kind="nr"), 2))
