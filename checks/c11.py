"""Bit scale: accumulated entropy change from the starting ability, and its derivative."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse
from irtorch.rescale import Bit
from irtorch._internal_utils import entropy
from .common import Cfg, ref_2pl, ref_gpc


def two(items=2, latent=1):
    return Cfg("2PL", lambda: TwoParameterLogistic(latent_variables=latent, items=items), latent, [2] * items, ref=ref_2pl, lo=-1.5, hi=1.5)


GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc, lo=-1, hi=1)


def signs(ctx, m, cfg, positive):
    """fix the direction of the total score in each ability"""
    w = ctx.param(m, "weight_param").reshape(cfg.items, cfg.latent)
    for i in range(cfg.items):
        for d in range(cfg.latent):
            ctx.assume(w[i, d] >= 0.125 if positive[d] else w[i, d] <= -0.125)


def H(ctx, m, rows, items):
    """entropy of each item at the given abilities"""
    with ctx_nograd():
        e = entropy(m.item_probabilities(ctx.tensor(np.array(rows, dtype=object))))
    return ctx.vals(e)[:, items]


def ctx_nograd():
    return torch.no_grad()


def path_length(ctx, m, points, items):
    """sum over items and consecutive points of the absolute entropy change"""
    h = H(ctx, m, points, items)
    return ctx.sum([ctx.abs(h[j + 1, i] - h[j, i]) for j in range(len(points) - 1) for i in range(len(items))])


def one(cfg, positive, items=None, n=1, population=False):
    def f(ctx):
        m = cfg.model(ctx)
        signs(ctx, m, cfg, [positive])
        its = items or list(range(cfg.items))
        sg = 1 if positive else -1
        t0 = ctx.real("start", -2, 0)
        pop = ctx.tensor([[-1.0], [0.5], [1.0], [2.0]]) * sg if population else None
        b = Bit(m, start_theta=ctx.tensor([sg * t0]), items=items, grid_points=2, population_theta=pop)
        th, x = ctx.theta(n, 1, -3, 3)
        B = b.transform(th)
        ctx.shape(B, (n, 1), "bit scores")
        B = ctx.vals(B)
        a = [sg * x[r, 0] for r in range(n)]
        grid = sorted([2.0]) if population else [7.0]
        if n == 1:
            if ctx.branch(a[0] <= t0):
                ctx.eq(B[0, 0], 0, "at or below the starting ability the bit score is zero")
            elif ctx.branch(a[0] <= grid[0]):
                ctx.eq(B[0, 0], path_length(ctx, m, [[sg * t0], [x[0, 0]]], its), "bit score is the entropy change from the starting ability", tol=2e-3)
            else:
                ctx.eq(B[0, 0], path_length(ctx, m, [[sg * t0], [sg * grid[0]], [x[0, 0]]], its), "beyond the grid: the change through its end", tol=2e-3)
        else:
            for r in range(n):
                ctx.le(0, B[r, 0], f"respondent {r}: bit score is not negative")
            lo, hi = (0, 1) if ctx.branch(a[0] <= a[1]) else (1, 0)
            ctx.le(B[lo, 0], B[hi, 0], "a higher ability (in the direction of the score) has at least the bit score")
            if ctx.branch(a[lo] <= t0):
                ctx.eq(B[lo, 0], 0, "at or below the starting ability the bit score is zero")
            elif ctx.branch(a[hi] <= grid[0]):
                ctx.eq(B[lo, 0], path_length(ctx, m, [[sg * t0], [x[lo, 0]]], its), "lower: entropy change from the starting ability", tol=2e-3)
                ctx.eq(B[hi, 0] - B[lo, 0], path_length(ctx, m, [[x[lo, 0]], [x[hi, 0]]], its), "difference of bit scores is the entropy change in between", tol=2e-3)
    return f


def multi(positive):
    def f(ctx):
        cfg = two(2, 2)
        m = cfg.model(ctx)
        signs(ctx, m, cfg, positive)
        sg = [1 if p else -1 for p in positive]
        t0 = [ctx.real(f"start{d}", -2, 0) for d in range(2)]
        b = Bit(m, start_theta=ctx.tensor([sg[d] * t0[d] for d in range(2)]), grid_points=2)
        th, x = ctx.theta(1, 2, -3, 3)
        B = b.transform(th)
        ctx.shape(B, (1, 2), "bit scores")
        B = ctx.vals(B)
        for d in range(2):
            row = lambda v: [v if k == d else 0.0 for k in range(2)]
            if ctx.branch(sg[d] * x[0, d] <= t0[d]):
                ctx.eq(B[0, d], 0, f"ability {d}: at or below the starting ability the bit score is zero")
            else:
                ctx.eq(B[0, d], path_length(ctx, m, [row(sg[d] * t0[d]), row(x[0, d])], [0, 1]), f"ability {d}: entropy change with the other ability at its median", tol=2e-3)
        C = b.transform_to_1D(th)
        ctx.shape(C, (1, 1), "one-dimensional bit score")
        cl = [ctx.max(sg[d] * x[0, d], t0[d]) * sg[d] for d in range(2)]
        ctx.eq(ctx.vals(C)[0, 0], path_length(ctx, m, [[sg[d] * t0[d] for d in range(2)], cl], [0, 1]), "one-dimensional bit score along the line", tol=2e-3)
    return f


PEOPLE = np.array([[-1.0, 0.5], [0.25, 1.25], [0.5, -0.5], [1.0, 1.5], [2.0, 0.75]])  # medians 0.5 and 0.75, no outliers


def among(positive, d):
    """bit score of ability d when the other ability is held at the population's median"""
    def f(ctx):
        cfg = two(2, 2)
        m = cfg.model(ctx)
        signs(ctx, m, cfg, positive)
        sg = [1 if p else -1 for p in positive]
        start = [-1.0, -0.25]
        middle = [sg[k] * float(np.median(PEOPLE[:, k])) for k in range(2)]
        b = Bit(m, start_theta=ctx.tensor([sg[k] * start[k] for k in range(2)]), grid_points=2, population_theta=ctx.tensor(PEOPLE * np.array(sg)))
        v = ctx.real("ability", start[d], float(PEOPLE[:, d].max()))
        B = b.transform(ctx.tensor(np.array([[sg[k] * (v if k == d else 0.3) for k in range(2)]], dtype=object)))
        row = lambda v: [v if k == d else middle[k] for k in range(2)]
        ctx.eq(ctx.vals(B)[0, d], path_length(ctx, m, [row(sg[d] * start[d]), row(sg[d] * v)], [0, 1]), "entropy change with the other ability at the population's median", tol=2e-3)
    return f


def jacobian(cfg, positive, items=None, n=1):
    def f(ctx):
        m = cfg.model(ctx)
        signs(ctx, m, cfg, [positive])
        b = Bit(m, items=items, grid_points=2)
        th, x = ctx.theta(n, 1, -2, 2)
        J = b.jacobian(th.clone())
        ctx.shape(J, (n, 1, 1), "bit Jacobian")
        J = ctx.vals(J)
        P = ctx.vals(m.item_probabilities(th))
        D = ctx.jac(m.item_probabilities, th)
        for r in range(n):
            want = 0
            for i in items or range(cfg.items):
                want = want + ctx.abs(ctx.sum([D[r, i, k, r, 0] * ctx.log(P[r, i, k]) for k in range(cfg.cats[i])])) / ctx.log(2)
            ctx.eq(J[r, 0, 0], want if positive else -want, f"respondent {r}: derivative of the bit score is the summed speed of the item entropies", tol=4e-3)
    return f


for p in (True, False):
    s = "" if p else "-negative"
    add(f"one/2PL{s}", one(two(), p))
    add(f"one-two/2PL{s}", one(two(), p, n=2))
    add(f"jacobian/2PL{s}", jacobian(two(), p, n=2))
add("one/GPC", one(GPC, True))
add("one/items", one(two(), True, items=[1]))
add("one/population", one(two(), True, population=True))
add("one/population-negative", one(two(), False, population=True), tier="thorough", timeout=300)
add("jacobian/GPC", jacobian(GPC, True))
add("jacobian/items", jacobian(two(2), True, items=[1]))
add("multi", multi([True, True]))
add("multi-mixed", multi([True, False]))
for p in ([True, True], [True, False], [False, True]):
    for d in range(2):
        add(f"among/{'+' if p[0] else '-'}{'+' if p[1] else '-'}/{d}", among(p, d), tier="quick" if p[0] else "thorough")
