"""Rational quadratic spline: strictly increasing bijection, inverse, log-derivatives, linear tails."""
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch.torch_modules import RationalQuadraticSpline


def spline(ctx, K, variables=1, bounds=(-2, 2, -3, 3), free=False, tied=False):
    """bins with relative sizes proportional to positive symbols q (every softmax output arises),
    interior slopes min_derivative + v for positive symbols v"""
    li, ui, lo, uo = bounds
    s = ctx.build(lambda: RationalQuadraticSpline(variables, num_bins=K, lower_input_bound=li, upper_input_bound=ui, lower_output_bound=lo,
                                                  upper_output_bound=uo, free_endpoints=free, min_bin_width=0.0078125, min_bin_height=0.0078125,
                                                  min_derivative=0.0078125))
    ctx.symbolize(s, only=["none"])
    q = np.empty((variables, K), dtype=object)
    h = np.empty((variables, K), dtype=object)
    v = np.empty((variables, K - 1), dtype=object)
    for a in range(variables):
        for k in range(K):
            if tied:      # one symbol shapes all bins
                t = ctx.real(f"t{a}", 0.25, 4) if k == 0 else t
                q[a, k], h[a, k] = [(1, 1), (t, 1), (1, t), (1, 1)][k]
            else:
                q[a, k] = ctx.real(f"w{a}_{k}", 0.25, 4) if k else 1
                h[a, k] = ctx.real(f"h{a}_{k}", 0.25, 4) if k else 1
        for k in range(K - 1):
            v[a, k] = ctx.real(f"v{a}_{k}", 0.25, 4)
    ctx.assign(s, "unnormalized_widths", np.vectorize(lambda z: ctx.log(z) if not isinstance(z, int) else 0, otypes=[object])(q))
    ctx.assign(s, "unnormalized_heights", np.vectorize(lambda z: ctx.log(z) if not isinstance(z, int) else 0, otypes=[object])(h))
    ctx.assign(s, "unnormalized_derivatives", np.vectorize(lambda z: ctx.log(ctx.exp(z) - 1), otypes=[object])(v))
    lo_, uo_ = lo, uo
    if free:
        lo_, g = ctx.real("low", -2, 2), ctx.real("gap", 0.5, 4)
        uo_ = lo_ + g
        ctx.assign(s, "lower_output_bound", np.array(lo_, dtype=object))
        ctx.assign(s, "upper_output_bound", np.array(uo_, dtype=object))
    m = 0.0078125
    W = [[(m + (1 - K * m) * q[a, k] / sum(q[a])) * (ui - li) for k in range(K)] for a in range(variables)]
    H = [[(m + (1 - K * m) * h[a, k] / sum(h[a])) * (uo_ - lo_) for k in range(K)] for a in range(variables)]
    X = [[li + sum(W[a][:k], 0) for k in range(K + 1)] for a in range(variables)]
    Y = [[lo_ + sum(H[a][:k], 0) for k in range(K + 1)] for a in range(variables)]
    D = [[1] + [m + v[a, k] for k in range(K - 1)] + [1] for a in range(variables)]
    return s, W, H, X, Y, D


def inside(K, k, free=False, variables=1, bounds=(-2, 2, -3, 3), tied=False):
    def f(ctx):
        s, W, H, X, Y, D = spline(ctx, K, variables, bounds, free, tied)
        u = [ctx.real(f"s{a}", 0, 1000) for a in range(variables)]
        u = [z / (1 + z) for z in u]           # every relative position in the bin
        kk = [(k + a) % K for a in range(variables)]
        x = ctx.tensor(np.array([[X[a][kk[a]] + u[a] * W[a][kk[a]] for a in range(variables)]], dtype=object))
        y, ld = s(x)
        ctx.shape(y, (1, variables), "spline output")
        ctx.shape(ld, (1, variables), "log derivative")
        Yv, L = ctx.vals(y), ctx.vals(ld)
        wants, ders = [], []
        for a in range(variables):
            w, h, d0, d1, t = W[a][kk[a]], H[a][kk[a]], D[a][kk[a]], D[a][kk[a] + 1], u[a]
            sl = h / w
            den = sl + (d0 + d1 - 2 * sl) * t * (1 - t)
            want = Y[a][kk[a]] + h * (sl * t * t + d0 * t * (1 - t)) / den
            ctx.eq(Yv[0, a], want, f"variable {a}: value in bin {kk[a]}", tol=4e-3)
            der = sl * sl * (d1 * t * t + 2 * sl * t * (1 - t) + d0 * (1 - t) * (1 - t)) / (den * den)
            ctx.eq(ctx.exp(L[0, a]), der, f"variable {a}: log derivative in bin {kk[a]}", tol=4e-2)
            ctx.lt(0, der, f"variable {a}: the slope in bin {kk[a]} is positive")
            wants.append(want)
            ders.append(der)
        z, li = s(ctx.tensor(np.array([wants], dtype=object)), inverse=True)   # the values just shown to be the spline's
        Z, I = ctx.vals(z), ctx.vals(li)
        for a in range(variables):
            ctx.eq(Z[0, a], ctx.vals(x)[0, a], f"variable {a}: inverse undoes the transformation in bin {kk[a]}", tol=4e-3)
            ctx.eq(ctx.exp(I[0, a]) * ders[a], 1, f"variable {a}: log derivative of the inverse in bin {kk[a]}", tol=2e-2)
    return f


def tails(free, bounds=(-2, 2, -3, 3)):
    def f(ctx):
        s, W, H, X, Y, D = spline(ctx, 2, 1, bounds, free)
        li, ui, lo, uo = bounds
        r = (uo - lo) / (ui - li)
        t = ctx.real("t", 0, 3, lo_open=True)
        for side, x0, y0, sg in (("below", X[0][0], Y[0][0], -1), ("above", X[0][2], Y[0][2], 1)):
            x = ctx.tensor(np.array([[x0 + sg * t]], dtype=object))
            y, l = s(x)
            ctx.eq(ctx.vals(y)[0, 0], y0 + sg * t * r, f"{side}: linear continuation with the overall slope", tol=2e-3)
            ctx.eq(ctx.vals(l)[0, 0], math.log(r), f"{side}: log derivative is that of the linear continuation", tol=2e-3)
            z, l = s(y, inverse=True)
            ctx.eq(ctx.vals(z)[0, 0], x0 + sg * t, f"{side}: inverse undoes the transformation", tol=2e-3)
            ctx.eq(ctx.vals(l)[0, 0], -math.log(r), f"{side}: log derivative of the inverse", tol=2e-3)
    return f


def edge(K, free):
    def f(ctx):
        s, W, H, X, Y, D = spline(ctx, K, 1, (-2, 2, -3, 3), free, tied=K > 2)
        for side, x0, y0 in (("lower", -2, -3), ("upper", 2, 3)):
            y, _ = s(ctx.tensor(np.array([[x0]], dtype=object)))
            ctx.eq(ctx.vals(y)[0, 0], y0, f"{side} end of the interval is mapped to the {side} end", tol=2e-3)
            z, _ = s(ctx.tensor(np.array([[y0]], dtype=object)), inverse=True)
            ctx.eq(ctx.vals(z)[0, 0], x0, f"{side} end of the interval is mapped back", tol=2e-3)
    return f


for k in range(2):
    add(f"inside/2-{k}", inside(2, k))
    add(f"inside/2-{k}-free", inside(2, k, free=True))
for k in range(3):
    add(f"inside/3-{k}", inside(3, k, tied=True))
add("inside/3-two", inside(3, 1, variables=2, bounds=(-1, 1, -1, 1), tied=True))
add("tails", tails(False))
add("tails/free", tails(True))
add("edge/2", edge(2, False))
add("edge/3", edge(3, False))
for k in range(4):
    add(f"inside/4-{k}", inside(4, k, tied=True), tier="thorough", timeout=600)
add("inside/2-two", inside(2, 0, variables=2), tier="thorough", timeout=600)
add("inside/3-1-free", inside(3, 1, free=True, tied=True), tier="thorough", timeout=600)
