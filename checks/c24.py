"""Outlier detection follows the interquartile range rule, and refuses what it cannot answer."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.outlier_detector import OutlierDetector


def quartiles(ctx, col):
    """25 % and 75 % points of a column by linear interpolation between its sorted values; also the sorted values"""
    s = []
    for v in col:
        k = 0
        while k < len(s) and ctx.branch(s[k] <= v):
            k += 1
        s.insert(k, v)
    out = []
    for q in (0.25, 0.75):
        pos = q * (len(s) - 1)
        k = int(pos)
        out.append(s[k] if pos == k else s[k] + (s[k + 1] - s[k]) * (pos - k))
    return out, s


def fences(ctx, x, f):
    out = []
    for c in range(x.shape[1]):
        (q1, q3), s = quartiles(ctx, x[:, c])
        out.append((q1 - f * (q3 - q1), q3 + f * (q3 - q1), s))
    return out


def detector(ctx, factor):
    f = ctx.real("factor", 1, 4) if factor is None else factor
    d = OutlierDetector(factor=f)
    ctx.eq(d.factor, f, "the factor is kept", tol=0)
    return d, f


CASES = {"both": (True, True), "upper": (True, False), "lower": (False, True)}


def identify(n, cols, side, factor=None):
    def f(ctx):
        d, k = detector(ctx, factor)
        x = ctx.reals("x", (n, cols), -5, 5)
        up, lo = CASES[side]
        g = d.identify_outliers(ctx.tensor(x)) if side == "both" else d.identify_outliers(ctx.tensor(x), upper=up, lower=lo)
        judge(ctx, ctx.vals(g), x, fences(ctx, x, k), up, lo)
    return f


def judge(ctx, g, x, fs, up, lo):
    ctx.prove(g.shape == x.shape, "one verdict per value")
    for r, c in np.ndindex(*x.shape):
        a, b, _ = fs[c]
        v = x[r, c]
        gap = 1e-3          # values this close to a fence may go either way in float32
        ctx.prove(ctx.or_(g[r, c], ctx.not_(ctx.or_(v < a - gap if lo else False, v > b + gap if up else False))), f"[{r},{c}]: a value beyond the fence is an outlier")
        ctx.prove(ctx.or_(ctx.not_(g[r, c]), v < a + gap if lo else False, v > b - gap if up else False), f"[{r},{c}]: an outlier lies beyond the fence")


def new(n, cols, side, obs=2):
    def f(ctx):
        d, k = detector(ctx, None)
        x, y = ctx.reals("x", (n, cols), -5, 5), ctx.reals("y", (obs, cols), -20, 20)
        up, lo = CASES[side]
        g = d.is_outlier(ctx.tensor(y), ctx.tensor(x), upper=up, lower=lo)
        judge(ctx, ctx.vals(g), y, fences(ctx, x, k), up, lo)
    return f


def extreme(n, cols, smallest):
    def f(ctx):
        d, k = detector(ctx, None)
        x = ctx.reals("x", (n, cols), -5, 5)
        fs = fences(ctx, x, k)
        for (a, b, s) in fs:                     # no value at a fence (it could go either way in float32)
            for v in s:
                ctx.assume(ctx.and_(ctx.abs(v - a) >= 1e-3, ctx.abs(v - b) >= 1e-3))
        g = ctx.vals(d.smallest_largest_non_outlier(ctx.tensor(x), smallest=smallest))
        ctx.prove(g.shape == (1, cols), "one value per column")
        for c, (a, b, s) in enumerate(fs):
            for v in (s if smallest else s[::-1]):
                if ctx.branch(ctx.and_(v >= a, v <= b)):
                    ctx.eq(g[0, c], v, f"column {c}: the {'smallest' if smallest else 'largest'} value within the fences")
                    break
            else:
                ctx.prove(False, f"column {c}: there is a value within the fences")
    return f


def refusals(ctx):
    x = ctx.tensor(ctx.reals("x", (3, 2), -1, 1))
    d = OutlierDetector()

    def refused(f, what):
        try:
            f()
        except ValueError:
            return
        ctx.prove(False, what)
    ctx.prove(d.factor == 1.5, "the default factor is 1.5")
    for bad in (0.99, 0, -1.5):
        refused(lambda: OutlierDetector(bad), f"factor {bad} is refused")
        refused(lambda: setattr(d, "factor", bad), f"setting factor {bad} is refused")
    k = ctx.real("k", -3, 0.99)
    refused(lambda: OutlierDetector(k), "any factor below one is refused")
    ctx.prove(d.factor == 1.5, "a refused factor is not kept")
    refused(lambda: d.identify_outliers(x[:, 0]), "one-dimensional data are refused")
    refused(lambda: d.smallest_largest_non_outlier(x[:, 0]), "one-dimensional data are refused by the extremes")
    refused(lambda: d.is_outlier(x[:, :1], x), "observations with other columns are refused")
    refused(lambda: d.is_outlier(x[0], x), "one-dimensional observations are refused")
    refused(lambda: d.identify_outliers(x, upper=False, lower=False), "no side at all is refused")
    refused(lambda: d.is_outlier(x, x, upper=False, lower=False), "no side at all is refused for new observations")


def spreadless(ctx):
    """a column (nearly) without spread: the common value lies on the fences and is regular, anything else is not"""
    d, k = detector(ctx, None)
    v, o = ctx.real("v", -4, 4), ctx.reals("o", (2,), -5, 5)
    for w in o:
        ctx.assume(ctx.abs(w - v) >= 0.1)
    x = np.array([[v, o[0], v], [v, v, o[1]], [v, v, v], [o[0], v, v], [v, v, v]], dtype=object)
    t = ctx.tensor(x)
    for sm in (True, False):
        g = ctx.vals(d.smallest_largest_non_outlier(t, smallest=sm))
        for c in range(3):
            ctx.eq(g[0, c], v, f"column {c}: the {'smallest' if sm else 'largest'} regular value is the common one", tol=0)
    g, n = ctx.vals(d.identify_outliers(t)), ctx.vals(d.is_outlier(t, t))
    for r, c in np.ndindex(5, 3):
        for what, b in (("", g), (" (as new observation)", n)):
            ctx.prove(b[r, c] if x[r, c] is not v else ctx.not_(b[r, c]), f"[{r},{c}]: {'an outlier' if x[r, c] is not v else 'no outlier'}{what}")


add("spreadless", spreadless)
add("refusals", refusals)
for s in CASES:
    add(f"identify/3/{s}", identify(3, 1, s))
    add(f"new/3/{s}", new(3, 1, s))
add("identify/2x2", identify(2, 2, "both"))
add("identify/4/default", identify(4, 1, "both", 1.5))
add("identify/5/default", identify(5, 1, "both", 1.5), tier="thorough")
add("new/2x2", new(2, 2, "upper", 1))
for sm in (True, False):
    add(f"extreme/3/{'smallest' if sm else 'largest'}", extreme(3, 1, sm))
    add(f"extreme/4/{'smallest' if sm else 'largest'}", extreme(4, 1, sm), tier="thorough")
    add(f"extreme/2x2/{'smallest' if sm else 'largest'}", extreme(2, 2, sm))
