"""Ability densities and the interpolation and quantile functions behind them."""
import itertools
import math
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch import latent_variable_functions as L
from irtorch.quantile_mv_normal import QuantileMVNormal
from irtorch.torch_modules import GaussianMixtureModel
from irtorch.models import TwoParameterLogistic


def order(ctx, x):
    """indices sorted by value; one path per order"""
    idx = []
    for k in range(len(x)):
        p = 0
        while p < len(idx) and ctx.branch(x[idx[p]] <= x[k]):
            p += 1
        idx.insert(p, k)
    return idx


def interpolation(n, new=1):
    def f(ctx):
        x, y, t = ctx.reals("x", (n,), -3, 3), ctx.reals("y", (n,), -3, 3), ctx.reals("t", (new,), -5, 5)
        for i, j in itertools.combinations(range(n), 2):
            ctx.assume(ctx.or_(x[i] - x[j] >= 0.1, x[j] - x[i] >= 0.1))
        g = ctx.vals(L.interp(ctx.tensor(t), ctx.tensor(x), ctx.tensor(y)))
        ix = order(ctx, x)
        xs, ys = [x[k] for k in ix], [y[k] for k in ix]
        ctx.prove(g.shape == (new,), "one value per point")
        for q in range(new):
            k = 0
            while k < n - 2 and ctx.branch(t[q] > xs[k + 1]):
                k += 1
            e = ys[k] + (ys[k + 1] - ys[k]) * (t[q] - xs[k]) / (xs[k + 1] - xs[k])
            ctx.eq(g[q], e, f"point {q} lies on the line through the neighbouring (or outermost) points", tol=2e-3)
    return f


add("interp/2", interpolation(2))
add("interp/3", interpolation(3))
add("interp/3/two", interpolation(3, 2), tier="thorough")
add("interp/4", interpolation(4), tier="thorough")


def ties(pattern):
    """shared x-values: the line is that through the nearest distinct points, and nothing is infinite"""
    def f(ctx):
        u = ctx.reals("u", (max(pattern) + 1,), -3, 3)
        for a in range(max(pattern)):
            ctx.assume(u[a + 1] - u[a] >= 0.1)
        x = np.array([u[p] for p in pattern], dtype=object)
        y = ctx.reals("y", (len(pattern),), -3, 3)
        for k in range(len(pattern) - 1):
            ctx.assume(y[k] <= y[k + 1])
        t = ctx.real("t", -5, 5)
        g = ctx.vals(L.interp(ctx.tensor(np.array([t], dtype=object)), ctx.tensor(x), ctx.tensor(y)))[0]
        ctx.finite(g, "the value is finite")
        if ctx.branch(t < u[0]):
            ctx.le(g, y[0], "not above the smallest value to the left", tol=1e-3)
        elif ctx.branch(t > u[-1]):
            ctx.le(y[-1], g, "not below the largest value to the right", tol=1e-3)
        else:
            ctx.le(g, y[-1], "within the values in between", tol=1e-3)
            ctx.le(y[0], g, "within the values in between", tol=1e-3)
    return f


for p in ((0, 0, 1), (0, 1, 1), (0, 0, 1, 1), (0, 1, 1, 2)):
    add("interp/ties/" + "".join(map(str, p)), ties(p))


def quantiles(n, cols):
    def f(ctx):
        x = ctx.reals("x", (n, cols), -3, 3)
        for c in range(cols):
            for i, j in itertools.combinations(range(n), 2):
                ctx.assume(ctx.or_(x[i, c] - x[j, c] >= 0.01, x[j, c] - x[i, c] >= 0.01))
        g = ctx.vals(L.quantile_transform(ctx.tensor(x)))
        z = ctx.vals(torch.distributions.Normal(0, 1).icdf(torch.arange(1, n + 1).float() / (n + 1)))
        for c in range(cols):
            for rank, r in enumerate(order(ctx, x[:, c])):
                ctx.eq(g[r, c], z[rank], f"row {r} of column {c} becomes the normal quantile of its rank", tol=1e-4)
    return f


add("quantile_transform/3", quantiles(3, 1))
add("quantile_transform/2x2", quantiles(2, 2))
add("quantile_transform/4", quantiles(4, 1), tier="thorough")


def tied_quantiles(ctx):
    x = ctx.reals("x", (3, 1), -3, 3)
    g = ctx.vals(L.quantile_transform(ctx.tensor(x)))
    z = ctx.vals(torch.distributions.Normal(0, 1).icdf(torch.arange(1, 4).float() / 4))
    for i in range(3):
        ctx.prove(ctx.or_(*[ctx.abs(g[i, 0] - v) <= 1e-3 for v in z]), f"row {i} is one of the quantiles")
        for j in range(3):
            if i != j:
                ctx.prove(ctx.implies(x[i, 0] < x[j, 0], g[i, 0] < g[j, 0]), f"row {i} below row {j} stays below")
                ctx.prove(ctx.abs(g[i, 0] - g[j, 0]) >= 1e-3, f"rows {i},{j} get different quantiles")


add("quantile_transform/ties", tied_quantiles)


def qmvn(data):
    """the density is the normal density, with the transformed abilities' mean and covariance, at the interpolated quantiles"""
    def f(ctx):
        data_ = torch.tensor(data)
        n, K = data_.shape
        q = QuantileMVNormal()
        q.fit(data_)
        t = ctx.reals("t", (2, K), -4, 4)
        g = ctx.vals(q.pdf(ctx.tensor(t)))
        ctx.prove(g.shape == (2,), "one value per point")
        z = L.quantile_transform(data_)
        mean = z.sum(0) / n
        cov = (z - mean).T @ (z - mean) / (n - 1)
        at = torch.stack([L.interp(ctx.tensor(t[:, k]), data_[:, k], z[:, k]) for k in range(K)], dim=1)
        ref = ctx.vals(torch.distributions.MultivariateNormal(mean, cov).log_prob(at))
        for r in range(2):
            ctx.finite(g[r], f"density at point {r} is finite")
            ctx.eq(g[r], ctx.exp(ref[r]), f"density at point {r} is that of its normal quantiles", tol=1e-4)
    return f


add("qmvn/1d", qmvn([[-1.0], [0.5], [2.0]]))
add("qmvn/1d/ties", qmvn([[-1.0], [-1.0], [2.0]]))
add("qmvn/2d", qmvn([[-1.0, 2.0], [0.5, -0.5], [2.0, 1.0]]))
add("qmvn/2d/ties", qmvn([[-1.0, 2.0], [-1.0, -0.5], [2.0, 2.0], [1.0, 0.0]]))


# ------------------------------------------------------------------ Gaussian mixtures
FIXED = {1: [[[1.0]], [[1.5]], [[0.5]]], 2: [[[1.0, 0.0], [0.5, 1.5]], [[1.25, 0.0], [-0.5, 0.75]]]}


def mixture(ctx, k, K, free=True):
    """symbolic weights and means; covariances free (one ability) or fixed"""
    g = ctx.build(lambda: GaussianMixtureModel(n_components=k, n_features=K))
    w, mu = ctx.reals("w", (k,), 0.1, 0.9), ctx.reals("mu", (k, K), -2, 2)
    if k == 2:
        w[1] = 1 - w[0]
    elif k == 1:
        w[0] = 1
    S, C = np.empty((k, K, K), dtype=object), np.empty((k, K, K), dtype=object)
    if free and K == 1:
        S = ctx.reals("var", (k, 1, 1), 0.25, 4)
        for c in range(k):
            C[c, 0, 0] = ctx.sqrt(S[c, 0, 0])
    else:
        for c in range(k):
            C[c] = np.array(FIXED[K][c])
            S[c] = np.array(FIXED[K][c]) @ np.array(FIXED[K][c]).T
    for n, v in (("weights", w), ("means", mu), ("covariances", S)):
        ctx.assign(g, n, v)
    return g, w, mu, C, S


def normal(ctx, x, mu, C):
    """normal density with covariance C C' at x"""
    K, z = len(x), []
    for i in range(K):
        z.append((x[i] - mu[i] - ctx.sum([0] + [C[i, j] * z[j] for j in range(i)])) / C[i, i])
    e = -0.5 * (K * math.log(2 * math.pi) + ctx.sum([v * v for v in z]))
    return ctx.exp(e) / ctx.prod([C[i, i] for i in range(K)])


def gmm_pdf(k, K, n=2):
    def f(ctx):
        g, w, mu, C, S = mixture(ctx, k, K)
        x = ctx.reals("x", (n, K), -2, 2)
        p, ll = ctx.vals(g.pdf(ctx.tensor(x)).detach()), ctx.vals(g(ctx.tensor(x)).detach())
        e = [ctx.sum([w[c] * normal(ctx, x[r], mu[c], C[c]) for c in range(k)]) for r in range(n)]
        for r in range(n):
            ctx.eq(p[r], e[r], f"density at point {r} is the weighted sum of the components' densities", tol=1e-4)
        ctx.eq(ctx.exp(ll[()]), ctx.prod(e), "the log-likelihood is the log of the product of the densities")
    return f


add("gmm/1/1d", gmm_pdf(1, 1))
add("gmm/2/1d", gmm_pdf(2, 1))
add("gmm/1/2d", gmm_pdf(1, 2, 1))
add("gmm/2/2d", gmm_pdf(2, 2, 1))
add("gmm/3/1d", gmm_pdf(3, 1))


def em(k, K, n, free=False):
    """one iteration: posterior component shares, then weighted shares, means and covariances"""
    def f(ctx):
        g, w, mu, C, S = mixture(ctx, k, K, free)
        x = ctx.reals("x", (n, K), -2, 2)
        g.fit(ctx.tensor(x), iterations=1)
        W, M, V = (ctx.vals(p.detach()) for p in (g.weights, g.means, g.covariances))
        R = []
        for r in range(n):
            d = [w[c] * normal(ctx, x[r], mu[c], C[c]) for c in range(k)]
            t = ctx.sum(d)
            R.append([v / t for v in d])
        for c in range(k):
            tot = ctx.sum([R[r][c] for r in range(n)])
            ctx.eq(W[c], tot / n, f"share of component {c}", tol=1e-4)
            mean = [ctx.sum([R[r][c] * x[r, a] for r in range(n)]) / tot for a in range(K)]
            for a in range(K):
                ctx.eq(M[c, a], mean[a], f"mean {a} of component {c}")
                for b in range(a + 1):
                    v = ctx.sum([R[r][c] * (x[r, a] - mean[a]) * (x[r, b] - mean[b]) for r in range(n)]) / tot
                    ctx.eq(V[c, a, b], v, f"covariance {a},{b} of component {c}")
    return f


add("em/1/1d", em(1, 1, 3))
add("em/2/1d", em(2, 1, 2))
add("em/1/2d", em(1, 2, 2))
add("em/2/2d", em(2, 2, 3))
add("em/2/1d/three", em(2, 1, 3))
add("em/2/1d/free", em(2, 1, 2, True))
add("em/3/1d", em(3, 1, 3, True), tier="thorough")


def choice(comps):
    """the number of components with the highest average held-out log-likelihood is fitted to everybody"""
    def f(ctx):
        m = ctx.build(lambda: TwoParameterLogistic(items=2))
        data = torch.arange(10.)[:, None]
        fits, evals = [], []

        def fit(self, d, *a, **k):
            fits.append((self, self.n_components, d[:, 0].tolist()))

        def forward(self, d):
            v = ctx.real(f"ll{len(evals)}", -3, 0)
            evals.append((self, d[:, 0].tolist(), v))
            return ctx.tensor(np.array(v, dtype=object))
        with mock.patch.object(GaussianMixtureModel, "fit", fit), mock.patch.object(GaussianMixtureModel, "forward", forward):
            m.evaluate.approximate_latent_density(data, "gmm", cv_n_components=list(comps))
        got = m.evaluate.latent_density
        ctx.prove(fits[-1][0] is got and sorted(fits[-1][2]) == list(range(10)), "the final mixture is fitted to everybody")
        if len(comps) == 1:
            ctx.prove(got.n_components == comps[0], "the only choice is used")
            return
        avg = {}
        for c in comps:
            mine = [(e, next(f for f in fits if f[0] is e[0])) for e in evals if e[0].n_components == c]
            ctx.prove(sorted(v for e, _ in mine for v in e[1]) == list(range(10)), f"{c} components: everybody is held out once")
            ctx.prove(all(sorted(e[1] + f[2]) == list(range(10)) for e, f in mine), f"{c} components: evaluated on those not fitted to")
            avg[c] = ctx.sum([e[2] for e, _ in mine]) / len(mine)
        for c in comps:
            ctx.le(avg[c], avg[got.n_components], f"{c} components are not better than those chosen", tol=1e-4)
    return f


add("components/2", choice((2, 3)))
add("components/3", choice((3, 1, 2)))
add("components/1", choice((4,)))


def wiring(ctx):
    """the quantile normal approximation is fitted to the abilities given"""
    m = ctx.build(lambda: TwoParameterLogistic(items=2))
    data = torch.tensor([[-1.0], [0.5], [2.0]])
    t = ctx.reals("t", (1, 1), -3, 3)
    m.evaluate.approximate_latent_density(data, "qmvn")
    q = QuantileMVNormal()
    q.fit(data)
    a, b = ctx.vals(m.evaluate.latent_density.pdf(ctx.tensor(t))), ctx.vals(q.pdf(ctx.tensor(t)))
    ctx.eq(a[0], b[0], "the density of the abilities given", tol=1e-5)
    try:
        m.evaluate.approximate_latent_density(data, "histogram")
        ctx.prove(False, "an unknown approximation is refused")
    except ValueError:
        ctx.prove(True, "an unknown approximation is refused")


add("approximation", wiring)
