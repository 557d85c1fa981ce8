"""Fitted scales optimise what they promise: flows the likelihood of the target density, links the divergence of the common items; rank scales use average ranks."""
import itertools
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic
from irtorch.rescale import Flow, LinkCommonItems, RankCDF
from irtorch.torch_modules import NeuralSplineFlow, RationalQuadraticSpline
from . import scales as SC
from .common import Cfg, ref_2pl, ref_gpc, mean_of
from .fit import training, in_order, Recorder

LOG2PI = 1.8378770664093453


def stubbed(variables):
    """whatever the transformation and the base distribution"""
    def f(ctx):
        s = SC.half_spline(ctx, variables)
        mu, sd = 0.5, 2.0
        fl = NeuralSplineFlow(s, torch.distributions.Normal(mu, sd))
        th, x = ctx.theta(2, variables)
        y, ld, seen = ctx.reals("y", (2, variables), -3, 3), ctx.reals("ld", (2, variables), -2, 2), []

        def forward(inputs, inverse=False):
            seen.append((inputs, inverse))
            return ctx.tensor(y), ctx.tensor(ld)
        s.forward = forward
        g = ctx.vals(fl.log_prob(th))
        ctx.prove(g.shape == (2, variables), "one log density per ability")
        for r, a in np.ndindex(2, variables):
            z = (y[r, a] - mu) / sd
            ctx.eq(g[r, a], -z * z / 2 - LOG2PI / 2 - ctx.log(sd) + ld[r, a], f"[{r},{a}]: base density of the image times the slope")
        ctx.eqs(ctx.vals(fl(th)), y, "the image")
        ctx.eqs(ctx.vals(fl.inverse(th)), y, "the inverse image")
        ctx.prove([i for _, i in seen] == [False, False, True], "forwards for density and image, backwards for the inverse")
        for v, _ in seen:
            ctx.eqs(ctx.vals(v), x, "of the abilities given")
    return f


add("flow/density/any spline", stubbed(2))


def flow_fit(variables, n, steps=1):
    """each step: minus the mean log density of the standardised abilities, and its gradient"""
    def f(ctx):
        x = ctx.reals("x", (n, variables), -2, 2)
        for a in range(variables):
            m = mean_of(ctx, list(x[:, a]))
            ctx.assume(ctx.sum([(v - m) * (v - m) for v in x[:, a]]) >= 0.1)
        tr = ctx.build(lambda: RationalQuadraticSpline(variables, num_bins=2, lower_input_bound=-2, upper_input_bound=2, lower_output_bound=-3, upper_output_bound=3))
        fl = Flow(variables)
        seen = []
        scale = {}

        def log_prob(self, value):
            seen.append(value)
            w = self._transformation.unnormalized_heights.sum()
            v = ctx.reals(f"lp{len(seen)}_", tuple(value.shape), -3, 3)
            scale[len(seen)] = v
            return ctx.tensor(v) * w
        start = None

        def free(p):
            with torch.no_grad():
                ctx.assign(tr, "unnormalized_heights", ctx.reals("h", tuple(tr.unnormalized_heights.shape), -1, 1))
        free(None)
        h = ctx.param(tr, "unnormalized_heights")
        losses = []
        with training() as log, in_order(), mock.patch.object(NeuralSplineFlow, "log_prob", log_prob):
            fl.fit(ctx.tensor(x), transformation=tr, max_epochs=steps, device="cpu")
        ctx.prove(len(seen) == steps and len(log) == steps, "one step per epoch on all abilities")
        z = np.empty((n, variables), dtype=object)
        for a in range(variables):
            col = list(x[:, a])
            m = mean_of(ctx, col)
            sd = ctx.sqrt(ctx.sum([(v - m) * (v - m) for v in col]) / (n - 1))
            for r in range(n):
                z[r, a] = (x[r, a] - m) / sd
            ctx.eq(ctx.vals(fl.theta_means)[a], m, f"ability {a}: mean is kept")
            ctx.eq(ctx.vals(fl.theta_stds)[a], sd, f"ability {a}: standard deviation is kept")
        for k in range(steps):
            V = ctx.vals(seen[k])
            for r, a in np.ndindex(n, variables):
                ctx.eq(V[r, a], z[r, a], f"step {k}: respondent {r}'s standardised ability {a} is scored", tol=2e-3)
            grads = {id(p): g for p, g in log[k]}
            g = [g for p, g in log[k] if tuple(p.shape) == tuple(tr.unnormalized_heights.shape) and p is tr.unnormalized_heights]
            ctx.prove(len(g) == 1 and g[0] is not None, f"step {k}: the flow's parameters are optimised")
            want = -ctx.sum([scale[k + 1][ix] for ix in np.ndindex(n, variables)]) / (n * variables)
            for v in ctx.vals(g[0]).reshape(-1):
                ctx.eq(v, want, f"step {k}: gradient of minus the mean log density")
        ctx.prove(not fl.flow.training, "the fitted flow is in evaluation mode")
    return f


add("flow/fit/1", flow_fit(1, 2))
add("flow/fit/3 respondents", flow_fit(1, 3))
add("flow/fit/two", flow_fit(2, 2))


def standardised(variables):
    """the transformation is the flow of the standardised abilities, the flow's image"""
    def f(ctx):
        fl = SC.flow(ctx, variables)
        th, x = ctx.theta(1, variables, -1, 1)
        seen = []
        fl.flow.forward = lambda v: (seen.append(v), ctx.tensor(ctx.reals("y", (1, variables), -3, 3)))[1]
        out = ctx.vals(fl.transform(th))
        m, sd = ctx.vals(fl.theta_means), ctx.vals(fl.theta_stds)
        V = ctx.vals(seen[0])
        for a in range(variables):
            ctx.eq(V[0, a], (x[0, a] - m[a]) / sd[a], f"ability {a} is standardised")
        ctx.eqs(out, ctx.reals("y", (1, variables), -3, 3), "the flow's image")
    return f


def unfitted(ctx):
    th, _ = ctx.theta(1, 1)
    fl = Flow(1)
    for what, f in (("transform", fl.transform), ("inverse", fl.inverse), ("jacobian", fl.jacobian)):
        try:
            f(th)
            ok = False
        except ValueError:
            ok = True
        ctx.prove(ok, f"{what} of a flow that was not fitted is refused")


add("flow/standardised", standardised(2))
add("flow/unfitted", unfitted)

# ------------------------------------------------------------------ linking
FROM = Cfg("from", lambda: GeneralizedPartialCredit(item_categories=[2, 3]), 1, [2, 3], ref=ref_gpc)
TO = Cfg("to", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
WIDE = Cfg("wide", lambda: GeneralizedPartialCredit(item_categories=[2, 4]), 1, [2, 4], ref=ref_gpc)
BIN = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
BIN3 = Cfg("2PL-3", lambda: TwoParameterLogistic(items=3), 1, [2, 2, 2], ref=ref_2pl)


def models(ctx, A, B):
    a = ctx.build(A.build)
    b = ctx.build(B.build)
    a.eval(), b.eval()
    ctx.symbolize(a, "a", -2, 2), ctx.symbolize(b, "b", -2, 2)
    return a, b


def divergence(ctx, A, a, B, b, ia, ib, x, y):
    """mean over respondents and common items of the divergence of the linked from the original response distribution"""
    tot, n = [], len(x)
    for r in range(n):
        P, Q = A.ref(ctx, a, A, [x[r]]), B.ref(ctx, b, B, [y[r]])
        for i, j in zip(ia, ib):
            tot.append(ctx.sum([P[i][k] * (ctx.log(P[i][k]) - ctx.log(Q[j][k] + 1e-10)) for k in range(A.cats[i])]))
    return ctx.sum(tot) / (n * len(ia))


def link_loss(A, B, ia, ib, n=1):
    def f(ctx):
        a, b = models(ctx, A, B)
        with ctx.outside():
            l = LinkCommonItems(a, b, list(ia), list(ib))
        (th, x), (ty, y) = ctx.theta(n, 1, -2, 2, "x"), ctx.theta(n, 1, -2, 2, "y")
        g = ctx.vals(l._loss_function(th, ty)).reshape(())[()]
        ctx.eq(g, divergence(ctx, A, a, B, b, ia, ib, x[:, 0], y[:, 0]), "loss is the mean divergence over respondents and common items", tol=2e-4)
    return f


add("link/loss/2PL", link_loss(BIN, BIN, [0, 1], [1, 0]))
add("link/loss/2PL/2", link_loss(BIN, BIN3, [1], [2], 2))
add("link/loss/GPC", link_loss(FROM, TO, [0, 1], [1, 0]))
add("link/loss/fewer categories elsewhere", link_loss(WIDE, TO, [0], [1]))
add("link/loss/more categories elsewhere", link_loss(TO, WIDE, [1], [0]))
add("link/loss/GPC/2", link_loss(FROM, TO, [1, 0], [0, 1], 2), tier="thorough")


def link_fit(inverted):
    """a step evaluates the loss at the abilities and their transformed values and follows its gradient"""
    def f(ctx):
        l = SC.link(ctx, inverted)
        th, x = ctx.theta(2, 1, -2, 2)
        seen, c = [], ctx.reals("c", (2,), -1, 1)

        def transformed(t):
            seen.append(t)
            p = l._transformation.unnormalized_heights
            return ctx.tensor(c[:, None]) * p[0, 0], None
        l._transformation.forward = lambda t, inverse=False: transformed(t)
        losses = []

        def loss(a, b):
            losses.append((a, b))
            return (b * b).sum()
        l._loss_function = loss
        h = ctx.vals(l._transformation.unnormalized_heights).copy()
        with training() as log, in_order():
            l.fit(th, max_epochs=1, device="cpu")
        ctx.prove(len(losses) == 1 and len(log) == 1, "one step per epoch on all abilities")
        s = -1 if inverted else 1
        A, Bv = ctx.vals(losses[0][0]), ctx.vals(losses[0][1])
        for r in range(2):
            ctx.eq(A[r, 0], x[r, 0], f"respondent {r}: original ability")
            ctx.eq(Bv[r, 0], s * c[r] * h[0, 0], f"respondent {r}: transformed ability, reversed if asked for")
        g = [g for p, g in log[0] if p is l._transformation.unnormalized_heights]
        ctx.prove(len(g) == 1 and g[0] is not None, "the transformation's parameters are optimised")
        ctx.eq(ctx.vals(g[0])[0, 0], 2 * h[0, 0] * ctx.sum([v * v for v in c]), "gradient of the loss")
        own = {id(p) for p in l._transformation.parameters()}
        ctx.prove(all(id(p) in own for p, _ in log[0]), "the models are not changed by linking")
    return f


add("link/fit", link_fit(False))
add("link/fit/inverted", link_fit(True))


def link_monotone(inverted, neurons=3):
    """the neural network link is increasing (decreasing when inverted)"""
    def f(ctx):
        l = SC.link(ctx, inverted, method="neuralnet", neurons=neurons)
        th, x = ctx.theta(1, 1, -2, 2)
        t = l.transform(th)
        ctx.shape(t, (1, 1), "transformed ability")
        D = ctx.jac(l.transform, th)[0, 0, 0, 0]
        if inverted:
            ctx.le(D, 0, "decreasing", tol=1e-6)
        else:
            ctx.le(0, D, "increasing", tol=1e-6)
    return f


for inv in (False, True):
    add(f"link/monotone{'/inverted' if inv else ''}", link_monotone(inv), max_paths=2000)


def link_refused(ctx):
    x = ctx.real("x", -1, 1)
    a, b, two = SC.model(1), SC.model(1), SC.model(2)

    def refused(f, what):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        ctx.prove(ok, what)
    refused(lambda: LinkCommonItems(two, two, [0], [0]), "several abilities are refused")
    refused(lambda: LinkCommonItems(a, two, [0], [0]), "different numbers of abilities are refused")
    refused(lambda: LinkCommonItems(a, b, [0, 1], [0]), "different numbers of common items are refused")
    refused(lambda: LinkCommonItems(a, b, [], []), "no common items are refused")
    refused(lambda: LinkCommonItems(a, b, None, [0]), "missing common items are refused")
    refused(lambda: LinkCommonItems(a, b, [0], [0], method="other"), "an unknown method is refused")
    ctx.le(x, 1, "(formal)")


add("link/refused", link_refused)


# ------------------------------------------------------------------ rank scale
def rank(n, new, cols=1, dist=None, ties=()):
    def f(ctx):
        x = ctx.reals("x", (n, cols), -3, 3)
        for a, b in ties:
            for c in range(cols):
                x[b, c] = x[a, c]
        for c in range(cols):
            for i, j in itertools.combinations(range(n), 2):
                if (i, j) not in ties:
                    ctx.assume(ctx.or_(x[i, c] - x[j, c] >= 0.01, x[j, c] - x[i, c] >= 0.01))
        ds = None if dist is None else dist
        s = RankCDF(ctx.tensor(x), ds) if ds else RankCDF(ctx.tensor(x))
        y = ctx.reals("y", (new, cols), -4, 4) if new else x
        m = y.shape[0]
        g = s.transform(ctx.tensor(y))
        ctx.shape(g, (m, cols), "transformed abilities")
        G = ctx.vals(g)
        for c in range(cols):
            d = torch.distributions.Normal(0.0, 1.0) if ds is None else ds[c if len(ds) > 1 else 0]
            for r in range(m):
                near = 0
                for k in range(1, n):
                    if new and ctx.branch(ctx.abs(x[k, c] - y[r, c]) < ctx.abs(x[near, c] - y[r, c])):
                        near = k
                if not new:
                    near = r
                if new:
                    for k in range(n):
                        if k != near and (min(k, near), max(k, near)) not in ties:
                            ctx.assume(ctx.abs(x[k, c] - y[r, c]) - ctx.abs(x[near, c] - y[r, c]) >= 0.01)
                below = sum(1 for k in range(n) if k != near and (min(k, near), max(k, near)) not in ties and ctx.branch(x[k, c] < x[near, c]))
                same = 1 + sum(1 for k in range(n) if k != near and (min(k, near), max(k, near)) in ties)
                av = below + (same + 1) / 2
                want = ctx.vals(d.icdf(torch.tensor(av / (n + 1))))
                ctx.eq(G[r, c], want[()] if isinstance(want, np.ndarray) else want, f"[{r},{c}]: quantile of the average rank of the nearest known ability", tol=1e-4)
    return f


N = torch.distributions.Normal
add("rank/3", rank(3, 0))
add("rank/3/new", rank(3, 1))
add("rank/3/ties", rank(3, 0, ties=((0, 1),)))
add("rank/4/ties", rank(4, 0, ties=((0, 1), (0, 2), (1, 2))))
add("rank/3/ties/new", rank(3, 1, ties=((0, 2),)))
add("rank/2x2", rank(2, 0, 2))
add("rank/2x2/one distribution", rank(2, 0, 2, [N(1.0, 2.0)]))
add("rank/2x2/distributions", rank(2, 0, 2, [N(1.0, 2.0), N(-1.0, 0.5)]))
add("rank/4/new", rank(4, 1), tier="thorough")


def rank_order(ctx):
    """order is preserved, whatever the abilities"""
    x, y = ctx.reals("x", (3, 1), -3, 3), ctx.reals("y", (2, 1), -4, 4)
    s = RankCDF(ctx.tensor(x))
    G = ctx.vals(s.transform(ctx.tensor(y)))
    for r in range(2):
        ctx.finite(G[r, 0], "finite")
    ctx.prove(ctx.implies(y[0, 0] <= y[1, 0], G[0, 0] <= G[1, 0] + 1e-4), "a higher ability is not ranked lower")


add("rank/order", rank_order)
