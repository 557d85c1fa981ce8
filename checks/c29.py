"""The building blocks of the models compute what they state: bounded activation, non-negative layers, negation layers, monotone polynomials and B-splines."""
import itertools
import numpy as np
import torch
from torchsym.run import add
from irtorch.activation_functions import BoundedELU
from irtorch.torch_modules import SoftplusLinear, MonotonePolynomialModule, BSplineBasisFunction
from irtorch.torch_modules.negation_layer import NegationLayer
from splinetorch.b_spline_basis import b_spline_basis


# ------------------------------------------------------------------ bounded activation
def piece(ctx, x, alpha):
    if ctx.branch(x <= -1):
        return alpha * (ctx.exp(x + 1) - 1) - 1, alpha * ctx.exp(x + 1)
    if ctx.branch(x < 1):
        return x, 1
    return -alpha * (ctx.exp(1 - x) - 1) + 1, alpha * ctx.exp(1 - x)


def bounded(alpha, n=1, lo=-6, hi=6):
    def f(ctx):
        a = ctx.real("alpha", 0.25, 2) if alpha is None else alpha
        x = ctx.reals("x", (n,), lo, hi)
        t = ctx.tensor(x).requires_grad_(True)
        y = BoundedELU.apply(t, a) if alpha != 1.0 else BoundedELU.apply(t)
        c = ctx.reals("c", (n,), -2, 2)
        (y * ctx.tensor(c)).sum().backward()
        Y, G = ctx.vals(y), ctx.vals(t.grad)
        for k in range(n):
            v, d = piece(ctx, x[k], a)
            ctx.eq(Y[k], v, f"value {k}: linear in the middle, exponential towards the bounds")
            ctx.le(ctx.abs(Y[k]), 1 + a, f"value {k} is bounded", tol=1e-5)
            ctx.eq(G[k], c[k] * d, f"gradient {k} is the derivative times the incoming gradient")
    return f


def extreme(side):
    """no overflow however large the input"""
    def f(ctx):
        x = ctx.real("x", *sorted((side * 50, side * 5000)))
        t = ctx.tensor(np.array([x], dtype=object)).requires_grad_(True)
        y = BoundedELU.apply(t, 1.0)
        y.sum().backward()
        Y, G = ctx.vals(y)[0], ctx.vals(t.grad)[0]
        ctx.finite(Y, "value is finite")
        ctx.finite(G, "gradient is finite")
        ctx.eq(Y, side * (2 - ctx.exp(1 - side * x)), "value is next to the bound")
        ctx.eq(G, ctx.exp(1 - side * x), "gradient vanishes")
    return f


add("bounded/default", bounded(1.0))
add("bounded/0.5", bounded(0.5))
add("bounded/any", bounded(None))
add("bounded/two", bounded(1.0, 2))
add("bounded/large", extreme(1), float_range=True)
add("bounded/very negative", extreme(-1), float_range=True)


# ------------------------------------------------------------------ layers with non-negative weights
def allowed(i, o, zin, zout, gin, gout):
    if zout is not None and zout[o] or zin is not None and zin[i]:
        return False
    if gin is None:
        return True
    a = next(k for k in range(len(gin)) if i < sum(gin[:k + 1]))
    b = next(k for k in range(len(gout)) if o < sum(gout[:k + 1]))
    return a == b


def linear(ni, no, zin=None, zout=None, gin=None, gout=None, pos=True, given=True, n=2):
    T = lambda v: None if v is None else torch.tensor(v)

    def f(ctx):
        m = ctx.build(lambda: SoftplusLinear(ni, no, separate_inputs=T(gin), separate_outputs=T(gout) if given else None, zero_inputs=T(zin), zero_outputs=T(zout), softplus=pos))
        ctx.symbolize(m, "p", -2, 2)
        w, b = list(ctx.param(m, "raw_weight_param")), list(ctx.param(m, "bias_param"))
        th, x = ctx.theta(n, ni, -2, 2)
        y = m(th)
        ctx.shape(y, (n, no), "layer output")
        Y = ctx.vals(y)
        W = [[w.pop(0) if allowed(i, o, zin, zout, gin, gout) else None for i in range(ni)] for o in range(no)]
        ctx.prove(not w, "one weight per permitted connection")
        B = [0 if zout is not None and zout[o] else b.pop(0) for o in range(no)]
        ctx.prove(not b, "one bias per free output")
        soft = lambda v: ctx.log(1 + ctx.exp(v)) if pos else v
        for r in range(n):
            for o in range(no):
                ctx.eq(Y[r, o], B[o] + ctx.sum([soft(W[o][i]) * x[r, i] for i in range(ni) if W[o][i] is not None]), f"row {r}, output {o}: bias plus {'non-negative ' if pos else ''}weights times the permitted inputs")
        if pos:
            D = ctx.jac(m, th)
            for r, o, i in itertools.product(range(n), range(no), range(ni)):
                (ctx.lt if W[o][i] is not None else ctx.eq)(0, D[r, o, r, i], f"row {r}: output {o} {'rises with' if W[o][i] is not None else 'ignores'} input {i}")
    return f


add("layer/2x2", linear(2, 2))
add("layer/2x3/plain", linear(2, 3, pos=False))
add("layer/3x2/zero inputs", linear(3, 2, zin=[0, 1, 0]))
add("layer/2x3/zero outputs", linear(2, 3, zout=[0, 1, 0]))
add("layer/3x3/zero both", linear(3, 3, zin=[1, 0, 0], zout=[0, 0, 1]))
add("layer/groups", linear(3, 3, gin=[1, 2], gout=[2, 1]))
add("layer/groups/even", linear(2, 3, gin=[1, 1], gout=[2, 1], given=False))
add("layer/groups/zero", linear(3, 4, gin=[2, 1], gout=[1, 3], zin=[0, 1, 0], zout=[0, 0, 1, 0]))


def layer_refused(ctx):
    x = ctx.real("x", 0, 1)
    T = torch.tensor

    def refused(f, what):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        ctx.prove(ok, what)
    refused(lambda: SoftplusLinear(3, 2, separate_inputs=T([1, 1])), "input groups that do not cover the inputs are refused")
    refused(lambda: SoftplusLinear(2, 3, separate_inputs=T([1, 1]), separate_outputs=T([1, 1])), "output groups that do not cover the outputs are refused")
    refused(lambda: SoftplusLinear(2, 2, separate_outputs=T([1, 1])), "output groups without input groups are refused")
    ctx.le(x, 1, "(formal)")


add("layer/refused", layer_refused)


def negation(rel, per, zero, n=2):
    def f(ctx):
        m = ctx.build(lambda: NegationLayer(torch.tensor(rel), per, torch.tensor(zero)))
        ctx.symbolize(m, "p", -2, 2)
        w = list(ctx.param(m, "weight_param"))
        W = [w.pop(0) if r else 0 for r in rel]
        ctx.prove(not w, "one weight per related item")
        th, x = ctx.theta(n, len(rel) * per, -2, 2)
        Y = ctx.vals(m(th.clone()))
        ctx.prove(Y.shape == (n, len(rel) * per), "same shape")
        for r in range(n):
            for c in range(len(rel) * per):
                ctx.eq(Y[r, c], 0 if zero[c] else x[r, c] * W[c // per], f"row {r}, column {c}: times the weight of its item, zero where excluded")
        A = ctx.vals(m.all_item_weights())
        for i in range(len(rel)):
            ctx.eq(A[i], W[i], f"weight of item {i}")
    return f


add("negation/all", negation([1, 1], 2, [False, True, False, False]))
add("negation/unrelated", negation([1, 0, 1], 2, [False, True, False, False, False, True]))
add("negation/single", negation([0, 1, 1], 1, [False] * 3))


# ------------------------------------------------------------------ monotone polynomials
def polynomial(degree, ni, no, rel=None, negative=False, shared=1, intercept=False, n=1):
    def f(ctx):
        R = None if rel is None else torch.tensor(rel, dtype=torch.bool)
        m = ctx.build(lambda: MonotonePolynomialModule(degree, ni, no, intercept, R, negative, shared))
        ctx.symbolize(m, "p", -1.5, 1.5)
        th, x = ctx.theta(n, ni, -2, 2)
        y = m(th)
        ctx.shape(y, (n, no), "module output")
        Y, D = ctx.vals(y), ctx.jac(m, th)
        k = (degree - 1) // 2
        om, al, ta = ctx.param(m, "omega"), ctx.param(m, "alpha"), ctx.param(m, "tau")
        di = ctx.param(m, "directions") if negative else None
        soft = lambda v: ctx.log(1 + ctx.exp(v))
        for r in range(n):
            for o in range(no):
                for i in range(ni):
                    if rel is not None and not rel[i][o]:
                        ctx.eq(D[r, o, r, i], 0, f"output {o} ignores input {i}")
                        continue
                    e = soft(om[0, i, o])
                    for s in range(k):
                        e = e * (1 - 2 * al[s, i, o] * x[r, i] + (al[s, i, o] * al[s, i, o] + soft(ta[s, i, o])) * x[r, i] * x[r, i])
                    if negative:
                        e = e * di[i, o // shared]
                    ctx.eq(D[r, o, r, i], e, f"output {o}: derivative in input {i} is the documented product of quadratics", tol=2e-3)
                    if not negative:
                        ctx.le(0, D[r, o, r, i], f"output {o} does not fall with input {i}", tol=1e-5)
        zero = ctx.vals(m(torch.zeros(1, ni)))
        for o in range(no):
            ctx.eq(zero[0, o], ctx.param(m, "intercept")[o] if intercept else 0, f"output {o} at zero is the intercept")
    return f


add("polynomial/1", polynomial(1, 2, 2))
add("polynomial/3", polynomial(3, 1, 2, intercept=True))
add("polynomial/3/two", polynomial(3, 2, 1, n=2))
add("polynomial/5", polynomial(5, 1, 1))
add("polynomial/3/relations", polynomial(3, 2, 2, rel=[[1, 0], [1, 1]], intercept=True))
add("polynomial/3/negative", polynomial(3, 1, 2, rel=[[1, 1]], negative=True))
add("polynomial/3/shared", polynomial(3, 1, 4, rel=[[1, 1, 1, 1]], negative=True, shared=2))
add("polynomial/3/negative relations", polynomial(3, 2, 2, rel=[[1, 0], [0, 1]], negative=True))
add("polynomial/7", polynomial(7, 1, 1), tier="thorough")


def polynomial_refused(ctx):
    x = ctx.real("x", 0, 1)
    for what, f in (("an even degree", lambda: MonotonePolynomialModule(2)),
                    ("no shared direction", lambda: MonotonePolynomialModule(3, 1, 2, relationship_matrix=torch.ones(1, 2).bool(), negative_relationships=True, shared_directions=0)),
                    ("outputs that cannot share directions", lambda: MonotonePolynomialModule(3, 1, 3, relationship_matrix=torch.ones(1, 3).bool(), negative_relationships=True, shared_directions=2))):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        ctx.prove(ok, f"{what} is refused")
    ctx.le(x, 1, "(formal)")


add("polynomial/refused", polynomial_refused)


# ------------------------------------------------------------------ B-spline basis
def basis(degree, inner, n=1):
    """values of the basis, and the gradient its backward pass reports"""
    knots = torch.tensor([0.0] * (degree + 1) + list(inner) + [1.0] * (degree + 1))
    nb = len(inner) + degree + 1

    def f(ctx):
        x = ctx.reals("x", (n,), 0.05, 0.95)
        for v in x:
            for q in inner:
                ctx.assume(ctx.abs(v - q) >= 0.05)
        t = ctx.tensor(x).requires_grad_(True)
        y = BSplineBasisFunction.apply(t, knots, degree)
        ctx.shape(y, (n, nb), "basis")
        c = ctx.reals("c", (n, nb), -2, 2)
        (y * ctx.tensor(c)).sum().backward()
        Y, G = ctx.vals(y), ctx.vals(t.grad)
        u = ctx.tensor(x)
        D = ctx.jac(lambda z: b_spline_basis(z, knots, degree), u)
        for r in range(n):
            ctx.eq(ctx.sum(list(Y[r])), 1, f"point {r}: the basis functions add up to one")
            for b in range(nb):
                ctx.le(0, Y[r, b], f"point {r}: basis function {b} is not negative", tol=1e-6)
            ctx.eq(G[r], ctx.sum([c[r, b] * D[r, b, r] for b in range(nb)]), f"point {r}: gradient is the derivative", tol=2e-3)
    return f


for d in (1, 2, 3):
    add(f"basis/{d}", basis(d, []))
    add(f"basis/{d}/knot", basis(d, [0.5]))
add("basis/2/two knots", basis(2, [0.25, 0.75]))
add("basis/3/rows", basis(3, [0.5], 2))
add("basis/3/two knots", basis(3, [0.25, 0.75]), tier="thorough")
