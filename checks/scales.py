"""Scale objects with symbolic parameters, shared by the checks of the scale transformations."""
import numpy as np
import torch
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit
from irtorch.rescale import Scale, Reverse, Rotate, Flow, LinkCommonItems
from irtorch.torch_modules import RationalQuadraticSpline, NeuralSplineFlow


class Affine(Scale):
    """an invertible scale given by symbolic 2x2 matrix and offset: stands for any scale in a chain"""

    def __init__(self, A, Ai, b):
        super().__init__(invertible=True)
        self.A, self.Ai, self.b = A, Ai, b

    def transform(self, theta):
        return theta @ self.A.T + self.b

    def inverse(self, t):
        return (t - self.b) @ self.Ai.T

    def jacobian(self, theta):
        return self.A.unsqueeze(0).expand(theta.shape[0], -1, -1)


class Curved(Scale):
    """a user's scale whose Jacobian differs between respondents: u = p t + q t^3, and for two abilities u_1 also grows with t_2"""

    def __init__(self, p, q, r):
        super().__init__(invertible=False)
        self.p, self.q, self.r = p, q, r

    def transform(self, theta):
        return self.p * theta + self.q * theta ** 3 + self.r * theta.flip(1) ** 2 * self.first(theta)

    def first(self, theta):
        e = torch.zeros(theta.shape[1])
        e[0] = 1 if theta.shape[1] > 1 else 0
        return e

    def inverse(self, t):
        raise NotImplementedError

    def jacobian(self, theta):
        J = torch.diag_embed(self.p + 3 * self.q * theta ** 2)
        if theta.shape[1] > 1:
            J[:, 0, 1] = 2 * self.r * theta[:, 1]
        return J


def curved(ctx, name="c"):
    return Curved(ctx.tensor([ctx.real(name + "p", 0.25, 2)]), ctx.tensor([ctx.real(name + "q", 0.125, 2)]), ctx.tensor([ctx.real(name + "r", -2, 2)]))


def affine(ctx, name, d=2):
    a = ctx.reals(name + "_a", (d, d), -2, 2)
    b = ctx.reals(name + "_b", (d,), -2, 2)
    if d == 1:
        a[0, 0] = ctx.real(name + "_a", 0.25, 2)
        inv = np.array([[1 / a[0, 0]]], dtype=object)
    elif d == 3:                                      # rows of a triangular matrix in another order
        p, q, r = (ctx.real(f"{name}_{k}", 0.5, 2) for k in "pqr")
        u, v, w = a[1, 0], a[2, 0], a[2, 1]
        L = [[p, 0, 0], [u, q, 0], [v, w, r]]
        N = [[1 / p, 0, 0], [-u / (p * q), 1 / q, 0], [(u * w - v * q) / (p * q * r), -w / (q * r), 1 / r]]
        a = np.array([L[1], L[2], L[0]], dtype=object)
        inv = np.array([[N[i][1], N[i][2], N[i][0]] for i in range(3)], dtype=object)
    else:
        det = ctx.real(name + "_d", 0.25, 2)          # a11 chosen so that the determinant is det
        a[0, 0] = ctx.real(name + "_p", 0.25, 2)
        a[1, 1] = (det + a[0, 1] * a[1, 0]) / a[0, 0]
        inv = np.array([[a[1, 1] / det, -a[0, 1] / det], [-a[1, 0] / det, a[0, 0] / det]], dtype=object)
    return Affine(ctx.tensor(a), ctx.tensor(inv), ctx.tensor(b))


def rotate(ctx, name="R"):
    a = ctx.reals(name, (2, 2), -2, 2)
    a[0, 0] = ctx.real(name + "p", 0.25, 2)
    det = ctx.real(name + "d", 0.25, 2)
    a[1, 1] = (det + a[0, 1] * a[1, 0]) / a[0, 0]
    return Rotate(model(2), rotation_matrix=ctx.tensor(a))


def model(latent):
    return TwoParameterLogistic(latent_variables=latent, items=2)


def half_spline(ctx, variables, name="s", lo=-2, hi=2, lower=-3, upper=3, free=False):
    """two equal bins over [lo, hi], symbolic bin heights and middle slope"""
    s = ctx.build(lambda: RationalQuadraticSpline(variables, num_bins=2, lower_input_bound=lo, upper_input_bound=hi, lower_output_bound=lower,
                                                  upper_output_bound=upper, min_bin_width=0.0078125, min_bin_height=0.0078125,
                                                  min_derivative=0.0078125, free_endpoints=free))
    ctx.symbolize(s, only=["none"])
    h = np.array([[0, ctx.log(ctx.real(f"{name}h{a}", 0.25, 4))] for a in range(variables)], dtype=object)
    v = np.array([[ctx.log(ctx.exp(ctx.real(f"{name}v{a}", 0.25, 4)) - 1)] for a in range(variables)], dtype=object)
    ctx.assign(s, "unnormalized_heights", h)
    ctx.assign(s, "unnormalized_derivatives", v)
    return s


def flow(ctx, variables, name="s"):
    f = Flow(variables)
    f.theta_means = ctx.tensor(ctx.reals(name + "m", (variables,), -1, 1))
    f.theta_stds = ctx.tensor(ctx.reals(name + "sd", (variables,), 0.5, 2))
    f.flow = NeuralSplineFlow(half_spline(ctx, variables, name), torch.distributions.Normal(0, 1))
    return f


def link(ctx, inverted, method="spline", name="k", **kw):
    a, b = model(1), model(1)
    with ctx.outside():
        l = LinkCommonItems(a, b, [0, 1], [0, 1], method=method, inverted=inverted, **kw)
    if method == "spline":
        l._transformation = half_spline(ctx, 1, name)
    else:
        ctx.symbolize(l._transformation, name, -1, 1)
    l._transformation_multiplier = ctx.tensor(ctx.vals(l._transformation_multiplier))
    return l
