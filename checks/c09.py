"""Scale Jacobians and rescaled gradients, information and standard errors follow the chain rule."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.rescale import Reverse as R
from . import scales as SC
from .common import ZOO


def in_box(ctx, scales, latent, n):
    return ctx.theta(n, latent, -2, 2)


def in_bin(k):
    """a free ability assumed to lie in bin k of the first flow's (or link's) spline"""
    def f(ctx, scales, latent, n):
        th, x = ctx.theta(n, latent, -3, 3)
        for r in range(n):
            for a in range(latent):
                z = x[r, a]
                for s in scales:
                    if isinstance(s, R):
                        z = z * int(s._reverse[0, a])
                    elif isinstance(s, SC.Flow):
                        z = (z - ctx.vals(s.theta_means)[a]) / ctx.vals(s.theta_stds)[a]
                        break
                    else:
                        break
                lo = 0 if (k + a + r) % 2 else -2
                ctx.assume(z >= lo + 0.125)
                ctx.assume(z <= lo + 1.875)
        return th, x
    return f


def jacobian(build, latent, n=1, abilities=in_box):
    """each scale's Jacobian is the derivative of its transformation; the model's that of the composition"""
    def f(ctx):
        scales = build(ctx)
        m = ctx.build(lambda: SC.model(latent))
        for s in scales:
            m.add_scale_transformation(s)
        th, x = abilities(ctx, scales, latent, n)
        J = m.theta_transform_jacobian(th)
        ctx.shape(J, (n, latent, latent), "Jacobian")
        J = ctx.vals(J)
        D = ctx.jac(m.transform_theta, th)
        for r in range(n):
            for a in range(latent):
                for b in range(latent):
                    ctx.eq(J[r, a, b], D[r, a, r, b], f"respondent {r}: derivative of transformed ability {a} with respect to {b}", tol=4e-3)
        if len(scales) == 1:
            S = ctx.vals(scales[0].jacobian(th))
            ctx.eqs(S, J, "the scale's own Jacobian")
    return f


def chain(cfg, build, n=1, what="pi", abilities=in_box):
    """gradients and information with respect to the transformed abilities: J^T g' = g, J^T I' J = I"""
    def f(ctx):
        scales = build(ctx)
        m = cfg.model(ctx)
        for s in scales:
            m.add_scale_transformation(s)
        th, x = abilities(ctx, scales, cfg.latent, n)
        J = ctx.vals(m.theta_transform_jacobian(th))
        L = range(cfg.latent)
        if "p" in what:
            g0 = ctx.vals(m.probability_gradients(th, rescale=False))
            g1 = m.probability_gradients(th)
            ctx.shape(g1, (n, cfg.items, cfg.maxcat, cfg.latent), "rescaled probability gradients")
            g1 = ctx.vals(g1)
            for r in range(n):
                for i in range(cfg.items):
                    for k in range(cfg.cats[i]):
                        for a in L:
                            ctx.eq(ctx.sum([J[r, b, a] * g1[r, i, k, b] for b in L]), g0[r, i, k, a],
                                   f"respondent {r} item {i} category {k} ability {a}: chain rule for probability gradients", tol=4e-3)
        if "e" in what:
            g0 = ctx.vals(m.expected_item_score_gradients(th, rescale=False))
            g1 = m.expected_item_score_gradients(th)
            ctx.shape(g1, (n, cfg.items, cfg.latent), "rescaled expected score gradients")
            g1 = ctx.vals(g1)
            for r in range(n):
                for i in range(cfg.items):
                    for a in L:
                        ctx.eq(ctx.sum([J[r, b, a] * g1[r, i, b] for b in L]), g0[r, i, a],
                               f"respondent {r} item {i} ability {a}: chain rule for expected score gradients", tol=4e-3)
        if "i" in what:
            for item in (True, False):
                I0 = m.information(th, item=item, rescale=False)
                I1 = m.information(th, item=item)
                ctx.shape(I1, ((n, cfg.items) if item else (n,)) + (cfg.latent, cfg.latent), "rescaled information")
                I0, I1 = ctx.vals(I0), ctx.vals(I1)
                if not item:
                    I0, I1 = I0[:, None], I1[:, None]
                for r in range(n):
                    for i in range(cfg.items if item else 1):
                        for a in L:
                            for b in L:
                                if a <= b:
                                    got = ctx.sum([J[r, c, a] * I1[r, i, c, d] * J[r, d, b] for c in L for d in L])
                                    ctx.eq(got, I0[r, i, a, b], f"respondent {r} {'item ' + str(i) if item else 'test'}: chain rule for information [{a},{b}]", tol=4e-3)
        if "a" in what:
            g1 = ctx.vals(m.expected_item_score_gradients(th))
            A = ctx.vals(m.population_discrimination(th))
            for i in range(cfg.items):
                for a in L:
                    ctx.eq(A[i, a], ctx.sum([g1[r, i, a] for r in range(n)]) / n, f"item {i} ability {a}: rescaled discrimination is the mean rescaled gradient")
    return f


class Encoder:
    """stands for a trained encoder: it returns arbitrary abilities and standard errors"""

    def __init__(self, th, se):
        self.th, self.se = th, se
        self.encoder = self
        self.one_hot_encoded = False
        self.imputation_method = None

    def theta_scores(self, data):
        return self.th

    def latent_mean_se(self, data):
        return self.th, self.se


def errors(cfg, build, method, n=1, rescale=True):
    def f(ctx):
        scales = build(ctx)
        m = cfg.model(ctx)
        for s in scales:
            m.add_scale_transformation(s)
        th, x = ctx.theta(n, cfg.latent, -2, 2)
        data = ctx.tensor(np.zeros((n, cfg.items), dtype=object))
        J = ctx.vals(m.theta_transform_jacobian(th)) if rescale else np.array([np.eye(cfg.latent, dtype=int)] * n)
        L = range(cfg.latent)
        if method == "NN":
            e = ctx.reals("se", (n, cfg.latent), 0.1, 2)
            m.algorithm = Encoder(th, ctx.tensor(e))
        else:
            m._ml_map_theta_scores = lambda *a, **k: th      # the numerical optimiser's answer may be any ability
        t, se = m.latent_scores(data, standard_errors=True, theta_estimation=method, rescale=rescale, device="cpu")
        ctx.shape(t, (n, cfg.latent), "abilities")
        ctx.shape(se, (n, cfg.latent), "standard errors")
        ctx.eqs(ctx.vals(t), ctx.vals(m.transform_theta(th)) if rescale else x, "reported abilities are the transformed ones")
        if method == "ML":
            I = ctx.vals(m.information(th, item=False, rescale=rescale))
            for r in range(n):
                for a in L:
                    ctx.assume(I[r, a, a] >= 0.00390625)      # no information: the standard error is infinite
        se = ctx.vals(se)
        for r in range(n):
            for a in L:
                if method == "NN":
                    ctx.eq(se[r, a] * se[r, a], ctx.sum([J[r, a, b] * J[r, a, b] * e[r, b] * e[r, b] for b in L]),
                           f"respondent {r} ability {a}: delta-method variance", tol=4e-3)
                else:
                    ctx.eq(se[r, a], 1 / ctx.sqrt(I[r, a, a]), f"respondent {r} ability {a}: standard error is the inverse root of the information", tol=4e-3)
                ctx.le(0, se[r, a], f"respondent {r} ability {a}: standard error is not negative")
    return f


add("jacobian/reverse", jacobian(lambda c: [R([True, False])], 2, 2))
add("jacobian/rotate", jacobian(lambda c: [SC.rotate(c)], 2, 2))
add("jacobian/rotate-reverse", jacobian(lambda c: [SC.rotate(c), R([True, False])], 2, 2))
add("jacobian/reverse-rotate", jacobian(lambda c: [R([True, False]), SC.rotate(c)], 2, 2))
add("jacobian/affine-rotate-affine", jacobian(lambda c: [SC.affine(c, "u", 2), SC.rotate(c), SC.affine(c, "w", 2)], 2, 2))
for k in (0, 1):
    add(f"jacobian/flow-{k}", jacobian(lambda c: [SC.flow(c, 1)], 1, 1, in_bin(k)))
    add(f"jacobian/reverse-flow-{k}", jacobian(lambda c: [R([True]), SC.flow(c, 1)], 1, 1, in_bin(k)))
    add(f"jacobian/link-{k}", jacobian(lambda c: [SC.link(c, False)], 1, 1, in_bin(k)))
    add(f"jacobian/link-inverted-{k}", jacobian(lambda c: [SC.link(c, True)], 1, 1, in_bin(k)))
add("jacobian/flow-two", jacobian(lambda c: [SC.flow(c, 2)], 2, 1, in_bin(0)))
add("jacobian/flow-affine", jacobian(lambda c: [SC.flow(c, 2), SC.affine(c, "u", 2)], 2, 1, in_bin(1)))
add("jacobian/flow-rows", jacobian(lambda c: [SC.flow(c, 1)], 1, 2, in_bin(0)))
add("jacobian/link-net", jacobian(lambda c: [SC.link(c, False, "neuralnet", neurons=3)], 1, 1))
add("jacobian/link-net-inverted", jacobian(lambda c: [SC.link(c, True, "neuralnet", neurons=3)], 1, 1))

rot = lambda c: [SC.rotate(c)]
two = lambda c: [SC.rotate(c), R([True, False])]
three = lambda c: [SC.affine(c, "u", 3), R([True, False, True])]
add("jacobian/affine-reverse/3", jacobian(three, 3, 2))
add("jacobian/reverse-affine/3", jacobian(lambda c: [R([True, False, False]), SC.affine(c, "u", 3)], 3, 2))
add("chain/2PL-3d", chain(ZOO["2PL-3d"], three, 1, "pe"))
add("chain/GPC-3d", chain(ZOO["GPC-3d"], three, 2, "p"))
add("chain-information/2PL-3d", chain(ZOO["2PL-3d"], three, 1, "i"))
add("discrimination/2PL-3d", chain(ZOO["2PL-3d"], three, 2, "a"))
add("chain/2PL-2d", chain(ZOO["2PL-2d"], rot, 2, "pe"))
add("chain-information/2PL-2d", chain(ZOO["2PL-2d"], rot, 1, "i"))
add("chain/GPC-2d", chain(ZOO["GPC-2d"], two, 2, "pe"))
add("chain/NR-2d", chain(ZOO["NR-2d"], two, 1, "pe"))
add("chain/3PL-2d", chain(ZOO["3PL-2d"], two, 1, "pei"))
add("chain/GPC-affine", chain(ZOO["GPC"], lambda c: [SC.affine(c, "u", 1), R([True])], 1, "pei"))
add("chain/Poly-affine", chain(ZOO["Poly"], lambda c: [SC.affine(c, "u", 1)], 1, "pe"))
add("chain/2PL-reverse", chain(ZOO["2PL"], lambda c: [R([True])], 2, "peia"))
add("chain/Mix-2d", chain(ZOO["Mix-2d"], rot, 1, "pe"))
add("discrimination/2PL-2d", chain(ZOO["2PL-2d"], rot, 2, "a"))
add("errors/NN-2d", errors(ZOO["2PL-2d"], two, "NN", 2))
add("errors/NN-chain", errors(ZOO["2PL-2d"], lambda c: [SC.affine(c, "u", 2), SC.rotate(c)], "NN"))
add("errors/NN-unscaled", errors(ZOO["2PL-2d"], two, "NN", 2, rescale=False))
add("errors/ML", errors(ZOO["2PL"], lambda c: [R([True])], "ML", 2))
add("errors/ML-2d", errors(ZOO["2PL-2d"], rot, "ML", 1))
add("errors/ML-unscaled", errors(ZOO["2PL-2d"], rot, "ML", 1, rescale=False))
cu = lambda c: [SC.curved(c)]
add("jacobian/curved", jacobian(cu, 1, 2))
add("jacobian/curved-two", jacobian(cu, 2, 2))
add("jacobian/affine-curved", jacobian(lambda c: [SC.affine(c, "u", 2), SC.curved(c)], 2, 1))
add("jacobian/curved-rotate", jacobian(lambda c: [SC.curved(c), SC.rotate(c)], 2, 1))
add("chain/2PL-curved", chain(ZOO["2PL"], cu, 2, "peia"))
add("chain/GPC-curved", chain(ZOO["GPC"], cu, 2, "pe"))
add("chain/2PL-2d-curved", chain(ZOO["2PL-2d"], cu, 2, "pe"))
add("chain-information/2PL-2d-curved", chain(ZOO["2PL-2d"], cu, 1, "i"))
add("chain-information/GPC-curved", chain(ZOO["GPC"], cu, 2, "i"))
add("errors/NN-curved", errors(ZOO["2PL-2d"], cu, "NN", 2))
add("errors/ML-curved", errors(ZOO["2PL"], cu, "ML", 2))
