"""Inverting a scale transformation gives back the original abilities, for single scales and for chains."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.rescale import Reverse
from . import scales as SC


def roundtrip(build, latent, n=1, lo=-2, hi=2, theta=None, through_model=True):
    """build(ctx) -> list of scales; inverse o transform == id on abilities in the box"""
    def f(ctx):
        scales = build(ctx)
        m = ctx.build(lambda: SC.model(latent))
        for s in scales:
            m.add_scale_transformation(s)
        if theta is None:
            th, x = ctx.theta(n, latent, lo, hi)
        else:
            x = theta(ctx, scales)
            th = ctx.tensor(x)
        t = m.transform_theta(th)
        ctx.shape(t, (x.shape[0], latent), "transformed abilities")
        y = t.clone()
        ref = th
        for s in scales:
            ref = s.transform(ref)
        ctx.eqs(ctx.vals(t), ctx.vals(ref), "chain applies the scales one after the other")
        back = m.inverse_transform_theta(t)
        ctx.shape(back, (x.shape[0], latent), "abilities transformed back")
        ctx.eqs(ctx.vals(back), x, "transforming back gives the original abilities", tol=4e-3)
        ctx.eqs(ctx.vals(t), ctx.vals(y), "the transformed abilities are not modified")
        if theta is None:
            fwd = ctx.vals(m.transform_theta(back))
            ctx.eqs(fwd, ctx.vals(y), "transforming again gives the same scores", tol=4e-3)
        m.detach_scale_transformations()
        ctx.eqs(ctx.vals(m.transform_theta(th)), x, "after detaching, abilities are unchanged")
    return f


R = Reverse
add("reverse", roundtrip(lambda c: [R([True, False])], 2, 2))
add("reverse/3", roundtrip(lambda c: [R([False, True, True])], 3))
add("affine-reverse/3", roundtrip(lambda c: [SC.affine(c, "u", 3), R([True, False, True])], 3))
add("reverse-affine/3", roundtrip(lambda c: [R([True, False, False]), SC.affine(c, "u", 3)], 3, 2))
add("rotate", roundtrip(lambda c: [SC.rotate(c)], 2, 2))
add("rotate-reverse", roundtrip(lambda c: [SC.rotate(c), R([True, False])], 2))
add("reverse-rotate", roundtrip(lambda c: [R([True, False]), SC.rotate(c)], 2))
add("rotate-rotate", roundtrip(lambda c: [SC.rotate(c, "A"), SC.rotate(c, "B")], 2))
add("affine-rotate-affine", roundtrip(lambda c: [SC.affine(c, "u", 2), R([False, True]), SC.affine(c, "w", 2)], 2))


def in_bin(k, inner=lambda s: s[-1]):
    """abilities whose standardised value lies in bin k of the flow's spline"""
    def th(ctx, scales):
        fl = inner(scales)
        u = [ctx.real(f"u{a}", 0, 1) for a in range(fl.latent_variables)]
        mu, sd = ctx.vals(fl.theta_means), ctx.vals(fl.theta_stds)
        return np.array([[mu[a] + sd[a] * (2 * u[a] * 0.998 + 0.001 + (0 if (k + a) % 2 else -2)) for a in range(fl.latent_variables)]], dtype=object)
    return th


def link_bin(k):
    def th(ctx, scales):
        return np.array([[2 * ctx.real("u", 0.001, 0.999) + (0 if k else -2)]], dtype=object)
    return th


def neg_bin(k):
    def th(ctx, scales):
        v = in_bin(k)(ctx, scales)
        return np.array([[-v[0, 0], v[0, 1]]], dtype=object) if v.shape[1] > 1 else -v
    return th


for k in (0, 1):
    add(f"flow/{k}", roundtrip(lambda c: [SC.flow(c, 1)], 1, theta=in_bin(k)))
    add(f"reverse-flow/{k}", roundtrip(lambda c: [R([True]), SC.flow(c, 1)], 1, theta=neg_bin(k)))
    add(f"flow-reverse/{k}", roundtrip(lambda c: [SC.flow(c, 1), R([True])], 1, theta=in_bin(k, lambda s: s[0])))
    add(f"link/{k}", roundtrip(lambda c: [SC.link(c, False)], 1, theta=link_bin(k)))
    add(f"link-inverted/{k}", roundtrip(lambda c: [SC.link(c, True)], 1, theta=link_bin(k)))
add("flow-affine", roundtrip(lambda c: [SC.flow(c, 1), SC.affine(c, "u", 1)], 1, theta=in_bin(1, lambda s: s[0])))
add("flow/two", roundtrip(lambda c: [SC.flow(c, 2)], 2, theta=in_bin(0)))
add("reverse-flow/two", roundtrip(lambda c: [R([True, False]), SC.flow(c, 2)], 2, theta=neg_bin(0)))
