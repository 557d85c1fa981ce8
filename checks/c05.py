"""Item-ability relations: excluded ones have no influence, kept ones have."""
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import (TwoParameterLogistic, GradedResponse, MonotoneNN, MonotonePolynomial, NominalResponse, ModelMix,
                            GeneralizedPartialCredit, NestedLogit, ThreeParameterLogistic, SurprisalSpline)
from .common import ZOO, Cfg, B, REL2, REL2b, grm_order, mix_order, weights_of
from .c04 import C as C4, odds

REL3 = [[True, False, True], [False, True, False]]
REL3b = [[False, True, True], [True, False, False], [True, True, True]]
C = {c.name: c for c in list(ZOO.values()) + list(C4.values()) if c.latent > 1}


def more(name, *a, **k):
    C[name] = Cfg(name, *a, **k)


more("2PL-3d", lambda: TwoParameterLogistic(latent_variables=3, items=3, item_theta_relationships=B(REL3b)), 3, [2, 2, 2], rel=REL3b, kind="2pl")
more("3PL-3d", lambda: ThreeParameterLogistic(latent_variables=3, items=2, item_theta_relationships=B(REL3)), 3, [2, 2], rel=REL3, kind="3pl")
more("GPC-3d", lambda: GeneralizedPartialCredit(latent_variables=3, item_categories=[3, 2], item_theta_relationships=B(REL3)), 3, [3, 2],
     rel=REL3, kind="gpc")
more("GRM-3d", lambda: GradedResponse(latent_variables=3, item_categories=[2, 3], item_theta_relationships=B(REL3)), 3, [2, 3],
     rel=REL3, kind="grm", order=grm_order)
more("NR-3d", lambda: NominalResponse(latent_variables=3, item_categories=[2, 3], item_theta_relationships=B(REL3)), 3, [2, 3],
     rel=REL3, kind="nr")
more("NN-3d", lambda: MonotoneNN(latent_variables=3, item_categories=[3, 2], hidden_dim=[2], use_bounded_activation=False,
                                 item_theta_relationships=B(REL3)), 3, [3, 2], rel=REL3, kind="nn", heavy=True)
more("NN-deep-2d", lambda: MonotoneNN(latent_variables=2, item_categories=[3, 2], hidden_dim=[2, 2], use_bounded_activation=False,
                                      item_theta_relationships=B(REL2b), negative_latent_variable_item_relationships=False), 2, [3, 2],
     rel=REL2b, kind="nn", heavy=True)
more("NN-deep-items-2d", lambda: MonotoneNN(latent_variables=2, item_categories=[3, 2], hidden_dim=[2, 2], use_bounded_activation=False,
                                            separate="items", item_theta_relationships=B(REL2b),
                                            negative_latent_variable_item_relationships=False), 2, [3, 2], rel=REL2b, kind="nn", heavy=True)
more("NN-mc-2d", lambda: MonotoneNN(latent_variables=2, item_categories=[3, 4], hidden_dim=[2], mc_correct=[1, 2], use_bounded_activation=False,
                                    item_theta_relationships=B(REL2b), negative_latent_variable_item_relationships=False), 2, [3, 4],
     rel=REL2b, kind="nn", mc=[1, 2], heavy=True)
more("Poly-3d", lambda: MonotonePolynomial(latent_variables=3, item_categories=[3, 2], item_theta_relationships=B(REL3)), 3, [3, 2],
     rel=REL3, kind="poly")
more("Poly-pos-2d", lambda: MonotonePolynomial(latent_variables=2, item_categories=[3, 2], item_theta_relationships=B(REL2b),
                                               negative_latent_variable_item_relationships=False), 2, [3, 2], rel=REL2b, kind="poly")
more("Surp-3d", lambda: SurprisalSpline(latent_variables=3, item_categories=[2, 3], knots=[0.0], degree=1, item_theta_relationships=B(REL3)), 3,
     [2, 3], rel=REL3, kind="surp", heavy=True)
more("Nest-3PL-2d", lambda: NestedLogit(mc_correct=[1, 0], correct_response_model=ThreeParameterLogistic(
    latent_variables=2, items=2, item_theta_relationships=B(REL2b)), latent_variables=2, item_categories=[4, 3], item_theta_relationships=B(REL2b)), 2,
    [4, 3], rel=REL2b, mc=[1, 0], kind="nest")
more("Mix-rel", lambda: ModelMix([TwoParameterLogistic(latent_variables=2, items=2, item_theta_relationships=B(REL2b)),
                                  GeneralizedPartialCredit(latent_variables=2, item_categories=[3], item_theta_relationships=B([[True, False]]))]), 2,
     [2, 2, 3], rel=REL2b + [[True, False]], kind="mix")
more("Mix-rel-3PL", lambda: ModelMix([NominalResponse(latent_variables=2, item_categories=[3, 4], item_theta_relationships=B(REL2b)),
                                      ThreeParameterLogistic(latent_variables=2, items=1, item_theta_relationships=B([[False, True]]))]), 2,
     [3, 4, 2], rel=REL2b + [[False, True]], kind="mix")


def excluded(cfg):
    def f(ctx):
        m = cfg.model(ctx)
        x = ctx.reals("th", (1, cfg.latent), -2, 2)
        rows = [x]
        for d in range(cfg.latent):
            y = x.copy()
            y[0, d] = ctx.real(f"other_{d}", -2, 2)
            rows.append(y)
        P = ctx.vals(m.item_probabilities(ctx.tensor(np.concatenate(rows))))
        n = 0
        for i in range(cfg.items):
            for d in range(cfg.latent):
                if not cfg.related(i, d):
                    n += 1
                    for k in range(cfg.cats[i]):
                        ctx.eq(P[d + 1, i, k], P[0, i, k], f"item {i} category {k} ignores ability {d}")
        if n == 0:
            ctx.prove(True, "every ability is related")
    return f


def kept(cfg):
    """kept relations: the derivative vanishes only where the slope / direction parameter does"""
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx)
        D = ctx.vals(m.item_theta_relationship_directions())
        P = ctx.vals(m.item_probabilities(th))[0]
        J = ctx.jac(m.item_probabilities, th)[0]
        for i in range(cfg.items):
            for d in range(cfg.latent):
                if cfg.related(i, d):
                    D[i, d] = ctx.concretize(D[i, d])
                    if D[i, d] == 0:
                        ctx.prove(True, "a direction of zero")
                        continue
                    o = odds(ctx, cfg, i, P[i], J[i, :, 0, d])
                    for k, v in enumerate(o):
                        ctx.prove(D[i, d] * v > 0, f"item {i} step {k} responds to ability {d}")
    return f


for c in C.values():
    add(f"excluded/{c.name}", excluded(c))
for n in ("2PL-2d", "3PL-2d", "GPC-2d", "GRM-2d", "NN-2d", "NN-items-2d", "NN-2d-cat-uneq", "NN-deep-2d", "NN-mc-2d", "Poly-2d", "Poly-2d-items",
          "Poly-pos-2d"):
    add(f"kept/{n}", kept(C[n]), validate=1 if C[n].kind == "grm" else 2)
