"""Marginal maximum likelihood minimises minus the marginal log-likelihood of the observed responses under the stated normal population."""
import itertools
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch import utils as X
from irtorch.estimation_algorithms import MML
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, ModelMix, MonotoneBSpline, NestedLogit
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal, responses, pick
from .fit import training

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[1, 0]), 1, [2, 3], ref=ref_nominal, mc=[1, 0])
TWO2 = Cfg("2PL-2d", lambda: TwoParameterLogistic(latent_variables=2, items=2), 2, [2, 2], ref=ref_2pl)
BSP = Cfg("BSp", lambda: MonotoneBSpline(item_categories=[2, 3], knots=[0.0], degree=1), 1, [2, 3])
NEST = Cfg("Nest-bsp", lambda: NestedLogit(mc_correct=[1, 0], correct_response_model=TwoParameterLogistic(items=2), item_categories=[3, 2],
                                           incorrect_response_model="bspline", knots=[0.0], degree=1), 1, [3, 2], mc=[1, 0])
TWO3 = Cfg("2PL-3d", lambda: TwoParameterLogistic(latent_variables=3, items=2), 3, [2, 2], ref=ref_2pl)
ONE3 = Cfg("2PL-3d-one", lambda: TwoParameterLogistic(latent_variables=3, items=1), 3, [2], ref=ref_2pl)
COV3 = [[1.0, 0.5, 0.0], [0.5, 2.0, -0.25], [0.0, -0.25, 1.5]]
COV1 = [[1.44]]
COV2 = [[1.0, 0.5], [0.5, 2.0]]


def grid(ctx, method, points, dims, cov):
    """nodes and log weights of the documented rules (the Gauss-Hermite rule itself is checked below)"""
    cov = torch.tensor(cov)
    if method == "gauss_hermite":
        nodes, w = X.gauss_hermite(points, torch.zeros(dims), cov)
        return nodes.to(torch.float32), list(ctx.vals(w))
    line = torch.linspace(-3, 3, points)
    nodes = torch.stack([line[list(ix)] for ix in itertools.product(range(points), repeat=dims)])
    logs = torch.distributions.MultivariateNormal(torch.zeros(dims), cov).log_prob(nodes)
    return nodes, [ctx.exp(v) for v in ctx.vals(logs)]


def loss(cfg, method, points, n, miss, cov=None):
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss)
        params = dict(m.named_parameters())
        alg = MML()
        with training() as log:
            alg.fit(m, data, max_epochs=1, integration_method=method, quadrature_points=points, device="cpu",
                    **({} if cov is None else {"covariance_matrix": torch.tensor(cov)}))
        ctx.prove(len(log) == 1 and len(alg.training_history["train_loss"]) == 1, "one loss and one step per epoch")
        nodes, weights = grid(ctx, method, points, cfg.latent, cov or np.eye(cfg.latent).tolist())
        P = ctx.vals(m.item_probabilities(nodes))
        total = 0
        for r in range(n):
            obs = [i for i in range(cfg.items) if not w[r, i]]
            marg = ctx.sum([weights[q] * ctx.prod([pick(ctx, P[q, i], d[r, i], cfg.cats[i]) for i in obs]) for q in range(len(nodes))])
            total = total + ctx.log(marg)
        ctx.eq(alg.training_history["train_loss"][0], -total, "the loss is minus the marginal log-likelihood of the observed responses")
        named = {id(p): k for k, p in params.items()}
        ctx.prove(sorted(named.get(id(p), "?") for p, _ in log[0]) == sorted(params), "all parameters of the model are estimated")
    return f


Q = dict(timeout=200)
for meth in ("gauss_hermite", "quasi_mc"):
    add(f"loss/{meth}/2PL/nan", loss(TWO, meth, 3, 1, "nan"))
    add(f"loss/{meth}/2PL/two", loss(TWO, meth, 2, 2, None))
    add(f"loss/{meth}/2PL/two-nan", loss(TWO, meth, 2, 2, "-1"))
    add(f"loss/{meth}/GPC/-1", loss(GPC, meth, 3, 1, "-1", COV1))
    add(f"loss/{meth}/NR-mc/nan", loss(NR, meth, 2, 2, None))
    add(f"loss/{meth}/2PL-2d", loss(TWO2, meth, 2, 2, None, COV2))
    add(f"loss/{meth}/2PL-2d/nan", loss(TWO2, meth, 2, 1, "nan", COV2))
    add(f"loss/{meth}/2PL-3d", loss(ONE3, meth, 2, 1, None, COV3))
    add(f"loss/{meth}/2PL-3d/nan", loss(TWO3, meth, 2, 1, "nan", COV3), tier="thorough", timeout=600)
add("loss/quasi_mc/BSp", loss(BSP, "quasi_mc", 3, 2, None))
add("loss/gauss_hermite/Nest-bsp", loss(NEST, "gauss_hermite", 2, 2, None))
MIX = Cfg("Mix", lambda: ModelMix([TwoParameterLogistic(items=1), GeneralizedPartialCredit(item_categories=[3])]), 1, [2, 3])
add("loss/quasi_mc/Mix", loss(MIX, "quasi_mc", 2, 2, None))


def hermite(n, dims, deg):
    """the rule integrates the normal density's moments exactly"""
    def f(ctx):
        mean = ctx.reals("mean", (dims,), -2, 2)
        L = ctx.reals("L", (dims, dims), -2, 2)
        for i, j in np.ndindex(dims, dims):
            if i == j:
                ctx.assume(L[i, i] >= 0.25)
            elif j > i:
                L[i, j] = 0
        cov = np.array([[ctx.sum([L[i, k] * L[j, k] for k in range(dims)]) for j in range(dims)] for i in range(dims)], dtype=object)
        y, w = X.gauss_hermite(n, ctx.tensor(mean), ctx.tensor(cov))
        y, w = ctx.vals(y), ctx.vals(w)
        ctx.prove(y.shape == (n ** dims, dims) and w.shape == (n ** dims,), "one weight per combination of nodes")
        c = [[y[q, i] - mean[i] for i in range(dims)] for q in range(len(w))]
        E = lambda *ix: ctx.sum([w[q] * ctx.prod([c[q][i] for i in ix]) for q in range(len(w))])
        ctx.eq(ctx.sum(list(w)), 1, "the weights sum to one", tol=1e-5)
        for i in range(dims):
            ctx.eq(E(i), 0, f"mean of ability {i}", tol=1e-4)
            for j in range(i + 1):
                ctx.eq(E(i, j), cov[i, j], f"covariance of abilities {i},{j}", tol=1e-3)
                if deg >= 4:
                    ctx.eq(E(i, i, j, j), cov[i, i] * cov[j, j] + 2 * cov[i, j] * cov[i, j], f"fourth moment {i},{i},{j},{j}", tol=2e-2)
            if deg >= 3:
                ctx.eq(E(i, i, i), 0, f"third moment of ability {i}", tol=2e-3)
    return f


add("gauss_hermite/2/1d", hermite(2, 1, 3))
add("gauss_hermite/3/1d", hermite(3, 1, 4))
add("gauss_hermite/2/2d", hermite(2, 2, 3))
add("gauss_hermite/3/2d", hermite(3, 2, 4))
add("gauss_hermite/2/3d", hermite(2, 3, 3))
add("gauss_hermite/3/3d", hermite(3, 3, 4), tier="thorough", timeout=600)
add("gauss_hermite/4/1d", hermite(4, 1, 4))


def steep():
    m = TWO.build()
    m.weight_param.data = torch.tensor([0.5, 0.0])
    return m


def easy(method, points):
    """respondents whose likelihoods differ by more than what single precision can represent: every item is so easy that a respondent
    answering all wrong has likelihood exp(-100) and less at every node"""
    def f(ctx):
        m = ctx.build(steep)
        ctx.symbolize(m, "p", 0, 1, ranges={"bias_param": (60, 120)}, only=["bias_param"])
        b = list(ctx.param(m, "bias_param"))
        alg = MML()
        with training():
            alg.fit(m, torch.tensor([[1.0, 1.0], [0.0, 0.0]]), max_epochs=1, integration_method=method, quadrature_points=points, device="cpu")
        loss = alg.training_history["train_loss"][0]
        ctx.finite(loss, "the loss is finite")
    return f


add("easy/gauss_hermite", easy("gauss_hermite", 2), float_range=True)
add("easy/quasi_mc", easy("quasi_mc", 2), float_range=True)
