"""Scores of respondents: EAP is the posterior mean, ML and MAP follow the gradient of the stated objective from the best training score, NN is
the encoder's output; scaled models return the transformed scores."""
import itertools
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, ModelMix
from irtorch.rescale import Reverse
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal, responses, pick
from .calls import optimiser, Algorithm
from .c18 import onehot

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[1, 0]), 1, [2, 3], ref=ref_nominal, mc=[1, 0])
TWO2 = Cfg("2PL-2d", lambda: TwoParameterLogistic(latent_variables=2, items=2), 2, [2, 2], ref=ref_2pl)
TWO3 = Cfg("2PL-3d", lambda: TwoParameterLogistic(latent_variables=3, items=2), 3, [2, 2], ref=ref_2pl)
ONE3 = Cfg("2PL-3d-one", lambda: TwoParameterLogistic(latent_variables=3, items=1), 3, [2], ref=ref_2pl)
MIX = Cfg("Mix", lambda: ModelMix([TwoParameterLogistic(items=1), GeneralizedPartialCredit(item_categories=[3])]), 1, [2, 3])


def normal(ctx, x, cov):
    """log density of the normal distribution with mean zero at each row of the tensor x"""
    return ctx.vals(torch.distributions.MultivariateNormal(torch.zeros(x.shape[1]), cov).log_prob(x))


def eap(cfg, prior, points, n, miss, scaled=False):
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss)
        K = cfg.latent
        lines = [torch.linspace(-3, 3, points)] * K
        cov = torch.eye(K)
        if prior == "covariance":
            cov = torch.tensor([[1.44]]) if K == 1 else torch.tensor([[1.0, 0.5], [0.5, 2.0]])
            m.algorithm = type("A", (), {"covariance_matrix": cov, "training_theta_scores": None})()
        elif prior == "training":
            t = torch.tensor([[-1.0], [0.5], [2.0]]) if K == 1 else torch.tensor([[-1.0, 1.0], [0.5, 0.0], [2.0, 4.0]])
            m.algorithm = type("A", (), {"training_theta_scores": t})()
            c = t - t.mean(dim=0)
            cov = c.T @ c / (t.shape[0] - 1)
            lines = []
            for k in range(K):
                lo, hi = t[:, k].min(), t[:, k].max()
                lines.append(torch.linspace((lo - .25 * (hi - lo)).item(), (hi + .25 * (hi - lo)).item(), points))
        if scaled:
            m.add_scale_transformation(Negate(K))
        got = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=points, device="cpu")
        ctx.shape(got, (n, K), "one score per respondent and ability")
        nodes = torch.stack([torch.stack([lines[k][i] for k, i in enumerate(ix)]) for ix in itertools.product(range(points), repeat=K)])
        logw = normal(ctx, nodes, cov)
        P = ctx.vals(m.item_probabilities(nodes))
        nv = ctx.vals(nodes)
        got = ctx.vals(got)
        for r in range(n):
            obs = [i for i in range(cfg.items) if not w[r, i]]
            post = [ctx.exp(logw[q] - logw[0]) * ctx.prod([pick(ctx, P[q, i], d[r, i], cfg.cats[i]) for i in obs]) for q in range(len(nv))]
            tot = ctx.sum(post)
            for k in range(K):
                e = ctx.sum([post[q] * nv[q, k] for q in range(len(nv))]) / tot
                ctx.eq(got[r, k], e if not scaled else -e, f"respondent {r}: score on ability {k} is the posterior mean given the observed responses")
    return f


def Negate(K):
    """turns every ability around"""
    return Reverse([True] * K)


for p in ("standard", "covariance", "training"):
    add(f"eap/2PL/{p}", eap(TWO, p, 3, 1, "nan"))
    add(f"eap/2PL/{p}/two", eap(TWO, p, 2, 2, None))
    add(f"eap/2PL-2d/{p}", eap(TWO2, p, 2, 1, None))
add("eap/2PL-3d", eap(ONE3, "standard", 2, 1, None))
add("eap/2PL-3d/two items", eap(TWO3, "standard", 2, 1, None), tier="thorough", timeout=600)
add("eap/GPC", eap(GPC, "standard", 3, 2, None))
add("eap/GPC/-1", eap(GPC, "covariance", 2, 2, "-1"))
add("eap/NR-mc", eap(NR, "training", 2, 2, None))
add("eap/2PL/scaled", eap(TWO, "standard", 2, 1, None, True))
add("eap/Mix", eap(MIX, "standard", 2, 1, "nan"))
add("eap/2PL-2d/two", eap(TWO2, "covariance", 2, 2, "nan"), tier="thorough")
add("eap/2PL/five", eap(TWO, "standard", 5, 1, "nan"), tier="thorough")


def objective(cfg, how, prior, n, miss, scaled=False):
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss)
        K = cfg.latent
        cov = torch.eye(K)
        if prior == "covariance":
            cov = torch.tensor([[1.44]]) if K == 1 else torch.tensor([[1.0, 0.5], [0.5, 2.0]])
            m.algorithm = type("A", (), {"covariance_matrix": cov, "training_theta_scores": None})()
        elif prior == "training":
            t = torch.tensor([[-1.0], [0.5], [2.0]]) if K == 1 else torch.tensor([[-1.0, 1.0], [0.5, 0.0], [2.0, 4.0]])
            m.algorithm = type("A", (), {"training_theta_scores": t})()
            c = t - t.mean(dim=0)
            cov = c.T @ c / (t.shape[0] - 1)
        th, x = cfg.th(ctx, n, name="start")
        m._initial_theta_from_training_data = lambda *a, **k: th
        if prior != "training":
            m.algorithm = m.algorithm or type("A", (), {})()
            m.algorithm.one_hot_encoded, m.algorithm.imputation_method = True, None
            m.algorithm.theta_scores = lambda data: th
        if scaled:
            m.add_scale_transformation(Negate(cfg.latent))
        with optimiser() as log:
            got = m.latent_scores(data, theta_estimation=how, device="cpu")
        ctx.prove(len(log) >= 1, "the optimiser is used")
        got = ctx.vals(got)
        sign = -1 if scaled else 1
        for ix in np.ndindex(n, K):
            ctx.eq(got[ix], sign * x[ix], f"the optimiser's result {list(ix)} is returned" + (" on the transformed scale" if scaled else ""), tol=1e-5)

        def reference(t):
            P = m.item_probabilities(t)
            tot = 0
            for r in range(n):
                for i in range(cfg.items):
                    if not w[r, i]:
                        k = int(ctx.concretize(d[r, i]))
                        tot = tot - torch.log(P[r, i, k])
            if how == "MAP":
                tot = tot - torch.distributions.MultivariateNormal(torch.zeros(K), cov).log_prob(t).sum()
            return tot.reshape(1)
        if not any(not v for v in w.reshape(-1)) and how == "ML":
            return
        value, grads = log[0]
        ctx.eq(ctx.vals(value).reshape(-1)[0], ctx.vals(reference(th))[0], f"the {how} objective is minus the log-{'posterior' if how == 'MAP' else 'likelihood'} of the observed responses")
        J = ctx.jac(reference, th)
        G = ctx.vals(grads[0])
        for ix in np.ndindex(n, K):
            ctx.eq(G[ix], J[(0,) + ix], f"the optimiser follows the objective's gradient {list(ix)}")
    return f


add("ML/2PL", objective(TWO, "ML", "standard", 2, None))
add("ML/2PL/nan", objective(TWO, "ML", "standard", 1, "nan"))
add("ML/GPC/-1", objective(GPC, "ML", "standard", 1, "-1"))
add("ML/NR-mc", objective(NR, "ML", "standard", 1, None))
add("ML/2PL-2d", objective(TWO2, "ML", "standard", 1, "nan"))
add("ML/2PL/scaled", objective(TWO, "ML", "standard", 1, None, True))
add("ML/Mix/two", objective(MIX, "ML", "standard", 2, None))
for p in ("standard", "covariance", "training"):
    add(f"MAP/2PL/{p}", objective(TWO, "MAP", p, 1, "nan"))
    add(f"MAP/2PL-2d/{p}", objective(TWO2, "MAP", p, 1, None))
add("ML/2PL-3d", objective(TWO3, "ML", "standard", 2, None))
add("MAP/2PL-3d", objective(TWO3, "MAP", "standard", 1, None))
add("MAP/GPC/two", objective(GPC, "MAP", "covariance", 2, None))


def start(cfg, n, t, miss, only=None):
    """the starting score is the training score with the highest likelihood of the observed responses"""
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss, only=only)
        train = ctx.reals("train", (t, cfg.latent), -2, 2)
        for q in range(1, t):
            ctx.assume(train[q, 0] >= train[q - 1, 0] + 0.125)
        m.algorithm = type("A", (), {"training_theta_scores": ctx.tensor(train)})()
        with optimiser():
            got = ctx.vals(m.latent_scores(data, theta_estimation="ML", device="cpu"))
        P = ctx.vals(m.item_probabilities(ctx.tensor(train)))
        for r in range(n):
            obs = [i for i in range(cfg.items) if not w[r, i]]
            like = [ctx.sum([0] + [ctx.log(pick(ctx, P[q, i], d[r, i], cfg.cats[i])) for i in obs]) for q in range(t)]
            same = [ctx.and_(*[ctx.abs(got[r, k] - train[q, k]) <= 1e-3 for k in range(cfg.latent)]) for q in range(t)]
            ctx.prove(ctx.or_(*same), f"respondent {r} starts from one of the training scores")
            for q in range(t):
                for p in range(t):
                    if p != q:
                        ctx.prove(ctx.implies(same[q], like[q] >= like[p] - 1e-3),
                                  f"respondent {r} starts from training score {q} only if it is at least as likely as {p}")
    return f


add("start/2PL", start(TWO, 1, 2, "nan"))
add("start/2PL/two", start(TWO, 2, 2, None))
add("start/2PL/two/nan", start(TWO, 2, 2, "nan", [(0, 0), (1, 1)]))
add("start/2PL/two/-1", start(TWO, 2, 2, "-1", [(0, 0), (0, 1)]))
add("start/GPC", start(GPC, 1, 2, None))
add("start/2PL/three", start(TWO, 1, 3, None), tier="thorough")


def nn(cfg, one_hot, miss, scaled=False):
    def f(ctx):
        m = cfg.model(ctx)
        n = 2
        data, d, w = responses(ctx, cfg, n, miss)
        k = sum(cfg.cats) if one_hot else cfg.items
        W = ctx.reals("enc", (k, cfg.latent), -2, 2)
        m.algorithm = Algorithm(ctx.tensor(W), one_hot, None if one_hot else "zero")
        if scaled:
            m.add_scale_transformation(Negate(cfg.latent))
        got = ctx.vals(m.latent_scores(data, theta_estimation="NN", device="cpu"))
        raw = ctx.vals(m.latent_scores(data, theta_estimation="NN", device="cpu", rescale=False))
        off = np.cumsum([0] + cfg.cats)
        for r in range(n):
            for a in range(cfg.latent):
                e = 0
                for i in range(cfg.items):
                    if w[r, i]:
                        continue
                    e = e + (pick(ctx, W[off[i]:off[i + 1], a], d[r, i], cfg.cats[i]) if one_hot else d[r, i] * W[i, a])
                ctx.eq(raw[r, a], e, f"respondent {r}: score {a} is the encoder's output for the responses encoded as in training", tol=1e-4)
                ctx.eq(got[r, a], -e if scaled else e, f"respondent {r}: reported score {a}", tol=1e-4)
    return f


add("NN/one-hot/2PL", nn(TWO, True, "nan"))
add("NN/one-hot/GPC", nn(GPC, True, "-1"))
add("NN/one-hot/2PL-2d", nn(TWO2, True, None))
add("NN/zero/GPC", nn(GPC, False, "nan"))
add("NN/one-hot/scaled", nn(NR, True, None, True))


def single(ctx):
    """one respondent may be given as a vector"""
    m = TWO.model(ctx)
    data, d, w = responses(ctx, TWO, 1, "nan")
    a = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=2, device="cpu")
    b = m.latent_scores(data[0], theta_estimation="EAP", eap_theta_integration_points=2, device="cpu")
    ctx.shape(b, (1, 1), "scores of a vector")
    ctx.eq(ctx.vals(b)[0, 0], ctx.vals(a)[0, 0], "a vector is one respondent")


add("single", single)


def unlikely(cfg, prior):
    """a respondent whose likelihood is below what even double precision can represent at every ability of the grid"""
    def f(ctx):
        m = ctx.build(cfg.build)
        ctx.symbolize(m, "p", 0, 0.25, ranges={"bias_param": (800, 1200)})
        if prior == "covariance":
            m.algorithm = type("A", (), {"covariance_matrix": torch.tensor([[1.44]]), "training_theta_scores": None})()
        got = m.latent_scores(torch.tensor([[1.0, 1.0], [0.0, 0.0]]), theta_estimation="EAP", eap_theta_integration_points=2, device="cpu")
        got = ctx.vals(got)
        for r in range(2):
            ctx.finite(got[r, 0], f"respondent {r}: score")
    return f


for p in ("standard", "covariance"):
    add(f"eap/2PL/{p}/unlikely", unlikely(TWO, p), float_range=True)
