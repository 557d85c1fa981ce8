"""Sum score distributions count every response pattern once and average over the stated abilities and weights."""
import itertools
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch import _internal_utils as U
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, NestedLogit
from irtorch.estimation_algorithms import VAE, MML
from irtorch.quantile_mv_normal import QuantileMVNormal
from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=3), 1, [2, 2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[2, 3, 2]), 1, [2, 3, 2], ref=ref_gpc)
GPC2 = Cfg("GPC-2d", lambda: GeneralizedPartialCredit(latent_variables=2, item_categories=[3, 2]), 2, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 4, 3], mc_correct=[0, 2, 1]), 1, [2, 4, 3], ref=ref_nominal, mc=[0, 2, 1])
NEST = Cfg("Nest", lambda: NestedLogit(mc_correct=[2, 0], correct_response_model=TwoParameterLogistic(items=2), item_categories=[3, 2]), 1, [3, 2],
           mc=[2, 0])


def pattern_sums(ctx, p, cats):
    """share of each total score from the item category probabilities p[i][k]: every response pattern counted once"""
    tot = [[] for _ in range(sum(cats) - len(cats) + 1)]
    for pat in itertools.product(*[range(k) for k in cats]):
        tot[sum(pat)].append(ctx.prod([p[i][k] for i, k in enumerate(pat)]))
    return [ctx.sum(t) for t in tot]


def conditional(cats, n=2):
    def f(ctx):
        K = max(cats)
        p = ctx.reals("p", (n, len(cats), K), 0, 1)
        for r, i, k in np.ndindex(n, len(cats), K):
            if k >= cats[i]:
                p[r, i, k] = 0
        g = ctx.vals(U.conditional_score_distribution(ctx.tensor(p), list(cats)))
        ctx.prove(g.shape == (n, sum(cats) - len(cats) + 1), "one probability per total score")
        for r in range(n):
            for s, e in enumerate(pattern_sums(ctx, p[r], cats)):
                ctx.eq(g[r, s], e, f"respondent {r}: probability of total score {s} sums over the response patterns with that score", tol=1e-5)
    return f


for cats in ([2, 2, 2], [3, 2], [2, 3, 4], [4, 2, 3], [3], [2, 2, 3, 2]):
    add("conditional/" + "-".join(map(str, cats)), conditional(cats))
add("conditional/3-4-2-3", conditional([3, 4, 2, 3]), tier="thorough")
add("conditional/2-2-2-2-2-2", conditional([2] * 6, 1), tier="thorough")
add("conditional/5-2-3-2", conditional([5, 2, 3, 2], 1), tier="thorough")


def dichotomised(ctx):
    cats, mc = [4, 2, 3, 4], [3, 0, 1, 0]
    p = ctx.reals("p", (2, 4, 4), 0, 1)
    for r, i, k in np.ndindex(2, 4, 4):
        if k >= cats[i]:
            p[r, i, k] = 0
    g = ctx.vals(U.sum_incorrect_probabilities(ctx.tensor(p), cats, mc))
    ctx.prove(g.shape == (2, 4, 2), "incorrect and correct")
    for r, i in np.ndindex(2, 4):
        ctx.eq(g[r, i, 1], p[r, i, mc[i]], f"probability of a correct response [{r},{i}]", tol=1e-5)
        ctx.eq(g[r, i, 0], ctx.sum([p[r, i, k] for k in range(4) if k != mc[i]]), f"probability of any incorrect response [{r},{i}]", tol=1e-5)


add("dichotomised", dichotomised)


def item_probs(ctx, cfg, P, r):
    if cfg.mc:
        return [[ctx.sum([P[r, i, k] for k in range(cfg.cats[i]) if k != c]), P[r, i, c]] for i, c in enumerate(cfg.mc)], [2] * cfg.items
    return [[P[r, i, k] for k in range(cfg.cats[i])] for i in range(cfg.items)], cfg.cats


def compare(ctx, cfg, m, got, th, w, what):
    P = ctx.vals(m.item_probabilities(th))
    n = P.shape[0]
    rows = [pattern_sums(ctx, *item_probs(ctx, cfg, P, r)) for r in range(n)]
    g = ctx.vals(got)
    ctx.prove(g.shape == (len(rows[0]),), "one probability per total score")
    for s in range(len(rows[0])):
        ctx.eq(g[s], ctx.sum([w[r] * rows[r][s] for r in range(n)]), f"{what}: probability of total score {s}")


def population(cfg, n=2):
    def f(ctx):
        m = cfg.model(ctx)
        th, _ = cfg.th(ctx, n)
        m.algorithm = type("A", (), {"training_theta_scores": th})()
        compare(ctx, cfg, m, m.evaluate.sum_score_probabilities(), th, [1 / n] * n, "average over the training population")
    return f


for c in (TWO, GPC, GPC2, NR, NEST):
    add(f"population/{c.name}", population(c))
add("population/GPC/3", population(GPC, 3), tier="thorough")


def encoder_sampling(ctx):
    m = TWO.model(ctx)
    alg = VAE()
    m.algorithm = alg
    alg.training_theta_scores = ctx.tensor(ctx.reals("train", (2, 1), -2, 2))
    smp, _ = TWO.th(ctx, 3, name="smp")
    seen = []
    alg.sample_latent_variables = lambda *a, **k: (seen.append((a, k)), smp)[1]
    compare(ctx, TWO, m, m.evaluate.sum_score_probabilities("encoder sampling", sample_size=3), smp, [1 / 3] * 3, "average over the encoder's samples")


add("encoder_sampling", encoder_sampling)


def given(ctx):
    """a new population is scored, and each of its respondents counts once"""
    m = TWO.model(ctx)
    m.algorithm = type("A", (), {"training_theta_scores": ctx.tensor(ctx.reals("train", (2, 1), -2, 2))})()
    th, _ = TWO.th(ctx, 3)
    data = torch.tensor([[0., 1., 0.], [1., 1., 0.], [1., 0., 1.]])
    m.latent_scores = lambda d, *a, **k: (ctx.prove(d is data, "the population given is scored"), th)[1]
    compare(ctx, TWO, m, m.evaluate.sum_score_probabilities(population_data=data), th, [1 / 3] * 3, "average over the population given")


add("given_population", given)


class Density:
    """any density"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def pdf(self, x):
        w = self.ctx.reals(f"pdf{len(self.calls)}", (x.shape[0],), 0.1, 2)
        self.calls.append((x, w))
        return self.ctx.tensor(w)


def density(cfg, method, n, grid):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        m.algorithm = type("A", (), {"training_theta_scores": th})()
        ev, den, fitted = m.evaluate, Density(ctx), []

        def approx(theta_scores=None, approximation=None, **k):
            fitted.append((theta_scores, approximation))
            ev.latent_density = den
        ev.approximate_latent_density = approx
        got = ev.sum_score_probabilities(method, trapezoidal_segments=grid)
        ctx.prove(len(fitted) == 1 and fitted[0][0] is th and fitted[0][1] == method, "the requested density is fitted to the population's abilities")
        ctx.prove(len(den.calls) == 1, "the density is evaluated on one grid")
        pts, w = den.calls[0]
        pv = ctx.vals(pts)
        ctx.prove(pv.shape == (grid ** cfg.latent, cfg.latent), "the grid covers every combination of abilities")
        for d in range(cfg.latent):
            col = [x[r, d] for r in range(n)]
            mean = ctx.sum(col) / n
            sd = ctx.sqrt(ctx.sum([(c - mean) * (c - mean) for c in col]) / (n - 1))
            lo, hi = col[0], col[0]
            for c in col[1:]:
                lo, hi = ctx.min(lo, c), ctx.max(hi, c)
            lo, hi = lo - sd, hi + sd
            for g, ix in enumerate(itertools.product(range(grid), repeat=cfg.latent)):
                ctx.eq(pv[g, d], lo + (hi - lo) * ix[d] / (grid - 1), f"grid point {g} of ability {d}: evenly spaced, one standard deviation beyond the scores")
        tot = ctx.sum(list(w))
        compare(ctx, cfg, m, got, pts, [v / tot for v in w], "average weighted by the density")
    return f


add("density/gmm/2PL", density(TWO, "gmm", 2, 3))
add("density/qmvn/2PL", density(TWO, "qmvn", 2, 2))
add("density/gmm/GPC-2d", density(GPC2, "gmm", 2, 2))


def history(method, known):
    """whatever was computed before (other populations, other fits), each population gets its own density; only a density the user asked for is kept"""
    kind = {"gmm": GaussianMixtureModel, "qmvn": QuantileMVNormal}[method]

    def f(ctx):
        m = TWO.model(ctx)
        grids = []

        def density(k):
            den = kind.__new__(kind)
            torch.nn.Module.__init__(den) if isinstance(den, torch.nn.Module) else None
            w = ctx.reals(f"pdf{k}", (2,), 0.1, 2)
            den.pdf = lambda x: (grids.append((k, x, w)), ctx.tensor(w))[1]
            return den
        ev = m.evaluate
        fitted = []

        def approx(theta_scores=None, approximation=None, **k):
            fitted.append(theta_scores)
            ev.latent_density = density(len(fitted))
        ev.approximate_latent_density = approx
        pops = [TWO.th(ctx, 2, name=n)[0] for n in ("t0", "t1", "t2")]
        data = torch.tensor([[0., 1., 0.], [1., 1., 0.]])
        m.latent_scores = lambda d, *a, **k: pops[2]
        if known:
            ev.latent_density = density(0)
        calls = [(pops[0], None), (pops[0], data), (pops[0], None), (pops[1], None)]
        for k, (train, given) in enumerate(calls):
            m.algorithm = type("A", (), {"training_theta_scores": train})()
            got = ev.sum_score_probabilities(method, population_data=given, trapezoidal_segments=2)
            ctx.prove(len(grids) == k + 1, f"call {k}: one density is evaluated")
            used, pts, w = grids[-1]
            if known and given is None:
                ctx.prove(used == 0, f"call {k}: the density the user approximated is used")
            else:
                ctx.prove(used > 0 and fitted[used - 1] is (train if given is None else pops[2]), f"call {k}: the density is that of the population in question")
            tot = ctx.sum(list(w))
            compare(ctx, TWO, m, got, pts, [v / tot for v in w], f"call {k}: average weighted by that density")
    return f


for meth in ("gmm", "qmvn"):
    add(f"history/{meth}", history(meth, False))
    add(f"history/{meth}/known", history(meth, True))


def mml(ctx):
    """models fitted by MML: the population is the fitted normal distribution"""
    m = TWO.model(ctx)
    alg = MML()
    alg.training_theta_scores = None
    alg.covariance_matrix = torch.tensor([[2.25]])
    m.algorithm = alg
    smp, z = TWO.th(ctx, 2, name="z")
    seen = []

    def sample(self, size=torch.Size()):
        seen.append((self.loc, self.covariance_matrix))
        return smp
    with mock.patch.object(torch.distributions.MultivariateNormal, "sample", sample):
        got = m.evaluate.sum_score_probabilities()
    ctx.prove(len(seen) == 1 and torch.equal(seen[0][0], torch.zeros(1)) and torch.allclose(seen[0][1], torch.tensor([[2.25]])), "zero mean, fitted covariance")
    compare(ctx, TWO, m, got, smp, [.5, .5], "average over the fitted normal population")


add("mml", mml)
