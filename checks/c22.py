"""Autoencoder, variational and joint estimation minimise their documented objectives and keep the best state."""
import contextlib
import math
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch.estimation_algorithms import AE, VAE, JML, MML
from irtorch.estimation_algorithms.encoders import StandardEncoder, VariationalEncoder, BoundedEncoder
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal, responses, pick
from .fit import training, in_order, Recorder

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[1, 0]), 1, [2, 3], ref=ref_nominal, mc=[1, 0])
TWO2 = Cfg("2PL-2d", lambda: TwoParameterLogistic(latent_variables=2, items=2), 2, [2, 2], ref=ref_2pl)


class Linear:
    """the encoder: linear in the encoded responses, with symbolic weights"""

    def __init__(self, ctx, cfg, one_hot, name, lo=-1, hi=1):
        self.ctx, self.cfg, self.one_hot = ctx, cfg, one_hot
        self.W = ctx.reals(name, (sum(cfg.cats) if one_hot else cfg.items, cfg.latent), lo, hi)
        self.t = ctx.tensor(self.W)

    def __call__(self, x):
        return x @ self.t

    def of(self, d, w):
        """the encoder's output for each respondent, by the documented encoding"""
        off = np.cumsum([0] + self.cfg.cats)
        out = np.empty((len(d), self.cfg.latent), dtype=object)
        for r, a in np.ndindex(*out.shape):
            e = 0
            for i in range(self.cfg.items):
                if not w[r, i]:
                    e = e + (pick(self.ctx, self.W[off[i]:off[i + 1], a], d[r, i], self.cfg.cats[i]) if self.one_hot else d[r, i] * self.W[i, a])
            out[r, a] = e
        return out


def loglik(ctx, cfg, P, d, w, r, q=None):
    obs = [i for i in range(cfg.items) if not w[r, i]]
    return ctx.sum([0] + [ctx.log(pick(ctx, P[r if q is None else q, i], d[r, i], cfg.cats[i])) for i in obs])


def ae(cfg, one_hot, n, miss):
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss)
        enc = Linear(ctx, cfg, one_hot, "enc")
        alg = AE()
        with training() as log, in_order(), mock.patch.object(StandardEncoder, "forward", lambda self, x: enc(x)):
            alg.fit(m, data, one_hot_encoded=one_hot, imputation_method=None if one_hot else "zero", max_epochs=2, evaluation_interval_size=1,
                    hidden_layers_encoder=[1], device="cpu")
            th = enc.of(d, w)
            got = ctx.vals(alg.training_theta_scores)
        ctx.prove(got.shape == th.shape, "one training score per respondent")
        for ix in np.ndindex(*th.shape):
            ctx.eq(got[ix], th[ix], f"training score {list(ix)} is the encoder's output for that respondent", tol=1e-4)
        P = ctx.vals(m.item_probabilities(ctx.tensor(th)))
        # with an imputation method the encoder sees imputed responses; the likelihood is that of the observed ones
        e = -ctx.sum([loglik(ctx, cfg, P, d, w, r) for r in range(n)]) / n
        hist = alg.training_history["train_loss"]
        ctx.prove(len(log) == 2 and len(hist) == 1, "one step per batch; one evaluation after the second")
        ctx.eq(hist[0], e, "the loss is minus the mean log-likelihood of the observed responses at the encoded abilities")
        steps(ctx, m, log)
    return f


def steps(ctx, m, log):
    named = {id(p): k for k, p in m.named_parameters()}
    first, last = ([{named[id(p)]: g for p, g in s if id(p) in named} for s in (log[0], log[-1])])
    ctx.prove(sorted(first) == sorted(named.values()), "all parameters of the model are estimated")
    for k in first:
        if first[k] is None or last[k] is None:
            ctx.prove(first[k] is None and last[k] is None, f"gradient of {k} in every step")
            continue
        a, b = ctx.vals(first[k]), ctx.vals(last[k])
        for ix in np.ndindex(*a.shape):
            ctx.eq(b[ix], a[ix], f"the same loss gives the same gradient of {k} {list(ix)} in every step", tol=1e-5)


for one_hot in (True, False):
    t = "one-hot" if one_hot else "zero"
    add(f"AE/{t}/2PL/nan", ae(TWO, one_hot, 1, "nan"))
    add(f"AE/{t}/GPC/-1", ae(GPC, one_hot, 1, "-1"))
    add(f"AE/{t}/2PL/two", ae(TWO, one_hot, 2, None))
add("AE/one-hot/NR-mc", ae(NR, True, 1, None))
add("AE/one-hot/2PL-2d", ae(TWO2, True, 1, "nan"))
add("AE/one-hot/GPC/two", ae(GPC, True, 2, "nan"), tier="thorough")


def vae(cfg, one_hot, n, miss, samples, anneal=False, iterations=5, only=None, epochs=2):
    """the importance weighted bound: -mean over respondents of log(mean over samples of p(x|t) (p(t)/q(t|x))^beta); one sample: the ELBO with the
    exact divergence"""
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss, only=only)
        mu, lv = Linear(ctx, cfg, one_hot, "mu"), Linear(ctx, cfg, one_hot, "logvar")
        alg, seen, forward = VAE(), [], type(m).forward

        def recording(self, theta, *a, **k):
            seen.append(theta)
            return forward(self, theta, *a, **k)
        with training() as log, in_order(), mock.patch.object(VariationalEncoder, "forward", lambda self, x: (mu(x), lv(x))), \
                mock.patch.object(type(m), "forward", recording):
            alg.fit(m, data, one_hot_encoded=one_hot, imputation_method=None if one_hot else "zero", max_epochs=epochs, evaluation_interval_size=1,
                    hidden_layers_encoder=[1], device="cpu", anneal=anneal, annealing_iterations=iterations, iw_samples=samples)
        M, L = mu.of(d, w), lv.of(d, w)
        got = ctx.vals(alg.training_theta_scores)
        for ix in np.ndindex(*M.shape):
            ctx.eq(got[ix], M[ix], f"training score {list(ix)} is the encoder's mean for that respondent", tol=1e-4)
        hist = alg.training_history["train_loss"]
        ctx.prove(len(log) == epochs and len(hist) == epochs - 1 and len(seen) == epochs, "one step per batch; one evaluation after each but the first")
        for k in range(1, epochs):
            th = seen[k].detach()
            ctx.prove(tuple(th.shape) == (samples * n, cfg.latent), "the requested number of samples per respondent")
            T = ctx.vals(th)
            draws = ctx.draws("randn")[-samples * n * cfg.latent * (epochs - k):][:samples * n * cfg.latent]
            for s, r, a in np.ndindex(samples, n, cfg.latent):
                ctx.eq(T[s * n + r, a], M[r, a] + ctx.exp(L[r, a] / 2) * draws[(s * n + r) * cfg.latent + a],
                       f"sample {s} of respondent {r}, ability {a}, comes from the encoded normal distribution", tol=1e-3)
            P = ctx.vals(m.item_probabilities(th))
            beta = min(1.0, k / iterations) if anneal else 1.0
            bounds = []
            for r in range(n):
                per = []
                for s in range(samples):
                    q = s * n + r
                    ll = loglik(ctx, cfg, P, d, w, r, q)
                    if samples == 1:
                        kl = ctx.sum([(M[r, a] * M[r, a] + ctx.exp(L[r, a]) - 1 - L[r, a]) / 2 for a in range(cfg.latent)])
                    else:
                        lq = -0.5 * draws_sq(draws, q, cfg.latent) - ctx.sum([L[r, a] / 2 for a in range(cfg.latent)])
                        lp = -0.5 * ctx.sum([T[q, a] * T[q, a] for a in range(cfg.latent)])
                        kl = lq - lp
                    per.append(ll - beta * kl)
                bounds.append(per[0] if samples == 1 else ctx.log(ctx.sum([ctx.exp(v) for v in per]) / samples))
            ctx.eq(hist[k - 1], -ctx.sum(bounds) / n, f"the loss of epoch {k} is minus the (importance weighted) evidence bound of the observed responses")
    return f


def draws_sq(draws, q, K):
    s = 0
    for a in range(K):
        s = s + draws[q * K + a] * draws[q * K + a]
    return s


add("VAE/one/2PL/nan", vae(TWO, True, 1, "nan", 1))
add("VAE/one/2PL/two", vae(TWO, True, 2, None, 1, True, 4))
add("VAE/one/2PL-2d", vae(TWO2, True, 1, None, 1))
add("VAE/two/2PL", vae(TWO, True, 1, None, 2))
add("VAE/two/2PL/nan", vae(TWO, True, 1, "nan", 2))
add("VAE/two/2PL/annealed", vae(TWO, True, 1, None, 2, True, 2))
add("VAE/two/GPC/zero", vae(GPC, False, 1, "-1", 2))
add("VAE/two/2PL-2d", vae(TWO2, True, 1, None, 2))
add("VAE/one/2PL/epochs", vae(TWO, True, 1, None, 1, True, 2, epochs=5))
add("VAE/two/2PL/epochs", vae(TWO, True, 1, None, 2, True, 2, epochs=4))
add("VAE/two/2PL/two", vae(TWO, True, 2, None, 2))
add("VAE/two/2PL/two/missing", vae(TWO, True, 2, "nan", 2, only=[(0, 1), (1, 0)]))
add("VAE/three/2PL/two/missing", vae(TWO, True, 2, "nan", 3, only=[(0, 0)]))


# ------------------------------------------------------------------ joint maximum likelihood
def jml(cfg, n, miss, batch, given):
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, n, miss)
        th, x = cfg.th(ctx, n, name="start")
        alg = JML()
        with training() as log:
            alg.fit(m, data, start_thetas=th if given else None, max_epochs=2, batch_size=batch, device="cpu")
        if not given:
            return sums(ctx, cfg, alg, d, w, n)
        P = ctx.vals(m.item_probabilities(th))
        each = [loglik(ctx, cfg, P, d, w, r) for r in range(n)]
        size = batch or n
        want = [-ctx.sum(each[k:k + size]) for k in range(0, n, size)] * 2
        hist = alg.training_history["train_loss"]
        ctx.prove(len(hist) == len(want) == len(log), "one step per batch")
        for k, (a, b) in enumerate(zip(hist, want)):
            ctx.eq(a, b, f"step {k}: the loss is minus the log-likelihood of the batch's observed responses at its respondents' abilities")
        got = ctx.vals(alg.training_theta_scores)
        ctx.prove(got.shape == x.shape, "one score per respondent")
        for ix in np.ndindex(*x.shape):
            ctx.eq(got[ix], x[ix], f"without any movement score {list(ix)} stays at its start", tol=1e-5)
        named = {id(p): k for k, p in m.named_parameters()}
        ctx.prove(all(sorted(named[id(p)] for p, _ in s if id(p) in named) == sorted(named.values()) and len(s) == len(named) + 1 for s in log),
                  "all item parameters and the abilities are estimated")
    return f


def sums(ctx, cfg, alg, d, w, n):
    """default starting abilities: standardised sum scores of the observed responses"""
    got = ctx.vals(alg.training_theta_scores)
    s = [ctx.sum([0] + [(ctx.ite(d[r, i] == cfg.mc[i], 1, 0) if cfg.mc else d[r, i]) for i in range(cfg.items) if not w[r, i]]) for r in range(n)]
    mean = ctx.sum(s) / n
    var = ctx.sum([(v - mean) * (v - mean) for v in s]) / (n - 1)
    if not ctx.branch(var > 0.01):
        return
    sd = ctx.sqrt(var)
    for r in range(n):
        ctx.eq(got[r, 0], (s[r] - mean) / sd, f"respondent {r} starts at the standardised sum score", tol=1e-3)


add("JML/2PL/nan", jml(TWO, 1, "nan", None, True))
add("JML/2PL/two", jml(TWO, 2, None, None, True))
add("JML/2PL/batches", jml(TWO, 3, None, 2, True))
add("JML/GPC/-1", jml(GPC, 1, "-1", None, True))
add("JML/NR-mc", jml(NR, 2, None, 1, True))
add("JML/2PL-2d", jml(TWO2, 2, None, 1, True))
add("JML/start/GPC", jml(GPC, 2, "nan", None, False))
add("JML/start/NR-mc", jml(NR, 2, None, None, False))


# ------------------------------------------------------------------ gradients
def gradient(cfg, how):
    """the optimiser is given the derivative of the recorded loss"""
    def f(ctx):
        m = cfg.model(ctx)
        data, d, w = responses(ctx, cfg, 1, None)
        d = [int(ctx.concretize(v)) for v in d[0]]
        enc = Linear(ctx, cfg, True, "enc")
        th, x = cfg.th(ctx, 1, name="start")
        points = 2
        with training() as log, in_order(), mock.patch.object(StandardEncoder, "forward", lambda self, x: enc(x)):
            if how == "AE":
                AE().fit(m, data, max_epochs=2, evaluation_interval_size=1, hidden_layers_encoder=[1], device="cpu")
                off = np.cumsum([0] + cfg.cats)
                at = ctx.tensor(np.array([[ctx.sum([enc.W[off[i] + d[i], a] for i in range(cfg.items)]) for a in range(cfg.latent)]], dtype=object))
            elif how == "JML":
                JML().fit(m, data, start_thetas=th, max_epochs=2, device="cpu")
                at = th
            else:
                MML().fit(m, data, max_epochs=2, integration_method="quasi_mc", quadrature_points=points, device="cpu")
                line = torch.linspace(-3, 3, points)
                at = torch.cartesian_prod(*[line] * cfg.latent).reshape(-1, cfg.latent)
                logs = torch.distributions.MultivariateNormal(torch.zeros(cfg.latent), torch.eye(cfg.latent)).log_prob(at)

        def loss():
            P = m.item_probabilities(at)
            ll = sum(torch.log(P[:, i, d[i]]) for i in range(cfg.items))
            if how == "MML":
                return -torch.log(torch.sum(torch.exp(logs) * torch.exp(ll))).reshape(1)
            return -ll
        for k, p in m.named_parameters():
            def moved(z, p=p):
                with torch.no_grad():
                    p.copy_(z)
                return loss()
            start = p.detach().clone()
            J = ctx.jac(moved, start)
            moved(start)
            for s in (log[0], log[-1]):
                G = next((g for q, g in s if q is p), None)
                ctx.prove(G is not None, f"{k} has a gradient")
                G = ctx.vals(G)
                for ix in np.ndindex(*G.shape):
                    ctx.eq(G[ix], J[(0,) + ix], f"the step follows the derivative of the loss with respect to {k} {list(ix)}")
    return f


for how in ("AE", "JML", "MML"):
    add(f"gradient/{how}/2PL", gradient(TWO, how))
    add(f"gradient/{how}/NR-mc", gradient(NR, how), tier="thorough" if how == "MML" else "quick", timeout=240)
add("gradient/JML/GPC", gradient(GPC, "JML"))
add("gradient/MML/2PL-2d", gradient(TWO2, "MML"), tier="thorough", timeout=400)


# ------------------------------------------------------------------ training loops: which state is kept, when they stop
def loop(how, epochs, interval=1, rates=(), patience=None, again=False):
    """losses are free; each step moves the parameters to known places; `again`: the same object has fitted before, and fitted better"""
    def f(ctx):
        m = ctx.build(lambda: TwoParameterLogistic(items=2))
        unit = 1 / 16 if how == "VAE" else 1        # its losses have exponentials of the encoder's parameters

        def move(k):
            def go(ps):
                for p in ps:
                    p.copy_(torch.full(p.shape, float(k + 1) * unit))
            return go
        for p in m.parameters():
            p.data.fill_(0.0)
        data = torch.tensor([[0., 1.], [1., 1.]])
        free, n, before = [], 2, [again]

        def ll(self, data, output, *a, loss_reduction="sum", **k):
            v = 0.5 if before[0] else ctx.real(f"ll{len(free)}", -3, 0)
            if not before[0]:
                free.append(v)
            if loss_reduction == "none":           # MML asks for one value per grid point, respondent and item
                out = ctx.tensor(np.array([v if q == 0 else 0 for q in range(data.shape[0] * 2)], dtype=object))
            else:
                out = ctx.tensor(np.array(v, dtype=object))
            return out + 0 * sum(p.sum() for p in self.parameters())
        kw = {} if patience is None else dict(learning_rate_updates_before_stopping=patience)
        alg = {"JML": JML, "AE": AE, "VAE": VAE, "MML": MML}[how]()

        def fit(epochs, **kw):
            if how == "JML":
                alg.fit(m, data, start_thetas=torch.zeros(2, 1), max_epochs=epochs, device="cpu", **kw)
            elif how == "MML":
                alg.fit(m, data, max_epochs=epochs, integration_method="quasi_mc", quadrature_points=1, device="cpu", **kw)
            else:                                   # the divergence of the variational model is annealed away
                more = dict(iw_samples=1, annealing_iterations=10 ** 9) if how == "VAE" else {}
                alg.fit(m, data, max_epochs=epochs, evaluation_interval_size=interval, hidden_layers_encoder=[1], device="cpu", **more, **kw)
        with in_order(), mock.patch.object(TwoParameterLogistic, "log_likelihood", ll):
            if again:
                with training([lambda ps: [p.copy_(torch.full(p.shape, -1.0)) for p in ps]] * 9, (0.5,) * 3):
                    fit(max(2, 2 * interval - 1), learning_rate_updates_before_stopping=9)
                before[0] = False
                for p in m.parameters():
                    p.data.fill_(0.0)
            with training([move(k) for k in range(epochs * 2)], rates) as log:
                fit(epochs, **kw)
        hist = alg.training_history["train_loss"]
        done = len(free)
        if how != "MML":
            scale = 1 if how == "JML" else n
            if interval == 1:
                evals = list(range(1 if how in ("AE", "VAE") else 0, done))
                want = [-free[k] / scale for k in evals]
            else:
                evals = list(range(interval - 1, done, interval))
                want = [-ctx.sum(free[k - interval + 1:k + 1]) / (interval * scale) for k in evals]
            ctx.prove(len(hist) == len(want), "one evaluation per interval")
            for k, (a, b) in enumerate(zip(hist, want)):
                ctx.eq(a, b, f"evaluation {k} averages the losses of its interval", tol=1e-4)
        else:
            evals = list(range(done))
        # when it stops: after the given number of learning rate reductions, or the last epoch
        stop, cuts = len(evals), 0
        for k in range(len(rates)):
            if rates[k]:
                cuts += 1
                if cuts >= patience:
                    stop = k + 1
                    break
        total = epochs if not cuts or cuts < (patience or 9) else evals[stop - 1] + 1
        ctx.prove(done == total, "training stops after the given number of learning rate reductions or epochs")
        where = {k: {float(v) for v in ctx.vals(p.detach()).reshape(-1)} for k, p in m.named_parameters()}
        scores = ctx.vals(alg.training_theta_scores) if how == "JML" else None
        kept = {v for s in where.values() for v in s} | (set() if scores is None else {float(v) for v in scores.reshape(-1)})
        ctx.prove(len(kept) == 1, "all parameters" + (" and abilities" if how == "JML" else "") + " kept come from the same iteration")
        k = round(kept.pop() / unit)
        # the state kept is that of the iteration with the lowest evaluated loss (just after its step, or just before it)
        ok = []
        for j, t in enumerate(evals):
            if k in (t, t + 1):
                ok.append(ctx.and_(*[hist[j] <= hist[q] + 1e-5 for q in range(len(hist))]))
        ctx.prove(ctx.or_(*ok) if ok else False, "the state kept belongs to the iteration with the lowest loss")
    return f


add("loop/JML", loop("JML", 4))
add("loop/MML", loop("MML", 4))
add("loop/AE", loop("AE", 4))
add("loop/AE/interval", loop("AE", 6, 2))
add("loop/JML/stop", loop("JML", 4, 1, (0, 0.5, 0.5), 2))
add("loop/MML/stop", loop("MML", 4, 1, (0.5, 0, 0.5), 2))
add("loop/AE/stop", loop("AE", 5, 1, (0.5, 0, 0.5), 2))
add("loop/AE/stop-interval", loop("AE", 6, 2, (0.5, 0.5), 2))
add("loop/VAE", loop("VAE", 4))
add("loop/VAE/interval", loop("VAE", 6, 2))
add("loop/VAE/stop", loop("VAE", 5, 1, (0.5, 0, 0.5), 2))
for how in ("AE", "VAE", "JML", "MML"):
    add(f"loop/{how}/again", loop(how, 4, again=True))
    add(f"loop/{how}/again/stop", loop(how, 4, 1, (0.5, 0, 0.5), 2, again=True))
add("loop/AE/again/interval", loop("AE", 6, 2, again=True))
add("loop/VAE/again/interval", loop("VAE", 6, 2, again=True))


# ------------------------------------------------------------------ encoders
def elu(ctx, x):
    return ctx.ite(x > 0, x, ctx.exp(x) - 1)


def encoder(kind, hidden, batchnorm, latent=1):
    """linear, (normalisation,) activation per hidden layer in order, then the output layer(s)"""
    def f(ctx):
        cls = {"standard": StandardEncoder, "variational": VariationalEncoder, "bounded": BoundedEncoder}[kind]
        e = ctx.build(lambda: cls(2, latent, hidden, batch_normalization=batchnorm, nonlinear=torch.nn.ELU()))
        e.eval()
        ctx.symbolize(e, "e", -1, 1)
        lin = [q for q in e.modules() if isinstance(q, torch.nn.Linear)]
        bns = [q for q in e.modules() if isinstance(q, torch.nn.BatchNorm1d)]
        outs = 2 if kind == "variational" else 1
        ctx.prove(len(lin) == len(hidden) + outs and len(bns) == (len(hidden) if batchnorm else 0), "one linear layer (and normalisation) per hidden layer")
        stats = []
        for k, b in enumerate(bns):
            mean, var = ctx.reals(f"mean{k}", (hidden[k],), -1, 1), ctx.reals(f"var{k}", (hidden[k],), 0.5, 2)
            ctx.assign(b, "running_mean", mean)
            ctx.assign(b, "running_var", var)
            stats.append((mean, var))
        x = ctx.reals("in", (2, 2), -1, 1)
        g = e(ctx.tensor(x))
        g = [ctx.vals(t) for t in (g if isinstance(g, tuple) else (g,))]
        lay = lambda q, v: [ctx.sum([W[o, j] * v[j] for j in range(len(v))]) + b[o] for W, b in [(ctx.vals(q.weight.detach()), ctx.vals(q.bias.detach()))] for o in range(len(b))]
        for r in range(2):
            v = list(x[r])
            for k, h in enumerate(hidden):
                v = lay(lin[k], v)
                if batchnorm:
                    mean, var = stats[k]
                    W, b = ctx.vals(bns[k].weight.detach()), ctx.vals(bns[k].bias.detach())
                    v = [(v[j] - mean[j]) / ctx.sqrt(var[j] + 1e-5) * W[j] + b[j] for j in range(h)]
                v = [elu(ctx, t) for t in v]
            for o in range(outs):
                for a, t in enumerate(lay(lin[len(hidden) + o], v)):
                    if kind == "bounded":
                        t = 2 / (1 + ctx.exp(-2 * t)) - 1
                        ctx.le(g[o][r, a], 1, "bounded above")
                        ctx.le(-1, g[o][r, a], "bounded below")
                    ctx.eq(g[o][r, a], t, f"respondent {r}: output {o},{a} applies the layers in order")
    return f


for kind in ("standard", "variational", "bounded"):
    add(f"encoder/{kind}/1", encoder(kind, [2], False, 2))
    add(f"encoder/{kind}/2", encoder(kind, [1, 2], False))
    add(f"encoder/{kind}/normalised", encoder(kind, [1, 1], True))


# ------------------------------------------------------------------ what a fitted variational autoencoder reports
def fitted(ctx, cfg):
    m = cfg.model(ctx)
    alg = VAE()
    mu, lv = Linear(ctx, cfg, True, "mu"), Linear(ctx, cfg, True, "logvar")
    alg.encoder = lambda x: (mu(x), lv(x))
    alg.one_hot_encoded, alg.imputation_method = True, None
    m.algorithm = alg
    return m, alg, mu, lv


def reports(ctx):
    cfg = GPC
    m, alg, mu, lv = fitted(ctx, cfg)
    data, d, w = responses(ctx, cfg, 2, None)
    from irtorch._internal_utils import one_hot_encode_test_data
    x = one_hot_encode_test_data(data, cfg.cats)
    M, L = mu.of(d, w), lv.of(d, w)
    mean, se = alg.latent_mean_se(x)
    lo, mid, hi = alg.latent_credible_interval(x, alpha=0.1)
    mean, se, lo, mid, hi = (ctx.vals(t) for t in (mean, se, lo, mid, hi))
    zl, zh = (ctx.vals(torch.distributions.Normal(0, 1).icdf(torch.tensor(p)))[()] for p in (0.05, 1 - 0.05))
    for r in range(2):
        sd = ctx.exp(L[r, 0] / 2)
        ctx.le(zh, 1.645, "normal quantile")
        ctx.le(1.6447, zh, "normal quantile")
        ctx.le(zl, -1.6447, "normal quantile")
        ctx.le(-1.645, zl, "normal quantile")
        ctx.eq(mean[r, 0], M[r, 0], f"mean of respondent {r}", tol=1e-4)
        ctx.eq(mid[r, 0], M[r, 0], f"centre of the interval of respondent {r}", tol=1e-4)
        ctx.eq(se[r, 0], sd, f"standard error of respondent {r}", tol=1e-3)
        ctx.eq(lo[r, 0], M[r, 0] + zl * sd, f"lower limit of respondent {r}", tol=2e-3)
        ctx.eq(hi[r, 0], M[r, 0] + zh * sd, f"upper limit of respondent {r}", tol=2e-3)


add("VAE/reports", reports)


def samples(ctx):
    """samples come from the encoded distributions of respondents of the training data"""
    cfg = TWO
    m, alg, mu, lv = fitted(ctx, cfg)
    data, d, w = responses(ctx, cfg, 2, "nan")
    alg.train_data = data
    M, L = mu.of(d, w), lv.of(d, w)
    got = ctx.vals(alg.sample_latent_variables(m, 2))
    ctx.prove(got.shape == (2, 1), "one row per sample")
    z, who = ctx.draws("randn")[-2:], ctx.draws("randint")[-2:]
    for s in range(2):
        for r in range(2):
            ctx.possible(who[s] == r, f"sample {s} can come from respondent {r}")
        e = [M[r, 0] + ctx.exp(L[r, 0] / 2) * z[s] for r in range(2)]
        ctx.eq(got[s, 0], ctx.ite(who[s] == 0, e[0], e[1]), f"sample {s} comes from the distribution of the respondent drawn", tol=1e-3)


add("VAE/samples", samples)


# ------------------------------------------------------------------ batches of different sizes, normalising encoders, imputed encoder inputs
def batches(kind):
    """three respondents in batches of two and one: every batch's loss is the mean over its own respondents"""
    def f(ctx):
        cfg, n = TWO, 3
        m = cfg.model(ctx)
        d = np.array([[1, 0], [0, 1], [1, 1]])
        w = np.zeros((n, 2), dtype=bool)
        w[1, 0] = True
        data = torch.tensor(np.where(w, np.nan, d).astype("float32"))
        mu, lv = Linear(ctx, cfg, True, "mu"), Linear(ctx, cfg, True, "logvar")
        seen, forward = [], type(m).forward

        def recording(self, theta, *a, **k):
            seen.append(theta)
            return forward(self, theta, *a, **k)
        alg, cls, enc = {"AE": (AE(), StandardEncoder, lambda x: mu(x)), "VAE": (VAE(), VariationalEncoder, lambda x: (mu(x), lv(x)))}[kind]
        with training() as log, in_order(), mock.patch.object(cls, "forward", lambda self, x: enc(x)), mock.patch.object(type(m), "forward", recording):
            alg.fit(m, data, max_epochs=2 if kind == "AE" else 1, evaluation_interval_size=1, hidden_layers_encoder=[1], batch_size=2, device="cpu", **({"anneal": False, "iw_samples": 1} if kind == "VAE" else {}))
        M, L = mu.of(d, w), lv.of(d, w)
        hist = alg.training_history["train_loss"]
        order = [[0, 1], [2], [0, 1], [2]] if kind == "AE" else [[0, 1], [2]]
        ctx.prove(len(log) == len(order) and len(hist) == len(order) - 1, "one step per batch")
        for k, rows in enumerate(order):
            T = seen[k].detach()
            ctx.prove(tuple(T.shape) == (len(rows), 1), f"batch {k} takes its respondents")
            if kind == "AE":
                ctx.eqs(ctx.vals(T), M[rows], f"batch {k}: encoded abilities", tol=1e-4)
            if k:
                P = ctx.vals(m.item_probabilities(T))
                ll = [loglik(ctx, cfg, P, d, w, r, q) for q, r in enumerate(rows)]
                kl = [(M[r, 0] * M[r, 0] + ctx.exp(L[r, 0]) - 1 - L[r, 0]) / 2 if kind == "VAE" else 0 for r in rows]
                ctx.eq(hist[k - 1], ctx.sum([kl[q] - ll[q] for q in range(len(rows))]) / len(rows), f"batch {k}: the loss is the mean over its own respondents")
        got = ctx.vals(alg.training_theta_scores)
        ctx.eqs(got, M, "training scores of all respondents", tol=1e-4)
    return f


add("AE/batches", batches("AE"))
add("VAE/batches", batches("VAE"))


def normalised(kind):
    """after training with batch normalisation a respondent's score does not depend on who is scored together with them"""
    def f(ctx):
        m = ctx.build(TWO.build)
        d = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.0, 0.0]])
        s = ctx.real("size", -2, 2)

        def move(ps):
            for p in ps:
                p.copy_(ctx.tensor(np.full(tuple(p.shape), 0.5 * s, dtype=object)) + 0.25 * torch.arange(p.numel()).reshape(p.shape) if p.dim() == 2 else p)
        alg = {"AE": AE, "VAE": VAE}[kind]()
        with training([None, move]), in_order():
            alg.fit(m, d, max_epochs=1, hidden_layers_encoder=[1], batch_normalization_encoder=True, device="cpu")
        with torch.no_grad():
            for p in alg.encoder.parameters():
                if p.dim() == 2:
                    p.copy_(ctx.tensor(np.full(tuple(p.shape), 0.5 * s, dtype=object)) + 0.25 * torch.arange(p.numel()).reshape(p.shape))
        from irtorch._internal_utils import one_hot_encode_test_data
        x = one_hot_encode_test_data(d, TWO.cats)
        together = ctx.vals(alg.theta_scores(x))
        for r in range(4):
            alone = ctx.vals(alg.theta_scores(x[r:r + 1]))
            ctx.eq(alone[0, 0], together[r, 0], f"respondent {r} alone and together with the others", tol=1e-4)
    return f


add("AE/normalised", normalised("AE"))
add("VAE/normalised", normalised("VAE"))


def imputed(kind, method):
    """the encoder sees imputed responses: options the item has, never the correct one; the likelihood that of the observed responses"""
    def f(ctx):
        cfg, n = NR, 2
        m = cfg.model(ctx)
        d = np.array([[1, 2], [0, 0]])
        w = np.array([[False, True], [True, False]])
        data = torch.tensor(np.where(w, np.nan, d).astype("float32"))
        got = []
        cls, alg = (StandardEncoder, AE()) if kind == "AE" else (VariationalEncoder, VAE())
        mu = Linear(ctx, cfg, False, "mu")

        def enc(self, x):
            got.append(x)
            return mu(x) if kind == "AE" else (mu(x), mu(x) * 0)
        with training(), in_order(), mock.patch.object(cls, "forward", enc):
            alg.fit(m, data, one_hot_encoded=False, imputation_method=method, max_epochs=1, hidden_layers_encoder=[1], device="cpu")
        for x in got:
            X = ctx.vals(x)
            for r, i in np.ndindex(n, 2):
                if not w[r, i]:
                    ctx.eq(X[r, i], int(d[r, i]), f"observed response {r},{i} goes to the encoder", tol=0)
                elif method == "zero":
                    ctx.eq(X[r, i], 0, f"missing response {r},{i}", tol=0)
                else:
                    ctx.prove(ctx.or_(*[X[r, i] == k for k in range(cfg.cats[i]) if k != cfg.mc[i]]), f"missing response {r},{i} becomes one of the item's incorrect options")
    return f


for kind in ("AE", "VAE"):
    for method in ("zero", "random incorrect"):
        add(f"{kind}/imputed/{method}", imputed(kind, method))
