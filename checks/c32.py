"""Comparing and fitting several models: the InterModel Vigorish, and models fitted side by side in worker processes."""
import copy
import itertools
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch import utils as X
from irtorch.models import BaseIRTModel, OneParameterLogistic, TwoParameterLogistic, ThreeParameterLogistic, GeneralizedPartialCredit, NominalResponse
from irtorch.estimation_algorithms import JML, MML
from .common import Cfg, responses, ref_2pl
from .fit import training, in_order

LOW, HIGH, TOL = 0.5 + 1e-6, 1 - 1e-6, 1e-6


def newton(L, w):
    """one step towards the probability w whose fair bet has log gain L: w log w + (1-w) log(1-w) = L"""
    step = -(w * torch.log(w) + (1 - w) * torch.log(1 - w) - L) / (torch.log(w) - torch.log(1 - w))
    return torch.clamp(w + step, LOW, HIGH), step


def vigorish(ctx, L, iterations):
    """the probabilities after at most that many steps, stopping when all are still"""
    w = torch.full((len(L),), 0.75)
    L = ctx.tensor(np.array(L, dtype=object))
    for _ in range(iterations):
        w, step = newton(L, w)
        if ctx.branch(ctx.and_(*[abs(v) < TOL for v in ctx.vals(step)])):
            break
    return list(ctx.vals(w))


def steps(k, lo, hi, n=2):
    def f(ctx):
        L = [ctx.real(f"L{j}", lo, hi) for j in range(n)]
        got = ctx.vals(X._imv_newton_raphson(ctx.tensor(np.array(L, dtype=object)), max_iter=k))
        want = vigorish(ctx, L, k)
        for j in range(n):
            ctx.eq(got[j], want[j], f"probability {j} after {k} step(s)", tol=1e-5)
            ctx.le(0.5, got[j], "better than a coin")
            ctx.le(got[j], 1, "a probability")
        ctx.prove(ctx.implies(L[0] < L[1], got[0] <= got[1]), "the model with the higher likelihood has the higher probability") if k == 1 else None
    return f


add("newton/1", steps(1, -5, 0))
add("newton/1/three", steps(1, -2, 0, 3))
add("newton/2", steps(2, -0.6, -0.3, 1))
add("newton/2/two", steps(2, -0.6, -0.3), tier="thorough", timeout=600)


def fixed(ctx):
    """a solution stays put: from 0.75 with the log gain of 0.75, whatever the other model does"""
    L0 = 0.75 * ctx.log(0.75) + 0.25 * ctx.log(0.25)
    L1 = ctx.real("L1", -0.5, -0.3)
    for k in (1, 2):
        for order in (0, 1):
            L = [L0, L1][::1 - 2 * order]
            got = list(ctx.vals(X._imv_newton_raphson(ctx.tensor(np.array(L, dtype=object)), max_iter=k)))[::1 - 2 * order]
            ctx.eq(got[0], 0.75, f"solution after {k} step(s)", tol=1e-5)
            ctx.eq(got[1], vigorish(ctx, [L1], k)[0], f"the other model takes all of its {k} step(s)", tol=1e-5)


add("newton/solution", fixed)

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
PAIRS = {
    "2PL/1PL": (lambda: TwoParameterLogistic(items=2), lambda: OneParameterLogistic(items=2), [2, 2], 1, 1),
    "2PL-2d/2PL": (lambda: TwoParameterLogistic(items=2, latent_variables=2), lambda: TwoParameterLogistic(items=2), [2, 2], 2, 1),
    "GPC/NR": (lambda: GeneralizedPartialCredit(item_categories=[3, 2]), lambda: NominalResponse(item_categories=[3, 2]), [3, 2], 1, 1),
    "3PL/2PL": (lambda: ThreeParameterLogistic(items=2), lambda: TwoParameterLogistic(items=2), [2, 2], 1, 1),
}


def compare(pair, n, miss, given, iterations=1):
    """each model's own abilities and mean log-likelihood of the observed responses; the relative change of the probabilities.
    Each model's log-likelihoods are arbitrary numbers here (they are decided elsewhere), given only for its own output at its own abilities"""
    b1, b2, cats, d1, d2 = PAIRS[pair]

    def f(ctx):
        c1 = Cfg("one", b1, d1, cats)
        ms = []
        for k, b in enumerate((b1, b2)):
            m = ctx.build(b)
            ctx.symbolize(m, "pq"[k], 0.25, 1.5)
            ms.append(m)
        data, d, w = responses(ctx, c1, n, miss)
        seen = [(r, i) for r in range(n) for i in range(2) if not w[r, i]]
        if not seen:
            return
        th = [ctx.theta(n, d1, -1, 1, "s")[0], ctx.theta(n, d2, -1, 1, "t")[0]]
        free = [ctx.reals(f"l{k}", (n, 2), -2, -0.1) for k in range(2)]
        L = [[l[ix] for ix in seen] for l in free]

        def likelihood(own):
            want = ctx.vals(ms[own](th[own]).detach())

            def log_likelihood(data, output, missing_mask=None, loss_reduction="sum"):
                got = ctx.vals(output.detach())
                ctx.prove(got.shape == want.shape, "the model's output")
                for ix in np.ndindex(*want.shape):
                    ctx.eq(got[ix], want[ix], f"model {own + 1} at its own abilities {list(ix)}", tol=1e-5)
                x = ctx.vals(data)
                for r, i in seen:
                    ctx.eq(x[r, i], d[r, i], f"response {r},{i}", tol=0)
                ctx.prove(loss_reduction == "none", "one value per response")
                v = free[own].copy()
                for r, i in np.ndindex(n, 2):
                    if w[r, i]:
                        ctx.prove(missing_mask is not None and bool(missing_mask[r, i]), f"response {r},{i} is known to be missing")
                        v[r, i] = float("nan")
                return ctx.tensor(v.ravel())
            return log_likelihood
        asked = []

        def scores(own):
            def latent_scores(data, **kw):
                asked.append((own, kw))
                return th[own]
            return latent_scores
        kw = {}
        with mock.patch.object(ms[0], "latent_scores", scores(0), create=True), mock.patch.object(ms[1], "latent_scores", scores(1), create=True), \
                mock.patch.object(ms[0], "log_likelihood", likelihood(0), create=True), mock.patch.object(ms[1], "log_likelihood", likelihood(1), create=True):
            if given == "none":
                kw = dict(theta_estimation="MAP")
            else:
                kw = {f"model{k + 1}_theta": th[k] for k in range(2) if given == "both" or given == str(k + 1)}
            got = X.imv(ms[0], ms[1], data, max_iterations=iterations, **kw)
        if given == "none":
            ctx.prove([a[0] for a in sorted(asked, key=lambda a: a[0])] == [0, 1], "each model scores the respondents")
            ctx.prove(all(a[1].get("theta_estimation") == "MAP" for a in asked), "as asked")
        v = vigorish(ctx, [ctx.sum(l) / len(l) for l in L], iterations)
        ctx.eq(ctx.vals(got.reshape(1))[0], (v[1] - v[0]) / v[0], "relative change from model 1 to model 2", tol=1e-4)
    return f


for p in PAIRS:
    add(f"imv/{p}/both", compare(p, 2, None, "both"))
add("imv/2PL/1PL/nan", compare("2PL/1PL", 2, "nan", "both"), timeout=200)
add("imv/GPC/NR/-1", compare("GPC/NR", 1, "-1", "both"), timeout=200)
add("imv/2PL/1PL/scored", compare("2PL/1PL", 1, None, "none"))
add("imv/2PL-2d/2PL/scored", compare("2PL-2d/2PL", 1, None, "none"))
add("imv/2PL/1PL/first", compare("2PL/1PL", 1, None, "1"))
add("imv/2PL/1PL/second", compare("2PL/1PL", 1, None, "2"))


# ------------------------------------------------------------ worker processes
class Pool:
    """processes as the standard library's pool uses them: tasks are sent in chunks, each chunk pickled as one, and so are its results"""
    made = []

    def __init__(self, processes=None, *a, **k):
        self.processes = processes or 1
        Pool.made.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    close = join = terminate = lambda self: None

    def _map(self, func, tasks, chunksize, star):
        tasks = list(tasks)
        if chunksize is None:
            chunksize, extra = divmod(len(tasks), self.processes * 4)
            chunksize += bool(extra)
        out = []
        for i in range(0, len(tasks), max(chunksize, 1)):
            chunk = copy.deepcopy(tasks[i:i + chunksize])
            out += copy.deepcopy([func(*t) if star else func(t) for t in chunk])
        return out

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, True)

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, False)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._map(func, iterable, chunksize, False))

    def apply(self, func, args=(), kwds={}):
        return copy.deepcopy(func(*copy.deepcopy(args), **copy.deepcopy(kwds)))


def workers():
    return mock.patch.multiple(torch.multiprocessing, Pool=Pool, set_start_method=lambda *a, **k: None)


def grow(ps):
    for j, p in enumerate(ps):
        p.copy_(p * 0.75 + 0.25 * (1 + j % 3))


def many(n, cores, kind):
    """every model is returned in its place, fitted to the data as it would have been alone, with results of its own"""
    def f(ctx):
        data = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])
        th0 = torch.tensor([[0.5], [-0.25], [1.0]])
        kw = dict(max_epochs=1)
        if kind == "JML":
            kw["start_thetas"] = th0.clone()
        else:
            kw["quadrature_points"] = 2
        make = {"JML": JML, "MML": MML}[kind]
        models, alone = [], []
        for k in range(n):
            m = ctx.build(TWO.build)
            ctx.symbolize(m, f"m{k}", 0.25, 2)
            models.append(m)
            alone.append((copy.deepcopy(m), make()))
        start = [[p.detach().clone() for p in m.parameters()] for m in models]
        threads = torch.get_num_threads()
        try:
            with training([grow] * (3 * n)), in_order(), workers():
                out = X.fit_multiple_models_cpu(models, data, cores_to_use=cores, algorithm=make(), **kw)
            ctx.prove(torch.get_num_threads() == threads, "as many threads as before")
        finally:
            torch.set_num_threads(threads)
        with training([grow] * (3 * n)), in_order():
            for m, a in alone:
                m.fit(data, a, device="cpu", **copy.deepcopy(kw))
        ctx.prove(len(out) == n, "as many models as given")
        for k in range(n):
            for (name, p), q in zip(out[k].named_parameters(), alone[k][0].parameters()):
                for ix, (a, b) in enumerate(zip(ctx.vals(p.detach()).ravel(), ctx.vals(q.detach()).ravel())):
                    ctx.eq(a, b, f"model {k}: {name}[{ix}]", tol=1e-5)
            got, want = out[k].algorithm, alone[k][1]
            for e, (a, b) in enumerate(zip(got.training_history["train_loss"], want.training_history["train_loss"])):
                ctx.eq(a, b, f"model {k}: loss {e}", tol=1e-4)
            if kind == "JML":
                for ix, (a, b) in enumerate(zip(ctx.vals(got.training_theta_scores).ravel(), ctx.vals(want.training_theta_scores).ravel())):
                    ctx.eq(a, b, f"model {k}: ability {ix}", tol=1e-5)
        ctx.prove(len({id(m) for m in out}) == n and len({id(m.algorithm) for m in out}) == n, "each model has its own results")
    return f


for kind in ("JML", "MML"):
    add(f"many/{kind}/2/2", many(2, 2, kind))
    add(f"many/{kind}/3/None", many(3, None, kind))
    add(f"many/{kind}/5/1", many(5, 1, kind))
    add(f"many/{kind}/3/1", many(3, 1, kind))


def failing(ctx):
    """threads are given back when a fit fails, and the failure reaches the caller"""
    threads = torch.get_num_threads()
    m = ctx.build(TWO.build)
    ctx.symbolize(m, "p", 0.25, 2)
    raised = False
    try:
        with workers(), mock.patch.object(TwoParameterLogistic, "fit", side_effect=KeyError("no")):
            try:
                X.fit_multiple_models_cpu([m, m], torch.zeros(2, 2), algorithm=JML())
            except KeyError:
                raised = True
        ctx.prove(raised, "the failure reaches the caller")
        ctx.prove(torch.get_num_threads() == threads, "as many threads as before")
    finally:
        torch.set_num_threads(threads)


add("many/failing", failing)


def parallel(n, k, grid, cores, fail=False):
    """cross-validation in worker processes reports what it reports one after the other, whatever the fits and scores are"""
    def f(ctx):
        m = ctx.build(TWO.build)
        ctx.symbolize(m, "p", 0.25, 2)
        table = {}

        def run(parallel):
            seen = []

            def fit(self, train_data, algorithm, device=None, **params):
                with torch.no_grad():
                    for p in self.parameters():
                        p.add_(params["a"] * 0.125 * (1 + float(ctx.concretize(ctx.vals(train_data)[:, 0].sum()))))
                self.algorithm = algorithm

            def ll(self, data, theta_estimation=None, reduction=None, **kw):
                rows = tuple(float(ctx.concretize(v)) for v in ctx.vals(data)[:, 0])
                W = ctx.vals(self.model.weight_param.detach()).ravel()
                return ctx.tensor(np.array(sum(W) * (1 + rows[0]), dtype=object))
            from irtorch.evaluator import Evaluator
            data = torch.arange(2.0 * n).reshape(n, 2)
            with mock.patch.object(TwoParameterLogistic, "fit", fit), mock.patch.object(Evaluator, "log_likelihood", ll), workers(), \
                    mock.patch.object(torch, "randperm", lambda k, **kw: torch.arange(k)), mock.patch.object(X, "start_timer"), mock.patch.object(X, "end_timer_and_print"):
                return X.cross_validation(m, data, folds=k, params_grid=grid, device="cpu", cores_to_use=cores, multiprocessing=parallel, algorithm=JML())
        threads = torch.get_num_threads()
        try:
            Pool.made = []
            a = run(True)
            ctx.prove(len(Pool.made) == 1, "worker processes were used")
            ctx.prove(torch.get_num_threads() == threads, "as many threads as before")
        finally:
            torch.set_num_threads(threads)
        b = run(False)
        ctx.prove(len(a) == len(b) and list(a.columns) == list(b.columns), "the same table")
        for r in range(len(b)):
            ctx.prove(all(a[c].iloc[r] == b[c].iloc[r] for c in grid), f"parameters of row {r}")
            ctx.eq(a["log_likelihood"].iloc[r], b["log_likelihood"].iloc[r], f"log-likelihood of row {r}", tol=1e-4)
    return f


add("cv/2", parallel(4, 2, {"a": [1, 2]}, 2))
add("cv/None", parallel(4, 2, {"a": [1, 2, 3]}, None))
add("cv/1", parallel(3, 3, {"a": [1, 2, 3, 4, 5]}, 1))
