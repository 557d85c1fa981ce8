"""Data splits partition the respondents and cross-validation scores each parameter combination on folds it was not fitted to."""
import copy
import numpy as np
import torch
from unittest import mock
from torchsym.run import add
from irtorch import utils as X
from irtorch.evaluator import Evaluator
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import JML
from irtorch import models

IDS = lambda n: torch.arange(n, dtype=torch.float32)[:, None].repeat(1, 2) * torch.tensor([1., 0.]) + torch.arange(n, dtype=torch.float32)[:, None] * torch.tensor([0., 10.])


def once(ctx, rows, n, what):
    """rows: list of (first column, second column); each of the n respondents exactly once, with its own responses"""
    ctx.prove(len(rows) == n, f"{what}: as many rows as respondents")
    for r in range(n):
        hits = [ctx.ite(v[0] == r, 1, 0) for v in rows]
        ctx.eq(ctx.sum(hits), 1, f"{what}: respondent {r} appears exactly once", tol=0)
    for k, v in enumerate(rows):
        ctx.eq(v[1], 10 * v[0], f"{what}: row {k} keeps a respondent's responses together", tol=0)


def split(n, ratio, shuffle):
    def f(ctx):
        a, b = X.split_data(IDS(n), ratio, shuffle=shuffle)
        a, b = ctx.vals(a), ctx.vals(b)
        ctx.prove(len(a) == int(n * ratio), "the training part has the requested share of the respondents, rounded down")
        once(ctx, list(a) + list(b), n, "training and test part")
        if not shuffle:
            for k, v in enumerate(list(a) + list(b)):
                ctx.eq(v[0], k, f"row {k} keeps its place without shuffling", tol=0)
    return f


for n, ratio in ((5, 0.8), (4, 0.5), (3, 0.7), (5, 0.5)):
    for sh in (True, False):
        add(f"split/{n}/{ratio}/{'shuffled' if sh else 'in order'}", split(n, ratio, sh))
add("split/7/0.6/shuffled", split(7, 0.6, True), tier="thorough")


def folds(n, k):
    def f(ctx):
        fs = [ctx.vals(x) for x in X._prepare_cross_validation_data(IDS(n), k)]
        ctx.prove(len(fs) == k, "as many folds as requested")
        sizes = [len(x) for x in fs]
        ctx.prove(max(sizes) - min(sizes) <= 1, "fold sizes differ by at most one")
        once(ctx, [v for x in fs for v in x], n, "folds")
    return f


for n, k in ((4, 2), (5, 2), (5, 3), (5, 4), (4, 4)):
    add(f"folds/{n}/{k}", folds(n, k))
for n, k in ((7, 3), (7, 5)):
    add(f"folds/{n}/{k}", folds(n, k), tier="thorough")


def combos(ctx, tag, grid):
    out = [{}]
    for k, vs in grid.items():
        out = [{**d, k: v} for d in out for v in vs]
    return out


class Log:
    def __init__(self, ctx):
        self.ctx, self.fits, self.evals = ctx, [], []


def cross(n, k, grid, extra, algorithms=False):
    def f(ctx):
        m = ctx.build(lambda: TwoParameterLogistic(items=2))
        start = {q: p.detach().clone() for q, p in m.named_parameters()}
        log = Log(ctx)
        algs = [JML(), JML()] if algorithms else []
        marks = {id(a): j for j, a in enumerate(algs)}
        for j, a in enumerate(algs):
            a.marker, a.used = j, False
        g = dict(grid, **({"algorithm": algs} if algs else {}))

        def fit(self, train_data, algorithm=None, **kw):
            fresh = all(torch.equal(p.detach(), start[q]) for q, p in self.named_parameters())
            log.fits.append((self, ctx.vals(train_data), kw, algorithm, fresh, None if algorithm is None else not algorithm.used))
            if algorithm is not None:
                algorithm.used = True
            with torch.no_grad():
                for p in self.parameters():
                    p += 1.0

        def ll(self, data=None, *a, **kw):
            v = ctx.real(f"ll{len(log.evals)}", -5, 0)
            log.evals.append((self.model, ctx.vals(data), a, kw, v))
            return ctx.tensor(np.array(v, dtype=object))
        with mock.patch.object(TwoParameterLogistic, "fit", fit), mock.patch.object(Evaluator, "log_likelihood", ll):
            df = X.cross_validation(m, IDS(n), k, g, theta_estimation="MAP", device="cpu", multiprocessing=False, **extra)
        want = combos(ctx, "", g)
        ctx.prove(len(df) == len(want), "one result per parameter combination")
        ctx.prove(len(log.fits) == len(want) * k and len(log.evals) == len(want) * k, "one fit and one evaluation per combination and fold")
        ctx.prove(all(torch.equal(p.detach(), start[q]) for q, p in m.named_parameters()), "the caller's model is not fitted")
        ctx.prove(all(not a.used for a in algs), "the caller's algorithms are not used up")
        ctx.prove(sorted(df.columns) == sorted(list(g) + ["log_likelihood"]), "results list the varied parameters and the log-likelihood")
        for c, par in enumerate(want):
            sel = range(c * k, (c + 1) * k)
            val = []
            for j in sel:
                mod, tr, kw, alg, fresh, unused = log.fits[j]
                emod, ev, ea, ekw, v = log.evals[j]
                ctx.prove(fresh, f"combination {c} fold {j - c * k} starts from the model as given")
                ctx.prove(emod is mod, f"combination {c} fold {j - c * k} is evaluated with the model fitted for it")
                exp = {q: x for q, x in {**par, **extra}.items() if q != "algorithm"}
                ctx.prove({q: x for q, x in kw.items() if q != "device"} == exp, f"combination {c} is fitted with its parameters")
                if algs:
                    ctx.prove(alg.marker == par["algorithm"].marker and unused, f"combination {c} fold {j - c * k} is fitted with a fresh copy of its algorithm")
                ctx.prove(ekw.get("theta_estimation") == "MAP" and ekw.get("reduction") == "sum", f"combination {c} is scored as requested")
                once(ctx, list(tr) + list(ev), n, f"combination {c} fold {j - c * k} training and validation data")
                val += list(ev)
            once(ctx, val, n, f"combination {c} validation data of all folds")
            ctx.eq(df["log_likelihood"].iloc[c], ctx.sum([log.evals[j][4] for j in sel]) / k, f"combination {c}: average log-likelihood of its folds", tol=1e-4)
            for q in grid:
                ctx.prove(df[q].iloc[c] == par[q], f"combination {c} is reported under its parameters")
            if algs:
                ctx.prove(getattr(df["algorithm"].iloc[c], "marker", None) == par["algorithm"].marker, f"combination {c} is reported under its algorithm")
    return f


add("cross/4/2", cross(4, 2, {"learning_rate": [0.1, 0.2], "name": ["a", "b"]}, {}))
add("cross/5/3", cross(5, 3, {"batch_size": [8, 16]}, {"max_epochs": 7}))
add("cross/3/2/algorithms", cross(3, 2, {"batch_size": [8, 16]}, {"max_epochs": 7}, True))
add("cross/6/4", cross(6, 4, {"batch_size": [8, 16, 3], "learning_rate": [0.1, 0.2]}, {}), tier="thorough")
