"""Stand-ins around the estimation algorithms: the optimiser is replaced by one that records the loss's gradient and then does what the
harness says (nothing, or sets parameters), so that one or a few training iterations run on symbolic parameters."""
import contextlib
from unittest import mock
import numpy as np
import torch


class Recorder(torch.optim.Optimizer):
    """records the gradients it is given; `moves[k]` is called at the k-th step"""
    log: list = []
    moves: list = []

    def __init__(self, params, lr=0.1, **kw):
        super().__init__(list(params), {"lr": lr})

    def step(self, closure=None):
        ps = [p for g in self.param_groups for p in g["params"]]
        k = len(Recorder.log)
        Recorder.log.append([(p, None if p.grad is None else p.grad.detach().clone()) for p in ps])
        if k < len(Recorder.moves) and Recorder.moves[k] is not None:
            with torch.no_grad():
                Recorder.moves[k](ps)

    def state_dict(self):
        return {"state": {}, "param_groups": [{"lr": g["lr"]} for g in self.param_groups]}

    def load_state_dict(self, d):
        for g, s in zip(self.param_groups, d["param_groups"]):
            g["lr"] = s["lr"]


class Scheduler:
    """a learning rate schedule: `rates[k]` is the factor applied after the k-th report"""
    rates: list = []

    def __init__(self, optimizer, *a, **k):
        self.optimizer, self.n, self.seen = optimizer, 0, []

    def step(self, loss, *a):
        self.seen.append(loss)
        if self.n < len(Scheduler.rates) and Scheduler.rates[self.n]:
            for g in self.optimizer.param_groups:
                g["lr"] *= Scheduler.rates[self.n]
        self.n += 1


@contextlib.contextmanager
def training(moves=(), rates=()):
    Recorder.log, Recorder.moves, Scheduler.rates = [], list(moves), list(rates)
    names = ("Adam", "AdamW", "SGD", "NAdam", "RMSprop")
    with contextlib.ExitStack() as s:
        for n in names:
            s.enter_context(mock.patch.object(torch.optim, n, Recorder))
        s.enter_context(mock.patch.object(torch.optim.lr_scheduler, "ReduceLROnPlateau", Scheduler))
        yield Recorder.log


@contextlib.contextmanager
def in_order():
    """batches take the respondents in order (shuffling is the DataLoader's business)"""
    with mock.patch.object(torch.utils.data.RandomSampler, "__iter__", lambda self: iter(range(len(self.data_source)))):
        yield
