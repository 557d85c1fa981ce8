"""Operations leave the caller's tensors and the model's parameters as they were."""
import math
import numpy as np
import torch
from torchsym.run import add
from irtorch.estimation_algorithms import JML, MML, AE, VAE
from irtorch.models import TwoParameterLogistic
from .common import Cfg
from .fit import training, in_order
from .calls import DATA, PLAIN, MODELS, flatten

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2])


def untouched(name, cfg, fn, n, miss):
    def f(ctx):
        m = cfg.model(ctx)
        th, x = cfg.th(ctx, n)
        d = ctx.ints("x", (n, cfg.items), 0, [k - 1 for k in cfg.cats])
        v = np.empty((n, cfg.items), dtype=object)
        for r, i in np.ndindex(n, cfg.items):
            code = {"nan": math.nan, "-1": -1}.get(miss)
            v[r, i] = d[r, i] if code is None else ctx.missing(ctx.branch(ctx.bool(f"missing_{r}_{i}")), d[r, i], code)
        data = ctx.tensor(v)
        params = {k: p for k, p in m.named_parameters()}
        next(iter(params.values())).requires_grad_(False)
        before = [ctx.vals(t).copy() for t in (data, th, *params.values())]
        flags = [t.requires_grad for t in (data, th)]
        frozen = [p.requires_grad for p in params.values()]
        try:
            fn(ctx, m, cfg, data, th)
        except (ValueError, RuntimeError):
            pass
        after = [ctx.vals(t) for t in (data, th, *params.values())]
        ctx.prove(flags == [t.requires_grad for t in (data, th)], "the caller's tensors keep their gradient flags")
        ctx.prove(all(dict(m.named_parameters()).get(k) is p for k, p in params.items()), "the model keeps its parameters")
        ctx.prove(frozen == [p.requires_grad for p in params.values()], "frozen parameters stay frozen and the others free")
        for what, a, b in zip(["responses", "abilities"] + [f"parameter {k}" for k in params], before, after):
            ctx.prove(a.shape == b.shape, f"{what} keep their shape")
            for ix in np.ndindex(*a.shape):
                ctx.eq(b[ix], a[ix], f"{what} {list(ix)} unchanged", tol=0)
    return f


for name, (models, fn) in DATA.items():
    c = models[0]
    for miss in ("nan", "-1"):
        add(f"{name}/{miss}", untouched(name, MODELS[c], fn, 1, miss))
for name, (models, fn) in PLAIN.items():
    for c in models:
        add(f"{name}/{c}", untouched(name, MODELS[c], fn, 2, None))


def estimation(kind, miss):
    """estimation changes the model it estimates and nothing it was given"""
    def f(ctx):
        cfg = TWO
        m = cfg.model(ctx)
        th, _ = ctx.theta(3, 1, -2, 2)
        other = ctx.build(cfg.build)
        ctx.symbolize(other, "o", -1, 1)
        rows = [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]
        if miss:
            rows[1][0] = math.nan if miss == "nan" else -1.0
        data = torch.tensor(rows)
        v = ctx.real("var", 0.5, 2)
        cov = ctx.tensor(np.array([[v]], dtype=object))
        kw = {"JML": dict(start_thetas=th), "MML": dict(covariance_matrix=cov, quadrature_points=2), "AE": dict(hidden_layers_encoder=[2], batch_size=3),
              "VAE": dict(hidden_layers_encoder=[2], batch_size=3)}[kind]

        def grow(ps):
            for p in ps:
                p.mul_(0.5).add_(0.25)
        given = dict(data=data, start=th, cov=cov, **{f"other {k}": p for k, p in other.named_parameters()})
        before = {k: ctx.vals(t.detach()).copy() for k, t in given.items()}
        flags = {k: t.requires_grad for k, t in given.items()}
        alg = {"JML": JML, "MML": MML, "AE": AE, "VAE": VAE}[kind]()
        with training([grow] * 2), in_order():
            m.fit(data, alg, max_epochs=1, device="cpu", **kw)
        for k, t in given.items():
            ctx.prove(t.requires_grad == flags[k], f"{k} keeps its gradient flag")
            now = ctx.vals(t.detach())
            ctx.prove(now.shape == before[k].shape, f"{k} keeps its shape")
            for ix in np.ndindex(*now.shape):
                a, b = before[k][ix], now[ix]
                if ctx.isnan(a) is True or (isinstance(a, float) and math.isnan(a)):
                    ctx.prove(ctx.isnan(b), f"{k} {list(ix)} still missing")
                else:
                    ctx.eq(b, a, f"{k} {list(ix)} unchanged", tol=0)
    return f


for kind in ("JML", "MML", "AE", "VAE"):
    for miss in (None, "nan", "-1"):
        add(f"estimation/{kind}/{miss}", estimation(kind, miss))
