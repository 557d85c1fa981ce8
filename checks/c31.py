"""A saved model comes back as it was: probabilities, scales and what estimation left behind, whatever happened in between."""
import copy
import os
import tempfile
import types
from unittest import mock
import numpy as np
import torch
from torchsym.run import add
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit
from irtorch.estimation_algorithms import MML, JML, AE, VAE
from irtorch.rescale import Flow, LinkCommonItems, Reverse, Rotate, RankCDF
from .common import ZOO, Cfg, ref_2pl, ref_gpc
from .fit import training, in_order
from .scales import affine, curved


class Disk:
    """what torch.save would have written, kept as a copy: later changes to the saved objects must not reach it. Concretely a real file is used."""

    def __init__(self, ctx):
        self.ctx, self.files, self.dir = ctx, {}, None

    def __enter__(self):
        if not self.ctx.symbolic:
            self.dir = tempfile.TemporaryDirectory()
            self.patches = []
            return self
        self.patches = [mock.patch.object(torch, "save", self.save), mock.patch.object(torch, "load", self.load)]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, *a):
        for p in self.patches:
            p.stop()
        if self.dir is not None:
            self.dir.cleanup()

    def path(self, name="model.pt"):
        return os.path.join(self.dir.name if self.dir else "/nowhere", name)

    def save(self, obj, f, *a, **k):
        self.files[str(f)] = copy.deepcopy(obj)

    def load(self, f, *a, **k):
        return copy.deepcopy(self.files[str(f)])


def same(ctx, a, b, what, tol=1e-5):
    A, B = ctx.vals(a), ctx.vals(b)
    ctx.prove(A.shape == B.shape, f"{what}: same shape")
    for ix in np.ndindex(*A.shape):
        ctx.eq(A[ix], B[ix], f"{what} {list(ix)}", tol=tol)


def perturb(m, by=1.0):
    """what further estimation would do to a model"""
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.copy_(p * 0.5 + by * (1 + k % 3) * 0.25)


def roundtrip(cfg):
    """a fresh model with other parameters becomes the saved one, which meanwhile has moved on"""
    def f(ctx):
        m = cfg.model(ctx)
        th, _ = cfg.th(ctx, 1)
        before = m.item_probabilities(th).detach()
        with Disk(ctx) as disk:
            m.save_model(disk.path())
            perturb(m)
            other = ctx.build(cfg.build)
            ctx.symbolize(other, "q", cfg.lo, cfg.hi, ranges=cfg.ranges)
            other.load_model(disk.path())
        other.eval()
        same(ctx, other.item_probabilities(th).detach(), before, "probabilities of the loaded model")
        names = dict(other.named_parameters())
        ctx.prove(all(p.requires_grad == names[k].requires_grad for k, p in m.named_parameters()), "the same parameters are free")
        ctx.prove(list(other.scale) == [] and other.algorithm is None, "nothing was fitted, no scales")
    return f


for c in ZOO.values():
    add(f"roundtrip/{c.name}", roundtrip(c))


# ------------------------------------------------------------ scales and estimation results
G1 = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
G2 = Cfg("GPC-2d", lambda: GeneralizedPartialCredit(latent_variables=2, item_categories=[2, 3]), 2, [2, 3], ref=ref_gpc)


def a_flow(ctx, d, name):
    from .scales import flow
    return flow(ctx, d, name)


def scales(d, kinds, before=()):
    cfg = {1: G1, 2: G2}[d]
    make = dict(affine=lambda ctx, n: affine(ctx, n, d), curved=lambda ctx, n: curved(ctx, n), reverse=lambda ctx, n: Reverse([True] + [False] * (d - 1)),
                flow=lambda ctx, n: a_flow(ctx, d, n))

    def f(ctx):
        m = cfg.model(ctx)
        for k, s in enumerate(kinds):
            m.add_scale_transformation(make[s](ctx, f"s{k}"))
        th, _ = cfg.th(ctx, 1, -1.5, 1.5)
        t0, i0 = m.transform_theta(th).detach(), m.item_probabilities(th).detach()
        j0 = m.theta_transform_jacobian(th).detach() if kinds else None
        with Disk(ctx) as disk:
            m.save_model(disk.path())
            m.add_scale_transformation(Reverse([True] * d))           # the original gets another scale afterwards
            other = ctx.build(cfg.build)
            ctx.symbolize(other, "q", -2, 2)
            for s in before:
                other.add_scale_transformation(make[s](ctx, "old"))     # and the model loaded over had its own
            other.load_model(disk.path())
        ctx.prove(len(other.scale) == len(kinds), "the saved scales, no others")
        same(ctx, other.transform_theta(th).detach(), t0, "transformed abilities")
        same(ctx, other.item_probabilities(th).detach(), i0, "probabilities")
        if kinds:
            same(ctx, other.theta_transform_jacobian(th).detach(), j0, "Jacobian of the scales")
    return f


add("scales/one", scales(1, ["affine"]))
add("scales/order", scales(2, ["affine", "curved"]))
add("scales/reverse", scales(2, ["reverse", "affine"]))
add("scales/flow", scales(1, ["flow"]))
add("scales/flow/2", scales(2, ["flow", "reverse"]))
add("scales/replaced", scales(1, ["affine"], ["curved", "affine"]))
add("scales/none", scales(1, [], ["affine"]))


def results(kind):
    """what estimation left behind is there after loading: scores and their uncertainty are the same"""
    def f(ctx):
        m = G1.model(ctx)
        x0, x1 = ctx.real("tr0", -2, -0.5), ctx.real("tr1", 0.5, 2)
        tr = ctx.tensor(np.array([[x0], [x1]], dtype=object))
        alg = {"MML": MML, "JML": JML}[kind]()
        alg.train_data = torch.tensor([[0.0, 1.0], [2.0, 0.0]])
        alg.training_theta_scores = tr
        alg.training_history = {"train_loss": [ctx.real("l0", 0, 9), ctx.real("l1", 0, 9)]}
        if kind == "MML":
            alg.training_theta_scores = None
            v = ctx.real("var", 0.25, 4)
            alg.covariance_matrix = ctx.tensor(np.array([[v]], dtype=object))
        m.algorithm = alg
        data = torch.tensor([[1.0, 1.0]])
        want = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=3)
        with Disk(ctx) as disk:
            m.save_model(disk.path())
            alg.training_theta_scores = torch.full((2, 1), 0.3) if kind == "JML" else None
            alg.covariance_matrix = torch.tensor([[9.0]])
            alg.training_history["train_loss"].append(0.0)
            other = ctx.build(G1.build)
            ctx.symbolize(other, "q", -2, 2)
            other.algorithm = MML()
            other.load_model(disk.path())
        a = other.algorithm
        ctx.prove(type(a) is type(m.algorithm), "the algorithm used")
        ctx.prove(bool((a.train_data == torch.tensor([[0.0, 1.0], [2.0, 0.0]])).all()), "training data")
        ctx.prove(len(a.training_history["train_loss"]) == 2, "training history")
        if kind == "JML":
            same(ctx, a.training_theta_scores, tr, "training abilities")
        same(ctx, other.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=3), want, "EAP scores")
    return f


add("results/MML", results("MML"))
add("results/JML", results("JML"))


def encoder(alg_type):
    """a fitted autoencoder scores respondents the same after loading"""
    def f(ctx):
        from irtorch.estimation_algorithms.encoders import StandardEncoder, VariationalEncoder
        m = G1.model(ctx)
        alg = alg_type()
        enc = ctx.build((lambda: StandardEncoder(5, 1, [2], False)) if alg_type is AE else (lambda: VariationalEncoder(5, 1, [2], False)))
        ctx.symbolize(enc, "e", -1, 1)
        alg.encoder = enc
        alg.one_hot_encoded = True
        alg.item_categories = m.item_categories
        alg.training_theta_scores = torch.tensor([[0.5], [-0.5]])
        m.algorithm = alg
        data = torch.tensor([[1.0, 1.0], [2.0, 0.0]])
        want = m.latent_scores(data, theta_estimation="NN")
        with Disk(ctx) as disk:
            m.save_model(disk.path())
            perturb(enc)
            other = ctx.build(G1.build)
            ctx.symbolize(other, "q", -2, 2)
            other.load_model(disk.path())
        same(ctx, other.latent_scores(data, theta_estimation="NN"), want, "network scores")
    return f


add("results/AE", encoder(AE))
add("results/VAE", encoder(VAE))


# ------------------------------------------------------------ after estimation, finished or interrupted
class Stop(Exception):
    """what interrupts the estimation (a KeyboardInterrupt from the user, an out of memory error, ...)"""


def after(cfg, kind, stop, ref=None):
    """wherever estimation ends (after `stop` steps, or at max_epochs), the model's probabilities are those of a new model with its parameters,
    at other abilities and another number of respondents than it was estimated on"""
    def f(ctx):
        m = ctx.build(cfg.build)
        fresh = ctx.build(cfg.build)
        ctx.symbolize(m, "p", cfg.lo, cfg.hi, ranges=cfg.ranges)
        ctx.symbolize(fresh, "q", cfg.lo, cfg.hi, ranges=cfg.ranges)
        data = torch.tensor([[1.0] * cfg.items, [0.0] * cfg.items])

        def step(k):
            def move(ps):
                for j, p in enumerate(ps):
                    p.copy_(p * 0.75 + 0.125 * (1 + (j + k) % 3))
                if k == stop:
                    raise Stop()
            return move
        alg = {"MML": MML, "JML": JML}[kind]()
        kw = dict(max_epochs=2, device="cpu")
        if kind == "MML":
            kw.update(quadrature_points=2)
        else:
            kw.update(start_thetas=torch.tensor([[0.5], [-0.25]]).repeat(1, cfg.latent))
        with training([step(k) for k in range(3)]), in_order():
            ended = False
            try:
                m.fit(data, alg, **kw)
                ended = True
            except Stop:
                pass
        ctx.prove(ended == (stop is None), "the interruption reaches the caller")
        th, _ = cfg.th(ctx, 3, -1.5, 1.5)
        m.eval()
        fresh.load_state_dict(m.state_dict())
        fresh.eval()
        same(ctx, m.item_probabilities(th).detach(), fresh.item_probabilities(th).detach(), "probabilities after estimation")
        again = m.item_probabilities(th[1:2]).detach()
        want = fresh.item_probabilities(th).detach()
        same(ctx, again, want[1:2], "probabilities of one respondent")
        same(ctx, m.item_probabilities(th[1:]).detach(), want[1:], "probabilities of as many respondents as in the data")
        same(ctx, m.item_probabilities(th[[0, 1, 2, 1]]).detach(), want[[0, 1, 2, 1]], "probabilities of as many as there were quadrature points times respondents")
    return f


for n in ("BSp", "BSp-2d", "Nest-bsp", "Nest", "2PL", "GPC", "Surp", "NN-mc", "Mix"):
    for kind in ("MML", "JML"):
        if n == "Mix" and kind == "MML":
            continue           # the mixture cannot be estimated by MML (recorded under C20)
        for stop in (0, 1, None):
            add(f"after/{kind}/{n}/{'end' if stop is None else stop}", after(ZOO[n], kind, stop), timeout=200)


def scored(cfg, how, stop):
    """interrupted ML or MAP scoring leaves parameters, which of them are free, and probabilities as they were"""
    def f(ctx):
        m = cfg.model(ctx)
        free = {}
        for k, (n, p) in enumerate(m.named_parameters()):
            p.requires_grad_(k % 2 == 1)
            free[n] = k % 2 == 1
        th, _ = cfg.th(ctx, 1)
        before = m.item_probabilities(th).detach()
        count = [0]

        class LBFGS(torch.optim.Optimizer):
            def __init__(self, params, **kw):
                super().__init__(list(params), {})

            def step(self, closure):
                with torch.enable_grad():
                    closure()
                if count[0] == stop:
                    raise Stop()
                count[0] += 1
                with torch.no_grad():
                    for p in self.param_groups[0]["params"]:
                        p.add_(0.25)
        reached = False
        with mock.patch.object(torch.optim, "LBFGS", LBFGS):
            try:
                m.latent_scores(torch.tensor([[1.0] * cfg.items, [0.0] * cfg.items]), theta_estimation=how)
            except Stop:
                reached = True
        ctx.prove(reached or stop > 1, "the interruption reaches the caller")
        ctx.prove(all(p.requires_grad == free[n] for n, p in m.named_parameters()), "the same parameters are free")
        same(ctx, m.item_probabilities(th).detach(), before, "probabilities")
        ctx.prove(all(p.device.type == "cpu" for p in m.parameters()), "still on the CPU")
    return f


for n in ("2PL", "GPC-2d", "NR-mc", "Nest-bsp", "NN-mc"):
    for how in ("ML", "MAP"):
        for stop in (0, 1):
            add(f"scored/{how}/{n}/{stop}", scored(ZOO[n], how, stop))
