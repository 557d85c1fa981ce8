"""Every public operation that takes responses and/or abilities, in one registry: the same calls are made with different codings of
missing responses (C12) and watched for changes to what the caller passed in (C13)."""
import contextlib
from unittest import mock
import numpy as np
import torch
from irtorch.models import TwoParameterLogistic, GeneralizedPartialCredit, NominalResponse, NestedLogit, GradedResponse
from irtorch.outlier_detector import OutlierDetector
from irtorch.irt_dataset import PytorchIRTDataset
from irtorch import _internal_utils as U
from irtorch import latent_variable_functions as L
from irtorch import utils as X
from .common import Cfg, ref_2pl, ref_gpc, ref_nominal

TWO = Cfg("2PL", lambda: TwoParameterLogistic(items=2), 1, [2, 2], ref=ref_2pl)
GPC = Cfg("GPC", lambda: GeneralizedPartialCredit(item_categories=[3, 2]), 1, [3, 2], ref=ref_gpc)
NR = Cfg("NR-mc", lambda: NominalResponse(item_categories=[2, 3], mc_correct=[0, 2]), 1, [2, 3], ref=ref_nominal, mc=[0, 2])
MODELS = {c.name: c for c in (TWO, GPC, NR)}


class Optimiser:
    """stands in for the optimiser: records the objective's value and gradient at the starting point and moves nowhere"""
    log: list = []

    def __init__(self, params, **k):
        self.params = list(params)

    def zero_grad(self):
        for p in self.params:
            p.grad = None

    def step(self, closure):
        with torch.enable_grad():
            loss = closure()
        Optimiser.log.append((loss.detach(), [p.grad.detach().clone() for p in self.params]))
        return loss


@contextlib.contextmanager
def optimiser():
    Optimiser.log = []
    with mock.patch("torch.optim.LBFGS", Optimiser):
        yield Optimiser.log


class Enc(torch.nn.Module):
    """an encoder with symbolic weights"""

    def __init__(self, w):
        super().__init__()
        self.w = w

    def forward(self, x):
        return x @ self.w


class Algorithm:
    """what an autoencoder leaves behind on the model"""

    def __init__(self, w, one_hot, imputation):
        self.encoder, self.one_hot_encoded, self.imputation_method = Enc(w), one_hot, imputation
        self.training_theta_scores = None

    def theta_scores(self, data):
        return self.encoder(data)


def ml(m, data, th, how="ML"):
    with optimiser() as log:
        t = m.latent_scores(data, theta_estimation=how, device="cpu")
    return [t] + [x[0] for x in log] + [g for x in log for g in x[1]]


def nn(ctx, m, cfg, data, one_hot, imputation):
    k = sum(cfg.cats) if one_hot else cfg.items
    m.algorithm = Algorithm(ctx.tensor(ctx.reals("enc", (k, 1), -2, 2)), one_hot, imputation)
    return m.latent_scores(data, theta_estimation="NN", device="cpu")


def start(ctx, m, data):
    t = ctx.tensor(ctx.reals("train", (2, 1), -2, 2))
    m.algorithm = type("A", (), {"training_theta_scores": t})()
    return m._initial_theta_from_training_data(data, device="cpu")


def table(df):
    return [torch.as_tensor(df[c].to_numpy().copy()) if df[c].to_numpy().dtype != object else df[c].to_numpy() for c in df.columns]


# name -> (models, function of (ctx, model, cfg, data, theta)); responses with missing values allowed
DATA = {
    "log_likelihood": (("2PL", "GPC", "NR-mc"), lambda ctx, m, c, d, t: m.log_likelihood(d, m(t), U.get_missing_mask(d), loss_reduction="none")),
    "latent_scores-EAP": (("2PL", "GPC"), lambda ctx, m, c, d, t: m.latent_scores(d, theta_estimation="EAP", eap_theta_integration_points=2, device="cpu")),
    "latent_scores-ML": (("2PL", "GPC"), lambda ctx, m, c, d, t: ml(m, d, t)),
    "latent_scores-MAP": (("2PL",), lambda ctx, m, c, d, t: ml(m, d, t, "MAP")),
    "latent_scores-NN-onehot": (("2PL", "GPC"), lambda ctx, m, c, d, t: nn(ctx, m, c, d, True, None)),
    "latent_scores-NN-zero": (("2PL",), lambda ctx, m, c, d, t: nn(ctx, m, c, d, False, "zero")),
    "latent_scores-NN-mean": (("2PL",), lambda ctx, m, c, d, t: nn(ctx, m, c, d, False, "mean")),
    "initial_theta": (("2PL",), lambda ctx, m, c, d, t: start(ctx, m, d)),
    "evaluate.residuals": (("2PL", "NR-mc"), lambda ctx, m, c, d, t: m.evaluate.residuals(data=d, theta=t)),
    "evaluate.residuals-mean": (("GPC",), lambda ctx, m, c, d, t: m.evaluate.residuals(data=d, theta=t, average_over="items")),
    "evaluate.accuracy": (("2PL",), lambda ctx, m, c, d, t: m.evaluate.accuracy(data=d, theta=t, level="item")),
    "evaluate.infit_outfit": (("2PL", "NR-mc"), lambda ctx, m, c, d, t: m.evaluate.infit_outfit(data=d, theta=t)),
    "evaluate.log_likelihood": (("GPC", "NR-mc"), lambda ctx, m, c, d, t: m.evaluate.log_likelihood(data=d, theta=t, level="respondent")),
    "evaluate.group_fit_log_likelihood": (("2PL",), lambda ctx, m, c, d, t: m.evaluate.group_fit_log_likelihood(data=d, theta=t, groups=2)),
    "evaluate.group_fit_residuals": (("2PL",), lambda ctx, m, c, d, t: m.evaluate.group_fit_residuals(data=d, theta=t, groups=1)),
    "evaluate.latent_group_probabilities": (("GPC",), lambda ctx, m, c, d, t: m.evaluate.latent_group_probabilities(data=d, theta=t, groups=1)),
    "observed proportions": (("GPC",), lambda ctx, m, c, d, t: m.evaluate._observed_item_score_proportions(d)),
    "joint_entropy_matrix": (("2PL",), lambda ctx, m, c, d, t: guarded(ctx, d, lambda: U.joint_entropy_matrix(d))),
    "one_hot": (("GPC",), lambda ctx, m, c, d, t: U.one_hot_encode_test_data(d, c.cats)),
    "impute zero": (("GPC",), lambda ctx, m, c, d, t: U.impute_missing_internal(d, "zero")),
    "impute mean": (("GPC",), lambda ctx, m, c, d, t: U.impute_missing_internal(d, "mean")),
    "impute_missing zero": (("GPC",), lambda ctx, m, c, d, t: X.impute_missing(d, "zero")),
    "impute_missing mean": (("GPC",), lambda ctx, m, c, d, t: X.impute_missing(d, "mean")),
    "impute_missing prior expected": (("GPC",), lambda ctx, m, c, d, t: X.impute_missing(d, "prior expected", model=m)),
    "dataset": (("GPC",), lambda ctx, m, c, d, t: dataset(PytorchIRTDataset(d, one_hot_encoded=True, item_categories=c.cats))),
    "dataset-zero": (("GPC",), lambda ctx, m, c, d, t: dataset(PytorchIRTDataset(d, imputation_method="zero", item_categories=c.cats))),
    "sum_score": (("GPC",), lambda ctx, m, c, d, t: U.sum_score(d)),
    "sum_score-mc": (("NR-mc",), lambda ctx, m, c, d, t: U.sum_score(d, [0, 2])),
    "get_missing_mask": (("GPC",), lambda ctx, m, c, d, t: U.get_missing_mask(d)),
}


def dataset(ds):
    return [ds[k][j] for k in range(len(ds)) for j in (1, 2)]


def guarded(ctx, d, f):
    """only where every pair of items has two joint responses"""
    obs = [[not ctx.branch(x) for x in r] for r in ctx.vals(U.get_missing_mask(d))]
    if not all(all(r) for r in obs):
        return []
    return f()


# operations without missing values
PLAIN = {
    "item_probabilities": (("2PL", "GPC", "NR-mc"), lambda ctx, m, c, d, t: m.item_probabilities(t)),
    "expected_scores": (("2PL", "NR-mc"), lambda ctx, m, c, d, t: m.expected_scores(t)),
    "expected_item_score_gradients": (("2PL",), lambda ctx, m, c, d, t: m.expected_item_score_gradients(t)),
    "probability_gradients": (("2PL",), lambda ctx, m, c, d, t: m.probability_gradients(t)),
    "information": (("2PL",), lambda ctx, m, c, d, t: m.information(t)),
    "population_difficulty": (("GPC",), lambda ctx, m, c, d, t: m.population_difficulty(t)),
    "population_discrimination": (("2PL",), lambda ctx, m, c, d, t: m.population_discrimination(t)),
    "item_theta_relationship_directions": (("2PL",), lambda ctx, m, c, d, t: m.item_theta_relationship_directions(t)),
    "sample_test_data": (("2PL",), lambda ctx, m, c, d, t: m.sample_test_data(t)),
    "correlation_matrix": (("GPC",), lambda ctx, m, c, d, t: U.correlation_matrix(t)),
    "conditional_score_distribution": (("GPC",), lambda ctx, m, c, d, t: U.conditional_score_distribution(m.item_probabilities(t), c.cats)),
    "interp": (("2PL",), lambda ctx, m, c, d, t: L.interp(t[:, 0], torch.tensor([-1.0, 1.0]), torch.tensor([0.0, 3.0]))),
    "quantile_transform": (("2PL",), lambda ctx, m, c, d, t: L.quantile_transform(t)),
    "outliers": (("2PL",), lambda ctx, m, c, d, t: OutlierDetector().identify_outliers(t)),
    "outliers-new": (("2PL",), lambda ctx, m, c, d, t: OutlierDetector().is_outlier(t, t)),
    "smallest": (("2PL",), lambda ctx, m, c, d, t: OutlierDetector().smallest_largest_non_outlier(t)),
    "split_data": (("GPC",), lambda ctx, m, c, d, t: X.split_data(d, 0.5, shuffle=False)),
    "get_item_categories": (("GPC",), lambda ctx, m, c, d, t: torch.tensor(X.get_item_categories(d))),
    "linear_regression": (("2PL",), lambda ctx, m, c, d, t: U.linear_regression(t, m.expected_scores(t)[:, :1])),
}


def flatten(x):
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flatten(z)]
    return [x]


class Shift:
    """stands for any attached scale"""

    def __init__(self, k):
        self.k = k

    def __call__(self, t):
        return t + self.k


def unscored(use, n=2):
    """without abilities, those the model estimates from the responses count, on the scale of the model, whatever scales are attached; without responses
    the training data"""
    def f(ctx):
        m = TWO.model(ctx)
        th, x = TWO.th(ctx, n)
        data = torch.tensor([[1.0, 0.0], [0.0, float("nan")], [1.0, 1.0]])[:n]
        m.add_scale_transformation(Shift(ctx.real("shift", 0.5, 2)))
        want = use(m, data, th)
        m.algorithm = type("A", (), {"train_data": data})()
        scored = []

        def latent_scores(data, standard_errors=False, theta_estimation="ML", lbfgs_learning_rate=0.2, eap_theta_integration_points=None, device="cpu", rescale=True):
            scored.append(data)
            return m.transform_theta(th) if rescale else th
        m.latent_scores = latent_scores
        for given in (data, None):
            got = use(m, given, None)
            ctx.prove(len(scored) >= 1, "abilities are estimated")
            for s in scored:
                v = ctx.vals(s)
                ctx.prove(v.shape == (n, 2), "all responses are scored")
                for ix in np.ndindex(n, 2):
                    if np.isnan(data[ix].item()):
                        ctx.prove(ctx.isnan(v[ix]), f"missing response {list(ix)} is scored as missing")
                    else:
                        ctx.eq(v[ix], data[ix].item(), f"the responses given are scored {list(ix)}", tol=0)
            scored.clear()
            for k, (a, b) in enumerate(zip(got, want)):
                A, B = ctx.vals(a), ctx.vals(b)
                ctx.prove(A.shape == B.shape, f"result {k}: shape")
                for ix in np.ndindex(*A.shape):
                    if ctx.branch(ctx.isnan(B[ix])):
                        ctx.prove(ctx.isnan(A[ix]), f"result {k} {list(ix)} missing")
                    else:
                        ctx.eq(A[ix], B[ix], f"result {k} {list(ix)}: statistic at the estimated abilities", tol=1e-4)
    return f
