"""numerics"""
from b import H, M, R, A
BUGS = []
U = "irtorch/utils.py"


def bug(id, prop, needs, breaks, demo, *edits, **k):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo=H + demo, edits=list(edits), **k))

bug("overflowing_normalisation", "C03", "logits beyond 88, where exp overflows in single precision",
    "the log-likelihood's normalising sum overflows and the log-likelihood becomes minus infinity",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=1)
with torch.no_grad():
    m.weight_param.fill_(2.0)
    m.bias_param.fill_(0.0)
    th = torch.tensor([[80.0]])
    ll = m.log_likelihood(torch.tensor([[0.0]]), m(th), loss_reduction="sum")
assert torch.isclose(ll, torch.tensor(-160.0), rtol=1e-3), ll
""",
    (M + "base_irt_model.py", "ll = -F.cross_entropy(reshaped_output, data, reduction=loss_reduction)",
     "ll = -F.nll_loss(reshaped_output - reshaped_output.exp().sum(dim=1, keepdim=True).log(), data, reduction=loss_reduction)"))

bug("stale_jacobian", "C34", "two scales attached one after the other, with the same abilities rescaled in between",
    "the Jacobian of the abilities asked for last is kept although a scale was added",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Scale
class Times(Scale):
    def __init__(self, k):
        super().__init__(invertible=True)
        self.k = k
    def transform(self, t):
        return self.k * t
    def inverse(self, t):
        return t / self.k
    def jacobian(self, t):
        return self.k * torch.eye(t.shape[1]).repeat(t.shape[0], 1, 1)
m = TwoParameterLogistic(items=2)
t = torch.tensor([[0.5]])
m.add_scale_transformation(Times(2.0))
m.information(t)
m.add_scale_transformation(Times(3.0))
assert torch.allclose(m.theta_transform_jacobian(t), torch.tensor([[[6.0]]])), m.theta_transform_jacobian(t)
""",
    (M + "base_irt_model.py", """            jacobian = torch.matmul(scale.jacobian(theta), jacobian)
            theta = scale(theta)
        return jacobian
""", """            jacobian = torch.matmul(scale.jacobian(theta), jacobian)
            theta = scale(theta)
        self._jacobian_cache = (original_theta, jacobian)
        return jacobian
"""),
    (M + "base_irt_model.py", "        jacobian = torch.eye(self.latent_variables).repeat(theta.shape[0], 1, 1)\n", """        if getattr(self, "_jacobian_cache", None) is not None and torch.equal(self._jacobian_cache[0], theta):
            return self._jacobian_cache[1]
        original_theta = theta.detach().clone()
        jacobian = torch.eye(self.latent_variables).repeat(theta.shape[0], 1, 1)
"""))

bug("stale_grid", "C34", "EAP scores from a model whose training abilities were replaced since its last EAP scores",
    "the integration grid of the first training abilities is kept",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
data = torch.tensor([[1.0, 0.0]])
A = lambda t: type("A", (), {"training_theta_scores": t})()
m.algorithm = A(torch.linspace(-3, 3, 11).view(-1, 1))
m.latent_scores(data, theta_estimation="EAP", device="cpu")
m.algorithm = A(torch.linspace(-1, 2, 11).view(-1, 1))
k = TwoParameterLogistic(items=2)
k.load_state_dict(m.state_dict())
k.algorithm = m.algorithm
a, b = (x.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=None, device="cpu") for x in (m, k))
assert torch.allclose(a, b, atol=1e-4), (a, b)
""",
    (M + "base_irt_model.py", "            theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)\n", """            if getattr(self, "_eap_grid", None) is None or self._eap_grid[0] != grid_points:
                self._eap_grid = (grid_points, self._theta_grid(train_theta_scores, grid_size=grid_points))
            theta_grid = self._eap_grid[1]
"""))

bug("density_fitted_once", "C34", "a quantile density fitted to a second sample",
    "the normal density of the first sample is kept",
    """
from irtorch.quantile_mv_normal import QuantileMVNormal
a, b = QuantileMVNormal(), QuantileMVNormal()
x = torch.randn(20, 2) @ torch.tensor([[1.0, 0.8], [0.0, 0.6]])
a.fit(torch.randn(20, 2))
a.fit(x)
b.fit(x)
assert torch.allclose(a.pdf(x), b.pdf(x)), "depends on the first sample"
""",
    ("irtorch/quantile_mv_normal.py", "        self.mvnormal = self.fit_multivariate_normal(self.qt_data)\n", """        if self.mvnormal is None:
            self.mvnormal = self.fit_multivariate_normal(self.qt_data)
"""))

bug("mean_over_full_batches", "C22", "more respondents than fit evenly into the batches, or a batch size given",
    "the loss of a smaller last batch is divided by the size of a full one",
    """
from unittest import mock
from irtorch.estimation_algorithms import AE
from irtorch.models import TwoParameterLogistic
torch.manual_seed(1)
m, alg = TwoParameterLogistic(items=3), AE()
data = torch.randint(0, 2, (5, 3)).float()
seen, orig = [], AE._train_batch
def spy(self, model, input_batch, batch, mask):
    loss = orig(self, model, input_batch, batch, mask)
    with torch.no_grad():
        ll = model.log_likelihood(batch, model(self.encoder(input_batch)), mask)
    seen.append((loss.item(), -ll.item() / batch.shape[0]))
    return loss
with mock.patch.object(AE, "_train_batch", spy):
    alg.fit(m, data, max_epochs=1, batch_size=4, device="cpu")
assert all(abs(a - b) < 1e-4 for a, b in seen), seen
""",
    (A + "ae.py", "batch_loss = -model.log_likelihood(batch, outputs, missing_mask) / batch.shape[0]", "batch_loss = -model.log_likelihood(batch, outputs, missing_mask) / self.data_loader.batch_size"))

bug("encoder_left_in_training", "C22", "an autoencoder with batch normalisation",
    "scores after training are normalised by whoever is scored together",
    """
from irtorch.estimation_algorithms import AE
from irtorch.models import TwoParameterLogistic
torch.manual_seed(1)
m, alg = TwoParameterLogistic(items=3), AE()
data = torch.randint(0, 2, (12, 3)).float()
m.fit(data, alg, max_epochs=3, batch_normalization_encoder=True, device="cpu")
a = m.latent_scores(data, theta_estimation="NN", device="cpu")[:5]
b = m.latent_scores(data[:5], theta_estimation="NN", device="cpu")
assert torch.allclose(a, b, atol=1e-5), (a, b)
""",
    (A + "ae.py", "        self.encoder.eval()\n", ""))

bug("statistics_on_the_scale", "C14", "a model with scale transformations whose abilities are estimated by the evaluator",
    "transformed abilities are inserted into the response functions",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Scale
class Times(Scale):
    def __init__(self):
        super().__init__(invertible=True)
    def transform(self, t):
        return 3 * t + 1
    def inverse(self, t):
        return (t - 1) / 3
    def jacobian(self, t):
        return 3 * torch.eye(t.shape[1]).repeat(t.shape[0], 1, 1)
m = TwoParameterLogistic(items=3)
data = torch.tensor([[1.0, 0.0, 1.0], [0.0, 0.0, 1.0]])
a = m.evaluate.residuals(data=data, theta_estimation="EAP")
m.add_scale_transformation(Times())
b = m.evaluate.residuals(data=data, theta_estimation="EAP")
assert torch.allclose(a, b, atol=1e-4), (a, b)
""",
    ("irtorch/evaluator.py", "data=data, rescale=False, **kwargs)\n\n        missing", "data=data, **kwargs)\n\n        missing"))
