from b import H, M, R, A
BUGS = []
P = "irtorch/plotter.py"
U = "irtorch/utils.py"


def bug(id, prop, needs, breaks, demo, *edits, **k):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo=H + demo, edits=list(edits), **k))


bug("second_axis_range", "C30", "a surface plot of two latent variables whose training abilities have different ranges",
    "the upper end of the second axis is the first latent variable's largest training ability",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import JML
m = TwoParameterLogistic(items=2, latent_variables=2)
m.algorithm = JML()
m.algorithm.training_theta_scores = torch.tensor([[-1.0, -2.0], [0.5, 3.0]])
fig = m.plot.expected_sum_score(latent_variables=(1, 2), steps=3)
y = torch.as_tensor(fig.data[0].y.copy())
assert abs(float(y.max()) - 3.0) < 1e-4, y
""",
    (P, "theta_source[:, latent_variables[1] - 1].max().item()", "theta_source[:, latent_variables[0] - 1].max().item()"))

bug("scale_plot_axis", "C30", "the scale transformation plot of the second latent variable",
    "transformed values of the second latent variable are drawn over the (constant) first one",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Reverse
m = TwoParameterLogistic(items=2, latent_variables=2)
m.add_scale_transformation(Reverse([True, False]))
fig = m.plot.scale_transformations(input_latent_variable=2, steps=5)
x = torch.as_tensor(fig.data[0].x.copy()); y = torch.as_tensor(fig.data[1].y.copy())
assert torch.allclose(x, torch.linspace(-3, 3, 5)) and torch.allclose(x, y), (x, y)
""",
    (P, "theta_grid[:, input_latent_variable-1]", "theta_grid[:, 0]"))

bug("load_keeps_scales", "C31", "loading a model saved without scales into one that has some",
    "the scales of the model loaded into survive when the saved model had none",
    """
import os, tempfile
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Reverse
a, b = TwoParameterLogistic(items=2), TwoParameterLogistic(items=2)
b.add_scale_transformation(Reverse([True]))
with tempfile.TemporaryDirectory() as d:
    a.save_model(os.path.join(d, "m.pt"))
    b.load_model(os.path.join(d, "m.pt"))
th = torch.tensor([[0.5]])
assert torch.equal(a.transform_theta(th), b.transform_theta(th)), b.transform_theta(th)
""",
    (M + "base_irt_model.py", 'if "scales" in checkpoint:', 'if checkpoint.get("scales"):'))

bug("basis_kept_while_training", "C31", "joint estimation of a spline model, then abilities for as many respondents as it was estimated on",
    "splines keep the basis functions of the training abilities and use them again for any input of the same size",
    """
from irtorch.models import MonotoneBSpline
from irtorch.estimation_algorithms import JML
m = MonotoneBSpline(item_categories=[2, 2])
data = torch.tensor([[1., 0.], [0., 1.], [1., 1.]])
m.fit(data, JML(), max_epochs=2, device="cpu")
th = torch.tensor([[-2.0], [0.0], [2.0]])
with torch.no_grad():
    three, one = m.item_probabilities(th)[0], m.item_probabilities(th[:1])[0]
assert torch.allclose(three, one, atol=1e-5), (three, one)
""",
    (M + "monotone_b_spline.py", "        if self.basis is not None: # use precomputed basis if available\n            basis = self.basis\n",
     "        if self.basis is not None and self.basis.shape[1] == theta.shape[0]: # use precomputed basis if available\n            basis = self.basis\n"),
    (M + "monotone_b_spline.py", "            basis = basis.view(self.latent_variables, -1, self.n_bases)  # (lv, batch, basis)\n",
     "            basis = basis.view(self.latent_variables, -1, self.n_bases)  # (lv, batch, basis)\n            if self.training:\n                self.basis = basis.detach()\n"))

bug("vigorish_stops_early", "C32", "one of the two models has a mean log-likelihood close to log gain of the starting value 0.75",
    "the iteration stops as soon as either model's probability is still",
    """
import math
from irtorch.utils import _imv_newton_raphson
L = 0.75 * math.log(0.75) + 0.25 * math.log(0.25)
w = _imv_newton_raphson(torch.tensor([L, -0.3]))
assert torch.allclose(w * w.log() + (1 - w) * (1 - w).log(), torch.tensor([L, -0.3]), atol=1e-4), w
""",
    (U, "torch.max(torch.abs(delta_x)) < tol", "torch.min(torch.abs(delta_x)) < tol"))

bug("vigorish_shared_abilities", "C32", "abilities given for the first model only",
    "the second model is evaluated at the first model's abilities instead of its own scores",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.utils import imv
a, b = TwoParameterLogistic(items=2), TwoParameterLogistic(items=2)
with torch.no_grad():
    b.weight_param.fill_(0.8); a.weight_param.fill_(0.8); a.bias_param.fill_(0.3); b.bias_param.fill_(0.3)
data = torch.tensor([[1., 0.], [1., 1.], [0., 0.]])
th = torch.tensor([[1.5], [-1.0], [0.5]])
own = b.latent_scores(data, theta_estimation="EAP")
x, y = imv(a, b, data, model1_theta=th, theta_estimation="EAP"), imv(a, b, data, model1_theta=th, model2_theta=own)
assert torch.allclose(x, y, atol=1e-5), (x, y)
""",
    (U, "log_geometric_mean2 = model2.evaluate.log_likelihood(data, model2_theta, reduction=\"mean\", **kwargs)",
     "log_geometric_mean2 = model2.evaluate.log_likelihood(data, model1_theta if model2_theta is None else model2_theta, reduction=\"mean\", **kwargs)"))
