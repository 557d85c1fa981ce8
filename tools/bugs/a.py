H = "import torch\ntorch.manual_seed(0)\n"
M = "irtorch/models/"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits, **k):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo=H + demo, edits=list(edits), **k))


bug("nested_phantom_option", "C01", "a nested-logit spline model whose items have different numbers of options",
    "the incorrect-option mask uses the item's full number of options, so the probabilities of a shorter item leak into an option it does not have",
    """
from irtorch.models import NestedLogit, TwoParameterLogistic
m = NestedLogit(mc_correct=[0, 2], correct_response_model=TwoParameterLogistic(items=2), item_categories=[4, 3], incorrect_response_model="bspline")
torch.nn.init.normal_(m.coefficients)
p = m.item_probabilities(torch.randn(5, 1))
assert torch.allclose(p.sum(2), torch.ones(5, 2), atol=1e-5)
assert (p[:, 1, 3] == 0).all(), p[:, 1, 3]
""",
    (M + "nested_logit.py", "            for item, item_cat in enumerate(incorrect_item_categories):\n                spline_mask[:, :, item, item_cat:] = False",
     "            for item, item_cat in enumerate(item_categories):\n                spline_mask[:, :, item, item_cat:] = False"))

bug("difficulty_abs_slope", "C02", "an item with a negative slope and the IRT format",
    "the difficulty column divides by the slope's magnitude, so for reverse-keyed items the reported difficulty has the wrong sign",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
m.weight_param.data = torch.tensor([1.5, -2.0]); m.bias_param.data = torch.tensor([0.3, 1.0])
b = m.item_parameters(irt_format=True)["b"].to_numpy()
p = m.item_probabilities(torch.tensor([[float(b[1])]]))[0, 1, 1]
assert abs(p.item() - 0.5) < 1e-4, p
""",
    (M + "two_parameter_logistic.py", "-(biases/weights).detach()", "-(biases/weights.abs()).detach()"))

bug("graded_ll_floor", "C03", "a response whose model probability is below the floor",
    "the graded response log-likelihood floors probabilities, so very unlikely responses are not penalised by their log-probability",
    """
from irtorch.models import GradedResponse
m = GradedResponse(item_categories=[3, 3])
m.weight_param.data = torch.tensor([3.0, 2.0]); m.bias_param.data = torch.tensor([1.0, 0.5, 1.0, -1.0])
th = torch.tensor([[2.5], [0.0]]); d = torch.tensor([[0.0, 2.0], [1.0, 0.0]])
out = m(th); p = m.item_probabilities(th)
want = sum(p[i, j, int(d[i, j])].log() for i in range(2) for j in range(2))
assert torch.isclose(m.log_likelihood(d, out), want, rtol=1e-4), (m.log_likelihood(d, out), want)
""",
    (M + "graded_response.py", "data].log()", "data].clamp(min=0.005).log()"))

bug("poly_shared_alpha", "C04", "a monotone polynomial of degree five or more whose two quadratic factors have different alpha parameters",
    "the leading coefficient of the second quadratic factor mixes the alphas of different factors, so the derivative can become negative",
    """
from irtorch.models import MonotonePolynomial
m = MonotonePolynomial(item_categories=[2], degree=5, negative_latent_variable_item_relationships=False)
q = m._modules["mono_poly"]
q.alpha.data[0] = 0.2; q.alpha.data[1] = 1.5
x = torch.linspace(-2, 2, 401).view(-1, 1)
s = m.expected_scores(x)[:, 0]
assert (s[1:] >= s[:-1] - 1e-6).all()
""",
    ("irtorch/torch_modules/monotone_polynomial.py", "matrix[range_indices + 2, range_indices, :, :] = self.alpha[i] ** 2 + sp_tau[i]\n            a =", "matrix[range_indices + 2, range_indices, :, :] = self.alpha[0] * self.alpha[i] + sp_tau[i]\n            a ="))

bug("surprisal_mask_transposed", "C05", "a spline surprisal model with more abilities than one and an asymmetric relation matrix",
    "the relation matrix is reshaped without transposing, so an item may react to an ability it is declared unrelated to",
    """
from irtorch.models import SurprisalSpline
rel = torch.tensor([[True, True], [False, True], [True, False]])
m = SurprisalSpline(latent_variables=2, item_categories=[3, 3, 3], item_theta_relationships=rel)
torch.nn.init.normal_(m.coefficients)
p = m.item_probabilities(torch.tensor([[-2.0, 0.3], [2.0, 0.3]]))
assert torch.allclose(p[0, 1], p[1, 1], atol=1e-6)
p = m.item_probabilities(torch.tensor([[0.3, -2.0], [0.3, 2.0]]))
assert torch.allclose(p[0, 2], p[1, 2], atol=1e-6)
""",
    (M + "surprisal_spline.py", "item_theta_relationships.T.reshape(self.latent_variables, 1, -1, 1)", "item_theta_relationships.reshape(self.latent_variables, 1, -1, 1)"))

bug("nested_detach", "C06", "a nested-logit model; only derivatives of incorrect options are affected",
    "the probability of an incorrect answer is treated as a constant when differentiating, so gradients and information of incorrect options are wrong while probabilities are right",
    """
from irtorch.models import NestedLogit, TwoParameterLogistic
m = NestedLogit(mc_correct=[0, 1], correct_response_model=TwoParameterLogistic(items=2), item_categories=[3, 3])
th = torch.tensor([[0.4]])
G = m.probability_gradients(th)[0, :, :, 0]
h = 1e-2
D = (m.item_probabilities(th + h) - m.item_probabilities(th - h))[0] / (2 * h)
assert torch.allclose(G, D, atol=1e-3), (G, D)
""",
    (M + "nested_logit.py", "p_k_given_incorrect * p_incorrect_total.unsqueeze(-1)", "p_k_given_incorrect * p_incorrect_total.detach().unsqueeze(-1)"))
