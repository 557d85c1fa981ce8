H = "import torch\ntorch.manual_seed(0)\n"
M = "irtorch/models/"
R = "irtorch/rescale/"
A = "irtorch/estimation_algorithms/"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits, **k):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo=H + demo, edits=list(edits), **k))


bug("difficulty_largest_item", "C07", "items with different numbers of categories",
    "population difficulty divides every item's score by the largest item's maximum score, so shorter items look harder than they are",
    """
from irtorch.models import GeneralizedPartialCredit
m = GeneralizedPartialCredit(item_categories=[2, 4])
th = torch.randn(6, 1)
want = 1 - (m.expected_scores(th) / torch.tensor([1.0, 3.0])).mean(0)
assert torch.allclose(m.population_difficulty(th), want, atol=1e-5)
""",
    (M + "base_irt_model.py", "item_scores = item_scores / (torch.tensor(self.item_categories) - 1)", "item_scores = item_scores / (self.max_item_responses - 1)"))

bug("oblique_inverse", "C08", "an oblique (non-orthogonal) rotation",
    "the inverse of a rotation is its transpose, which only undoes orthogonal rotations",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Rotate
m = TwoParameterLogistic(latent_variables=2, items=3)
s = Rotate(m, rotation_matrix=torch.tensor([[1.0, 0.4], [0.0, 1.2]]))
th = torch.randn(4, 2)
assert torch.allclose(s.inverse(s.transform(th)), th, atol=1e-5)
""",
    (R + "rotate.py", "torch.inverse(self.rotation_matrix)", "self.rotation_matrix.T"))

bug("chain_jacobian_origin", "C09", "two or more scales of which a later one is not linear",
    "every scale's Jacobian is taken at the original abilities instead of the abilities that scale receives",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Reverse, Scale
class Cube(Scale):
    def __init__(self):
        super().__init__(True)
    def transform(self, t):
        return (t + 1) ** 3 + t
    def inverse(self, t):
        raise NotImplementedError
    def jacobian(self, t):
        return torch.diag_embed(3 * (t + 1) ** 2 + 1)
m = TwoParameterLogistic(items=2)
m.add_scale_transformation(Reverse([True])); m.add_scale_transformation(Cube())
th = torch.tensor([[0.5], [-0.3]])
h = 1e-2
D = (m.transform_theta(th + h) - m.transform_theta(th - h)) / (2 * h)
assert torch.allclose(m.theta_transform_jacobian(th)[:, 0], D, atol=1e-2)
""",
    (M + "base_irt_model.py", "            jacobian = torch.matmul(scale.jacobian(theta), jacobian)\n            theta = scale(theta)", "            jacobian = torch.matmul(scale.jacobian(theta), jacobian)"))

bug("spline_last_slope", "C10", "a trained spline (derivatives that are not all equal) and a value in the last bin",
    "in the last bin the spline uses the derivative at the previous knot for its right end",
    """
from irtorch.torch_modules import RationalQuadraticSpline
s = RationalQuadraticSpline(1, num_bins=3, lower_input_bound=0.0, upper_input_bound=1.0)
s.unnormalized_derivatives.data += torch.tensor([[1.0, 2.0]])
x = torch.tensor([[0.999], [1.0]], dtype=torch.float32)
y, l = s(x)
slope = (y[1] - y[0]) / (x[1] - x[0])
assert abs(slope.item() - 1.0) < 0.1, slope
assert abs(l[1].item()) < 0.01, l
""",
    ("irtorch/torch_modules/rational_quadratic_spline.py", "derivs[..., 1:].gather(-1, bin_idx)", "derivs[..., 1:].gather(-1, bin_idx.clamp(max=num_bins - 2))"))

bug("bit_centre_unadjusted", "C11", "several abilities of which one lowers the scores (inverted scale), and a population",
    "the centre at which the other abilities are held is not adjusted for inverted scales",
    """
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic
from irtorch.rescale import Bit
m = TwoParameterLogistic(latent_variables=2, items=3)
m.weight_param.data = torch.tensor([1.0, -0.5, 0.7, -1.2, 0.9, -0.8]); m.bias_param.data = torch.tensor([0.2, -0.4, 0.6])
pop = torch.randn(40, 2) * 0.3 + torch.tensor([0.4, -1.5])
b = Bit(m, population_theta=pop, start_theta=torch.tensor([-0.5, -0.5]), grid_points=400)
th = torch.tensor([[1.0, -1.0]])
got = b.transform(th)[0, 0]
g = torch.linspace(-0.5, 1, 2000)
t = torch.stack((g, torch.full_like(g, pop[:, 1].neg().median().neg().item())), 1)
p = m.item_probabilities(t)
e = -(p * p.log2()).sum(2)
want = (e[1:] - e[:-1]).abs().sum()
assert abs(got - want) < 0.05, (got, want)
""",
    (R + "bit.py", "medians, _ = torch.median(population_theta_adjusted, dim=0)", "medians, _ = torch.median(torch.max(self._population_theta, start_theta_adjusted), dim=0)"))

bug("minus_one_not_imputed", "C12", "an autoencoder with an imputation method and responses coded -1 (none coded NaN)",
    "responses coded -1 are not imputed before encoding, while those coded NaN are",
    """
from irtorch.models import GeneralizedPartialCredit
from irtorch.estimation_algorithms import AE
m = GeneralizedPartialCredit(item_categories=[3, 3, 3])
d = torch.randint(0, 3, (20, 3)).float()
a = AE()
m.fit(train_data=d, algorithm=a, imputation_method="zero", max_epochs=1)
for p in a.encoder.parameters():
    torch.nn.init.normal_(p)
x = torch.tensor([[1.0, float("nan"), 2.0]]); y = torch.tensor([[1.0, -1.0, 2.0]])
assert torch.allclose(m.latent_scores(x, theta_estimation="NN"), m.latent_scores(y, theta_estimation="NN"))
""",
    (M + "base_irt_model.py", "if data.isnan().any() or data.eq(-1).any():", "if data.isnan().any():"))

bug("impute_in_place", "C13", "data whose missing responses are all coded -1",
    "when nothing is coded NaN the data are not copied, so imputation overwrites the caller's missing codes",
    """
from irtorch.utils import impute_missing
d = torch.tensor([[1.0, -1.0], [0.0, 1.0]])
c = d.clone()
impute_missing(d, "mean")
assert torch.equal(d, c), d
""",
    ("irtorch/utils.py", "    imputed_data = data.clone()\n", "    imputed_data = data.clone() if data.isnan().any() else data\n"))

bug("infit_all_variance", "C14", "missing responses and the infit statistic",
    "the infit denominator also counts the model variance of missing responses",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
d = torch.tensor([[1.0, 0.0], [0.0, float("nan")], [1.0, 1.0]]); th = torch.tensor([[0.1], [1.4], [-0.8]])
i, _ = m.evaluate.infit_outfit(d, th)
p = m.item_probabilities(th)[..., 1]
o = ~d.isnan()
want = torch.stack([((d - p) ** 2)[o[:, k], k].sum() / (p * (1 - p))[o[:, k], k].sum() for k in range(2)])
assert torch.allclose(i, want, atol=1e-5)
""",
    ("irtorch/evaluator.py", "        variance[missing_mask] = torch.nan\n", ""))

bug("mid_points_first_ability", "C15", "two abilities, a scale transformation and grouping by the second ability",
    "group mid points on a transformed scale are those of the first ability whichever ability groups are formed by",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Reverse
m = TwoParameterLogistic(latent_variables=2, items=2)
m.add_scale_transformation(Reverse([False, True]))
th = torch.tensor([[0.0, 3.0], [1.0, 2.0], [5.0, 1.0], [-1.0, 0.0]]); d = torch.tensor([[1.0, 0.0]] * 4)
_, _, mid = m.evaluate.latent_group_probabilities(d, th, latent_variable=2, groups=2)
assert torch.allclose(mid, torch.tensor([-2.5, -0.5])), mid
""",
    ("irtorch/evaluator.py", "group[:, latent_variable - 1].mean()\n                    for group in grouped_transformed", "group[:, 0].mean()\n                    for group in grouped_transformed"))

bug("stale_density", "C16", "a second call for another population after the density was approximated",
    "a density approximated earlier is kept although population data of another group are given",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import AE
m = TwoParameterLogistic(items=3)
d = torch.randint(0, 2, (60, 3)).float()
a = AE(); m.fit(train_data=d, algorithm=a, max_epochs=1)
for p in a.encoder.parameters():
    torch.nn.init.normal_(p)
a.training_theta_scores = torch.randn(60, 1)
e = m.evaluate
one = torch.randint(0, 2, (40, 3)).float()
fresh = type(e)(m).sum_score_probabilities("qmvn", population_data=one, trapezoidal_segments=30)
e.approximate_latent_density(a.training_theta_scores, "qmvn")
again = e.sum_score_probabilities("qmvn", population_data=one, trapezoidal_segments=30)
assert torch.allclose(fresh, again, atol=1e-5), (fresh, again)
""",
    ("irtorch/evaluator.py", "if population_data is not None or (\n", "if (\n"), count=1)

bug("mean_of_codes", "C17", "mean imputation of data whose missing responses are coded -1",
    "the item means used for imputation include the code -1",
    """
from irtorch.utils import impute_missing
d = torch.tensor([[1.0, -1.0], [0.0, 2.0], [1.0, 1.0]])
assert torch.allclose(impute_missing(d, "mean")[0, 1], torch.tensor(1.5))
""",
    ("irtorch/utils.py", "means = imputed_data.nanmean(dim=0)", "means = data.nanmean(dim=0)"))

bug("mask_after_imputation", "C18", "a dataset with an imputation method",
    "the dataset takes its missing mask from the imputed data, so imputed responses count as observed",
    """
from irtorch.irt_dataset import PytorchIRTDataset
d = torch.tensor([[1.0, float("nan")], [0.0, 1.0]])
s = PytorchIRTDataset(d, one_hot_encoded=False, imputation_method="zero")
assert s[0][1].tolist() == [False, True]
""",
    ("irtorch/irt_dataset.py", "        self.mask = (data == -1) | data.isnan()\n", ""),
    ("irtorch/irt_dataset.py", "        if one_hot_encoded:\n            if item_categories", "        self.mask = (data == -1) | data.isnan()\n        if one_hot_encoded:\n            if item_categories"))

bug("folds_with_replacement", "C19", "any cross-validation; visible only in which respondents the folds contain",
    "folds are drawn with replacement, so respondents appear in several folds (also training and validation) or in none",
    """
from irtorch.utils import _prepare_cross_validation_data
d = torch.arange(30.0).view(-1, 1)
f = _prepare_cross_validation_data(d, 3)
assert torch.cat(f).flatten().sort().values.tolist() == list(range(30))
""",
    ("irtorch/utils.py", "shuffled_data = data[torch.randperm(data.shape[0])]", "shuffled_data = data[torch.randint(data.shape[0], (data.shape[0],))]"))

bug("global_constant", "C20", "a long test: respondents whose likelihoods differ by more than the float range",
    "the log-sum-exp constant is the largest over all respondents, so respondents with much lower likelihood underflow and the loss becomes infinite",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import MML
m = TwoParameterLogistic(items=200)
m.weight_param.data.fill_(1.0); m.bias_param.data.fill_(3.0)
d = torch.ones(2, 200); d[1] = torch.tensor([1.0, 0.0] * 100)
a = MML(); m.fit(train_data=d, algorithm=a, max_epochs=1)
assert torch.isfinite(torch.tensor(a.training_history["train_loss"])).all(), a.training_history
""",
    (A + "mml.py", "constant = log_sums.max(dim=0)[0]", "constant = log_sums.max()"))

bug("eap_mask_layout", "C21", "EAP scores of several respondents with different missing responses",
    "the missing mask is laid out in another order than the replicated data, so responses of the wrong grid rows are dropped",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=3)
m.weight_param.data = torch.tensor([1.0, 2.0, 0.5]); m.bias_param.data = torch.tensor([0.1, -0.5, 0.7])
d = torch.tensor([[1.0, float("nan"), 0.0], [1.0, 0.0, 1.0]])
both = m.latent_scores(d, theta_estimation="EAP")
one = torch.cat([m.latent_scores(d[i:i + 1], theta_estimation="EAP") for i in range(2)])
assert torch.allclose(both, one, atol=1e-4), (both, one)
""",
    (M + "base_irt_model.py", "missing_mask = get_missing_mask(replicated_data)", "missing_mask = get_missing_mask(data.nan_to_num(-1)).repeat(theta_grid.shape[0], 1)\n        replicated_data = replicated_data.nan_to_num(0)"))

bug("vae_mask_layout", "C22", "several importance samples and respondents with different missing responses",
    "the missing mask is repeated in another order than the data, so the wrong responses are dropped from the bound",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import VAE
m = TwoParameterLogistic(items=2)
m.weight_param.data = torch.tensor([1.0, 2.0]); m.bias_param.data = torch.tensor([0.1, -1.5])
a = VAE(); a.iw_samples = 2; a.anneal = False
d = torch.tensor([[1.0, 1.0], [0.0, 0.0]]); k = torch.tensor([[False, True], [False, False]])
th = torch.zeros(4, 1); mean = torch.zeros(4, 1); lv = torch.zeros(4, 1)
got = a._loss_function(m, d, k, m(th), th, mean, lv)
p = m.item_probabilities(th[:2]).log()
want = -((p[0, 0, 1]) + (p[1, 0, 0] + p[1, 1, 0])) / 2
assert torch.isclose(got, want, atol=1e-4), (got, want)
""",
    (A + "vae.py", "missing_mask.repeat(self.iw_samples, 1)", "missing_mask.repeat_interleave(self.iw_samples, dim=0)"))

bug("em_old_means", "C23", "an EM iteration that moves the means",
    "covariances are taken around the means of the previous iteration",
    """
from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
g = GaussianMixtureModel(1, 1)
x = torch.tensor([[0.0], [1.0], [4.0]])
g.fit(x, iterations=1)
assert torch.isclose(g.covariances[0, 0, 0], x.var(unbiased=False), atol=1e-4)
""",
    ("irtorch/torch_modules/gaussian_mixture_model.py", "diff = data - means[i]", "diff = data - self.means[i]"))

bug("strict_fences", "C24", "values exactly on the fences, e.g. a column without spread",
    "values on a fence are left out of the search for the extreme regular value, which is infinite when there is no other",
    """
from irtorch.outlier_detector import OutlierDetector
x = torch.tensor([[2.0], [2.0], [2.0], [2.0], [7.0]])
assert OutlierDetector().smallest_largest_non_outlier(x).item() == 2.0
""",
    ("irtorch/outlier_detector.py", "(data >= lower_bound) & (data <= upper_bound)", "(data > lower_bound) & (data < upper_bound)"))

bug("rank_of_new_sample", "C25", "transforming another number of respondents than the scale was built from",
    "ranks are divided by the number of abilities being transformed instead of the number the ranks come from",
    """
from irtorch.rescale import RankCDF
x = torch.randn(9, 1)
r = RankCDF(x)
assert torch.allclose(r.transform(x)[:3], r.transform(x[:3]))
""",
    (R + "rank_cdf.py", "rank_normalized = new_ranks / (self.n_samples + 1)", "rank_normalized = new_ranks / (n_samples + 1)"))

bug("mid_base", "C26", "a logarithm base other than two",
    "the model's item entropies are always in bits, so observed and expected mutual information are in different units",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
d = torch.randint(0, 2, (20, 2)).float(); th = torch.randn(20, 1)
a = m.evaluate.mutual_information_difference(d, th, log_base=2.0)[0].to_numpy()
b = m.evaluate.mutual_information_difference(d, th, log_base=4.0)[0].to_numpy()
assert abs(a[0, 1] - 2 * b[0, 1]) < 5e-3, (a, b)
""",
    ("irtorch/evaluator.py", "entropy(model_probabilities.mean(dim=0), log_base=log_base)", "entropy(model_probabilities.mean(dim=0))"))

bug("two_joint_rows", "C27", "a pair of items answered together by exactly two respondents",
    "two respondents answering both items are treated as too few, so the correlation is reported as zero",
    """
from irtorch._internal_utils import correlation_matrix
n = float("nan")
x = torch.tensor([[1.0, 2.0], [2.0, 1.0], [0.5, n], [n, 9.0]])
assert torch.isclose(correlation_matrix(x)[0, 1], torch.tensor(-1.0), atol=1e-4)
""",
    ("irtorch/_internal_utils.py", "                if torch.sum(valid_mask) > 1:\n                    # means", "                if torch.sum(valid_mask) > 2:\n                    # means"))

bug("key_of_first_items", "C28", "a bit scale's starting ability for selected items other than the first ones",
    "guessers on selected items use the answer key of the first items of the test",
    """
from unittest import mock
import irtorch.rescale.bit as B
from irtorch.models import NominalResponse
m = NominalResponse(item_categories=[3, 4, 5], mc_correct=[0, 1, 4])
b = B.Bit(m, start_theta=torch.zeros(1))
m.latent_scores = lambda d, **k: torch.zeros(d.shape[0], 1)
seen = []
real = B.random_guessing_data
with mock.patch.object(B, "random_guessing_data", side_effect=lambda c, n, g, k: (seen.append([int(v) for v in k]), real(c, n, g, k))[1]):
    b.bit_score_starting_theta_mc(items=[2, 1], guessing_iterations=10)
assert seen == [[4, 1]], seen
""",
    (R + "bit.py", "mc_correct.index_select(0, torch.tensor(items))", "mc_correct[:len(items)]"))

bug("elu_alpha_gradient", "C29", "a bounded activation with a steepness other than one and inputs above one",
    "the gradient above one ignores alpha",
    """
from irtorch.activation_functions import BoundedELU
x = torch.tensor([2.0], requires_grad=True)
BoundedELU.apply(x, 0.5).sum().backward()
assert torch.isclose(x.grad, 0.5 * torch.exp(torch.tensor([-1.0])), atol=1e-4)
""",
    ("irtorch/activation_functions.py", "pos_part_grad = alpha * torch.exp(-input_tensor + 1)", "pos_part_grad = torch.exp(-input_tensor + 1)"))
