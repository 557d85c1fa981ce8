from b import H, M, R, A
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits, **k):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo=H + demo, edits=list(edits), **k))


E = "irtorch/evaluator.py"
U = "irtorch/utils.py"
I = "irtorch/_internal_utils.py"

bug("surprisal_overflow", "C01", "a spline model whose surprisals exceed about 88, so that their exponential overflows",
    "the first factor of the surprisal model's probabilities divides two exponentials, which is NaN when both overflow",
    """
from irtorch.models import SurprisalSpline
m = SurprisalSpline(item_categories=[3, 2])
m.coefficients.data.fill_(60.0)
p = m.item_probabilities(torch.tensor([[0.0], [3.0]]))
assert torch.isfinite(p).all() and torch.allclose(p.sum(2), torch.ones(1)), p
""",
    (M + "surprisal_spline.py", "(1-1/surprisal.exp(), ones)", "((surprisal.exp()-1)/surprisal.exp(), ones)"))

bug("mix_mask_scalar", "C03", "a mixed model and missing responses in items of a later part",
    "the missing mask of the second and later models starts one item too early",
    """
from irtorch.models import ModelMix, TwoParameterLogistic, GeneralizedPartialCredit
m = ModelMix([TwoParameterLogistic(items=2), GeneralizedPartialCredit(item_categories=[3, 3])])
d = torch.tensor([[1.0, 0.0, float("nan"), 2.0]]); k = d.isnan()
th = torch.tensor([[0.7]])
p = m.item_probabilities(th).log()
want = p[0, 0, 1] + p[0, 1, 0] + p[0, 3, 2]
assert torch.isclose(m.log_likelihood(d, m(th), k), want, atol=1e-5)
""",
    (M + "model_mix.py", "mask_splits = [mask.contiguous() for mask in mask_splits]", "mask_splits = [mask.contiguous().flip(1) for mask in mask_splits]"))

bug("mc_gradient_scaled", "C07", "multiple-choice items with more than two options",
    "expected score gradients of multiple-choice items are divided by their number of options minus one although their maximum score is one",
    """
from irtorch.models import NominalResponse
m = NominalResponse(item_categories=[4, 3], mc_correct=[1, 2])
torch.nn.init.normal_(m.weight_param)
th = torch.tensor([[0.3]]); h = 1e-2
want = (m.expected_scores(th + h) - m.expected_scores(th - h)) / (2 * h)
assert torch.allclose(m.expected_item_score_gradients(th)[:, :, 0], want, atol=1e-3)
""",
    (M + "base_irt_model.py", "if not self.mc_correct and rescale_by_item_score:", "if rescale_by_item_score:"))

bug("rescale_layout", "C09", "several respondents on a scale whose Jacobian differs between them",
    "Jacobians are matched with the gradients in the wrong order, so respondents get each other's slopes",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Scale
class Cube(Scale):
    def __init__(self):
        super().__init__(True)
    def transform(self, t):
        return t ** 3 / 3 + t
    def inverse(self, t):
        raise NotImplementedError
    def jacobian(self, t):
        return torch.diag_embed(t ** 2 + 1)
m = TwoParameterLogistic(items=2); m.add_scale_transformation(Cube())
th = torch.tensor([[0.5], [-1.3]])
both = m.expected_item_score_gradients(th)
one = torch.cat([m.expected_item_score_gradients(th[i:i + 1]) for i in range(2)])
assert torch.allclose(both, one, atol=1e-5)
""",
    (M + "base_irt_model.py", "transform_jacobian_T = transform_jacobian_T.repeat_interleave(\n            int(non_transform_gradients.shape[0]/transform_jacobian_T.shape[0]),\n            dim=0\n        )",
     "transform_jacobian_T = transform_jacobian_T.repeat(\n            int(non_transform_gradients.shape[0]/transform_jacobian_T.shape[0]), 1, 1\n        )"))

bug("bit_jacobian_cancels", "C11", "an ability at which some items' entropies rise while others' fall",
    "the bit scale's Jacobian takes the absolute value of the sum over items, so opposite changes cancel",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import Bit
m = TwoParameterLogistic(items=2)
m.weight_param.data = torch.tensor([1.0, 1.2]); m.bias_param.data = torch.tensor([1.5, -1.5])
b = Bit(m)
th = torch.tensor([[0.1]]); h = 1e-2
def ent(t):
    p = m.item_probabilities(t)
    return -(p * p.log2()).sum(2)
want = ((ent(th + h) - ent(th - h)) / (2 * h)).abs().sum()
assert torch.isclose(b.jacobian(th)[0, 0, 0].abs(), want, atol=1e-2)
""",
    (R + "bit.py", "item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()", "item_bit_gradients = entropy_gradient_summands.nansum(dim=2)"),
    (R + "bit.py", "gradients = item_bit_gradients.sum(dim=1)", "gradients = item_bit_gradients.sum(dim=1).abs()"))

bug("observed_flags_lost", "C13", "a model with frozen parameters that is scored by ML or MAP",
    "after scoring, every parameter is trainable, also those that were frozen",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
m.weight_param.requires_grad_(False)
m.latent_scores(torch.tensor([[1.0, 0.0]]), theta_estimation="ML", device="cpu")
assert not m.weight_param.requires_grad and m.bias_param.requires_grad
""",
    (M + "base_irt_model.py", "parameter_flags = [(parameter, parameter.requires_grad) for parameter in self.parameters()]",
     "parameter_flags = [(parameter, True) for parameter in self.parameters()]"))

bug("infit_mc_missing", "C14", "a multiple-choice model and missing responses",
    "missing responses to multiple-choice items count as wrong answers in infit and outfit",
    """
from irtorch.models import NominalResponse
m = NominalResponse(item_categories=[3, 3], mc_correct=[1, 2])
torch.nn.init.normal_(m.weight_param)
d = torch.tensor([[1.0, 0.0], [0.0, float("nan")], [2.0, 2.0]]); th = torch.tensor([[0.1], [1.4], [-0.8]])
i, _ = m.evaluate.infit_outfit(d, th)
p = torch.stack([m.item_probabilities(th)[:, k, m.mc_correct[k]] for k in range(2)], 1)
o = ~d.isnan(); x = (d == torch.tensor(m.mc_correct)).float()
want = torch.stack([((x - p) ** 2)[o[:, k], k].sum() / (p * (1 - p))[o[:, k], k].sum() for k in range(2)])
assert torch.allclose(i, want, atol=1e-5), (i, want)
""",
    (E, "        mse[missing_mask] = torch.nan\n", ""))

bug("group_mask_unsorted", "C15", "missing responses and respondents not already sorted by ability",
    "group log-likelihoods sort the responses by ability but not the missing mask, so observed responses are dropped instead",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
d = torch.tensor([[1.0, -1.0], [0.0, 1.0], [1.0, 1.0], [0.0, 0.0]]); th = torch.tensor([[2.0], [-1.0], [0.5], [1.0]])
got = m.evaluate.group_fit_log_likelihood(d, th, groups=4)
o = th[:, 0].argsort()
p = m.item_probabilities(th).log()
ll = torch.stack([sum(p[r, i, int(d[r, i])] for i in range(2) if d[r, i] >= 0) for r in range(4)])[o]
assert torch.allclose(got, ll, atol=1e-5), (got, ll)
""",
    (E, "        missing_mask = missing_mask[indicies]\n", ""))

bug("wide_item_tail", "C16", "an item with more categories than the one before it",
    "the convolution over items stops one score too early, so patterns with the highest score so far are lost",
    """
from irtorch._internal_utils import conditional_score_distribution
p = torch.tensor([[[0.5, 0.5, 0.0], [0.2, 0.3, 0.5]]])
d = conditional_score_distribution(p, [2, 3])
assert torch.allclose(d.sum(), torch.tensor(1.0)), d
""",
    (I, "for j in range(item_max - item_categories[item] + 2):", "for j in range(item_max - max(item_categories[item], item_categories[item - 1]) + 2):"))

bug("last_option_never", "C17", "items with several incorrect options; visible only in the distribution of the imputed options",
    "the last incorrect option is never imputed",
    """
from irtorch.utils import impute_missing
d = torch.full((300, 1), float("nan")); d[0] = 3.0
x = impute_missing(d, "random incorrect", mc_correct=[1], item_categories=[4])
assert set(x[1:, 0].tolist()) == {0.0, 2.0, 3.0}, set(x[1:, 0].tolist())
""",
    (U, "(missing_indices.sum(),))]", "(missing_indices.sum(),)).clamp(max=max(incorrect_responses.size(0) - 2, 0))]"))

bug("category_of_first_rows", "C18", "a highest response given by a respondent who left another item unanswered",
    "category counts look only at respondents without any missing response",
    """
from irtorch.utils import get_item_categories
d = torch.tensor([[0.0, 1.0], [2.0, float("nan")], [1.0, 0.0]])
assert get_item_categories(d) == [3, 2]
""",
    (U, "data[~data[:, col].isnan()][:, col]", "data[~data.isnan().any(dim=1)][:, col]"))

bug("cv_shared_algorithm", "C19", "an algorithm passed as a parameter, over several folds",
    "all folds train the caller's algorithm object instead of a fresh copy, so state carries over between folds and leaks to the caller",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import JML
from irtorch.utils import cross_validation
d = torch.randint(0, 2, (12, 3)).float()
a = JML()
cross_validation(TwoParameterLogistic(items=3), d, 3, {"learning_rate": [0.1]}, theta_estimation="ML", device="cpu", multiprocessing=False, algorithm=a, max_epochs=2)
assert not a.training_history["train_loss"]
""",
    (U, 'algorithm = copy.deepcopy(fold_params.pop("algorithm"))', 'algorithm = fold_params.pop("algorithm")'))

bug("mml_weight_layout", "C20", "several respondents and quadrature points of unequal weight",
    "quadrature weights are laid out in another order than the replicated data, so respondents are weighted by each other's points",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import MML
def loss(d):
    m = TwoParameterLogistic(items=3)
    m.weight_param.data = torch.tensor([1.0, 2.0, 0.5]); m.bias_param.data = torch.tensor([0.1, -0.5, 0.7])
    a = MML(); m.fit(train_data=d, algorithm=a, max_epochs=1, quadrature_points=5, device="cpu")
    return a.training_history["train_loss"][0]
d = torch.tensor([[1.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0]])
assert abs(loss(d) - sum(loss(d[i:i + 1]) for i in range(3))) < 1e-3
""",
    (A + "mml.py", "log_weights_rep = log_weights.repeat_interleave(train_data.size(0), dim=0)", "log_weights_rep = log_weights.repeat(train_data.size(0))"))

bug("start_mask_layout", "C21", "several respondents, missing responses and training scores to start from",
    "the missing mask is repeated in another order than the responses when the starting score is chosen",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=3)
m.weight_param.data = torch.tensor([1.0, 2.0, 0.5]); m.bias_param.data = torch.tensor([0.1, -0.5, 0.7])
m.algorithm = type("A", (), {"training_theta_scores": torch.tensor([[-2.0], [0.0], [2.0]])})()
d = torch.tensor([[1.0, -1.0, 1.0], [0.0, 0.0, -1.0], [-1.0, 1.0, 0.0]])
both = m._initial_theta_from_training_data(d, device="cpu")
one = torch.cat([m._initial_theta_from_training_data(d[i:i + 1], device="cpu") for i in range(3)])
assert torch.equal(both, one), (both, one)
""",
    (M + "base_irt_model.py", "missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)", "missing_mask = missing_mask.repeat(training_thetas.shape[0], 1)"))

bug("annealing_per_epoch", "C22", "a variational autoencoder with more than one annealing iteration",
    "the evidence bound's annealing factor keeps growing beyond one after the annealing iterations",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.estimation_algorithms import VAE
m = TwoParameterLogistic(items=2)
a = VAE(); a.iw_samples = 1; a.anneal = True; a.annealing_iterations = 2; a.total_iterations = 6
d = torch.ones(2, 2); k = torch.zeros(2, 2, dtype=torch.bool)
mean = torch.ones(2, 1); lv = torch.zeros(2, 1)
got = a._loss_function(m, d, k, m(mean), mean, mean, lv)
a.anneal = False
assert torch.isclose(got, a._loss_function(m, d, k, m(mean), mean, mean, lv))
""",
    (A + "vae.py", "min(1.0, self.total_iterations / self.annealing_iterations)", "max(self.annealing_factor if self.total_iterations > 1 else 0.0, self.total_iterations / self.annealing_iterations)"))

bug("mixture_singular_weight", "C23", "a mixture whose components have unequal weights",
    "the mixture density weighs all components equally",
    """
from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
g = GaussianMixtureModel(2, 1)
g.weights.data = torch.tensor([0.8, 0.2])
x = torch.tensor([[0.3], [1.5]])
assert torch.allclose(g.pdf(x).log().sum(), g(x), atol=1e-4)
""",
    ("irtorch/torch_modules/gaussian_mixture_model.py", "pdf += self.weights[i] * component_pdf", "pdf += self.weights.mean() * component_pdf"))

bug("fences_of_observations", "C24", "new observations spread differently from the data they are judged against",
    "the upper fence for new observations comes from the new observations' own quartile",
    """
from irtorch.outlier_detector import OutlierDetector
x = torch.tensor([[1.0], [2.0], [3.0], [4.0]]); n = torch.tensor([[50.0], [60.0], [70.0]])
assert OutlierDetector().is_outlier(n, x).all()
""",
    ("irtorch/outlier_detector.py", "is_upper_outlier = (new_observations > upper_bound)", "is_upper_outlier = (new_observations > torch.maximum(upper_bound, torch.quantile(new_observations, 0.75, dim=0)))"))

bug("linked_to_items", "C25", "common items at different positions on the two tests",
    "linking compares the target test's items at the other test's positions",
    """
from irtorch.models import TwoParameterLogistic
from irtorch.rescale import LinkCommonItems
a, b = TwoParameterLogistic(items=3), TwoParameterLogistic(items=3)
a.bias_param.data = torch.tensor([0.0, 1.0, 2.0]); b.bias_param.data = torch.tensor([1.0, 2.0, -3.0])
l = LinkCommonItems(a, b, [1, 2], [0, 1])
th = torch.tensor([[0.5], [-0.5]])
assert abs(l._loss_function(th, th).item()) < 1e-5
""",
    (R + "link_common_items.py", "linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices,",
     "linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_from_common_item_indices,"))

bug("amid_sample_margins", "C26", "the simulated hypothesis test of the mutual information difference",
    "simulated differences are compared with a sign, so strong negative differences do not count",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
d = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.0, 0.0]]); th = torch.tensor([[2.0], [-2.0], [1.0], [-1.0]])
s = [torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.0, 0.0]]), torch.tensor([[1.0, 1.0], [1.0, 1.0], [1.0, 1.0], [0.0, 1.0]])]
mid, amid, _ = m.evaluate.mutual_information_difference(s[1], th)
assert mid.iloc[0, 1] < 0
it = iter([s[1]] * 4)
m.sample_test_data = lambda t: next(it)
o, oa, p = m.evaluate.mutual_information_difference(torch.tensor([[1.0, 1.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]), th, sample_hypothesis_test=True, samples=4)
assert p.iloc[0, 1] == float(amid.iloc[0, 1] > oa.iloc[0, 1]), (amid, oa, p)
""",
    (E, "(sample_mutual_information - expected_mutual_information).abs()", "(sample_mutual_information - expected_mutual_information)"))

bug("q3_one_sided", "C27", "a pair of items with a clearly negative Q3",
    "the p-value counts only simulated correlations at least as large as the observed one",
    """
from irtorch.models import TwoParameterLogistic
m = TwoParameterLogistic(items=2)
th = torch.zeros(4, 1)
neg = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 0.0], [1.0, 1.0]]); pos = torch.tensor([[1.0, 1.0], [0.0, 0.0], [1.0, 1.0], [1.0, 0.0]])
m.sample_test_data = lambda t: pos
_, p = m.evaluate.q3(neg, th, sample_hypothesis_test=True, samples=4)
assert p.iloc[0, 1] == 0, p
""",
    (E, "p_values = torch.min(counts1, counts2).float() * 2 / sample_corr_matrices.shape[0]", "p_values = (counts2.float() * 2 / sample_corr_matrices.shape[0]).clamp(max=1)"))

bug("guess_default_two", "C28", "guessing with a probability that happens to equal the probability of the other options' placeholder",
    "the correct option's probability is overwritten when it equals the even share of the others",
    """
from irtorch._internal_utils import random_guessing_data
x = random_guessing_data([3, 5], 20000, [0.2, 0.6], [0, 4])
f = [(x[:, 1] == k).float().mean().item() for k in range(5)]
assert abs(f[4] - 0.6) < 0.03 and abs(f[0] - 0.1) < 0.03, f
assert abs((x[:, 0] == 0).float().mean().item() - 0.2) < 0.03
""",
    (I, "probs[mc_correct[item_idx]] = guessing_prob", "probs[mc_correct[item_idx] if mc_correct[item_idx] < num_categories - 1 else 0] = guessing_prob"))
