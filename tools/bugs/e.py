"""construction and resetting of models, further plots"""
from b import H, M, R, A
BUGS = []
U = "irtorch/utils.py"


def bug(id, prop, needs, breaks, demo, *edits, **k):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, demo=H + demo, edits=list(edits), **k))

bug("guessing_survives_reset", "C33", "a three-parameter model whose guessing parameters moved before it is reset",
    "resetting keeps the old guessing parameters",
    """
from irtorch.models import ThreeParameterLogistic
m = ThreeParameterLogistic(items=2)
with torch.no_grad():
    m.guessing_param.fill_(0.7)
m.reset_parameters()
assert torch.allclose(m.guessing_param, ThreeParameterLogistic(items=2).guessing_param), m.guessing_param
""",
    (M + "three_parameter_logistic.py", "        nn.init.constant_(self.guessing_param, -1.1)\n", "        self.guessing_param.requires_grad_(True)\n"))

bug("categories_of_complete_rows", "C33", "the highest answer to an item was only given by a respondent with a missing answer elsewhere",
    "category counts of a nominal model are taken from respondents who answered everything",
    """
from irtorch.models import NominalResponse
m = NominalResponse(data=torch.tensor([[0., 1.], [1., 2.], [2., float("nan")]]))
assert m.item_categories == [3, 3], m.item_categories
""",
    (M + "nominal_response.py", "torch.where(~data.isnan(), data, torch.tensor(float('-inf'))).max(dim=0)",
     "torch.where(~data.isnan().any(dim=1, keepdim=True), data, torch.tensor(float('-inf'))).max(dim=0)"))

bug("relations_checked_per_ability", "C33", "an item related to no ability while every ability has an item",
    "the relation matrix is checked for empty columns instead of empty rows",
    """
from irtorch.models import GradedResponse
try:
    GradedResponse(latent_variables=2, item_categories=[3, 2, 3], item_theta_relationships=torch.tensor([[True, False], [False, False], [False, True]]))
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("an item without any ability was accepted")
""",
    (M + "graded_response.py", "torch.all(item_theta_relationships.sum(dim=1) > 0)", "torch.all(item_theta_relationships.sum(dim=0) > 0)"))

bug("correct_option_of_the_longest_item", "C33", "a correct option beyond the item's own options but not beyond those of the longest item",
    "correct options are checked against the largest category count of the test",
    """
from irtorch.models import NominalResponse
try:
    NominalResponse(item_categories=[3, 4], mc_correct=[3, 1])
except ValueError:
    pass
else:
    raise SystemExit("a correct option the item lacks was accepted")
""",
    (M + "base_irt_model.py", "if not all(item > mc for item, mc in zip(item_categories, mc_correct)):", "if not all(max(item_categories) > mc for mc in mc_correct):"))

bug("contour_transposed", "C30", "the score distribution of two latent variables whose joint histogram is not symmetric",
    "the contour plot shows the transposed histogram",
    """
from irtorch.models import TwoParameterLogistic
import numpy as np
m = TwoParameterLogistic(items=2, latent_variables=2)
t = torch.tensor([[0.0, 0.0], [1.0, 0.0], [1.0, 0.0], [1.0, 1.0]])
fig = m.plot.latent_score_distribution(scores_to_plot=t, latent_variables=(1, 2), contour_plot_bins=2)
z = np.asarray(fig.data[0].z)
assert z[0][1] > z[1][0], z
""",
    ("irtorch/plotter.py", "z=histogram2d.T,", "z=histogram2d,"))

bug("nested_direction_of_first_item", "C04", "a nested logit model in which items differ in the direction of the slope of the correct option",
    "nested logit models report the first item's directions for every item",
    """
from irtorch.models import NestedLogit, TwoParameterLogistic
c = TwoParameterLogistic(items=2)
with torch.no_grad():
    c.weight_param.copy_(torch.tensor([1.0, -1.0]))
m = NestedLogit(mc_correct=[1, 0], correct_response_model=c, item_categories=[3, 3])
assert m.item_theta_relationship_directions().flatten().tolist() == [1, -1]
""",
    (M + "nested_logit.py", "        return self.correct_response_model.item_theta_relationship_directions(theta)\n",
     "        directions = self.correct_response_model.item_theta_relationship_directions(theta)\n        return directions[:1].expand_as(directions) if self.mc_correct else directions\n"))
