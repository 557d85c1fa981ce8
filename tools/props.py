M = "irtorch/models/"
ALLM = [M + f for f in ("one_parameter_logistic.py", "two_parameter_logistic.py", "three_parameter_logistic.py", "generalized_partial_credit.py",
                        "graded_response.py", "nominal_response.py", "nested_logit.py", "monotone_nn.py", "monotone_polynomial.py",
                        "monotone_b_spline.py", "surprisal_spline.py", "model_mix.py", "base_irt_model.py")]
INP, CONF, HIST = "inputs", "configurations", "histories"

prop("C01", "Every model yields a valid response distribution for every item and ability",
     "For every model, item and ability vector, the response probabilities are non-negative, sum to one over the item's own response categories and are zero for categories the item does not have. "
     "This includes items with different numbers of categories, several latent variables, masked item-ability relations and models mixed into one test.",
     [INP, CONF], "all ability values and all parameter values (ordered thresholds for graded response) in every model family and configuration",
     "unit tests evaluate a few fixed parameter sets; the guarantee is over all real parameters and abilities", ALLM,
     ["softmax over masked logits / differences of cumulative curves"], ["item response probabilities of a model"])

prop("C02", "Models implement their documented response functions and report their parameters",
     "The one-, two- and three-parameter logistic, generalized partial credit, graded response, nominal, nested-logit and mixed models return exactly the probabilities of their documented formulas for every parameter value and ability. "
     "The item parameter tables they report (both the slope-intercept and the traditional difficulty format) contain the numbers that, inserted in those formulas, reproduce the model's probabilities, and so do the polynomial coefficients a monotone polynomial model reports.",
     [INP, CONF], "all parameters, abilities, category layouts and relation masks",
     "tests compare a handful of numeric values; a wrong index for unequal categories or masked slopes is invisible there", ALLM,
     ["parameter vectors scattered through masks into per-item, per-category logits"], ["item response probabilities", "item parameter tables"])

prop("C03", "Log-likelihood is the sum of log response probabilities of the observed answers",
     "A model's log-likelihood of response data equals the sum, over observed responses, of the log probability of the given answer; missing responses contribute nothing. "
     "In unreduced form there is one entry per respondent and item, in that order.",
     [INP, CONF], "all parameters, abilities, response patterns and missingness patterns",
     "tests use mocked or tiny fixed logits; index errors only show for particular category layouts or patterns", ALLM,
     ["cross entropy over masked logits", "missing-data masks"], ["log-likelihood of response data"])

prop("C04", "Ability effects have the promised direction",
     "In monotone models, higher ability never lowers the expected item score (or the probability of the correct option when one is declared) if the item's relation to that ability is declared non-negative, and the relation directions the model reports agree with the actual slopes. "
     "For nested-logit and binary models the probability of a correct answer follows the sign of the item's slope.",
     [INP, CONF], "all abilities, all parameter values, all monotone model families",
     "monotonicity is a statement about every pair of abilities and every parameter setting; tests evaluate a short grid",
     [M + "monotone_nn.py", M + "monotone_polynomial.py", M + "monotone_b_spline.py", M + "two_parameter_logistic.py", M + "graded_response.py", M + "generalized_partial_credit.py", M + "nominal_response.py"],
     ["weights constrained through softplus / squares, monotone activations, sign multipliers"], ["item response probabilities", "expected item scores", "reported relation directions"])

prop("C05", "Excluded item-ability relations have no influence",
     "If an item is declared unrelated to an ability, that item's response probabilities do not change with that ability, whatever the parameters. "
     "Related abilities of the same item and all other items keep their influence.",
     [INP, CONF], "all abilities and parameters for every model accepting a relation matrix",
     "tests check one or two masks with fixed numbers", ALLM, ["relation masks on weight matrices"], ["item response probabilities"])

prop("C06", "Probability gradients and Fisher information are the exact derivatives",
     "The reported gradients of response probabilities are the derivatives of those probabilities, and item Fisher information equals the sum over categories of the outer product of the gradient divided by the probability. "
     "The information matrix is symmetric and positive semi-definite, test information is the sum of item information, and directional information is the quadratic form in the direction cosines.",
     [INP, CONF], "all abilities, parameters, models and angles", "tests compare against a few stored numbers or mock the gradients",
     [M + "base_irt_model.py", M + "one_parameter_logistic.py", M + "two_parameter_logistic.py", M + "three_parameter_logistic.py"],
     ["autograd jacobians and closed forms"], ["probability gradients", "information"])

prop("C33", "Models are built for the items, options and relations they are given",
     "A model built from response data has, per item, one category more than the highest observed response (binary models: two), with missing responses coded NaN or -1 ignored, and the same parameters and masks as one built from the category counts. "
     "Specifications that cannot be met (items related to no ability, correct options the item lacks, relation matrices of the wrong size, neither data nor items, mixed models of different dimension) are refused and all others give a model with valid probabilities, whose reset restores the starting values of a newly built one whatever its parameters were.",
     [INP, CONF], "all response data with missing values, all relation matrices and correct options, all random starting values and all parameter values before a reset",
     "tests build one model of each kind from one data set", ALLM,
     ["category counts from column maxima, masks from relation matrices, parameters sized by the masks"], ["models built from data or specifications", "models after a parameter reset"])

how("C01", """Each model's `item_probabilities` runs on symbolic parameters and abilities; non-negativity, unit sums over the item's categories and zeros
elsewhere are obligations for every item/category. Configurations: every model family with unequal category counts, masks, two abilities, mixes.
`far/` (abilities of magnitude 60-3000; not MonotoneNN with bounded activations) and `steep/` (parameters of magnitude 60-600) model single-precision overflow and underflow of the exponential.""")
how("C02", """`item_probabilities` is compared, term by term, with an independent transcription of the documented formula (checks/common.py), and the numbers in
`item_parameters` (both formats) are inserted in that formula and compared with the model.""")
how("C03", """Responses and missingness flags are symbolic: the execution forks over the category each response takes; the obligation equates the (reduced or unreduced)
log-likelihood with the sum of logs of `item_probabilities` entries of the answers. At abilities 60 to 600 from zero, with single precision's overflow and underflow
modelled, the log-likelihood of the models built on logits stays finite.""")
how("C04", """Two symbolic abilities a <= b (all else equal): obligation E(score|a) <= E(score|b), decided through the sign of the difference after factoring, or through the
sign of the symbolic derivative on every smooth piece; reported directions are compared with the sign of the model's slopes.""")
how("C05", """Excluded: probabilities at two abilities differing only in excluded coordinates are equal terms. Kept: there are parameters for which the derivative is
non-zero (a sat query with a replayed witness).""")
how("C06", """The gradients come from the code's own autograd/functorch path on symbolic tensors; they are compared with the symbolic derivative of the term the model computes.
Information is compared with sum g g'/p; positive semi-definiteness is v'Iv >= 0 for symbolic v.""")

prop("C07", "Expected scores and population difficulty and discrimination are the right sums",
     "Expected item scores are the probability-weighted item scores, lie between zero and the item's maximum and add up to the expected sum score. "
     "Their reported gradients are the derivatives of those scores, and population difficulty and discrimination are the averages over the population of the lost score proportion and of the gradient. "
     "Multiple-choice items score one for the correct option only.",
     [INP, CONF], "all abilities and parameters of every model family, items with unequal maximum scores and multiple-choice keys",
     "tests use mocked probabilities with equal category counts", [M + "base_irt_model.py"],
     ["weighted sums over padded category dimensions"], ["expected scores", "expected score gradients", "population difficulty and discrimination"])

prop("C10", "Rational quadratic splines are strictly increasing and exactly invertible",
     "The rational quadratic spline maps its input interval increasingly onto its output interval through the documented knots and continues linearly outside. "
     "Its inverse undoes it everywhere, and the reported log derivatives are the logarithms of the derivatives of the transformation and of its inverse.",
     [INP, CONF], "all inputs and all bin sizes, heights and knot slopes, with fixed and free end points",
     "tests sample a few points inside the interval with default parameters", ["irtorch/torch_modules/rational_quadratic_spline.py", "irtorch/rescale/flow.py"],
     ["bin search and per-bin rational function"], ["spline output", "log derivatives"])

how("C07", """`expected_scores`, `expected_item_score_gradients`, `population_difficulty` and `population_discrimination` run on the symbolic models and are compared with sums over the
probabilities / symbolic derivatives of the probabilities the same model computes.""")
how("C10", """The spline runs on symbolic bin weights, slopes and end points; the input is any point of bin k (knot + u * width, u in [0,1)). Value, slope, log-derivative, inverse and the
inverse's log-derivative are compared with the documented rational function; the inverse is applied to the value just proved to be the spline's. Outside the interval and at its ends likewise.
Bounds: 2-3 bins (4 in the thorough tier; with 3 or more bins one symbol shapes the bins), 1-2 variables, relative sizes within a factor 16, slopes in [0.26, 4].""")

R_ = "irtorch/rescale/"
prop("C08", "Inverting scale transformations gives back the original abilities",
     "Transforming abilities with a model's scale transformations and transforming them back returns the original abilities, for each invertible scale alone and for any chain of them. "
     "The chain applies the scales in the order they were added, and detaching the scales restores the original abilities.",
     [INP, CONF, HIST], "all abilities, all scale parameters and all orders of adding scales", "tests check one scale at a time with fixed numbers, and inverse order errors cancel for scales that commute",
     [M + "base_irt_model.py", R_ + "reverse.py", R_ + "rotate.py", R_ + "flow.py", R_ + "link_common_items.py", R_ + "scale.py"],
     ["list of scale objects applied in sequence"], ["transformed and inversely transformed abilities"], [("scale", "scale transformations of a model in order of addition")])

prop("C09", "Rescaled gradients, information and standard errors obey the chain rule",
     "A scale's Jacobian is the derivative of its transformation, and a model's Jacobian that of the whole chain. "
     "Probability gradients, expected score gradients, discrimination and Fisher information on the transformed scale follow from those on the original scale by the chain rule. "
     "Standard errors reported with transformed abilities are those of the transformed scale.",
     [INP, CONF], "all abilities, model parameters and scale parameters, several respondents and abilities", "tests use mocked Jacobians or the identity",
     [M + "base_irt_model.py", R_ + "flow.py", R_ + "rotate.py", R_ + "reverse.py", R_ + "link_common_items.py"],
     ["batched linear solves against repeated Jacobians"], ["rescaled gradients", "rescaled information", "standard errors"])

how("C08", """Scales with symbolic parameters (rotation matrices, flow means/deviations/splines, sign flips, abstract affine maps) are attached to a model;
`inverse_transform_theta(transform_theta(x)) == x` is an obligation for symbolic x in each spline bin, for chains of up to three scales.""")
how("C09", """`jacobian`/`theta_transform_jacobian` are compared with the symbolic derivative of `transform_theta`; with J that Jacobian, J^T g' = g and J^T I' J = I are
obligations for the rescaled quantities, for several respondents. The optimiser and the encoder are replaced by arbitrary symbolic abilities when standard errors are checked.""")

prop("C11", "Bit scores accumulate the entropy change from the starting ability",
     "The bit score of an ability is the total absolute change of the selected items' entropies (base 2) between grid points on the way from the starting ability to it; at or below the starting ability it is zero, "
     "and it does not decrease with ability in the direction of the total score, whatever the sign of the loadings. With several abilities each bit score moves one ability with the others at their centre, and the one-dimensional score moves all of them together. "
     "Its Jacobian is the sum over the selected items of the absolute derivative of their entropy, with the sign of that direction.",
     [INP, CONF], "all abilities, starting abilities and item parameters, populations and item subsets", "tests check shapes and one value with mocked entropies",
     [R_ + "bit.py", "irtorch/_internal_utils.py", "irtorch/outlier_detector.py"],
     ["merging the grid with the respondents' abilities, sorting, accumulating and looking the sums up again"], ["bit scores", "bit Jacobian"])

how("C11", """Bit scales with a symbolic starting ability and symbolic 2PL/GPC parameters of fixed sign transform symbolic abilities (1-2 respondents, 1-2 abilities, a grid of two points);
the result must equal the sum of absolute differences of the entropies the model itself gives at the starting ability, the grid points in between and the ability (tolerance 2e-3 in base 2), for every
order of the abilities and the grid. The Jacobian is compared with the entropies' symbolic derivative. Outside: the default starting ability of -10000, finer grids.""")

prop("C12", "Missing responses carry no information, however they are coded",
     "Missing responses may be coded NaN or -1: every operation on responses (log-likelihood, scoring, sum scores, imputation, encoding, masks, fit statistics, entropies) gives the same result for both codings. "
     "A respondent's result does not depend on another respondent's missing responses.",
     [INP, CONF], "all response patterns and all patterns of missing responses", "tests use one coding or the other on single patterns",
     ["irtorch/_internal_utils.py", "irtorch/utils.py", "irtorch/irt_dataset.py", "irtorch/evaluator.py", M + "base_irt_model.py"],
     ["masking, encoding and imputing in several places"], ["results for both codings"])
prop("C13", "Operations leave the caller's data and the model unchanged",
     "Calling a scoring, prediction, information, evaluation, imputation, encoding, sampling, splitting or estimation operation leaves the tensors passed in (values, missing codes, gradient flags) and the parameters of all models but the one estimated (values and which of them are frozen) exactly as they were.",
     [INP, HIST], "all response patterns, missing codes, abilities and parameters", "tests compare outputs and rarely look at inputs afterwards",
     ["irtorch/_internal_utils.py", "irtorch/utils.py", "irtorch/irt_dataset.py", "irtorch/evaluator.py", "irtorch/outlier_detector.py", M + "base_irt_model.py"],
     ["in-place writes on copies or views"], ["caller's tensors", "model parameters"])
prop("C14", "Fit statistics are the documented functions of observed responses",
     "Residuals, accuracy, infit/outfit, score predictions and log-likelihood levels equal their documented formula over the observed responses only: raw and standardized residuals use the model's mean and variance "
     "(1 minus the probability of the response for multiple choice models), accuracy is the share of responses equal to the most probable category, and averages over items, respondents or everything ignore missing responses. "
     "Without given abilities those the model estimates from the responses count, on the model's own scale whatever scales are attached.",
     [INP, CONF], "all responses, missing patterns, abilities and item parameters", "tests check shapes or mocked values without missing responses",
     ["irtorch/evaluator.py"], ["masking and averaging per item, respondent or in total"], ["residuals", "accuracy", "infit and outfit", "predictions", "log-likelihood"])
prop("C15", "Grouped fit compares the right respondents in each group",
     "Groups partition the respondents by ability into the requested number of groups whose sizes differ by at most one, in increasing order. "
     "Per group, the observed shares count the observed responses of its members in each category, the model shares average its members' probabilities, the mid points average their abilities, "
     "and standardized residuals and log-likelihoods use exactly its members.",
     [INP, CONF], "all orders of abilities, responses and item parameters", "tests use mocked groups or check shapes",
     ["irtorch/evaluator.py"], ["sort, split and gather respondents"], ["group mid points", "group probabilities", "group residuals", "group log-likelihoods"])

how("C12", """`checks/calls.py` registers the public operations that take responses (some 30). Responses are symbolic integers; each subset of missing cells is a path; the operation runs on the data coded
NaN and on the data coded -1 and every element of the results must be equal. The optimiser is replaced by a recorder of the objective and gradient. Bounds: 1-2 respondents, 2 items.""")
how("C13", """The same registry plus some 20 operations without responses: every element of every tensor passed in and of every parameter is compared before and after, on each path.""")
how("C14", """The evaluator runs on symbolic models, responses and missing patterns; each statistic is compared with its formula computed from the probabilities the model gives.
Infit/outfit denominators are compared where they are positive. Without abilities the scoring is replaced by one returning symbolic abilities (transformed if asked to rescale). Bounds: 2 respondents (3 in places), 2 items, 2-3 categories.""")
how("C15", """Abilities are symbolic; each order of the respondents is a path. Group shares, mid points, residuals and log-likelihoods are compared with sums over the members that order implies.
Bounds: 2-5 respondents, 1-3 groups.""")

prop("C16", "Sum score distributions count every response pattern exactly once",
     "The probability of a total score given the item probabilities is the sum over all response patterns with that total of the product of their probabilities, for any mix of category numbers; multiple-choice items count as correct or incorrect. "
     "The distribution of a population is the average over its respondents, over the encoder's samples, or over an evenly spaced ability grid weighted by the fitted density or, for MML models, the fitted normal population.",
     [INP, CONF], "all item probabilities, parameters, abilities and density values", "tests compare two items with mocked probabilities",
     ["irtorch/evaluator.py", "irtorch/_internal_utils.py"], ["recursive convolution over items", "weighted average over abilities"], ["sum score probabilities"])
prop("C17", "Imputation keeps what was observed and fills the rest as documented",
     "Imputation never changes an observed response. Missing responses become zero, the item's mean, one of the item's incorrect options (never the correct one, only options the item has), or the model's expected score under the standard normal ability prior, as requested; "
     "every cell is filled and requests that cannot be met are refused.",
     [INP, CONF], "all responses, missing patterns, category layouts, keys and random draws", "random imputations are tested for one seed",
     ["irtorch/utils.py", "irtorch/_internal_utils.py"], ["per item draws and masks"], ["imputed data"])
prop("C18", "Encodings, masks and category counts say exactly what was answered",
     "One-hot encodings mark exactly the column of the response given and nothing for a missing response, for items with different numbers of categories; dataset entries keep each respondent's responses, mask and encoding together. "
     "The missing mask marks missing responses and nothing else, and the category count of an item is one more than its highest observed response.",
     [INP, CONF], "all responses, missing patterns and category layouts", "tests use one small matrix",
     ["irtorch/_internal_utils.py", "irtorch/irt_dataset.py", "irtorch/utils.py"], ["column offsets per item"], ["one-hot encoding", "dataset entries", "missing mask", "item categories"])
prop("C19", "Splits partition the respondents and cross-validation never peeks",
     "A split puts every respondent with its own responses in exactly one part of the requested size, and folds partition the respondents into the requested number of parts whose sizes differ by at most one. "
     "Cross-validation fits a fresh copy of the given model per parameter combination and fold, evaluates it on the fold left out only, reports the average log-likelihood under the right parameters and leaves the caller's model and algorithms unused.",
     [INP, CONF], "all shuffles, all log-likelihood values, several sample sizes and fold counts", "tests run one shuffle and mock the fits",
     ["irtorch/utils.py"], ["permutation and index arithmetic", "copies of model and algorithm"], ["split data", "cross-validation results"])
prop("C20", "MML estimation optimises the marginal likelihood of the observed data",
     "The MML loss is minus the sum over respondents of the log of the quadrature-weighted average likelihood of their observed responses under the given (default standard) normal population. "
     "The Gauss-Hermite rule integrates polynomials up to its order exactly for any mean and covariance, and each step uses the gradient of the loss for every model parameter.",
     [INP, CONF], "all parameters, responses, missing patterns, covariances and both quadrature rules", "tests only check that the loss falls",
     ["irtorch/estimation_algorithms/mml.py", "irtorch/utils.py"], ["log-sum-exp over a grid", "tensor-product quadrature"], ["training loss", "quadrature nodes and weights"])
prop("C21", "Latent scores are those of the requested estimator",
     "EAP scores are posterior means over the stated grid and prior, ML and MAP maximise the log-likelihood of each respondent's observed responses (plus the log prior) starting from the best matching training score, and NN scores are the encoder's output for the encoded responses. "
     "Scores come back in the order of the respondents, on the transformed scale when scales are attached, and one at a time as well as together.",
     [INP, CONF], "all responses, parameters, missing patterns, priors and encoder weights", "tests mock the estimators or check shapes",
     [M + "base_irt_model.py"], ["posterior weights on a grid", "objective and gradient given to the optimiser", "encoder"], ["latent scores"])

how("C16", """Probabilities are free symbolic numbers (phantom categories zero); the distribution is compared, as a polynomial, with the explicit sum over all response patterns. Population versions run on
symbolic models with a symbolic training population, an arbitrary density (free symbolic values) and recorded encoder/normal samples. Bounds: up to 6 items, 5 categories, grids of 2-3 points.""")
how("C17", """Responses are symbolic and each missing pattern a path; random draws are symbolic (any permitted draw): every cell is compared with its documented value or set of values.""")
how("C18", """Symbolic responses, each missing pattern a path; every cell of the encodings, dataset entries, masks and counts is compared. Bounds: up to 3 items and 4 categories.""")
how("C19", """The permutation is symbolic (any order); each respondent carries its identity in its responses, and 'appears exactly once' is an obligation over all orders. Fits and evaluations in cross-validation are
recorded by stand-ins returning free symbolic log-likelihoods. Bounds: 3-7 respondents, 2-5 folds. Multiprocessing itself is outside.""")
how("C20", """`MML.fit` runs one epoch on symbolic models and responses with a stand-in optimiser; the recorded loss is compared with the marginal log-likelihood computed from the model's own item probabilities. Quadrature nodes and
weights are compared on moments of a symbolic mean and (Cholesky-parametrised) covariance. `easy/` models underflow: finite losses for respondents whose likelihood is below single precision. Bounds: 2-3 points, 1-2 abilities.""")
how("C21", """EAP on symbolic models is compared with the posterior mean on the documented grid; for ML/MAP a stand-in optimiser records the objective and gradient (at symbolic starting scores) which are compared with the
log-likelihood (plus prior) and its symbolic derivative; `unlikely` harnesses model underflow of the likelihood; NN scores are compared with a symbolic encoder applied to the documented encoding. Whether LBFGS converges is outside.""")

prop("C22", "Autoencoder, variational and joint estimation optimise the documented objectives",
     "The losses recorded during training are minus the mean log-likelihood of the observed responses at the encoded abilities (AE), the annealed evidence or importance-weighted bound (VAE), and minus the joint log-likelihood (JML), with gradients that are their derivatives. "
     "Training scores belong to the right respondents, training stops after the stated number of learning rate reductions, and all parameters kept come from the iteration with the lowest evaluated loss. "
     "Encoders apply their layers in order.",
     [INP, CONF, HIST], "all parameters, encoder weights, responses, missing patterns, noise draws and sequences of losses", "tests train for a few epochs and check that the loss falls",
     ["irtorch/estimation_algorithms/vae.py", "irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/encoders/variational_encoder.py"],
     ["loss functions and training loops", "best state bookkeeping"], ["training history", "training scores", "fitted parameters"], [("best_model_state", "copy of the best parameters so far")])
prop("C23", "Ability density approximations are the stated densities",
     "The Gaussian mixture's density and log-likelihood are those of its weights, means and covariances, an EM iteration yields the posterior-weighted shares, means and covariances, and cross-validation picks the number of components with the best held-out log-likelihood. "
     "The quantile normal approximation evaluates the normal density fitted to the rank quantiles at interpolated quantiles; it is finite everywhere, also with tied abilities. "
     "Interpolation is piecewise linear with linear continuation, and quantile transformation preserves order.",
     [INP], "all abilities, mixture parameters and evaluation points", "tests sample a few points without ties",
     ["irtorch/torch_modules/gaussian_mixture_model.py", "irtorch/quantile_mv_normal.py", "irtorch/latent_variable_functions.py", "irtorch/evaluator.py"],
     ["EM updates", "rank quantiles and piecewise linear interpolation"], ["densities", "interpolated values"])

how("C22", """`fit` of AE, VAE, JML and MML runs with a stand-in optimiser (which records gradients and optionally moves parameters to known places) and encoders that are arbitrary symbolic linear maps; noise draws are symbolic.
The recorded losses are compared with the objectives computed from the model's item probabilities, gradients with symbolic derivatives. For the training loops the log-likelihood is replaced by free symbolic values, so every
order of losses is a path (all four algorithms, also when the same object has fitted before). Batches of different sizes, encoders with batch normalisation (scores alone and together) and imputed encoder inputs are covered for three to four respondents with fixed responses. The check accepts the state just before or just after the best step (irtorch keeps the latter). Adam itself, shuffling by the DataLoader and minibatch comparability are outside.""")
how("C23", """Symbolic abilities, evaluation points, weights, means and (one ability) variances; two-ability covariances are fixed. Each order of the abilities is a path. Cross-validation runs with recorded fits and
free symbolic held-out log-likelihoods. That the quantile approximation is the density of the quantiles and not (no change-of-variables factor) of the abilities is taken as documented behaviour.""")

prop("C24", "Outlier detection flags exactly the values beyond the stated fences",
     "A value is flagged exactly when it lies below the first quartile minus, or above the third quartile plus, the stated factor times the interquartile range of its column; new observations are judged against the fences of the data, and the smallest and largest non-outlier of a column are the extreme values within its fences. "
     "Columns are judged separately; factors below one, other shapes and requests for neither side are refused.",
     [INP], "all data values and factors", "tests use one data set with a gross outlier",
     ["irtorch/outlier_detector.py"], ["quantile interpolation and comparison per column"], ["outlier flags", "smallest and largest regular values"])
prop("C25", "Fitted scales optimise what they promise",
     "A flow scale is trained on the standardised abilities by minus their mean log density (base density of the image times the slope) and its gradient, and transforms with the same standardisation. "
     "Linking minimises the divergence between the common items' response probabilities on the two tests, whatever the other items, along a strictly monotone transformation in the requested direction. "
     "Rank scales map abilities to the distribution's quantiles of their average ranks and preserve order.",
     [INP, CONF, HIST], "all abilities, model parameters, network weights and tie patterns", "tests fit one small example and check shapes or that the loss falls",
     [R_ + "flow.py", R_ + "link_common_items.py", R_ + "rank_cdf.py", "irtorch/torch_modules/neural_spline_flow.py"],
     ["loss functions and training loops", "ranks and interpolation"], ["training loss", "transformed abilities"])
prop("C26", "Entropies and information gains are those of the response distribution",
     "Entropy is minus the probability-weighted log probability in the requested base; impossible outcomes add nothing. Joint entropies of item pairs are those of the observed joint frequencies of the respondents who answered both, "
     "and the mutual information difference of a pair is its observed minus its model-implied mutual information, with the share of differences in simulated data above the observed one as p-value.",
     [INP, CONF], "all parameters, abilities, responses and missing patterns", "tests check shapes and signs",
     [M + "base_irt_model.py", "irtorch/evaluator.py", "irtorch/_internal_utils.py"], ["joint frequency tables per item pair", "logarithms with zero cells"], ["entropies", "mutual information difference", "p-values"])
prop("C27", "Correlations and Q3 are computed from jointly observed responses",
     "A correlation matrix is symmetric, has a unit diagonal, lies within [-1, 1] and holds per pair the Pearson correlation of the rows where both variables are observed (zero with fewer than two such rows). "
     "Q3 of two items is the correlation of their residuals, observed response minus expected score, and its two-sided p-values are the shares of correlations in data simulated for the same abilities beyond the observed one.",
     [INP, CONF], "all data values and missing patterns", "tests use complete data",
     ["irtorch/evaluator.py", "irtorch/utils.py", "irtorch/_internal_utils.py"], ["pairwise deletion"], ["correlations", "Q3", "p-values"])
prop("C28", "Sampled data follow the stated distributions",
     "Simulated responses are drawn from the model's probabilities at the given abilities, independently per respondent and item, and only take categories the item has. "
     "Random guessing data pick the correct option with the requested probability (default: one in the number of options) and the others equally likely. "
     "The starting ability of bit scales for multiple choice tests is the median ability of such guessers on the selected items.",
     [INP, CONF], "all abilities, parameters, keys, category layouts and random draws", "tests check shapes and ranges for one seed",
     [M + "base_irt_model.py", "irtorch/_internal_utils.py", R_ + "bit.py"], ["categorical draws with per item weights"], ["sampled data"])
prop("C29", "The models' building blocks compute what they state",
     "The bounded activation is linear in the middle and approaches its bounds exponentially, with the matching gradient and without overflow; non-negative layers connect exactly the permitted inputs and outputs with positive weights. "
     "Negation layers multiply by one weight per related item, monotone polynomials have the documented product of quadratics as derivative, and B-spline bases are non-negative, sum to one and have the right gradient.",
     [INP, CONF], "all inputs, weights, groupings and relation masks", "tests compare a few numeric values",
     ["irtorch/activation_functions.py", "irtorch/torch_modules/softplus_linear.py", "irtorch/torch_modules/negation_layer.py", "irtorch/torch_modules/monotone_polynomial.py", "irtorch/torch_modules/b_spline.py"],
     ["hand-written backward passes", "weights scattered through masks"], ["module outputs", "gradients"])

prop("C30", "Plots show the model's own values at the abilities on their axes",
     "Every point of an item probability, derivative, entropy, information, expected score or log-likelihood plot pairs a position on the (possibly transformed) ability axis with the model's value of the requested item(s) at exactly that ability, "
     "the latent variables not shown being fixed at the given values or at the training medians on the plotted scale. Axes cover the given range, the range of the training abilities or -3 to 3; no grid point is left out except within a flat end of the scale, and unanswered items do not enter plotted likelihoods or the observed sum scores marked there. "
     "Plotted group fit, scale transformations, ability distributions, item relationships and training histories are the computed ones of the requested latent variables.",
     [INP, CONF], "all parameters, training abilities, scales and choices of latent variables and items", "tests only check that a figure is returned",
     ["irtorch/plotter.py"], ["axes permuted or paired with values of another grid point", "ranges and fixed values on the wrong scale"], ["data of the figures"])

prop("C31", "Saved models come back as saved, and interrupted work leaves models usable",
     "Loading a saved model into a model of the same structure gives the probabilities, scale transformations (in order, replacing any others) and estimation results (abilities, covariance, encoders, history) it had when saved, whatever happened to either model in between. "
     "However estimation ends, finished or interrupted at any step, the model afterwards gives the probabilities of a new model with its parameters for any abilities and number of respondents, and interrupted scoring leaves parameters and which of them are free untouched.",
     [INP, HIST, CONF], "all parameters, abilities and scales, and each point of interruption", "tests check that files are written and attributes set",
     [M + "base_irt_model.py", "irtorch/estimation_algorithms/mml.py", "irtorch/estimation_algorithms/jml.py"], ["state that save does not store", "values cached for the training grid"], ["probabilities and scores after loading or interruption"])

prop("C32", "Comparing and fitting several models treats each one alone",
     "The IMV of two models is the relative change from the first to the second model's equivalent betting probability, which solves w log w + (1-w) log(1-w) = mean log-likelihood of that model for the observed responses at its own abilities (Newton steps from 0.75 kept within one half and one). "
     "Models fitted side by side come back in order, each with the parameters, abilities and history of its own fit, cross-validation in worker processes reports what it reports one after the other, and thread settings are restored even when a fit fails.",
     [INP, CONF, HIST], "all log-likelihoods, abilities, parameters and missing patterns; several numbers of models and workers", "tests mock the log-likelihoods and fit no models in parallel",
     ["irtorch/utils.py"], ["results shared between models of one worker", "likelihoods at the other model's abilities"], ["IMV", "fitted models", "cross-validation results"])

how("C24", """Symbolic data (3-4 values, 1-2 columns) and factor; every order of the values is a path. Flags are compared with the fences computed from symbolically interpolated quartiles.""")
how("C25", """`Flow.fit` and `LinkCommonItems.fit` run with a stand-in optimiser on symbolic abilities, models and (a free symbolic image and log slope for) the spline: loss and gradient are compared with the documented objective.
The real spline's slope is C10's subject. Rank scales: every order and tie pattern of 3-4 abilities is a path. Convergence is outside.""")
how("C26", """Entropies on symbolic models; joint tables on symbolic responses with each missing pattern a path (2 respondents, 2-3 items); simulated p-values with free symbolic differences.""")
how("C27", """Symbolic data, each missing pattern a path (3-4 rows, 2-3 variables); compared with the textbook formula of the jointly observed rows. The range obligation is separate (a Cauchy-Schwarz instance given to the solver).""")
how("C28", """The random draws are intercepted: the weights given to `multinomial`/`bernoulli` are compared with the model's symbolic probabilities (or the documented guessing weights), the drawn values are arbitrary symbolic
categories with positive weight, and the returned data must be exactly those draws in place. The generator itself is outside.""")
how("C29", """Each module runs on symbolic inputs and weights for several masks and groupings; outputs and (symbolic) derivatives are compared with the stated formula; `backward` functions with the derivative of the forward.""")

how("C30", """The plot methods run unchanged on symbolic models, training abilities, scales and responses; plotly keeps the symbolic values, so the data of the returned figure are read back and compared, point by point, with the reference formula of
the model at the expected grid (2-5 steps, 1-3 latent variables). Information and derivative curves are compared with `information`/`probability_gradients` (decided in C06 and C09). Flat ends: which grid points are shown is decided for every position of the
flat part. The appearance of figures and the counting of two-dimensional histograms (NumPy) are outside.""")

how("C31", """`torch.save`/`torch.load` are stood in for by a deep copy (symbolic parameters included; when replaying, a real temporary file), so loading is decided for every parameter value; the model saved is changed afterwards and the one loaded into starts elsewhere.
Estimation runs with a stand-in optimiser that raises at step 0 or 1 (or never), scoring with a stand-in LBFGS that does the same; probabilities at symbolic abilities are compared with a fresh model given the same state. The file format is outside.""")

how("C32", """`imv` runs on two symbolic models whose log-likelihood method is stood in for by free numbers (and decides that it is asked for the model's own output at its own abilities); the Newton iteration is compared with its definition for 1-2 steps.
Worker pools are stood in for by one that copies tasks and results chunk by chunk as the standard library's pickling does; fits use the stand-in optimiser on symbolic parameters. Convergence of the iteration and real processes are outside.""")

how("C33", """Constructors run symbolically on response data with symbolic answers and missing cells (a path per category count and missing pattern) and on every 2x2 relation matrix (a path each); sizes, masks and buffers are compared with those of a model
built from the explicit counts, refusals with the stated conditions. New and reset models use symbolic random draws; the reset starts from symbolic parameters. Probabilities of new models are decided for every draw.""")

prop("C34", "Results follow from arguments and the current model, not from earlier calls",
     "Every scoring, prediction, information, evaluation, encoding, imputation and transformation operation returns what it returns on a newly built model (or scale, density, detector) with the same parameters, attached scales and trained algorithm, "
     "whatever was called before: with other arguments or numbers of respondents, with the same tensors before their contents changed, or before parameters, scales or the algorithm were replaced.",
     [INP, HIST], "all call histories of this form, all parameters, abilities and responses",
     "a cached intermediate result only shows when the same object is used again after something it depends on changed; tests build a new model each",
     ["irtorch/models", "irtorch/evaluator.py", "irtorch/rescale", "irtorch/_internal_utils.py", "irtorch/utils.py", "irtorch/latent_variable_functions.py", "irtorch/quantile_mv_normal.py", "irtorch/outlier_detector.py"],
     ["all state read by operations is the model's parameters, scales and algorithm"], ["any operation repeated on one object"])
how("C34", """Two objects with the same symbolic parameters: one is first used with other parameters (then set back), with other respondents, with the same tensors holding other
contents, with another number of respondents, with scales attached and detached, or with another trained algorithm; the obligation equates every result of the next call (and the shape and
missingness of it) with that of the unused object, for all parameters, abilities and response patterns. Operations: the registry shared with C12 and C13 (one model each), the probabilities of
all model families, scale chains, bit, flow, link and rotation scales, splines, outlier detection, quantile densities, EAP scoring and starting abilities. Where the code keeps no state the two
results are the same term; otherwise the solver looks for values that tell them apart. Bounds: 1-2 respondents, one call before; random operations (simulation, p-values) outside.""")
