From b94ef80db78552b6afee2080d09b32380148e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 01/52] fix: step difficulties of the generalized partial
 credit model in IRT format

---
 irtorch/models/generalized_partial_credit.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/generalized_partial_credit.py b/irtorch/models/generalized_partial_credit.py
index 49a4140..12c2d96 100644
--- a/irtorch/models/generalized_partial_credit.py
+++ b/irtorch/models/generalized_partial_credit.py
@@ -26,9 +26,9 @@ class GeneralizedPartialCredit(BaseIRTModel):
 
         P(X_j=x | \mathbf{\theta}) = \begin{cases}
             \dfrac{1}
-            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + \sum_{m=1}^gd_{jm}\right)}, & \text{if } x = 0\\
-            \dfrac{\exp \left( x\mathbf{a}_{j}^\top \mathbf{\theta}+\sum_{m=1}^{x}d_{jm}\right)}
-            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + \sum_{m=1}^gd_{jm}\right)}, & \text{otherwise}
+            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + d_{jg}\right)}, & \text{if } x = 0\\
+            \dfrac{\exp \left( x\mathbf{a}_{j}^\top \mathbf{\theta}+d_{jx}\right)}
+            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + d_{jg}\right)}, & \text{otherwise}
         \end{cases}
 
     where:
@@ -153,7 +153,10 @@ class GeneralizedPartialCredit(BaseIRTModel):
         weights_df = pd.DataFrame(weights.detach().numpy())
         weights_df.columns = [f"a{i+1}" for i in range(weights.shape[1])]
         if irt_format and self.latent_variables == 1:
-            biases_df = pd.DataFrame(-(biases/weights).detach()[:, 1:].numpy())
+            # d is the cumulative category intercept, the difficulties are those of the individual steps
+            steps = biases.diff(dim=1)
+            steps[self.missing_category.view(self.items, -1)[:, 1:]] = 0.0
+            biases_df = pd.DataFrame(-(steps/weights).detach().numpy())
             biases_df.columns = [f"b{i+1}" for i in range(biases_df.shape[1])]
         else:
             biases_df = pd.DataFrame(biases.detach().numpy())
-- 
2.43.0


From cdd2d8e5e2ec2d82eba6c5d67e6c91f7912d4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 02/52] fix: ModelMix splits the joint output by each model's
 own output layout

---
 irtorch/models/model_mix.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..ba7db33 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -43,6 +43,9 @@ class ModelMix(BaseIRTModel):
         )
         # register each model as a submodule
         self.models = nn.ModuleList(models)
+        # output layouts differ between models
+        with torch.no_grad():
+            self._output_shapes = [model(torch.zeros(1, model.latent_variables)).shape[1:] for model in models]
 
     def reset_parameters(self) -> None:
         nn.init.normal_(self.weight_param, mean=1., std=0.01)
@@ -62,10 +65,15 @@ class ModelMix(BaseIRTModel):
         output : torch.Tensor
             2D tensor. Rows are respondents and columns are item category logits.
         """
-        outputs = [model(theta) for model in self.models]
+        outputs = [model(theta).flatten(start_dim=1) for model in self.models]
         concatenated_output = torch.cat(outputs, dim=1)
         return concatenated_output
 
+    def _split_output(self, output: torch.Tensor) -> list[torch.Tensor]:
+        # One output per model in the layout returned by the model's forward method
+        outputs = torch.split(output, [shape.numel() for shape in self._output_shapes], dim=1)
+        return [part.reshape(-1, *shape) for part, shape in zip(outputs, self._output_shapes)]
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
@@ -80,11 +88,7 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             3D tensor with dimensions (respondents, items, item categories)
         """
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         probabilities = [model.probabilities_from_output(output_part) for model, output_part in zip(self.models, outputs)]
         return self._pad_and_concat(probabilities, dim=1, pad_dim=2)
 
@@ -151,11 +155,7 @@ class ModelMix(BaseIRTModel):
             The log likelihood.
         """
         # run model.log_likelihood for each model
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         data_splits = torch.split(
             data,
             [model.items for model in self.models],
-- 
2.43.0


From 71183b9670bfebea806bcfb0967ab14c3d1d4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 03/52] fix: log derivative of the rational quadratic spline
 outside its interval is that of the linear tails

---
 irtorch/torch_modules/rational_quadratic_spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/rational_quadratic_spline.py b/irtorch/torch_modules/rational_quadratic_spline.py
index 3c103fa..c0b1949 100644
--- a/irtorch/torch_modules/rational_quadratic_spline.py
+++ b/irtorch/torch_modules/rational_quadratic_spline.py
@@ -123,7 +123,10 @@ class RationalQuadraticSpline(nn.Module):
         
         outputs = torch.where(below, lower_trans(inputs), outputs)
         outputs = torch.where(above, upper_trans(inputs), outputs)
-        logabsdet = torch.where(~inside, torch.zeros_like(logabsdet), logabsdet)
+        # the linear tails have constant log derivatives
+        sign = -1.0 if inverse else 1.0
+        logabsdet = torch.where(below, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_lower)), logabsdet)
+        logabsdet = torch.where(above, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_upper)), logabsdet)
         
         if inside.any():
             out_inside, logdet_inside = self._rational_quadratic_spline(
-- 
2.43.0


From 4e67911578918e7c89524cb31047fe9885960c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 04/52] fix: inverse_transform_theta undoes composed scale
 transformations in reverse order

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..ee71892 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From 22676e5733f93889ae1ed81c573891c46822cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 05/52] fix: LinkCommonItems.inverse undoes the sign flip
 before inverting the spline

---
 irtorch/rescale/link_common_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..dc58b20 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
-- 
2.43.0


From 78f7aefa20f2035aea2498b70541b809ddb637fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 06/52] fix: Jacobian of neural network linking is that of the
 whole transformation

---
 irtorch/rescale/link_common_items.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dc58b20..157cb29 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -277,11 +277,7 @@ class LinkCommonItems(Scale):
         """
         theta_scores = theta.clone()
         theta_scores.detach_().requires_grad_(True)
-        if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
-        else:
-            transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
-        transformed_thetas = transformed_thetas * self._transformation_multiplier
+        transformed_thetas = self.transform(theta_scores)
         transformed_thetas.sum().backward()
         jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
         return jacobians
-- 
2.43.0


From ec3798efcee522521f5096cb2626c192126aaa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 07/52] fix: bit scale Jacobian with an item subset uses the
 probabilities of those items only

---
 irtorch/rescale/bit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..2f71c6b 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -246,7 +246,7 @@ class Bit(Scale):
             if theta.requires_grad:
                 theta.requires_grad_(False)
 
-            probs = self.model.item_probabilities(theta)
+            probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From b246758666a6d16de81f3d3118a3cf3828ed4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 08/52] fix: bit scale Jacobian leaves the caller's
 requires_grad flag alone

---
 irtorch/rescale/bit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 2f71c6b..661967c 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,8 +243,7 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
+            theta = theta.detach()
 
             probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
-- 
2.43.0


From 5a9ba2cacfd9c1f2390b88d1c5360ef8ac90dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 09/52] fix: expected score gradients leave the caller's
 requires_grad flag alone

---
 irtorch/models/base_irt_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ee71892..f614340 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -334,8 +334,7 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
+        theta = theta.detach()
 
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
         theta_scores = theta.clone()
-- 
2.43.0


From 1bfec2f611b31afa43689e55e036c92b953fb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 10/52] fix: starting theta from random guessing works with a
 subset of the items

---
 irtorch/rescale/bit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 661967c..e3e8c85 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -348,7 +348,10 @@ class Bit(Scale):
         )
 
         logger.info("Approximating theta from random guessing data to get minimum bit score.")
-        guessing_theta = self.model.latent_scores(random_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+        # items outside the selection are treated as missing
+        all_items_data = torch.full((guessing_iterations, len(self.model.item_categories)), torch.nan)
+        all_items_data[:, items] = random_data
+        guessing_theta = self.model.latent_scores(all_items_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         starting_theta = guessing_theta.detach().median(dim=0).values.reshape(1, self.model.latent_variables)
 
-- 
2.43.0


From 66b03dc0f9ed55f6808d95702a04098912c64e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 11/52] fix: random guessing data respects the correct option
 of two-option multiple choice items

---
 irtorch/_internal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..d3f75da 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -127,7 +127,7 @@ def random_guessing_data(
     for item_idx, num_categories in enumerate(item_categories):
         guessing_prob = guessing_probabilities[item_idx]
 
-        if num_categories == 2:
+        if num_categories == 2 and mc_correct is None:
             responses = torch.bernoulli(torch.full((size,), guessing_prob))
         else:
             if mc_correct is not None:
@@ -139,7 +139,7 @@ def random_guessing_data(
                 incorrect_total_prob = 1.0 - guessing_prob
                 probs[probs != guessing_prob] = incorrect_total_prob / (num_categories - 1)
 
-                responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze()
+                responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze(1)
             else:
                 responses = torch.zeros(size, dtype=torch.long)
 
-- 
2.43.0


From 8e4bc07a4207ac081705235e6f4776d14808fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 12/52] fix: random guessing data without guessing
 probabilities uses the documented defaults

---
 irtorch/_internal_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index d3f75da..2e9bfec 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -107,8 +107,10 @@ def random_guessing_data(
         A 2D tensor with test data. Rows are respondents and columns are items.
     """
     num_items = len(item_categories)
+    if guessing_probabilities is None:
+        guessing_probabilities = [1.0 / cats if mc_correct is not None else 0.0 for cats in item_categories]
+
     if (
-        guessing_probabilities is not None and \
         isinstance(guessing_probabilities, list) and \
         all(isinstance(item, float) for item in guessing_probabilities) and \
         len(guessing_probabilities) == num_items
@@ -118,10 +120,6 @@ def random_guessing_data(
     else:
         raise ValueError("guessing_probabilities must be list of floats with the same length as the number of items.")
 
-
-    if guessing_probabilities is None:
-        guessing_probabilities = [1.0 / cats for cats in item_categories]
-
     response_matrix = torch.zeros(size, num_items)
 
     for item_idx, num_categories in enumerate(item_categories):
-- 
2.43.0


From 6d68fc85b2a7b0ffe38379cc63efcfa36d365af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 13/52] fix: correlations with missing values use the means of
 the jointly observed rows

---
 irtorch/_internal_utils.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 2e9bfec..2170850 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -50,30 +50,20 @@ def correlation_matrix(x):
         
         return corr_matrix
 
-    means = torch.nanmean(x, dim=0)
-    centered_tensor = x - means
-    # Set NaNs back where they originally were in the centered tensor
-    centered_tensor[~mask] = 0
-    # Calculate the dot product of the centered matrix to get the covariance
-    cov_matrix = torch.matmul(centered_tensor.T, centered_tensor)
-    
-    # Normalization factors: counts of non-NaN pairs
-    norm_factors = torch.matmul(mask.T.float(), mask.float())
-    # Adjust normalization by dividing by n-1
-    norm_factors = torch.where(norm_factors > 1, norm_factors - 1, torch.ones_like(norm_factors))
-    cov_matrix = cov_matrix / norm_factors
-    
-    corr_matrix = torch.ones_like(cov_matrix)
-    for i in range(cov_matrix.size(0)):
-        for j in range(cov_matrix.size(1)):
+    corr_matrix = torch.ones(x.size(1), x.size(1), dtype=x.dtype, device=x.device)
+    for i in range(x.size(1)):
+        for j in range(x.size(1)):
             if i == j or i > j:
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
                 if torch.sum(valid_mask) > 1:
-                    std_i = torch.sqrt(torch.sum((x[valid_mask, i] - x[valid_mask, i].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    std_j = torch.sqrt(torch.sum((x[valid_mask, j] - x[valid_mask, j].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    corr_matrix[i, j] = cov_matrix[i, j] / (std_i * std_j)
+                    # means, covariance and standard deviations from the rows where both are observed
+                    centered_i = x[valid_mask, i] - x[valid_mask, i].mean()
+                    centered_j = x[valid_mask, j] - x[valid_mask, j].mean()
+                    std_i = torch.sqrt(torch.sum(centered_i ** 2))
+                    std_j = torch.sqrt(torch.sum(centered_j ** 2))
+                    corr_matrix[i, j] = torch.sum(centered_i * centered_j) / (std_i * std_j)
                     corr_matrix[j, i] = corr_matrix[i, j]
                 else:
                     corr_matrix[i, j] = 0.0 # Assign a default value if there aren't enough valid pairs
-- 
2.43.0


From bac10c63f9a3755888f9f0a8dc2058f97a55a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 14/52] fix: random incorrect imputation of a single respondent
 indexed rows instead of items

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 2170850..6a9ce54 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -428,7 +428,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..d808c24 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -350,7 +350,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From c5a0811a4ca0705e7697ecccbadf52648b0bb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 15/52] fix: random incorrect imputation rejected multiple
 choice models instead of other models

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index d808c24..be8da48 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -335,7 +335,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
-- 
2.43.0


From 76ac506946eaec05c7b5225ce20d70fbf0b76744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 16/52] fix: EAP scores could not be computed for models fitted
 with MML

---
 irtorch/models/base_irt_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index f614340..71bb67b 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -883,9 +883,7 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
-            if self.algorithm.training_theta_scores is None:
-                raise ValueError("Please fit the model before computing latent scores.")
+        if getattr(self.algorithm, "training_theta_scores", None) is not None:
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
             theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)
             # Center the data and compute the covariance matrix.
@@ -900,7 +898,7 @@ class BaseIRTModel(ABC, nn.Module):
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
+            if getattr(self.algorithm, "covariance_matrix", None) is not None:
                 cov_matrix = self.algorithm.covariance_matrix
             else:
                 cov_matrix = torch.eye(self.latent_variables)
-- 
2.43.0


From 45cac8ede893deaca4daf1908f902626d1f482ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 17/52] fix: EAP scores were NaN for long tests because the
 posterior underflowed

---
 irtorch/models/base_irt_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 71bb67b..cf00856 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -922,7 +922,8 @@ class BaseIRTModel(ABC, nn.Module):
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
         log_posterior = (log_prior + grid_log_likelihoods).view(-1, theta_grid.shape[0]) # each row is one respondent
-        # convert to float 64 to prevent 0 probabilities
+        # subtract the maximum and convert to float 64 to prevent 0 probabilities
+        log_posterior = log_posterior - log_posterior.max(dim=1, keepdim=True).values
         exp_log_posterior = log_posterior.to(dtype=torch.float64).exp()
         posterior = (exp_log_posterior.T / exp_log_posterior.sum(dim=1)).T.view(-1, 1) # transform to one column
 
-- 
2.43.0


From 3ea893c0591312dcdf2b6434391e6f4516f335f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 18/52] fix: latent scores with random incorrect imputation
 always raised an error

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index cf00856..e9498fa 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -599,6 +599,8 @@ class BaseIRTModel(ABC, nn.Module):
                         encoder_data = impute_missing_internal(
                             data = data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories,
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From d1d8ab69b8cd3dd8fbb1ea595aa6f70376e19eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 19/52] fix: one-hot encoding overwrote missing responses in
 the caller's data

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6a9ce54..eea2be4 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -341,7 +341,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = torch.where(data.isnan(), torch.full_like(data, -1), data)
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From c0fc651dde40970112fa25f72f950172d214aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 20/52] fix: residuals overwrote missing responses in the
 caller's data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..3dea258 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,7 +172,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = torch.where(torch.isnan(data), torch.full_like(data, -1), data)
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From c4706a24ebac8611304f0a35e15dc87f38c11943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 21/52] fix: standardized group residuals failed when the
 training data was used by default

---
 irtorch/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 3dea258..88e3a11 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -253,6 +253,8 @@ class Evaluator:
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
             # get number of people in each group
+            if data is None:
+                data = self.model.algorithm.train_data
             data = torch.chunk(data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
 
-- 
2.43.0


From ffb22f8c7822a1a52f1cdb7ef564a0309f815ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 22/52] fix: group log-likelihoods used the missing pattern of
 other respondents and were NaN with missing data

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 88e3a11..4716a52 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -578,13 +578,14 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self.model.log_likelihood(
             data,
             self.model(theta),
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From 8e585f256ae1f344b6f0ae34ee4e3a0dcf21b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 23/52] fix: encoder sampling in sum score probabilities was
 called without the model

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 4716a52..7086432 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1101,7 +1101,7 @@ class Evaluator:
             )
             if latent_density_method == "encoder sampling":
                 theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
+                    model=self.model, sample_size=sample_size, input_data=population_data
                 )
         else:
             (
-- 
2.43.0


From 16e125f67f93200f7e11c2e5d7432222638f5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 24/52] fix: VAE did not keep its imputation method and other
 settings, so latent scores with missing data failed

---
 irtorch/estimation_algorithms/vae.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..9aa1008 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,10 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.batch_normalization = batch_normalization_encoder
+        self.imputation_method = imputation_method
+        self.item_categories = model.item_categories
+        self.mc_correct = model.mc_correct
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From 3ac4cd808cedf3c8994f3ea5400d9562cde7f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 25/52] fix: sum scores (and JML starting values) were NaN for
 respondents with missing responses

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index eea2be4..0f50e01 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -452,6 +452,6 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
         A tensor of sum scores for each respondent.
     """
     if mc_correct is None:
-        return data.sum(dim=1)
+        return torch.where(get_missing_mask(data), torch.zeros_like(data), data).sum(dim=1)
     else:
         return (data == torch.tensor(mc_correct, dtype=data.dtype)).int().sum(dim=1).float()
-- 
2.43.0


From 7d439caf725e850b9c7c86b2364d0c290046ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 26/52] fix: joint entropies treated responses coded -1 as a
 response category

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 0f50e01..344f536 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -266,7 +266,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
+    mask = ~get_missing_mask(data)
     int_data = data.int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
-- 
2.43.0


From 6cfed96ca95feaa04ef9e2eedc3b40b6f2e0248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 27/52] fix: a correct response beyond the last category was
 accepted

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index e9498fa..fa3d08e 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -35,7 +35,7 @@ class BaseIRTModel(ABC, nn.Module):
     ):
         super().__init__()
         if mc_correct is not None:
-            if not all(item >= mc for item, mc in zip(item_categories, mc_correct)):
+            if not all(item > mc for item, mc in zip(item_categories, mc_correct)):
                 raise ValueError("mc_correct cannot be greater than the number of categories for each item.")
         self.latent_variables = latent_variables
         self.item_categories = item_categories
-- 
2.43.0


From c8d05aa9095629520886f80de478b59efba53301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 28/52] fix: MAP scores raised an error when the model has no
 estimated prior

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index fa3d08e..7b62de0 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -794,8 +794,10 @@ class BaseIRTModel(ABC, nn.Module):
                     cov_matrix = mean_centered_theta_scores.T @ mean_centered_theta_scores / (train_theta_scores.shape[0] - 1)
                     # Create prior (multivariate normal distribution).
                     prior_density = MultivariateNormal(torch.zeros(train_theta_scores.shape[1]).to(device), cov_matrix.to(device))
-                elif hasattr(self.algorithm, "covariance_matrix"):
+                elif getattr(self.algorithm, "covariance_matrix", None) is not None:
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
+                else:
+                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), torch.eye(self.latent_variables).to(device))
 
             # Ensure model parameters gradients are not updated
             self.requires_grad_(False)
-- 
2.43.0


From a63ad226d7a47df5d7afd5ab60eb23f37d3f45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 29/52] fix: item categories ignored observed responses of
 respondents with missing values on other items

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index be8da48..abbb4a9 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -291,7 +291,7 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    return [int(data[~data[:, col].isnan()][:, col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From 3d1864340a7d1879dc3219f7cd7459c65b943fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 30/52] fix: cross-validation folds continued training the
 model already fitted to the validation data

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index abbb4a9..318ee4a 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -180,7 +180,7 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
-- 
2.43.0


From d5e33ae5826dab2dbf80bc11c2a8d06eea49c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 31/52] fix: cross-validation failed for parameters that are
 not numbers

---
 irtorch/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 318ee4a..1b8e11f 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -188,13 +188,9 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
                 
             results.append(result)
         
-        # Average results across folds, excluding non-numeric values
-        avg_result = {}
-        for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
-                avg_result[k] = sum(d[k] for d in results) / len(results)
+        # Average the log-likelihood across folds, the parameters are the same for all folds
+        avg_result = dict(results[0])
+        avg_result["log_likelihood"] = sum(d["log_likelihood"] for d in results) / len(results)
         
         return avg_result
     except Exception as e:
-- 
2.43.0


From f0e68c790e1b13f49a21d78143eac91beee473f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 32/52] fix: the cross-validation timer required a GPU

---
 irtorch/timer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..a1a2b12 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,9 +11,10 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
@@ -21,7 +22,9 @@ def end_timer_and_print(local_msg):
     End the timer and print the execution time and memory usage.
     """
     end_time = time.time()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
-    logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
+    if torch.cuda.is_available():
+        logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From ebf72646e7542f509183b9f6ca7893ccdbb2319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 33/52] fix: encoder sampling weights were those of the
 training scores instead of the sample

---
 irtorch/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 7086432..0b6866d 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1095,14 +1095,14 @@ class Evaluator:
             theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
-            weights = (
-                torch.ones(theta_scores.shape[0])
-                / theta_scores.shape[0]
-            )
             if latent_density_method == "encoder sampling":
                 theta_scores = self.model.algorithm.sample_latent_variables(
                     model=self.model, sample_size=sample_size, input_data=population_data
                 )
+            weights = (
+                torch.ones(theta_scores.shape[0])
+                / theta_scores.shape[0]
+            )
         else:
             (
                 theta_scores,
-- 
2.43.0


From 0d4370fd1397cddf05e5e60dac5ec2d285800cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 34/52] fix: fewer groups than requested when respondents do
 not divide evenly

---
 irtorch/evaluator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 0b6866d..91625fb 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -255,7 +255,7 @@ class Evaluator:
             # get number of people in each group
             if data is None:
                 data = self.model.algorithm.train_data
-            data = torch.chunk(data, groups)
+            data = torch.tensor_split(data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
 
             std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
@@ -649,8 +649,8 @@ class Evaluator:
             transformed_scores = transformed_scores[indices]
             theta = theta[indices]
 
-            grouped_transformed = torch.chunk(transformed_scores, groups)
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_transformed = torch.tensor_split(transformed_scores, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
 
             group_mid_points = torch.tensor(
                 [
@@ -661,13 +661,13 @@ class Evaluator:
         else:
             _, indices = torch.sort(theta[:, latent_variable - 1], dim=0)
             theta = theta[indices]
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
             group_mid_points = torch.tensor(
                 [group[:, latent_variable - 1].median() for group in grouped_theta]
             )
 
         data = data[indices]
-        grouped_data = torch.chunk(data, groups)
+        grouped_data = torch.tensor_split(data, groups)
         grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
         grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
         return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
-- 
2.43.0


From 82ce1041cbfd5b920c0ab62dddcc4e1905de8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 35/52] fix: fewer cross-validation folds than requested when
 respondents do not divide evenly

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 1b8e11f..00989a6 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -16,7 +16,7 @@ logger = logging.getLogger("irtorch")
 def _prepare_cross_validation_data(data: torch.Tensor, folds: int) -> list[torch.Tensor]:
     """Prepare data for cross-validation by shuffling and splitting into folds."""
     shuffled_data = data[torch.randperm(data.shape[0])]
-    return torch.chunk(shuffled_data, folds, dim=0)
+    return list(torch.tensor_split(shuffled_data, folds, dim=0))
 
 def _create_param_grid(params_grid: dict, kwargs: dict) -> list[dict]:
     """Create list of parameter combinations from grid."""
-- 
2.43.0


From a5ae1e9c9a39564a6228fcd441dc4f7ca0ac5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 36/52] fix: group mid points without a scale were medians
 instead of the documented averages

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 91625fb..c02bf3e 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -663,7 +663,7 @@ class Evaluator:
             theta = theta[indices]
             grouped_theta = torch.tensor_split(theta, groups)
             group_mid_points = torch.tensor(
-                [group[:, latent_variable - 1].median() for group in grouped_theta]
+                [group[:, latent_variable - 1].mean() for group in grouped_theta]
             )
 
         data = data[indices]
-- 
2.43.0


From efbd03ca55956d942acbd962cf1733565a45bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 37/52] fix: ML and MAP scoring unfroze parameters the caller
 had frozen

---
 irtorch/models/base_irt_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 7b62de0..2f569b2 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -785,6 +785,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A torch.Tensor with the theta scores. The columns are latent variables and rows are respondents.
         """
+        parameter_flags = [(parameter, parameter.requires_grad) for parameter in self.parameters()]
         try:
             if theta_estimation == "MAP": # Approximate prior
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
@@ -853,10 +854,11 @@ class BaseIRTModel(ABC, nn.Module):
             logger.error("Error in %s iteration %s: %s", theta_estimation, i+1, e)
             raise e
         finally:
-            # Reset requires_grad train model later
+            # Reset requires_grad to train model later
             self.to("cpu")
             optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
+            for parameter, requires_grad in parameter_flags:
+                parameter.requires_grad_(requires_grad)
         return optimized_theta_scores
 
     @torch.no_grad()
-- 
2.43.0


From 135bf7946d51fb197d56ace6fc6fea621ea26ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 38/52] fix: batch normalization of deeper bounded encoder
 layers replaced that of the first layer

---
 irtorch/estimation_algorithms/encoders/bounded_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/encoders/bounded_encoder.py b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
index d4dea5f..015e5fc 100644
--- a/irtorch/estimation_algorithms/encoders/bounded_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
@@ -27,7 +27,7 @@ class BoundedEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # output layer
-- 
2.43.0


From dc30e5aaba172490fc2a32bddbc8c066abeb1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 39/52] fix: batch normalization of deeper variational encoder
 layers replaced that of the first layer

---
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..0a27c95 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From 0bcb0ab2e1a89b50d3e69f4d7e82649bba5635ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 40/52] fix: interpolation was infinite or NaN beyond data
 points sharing the smallest or largest value

---
 irtorch/latent_variable_functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/irtorch/latent_variable_functions.py b/irtorch/latent_variable_functions.py
index 89248f6..0ad207a 100644
--- a/irtorch/latent_variable_functions.py
+++ b/irtorch/latent_variable_functions.py
@@ -49,9 +49,14 @@ def interp(x_new, x, y):
 
     # Handle extrapolation for x_new outside the range of x
     if (~mask).any():
-        # Compute the slopes at the edges for extrapolation
-        left_slope = (y[1] - y[0]) / (x[1] - x[0])
-        right_slope = (y[-1] - y[-2]) / (x[-1] - x[-2])
+        # Compute the slopes at the edges for extrapolation (from distinct points, since several may share the edge)
+        left = torch.searchsorted(x, x[:1], right=True)[0].clamp(max=x.shape[0] - 1)
+        right = (torch.searchsorted(x, x[-1:])[0] - 1).clamp(min=0)
+        if x[0] == x[-1]:
+            left_slope = right_slope = torch.zeros_like(y[0])
+        else:
+            left_slope = (y[left] - y[0]) / (x[left] - x[0])
+            right_slope = (y[-1] - y[right]) / (x[-1] - x[right])
         y_new[~mask] = torch.where(
             x_new[~mask] < x[0],
             y[0] + left_slope * (x_new[~mask] - x[0]),
-- 
2.43.0


From cae86209c952af8591efb04e67355e1b66031bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 41/52] fix: linking failed when other items of the two tests
 had different numbers of categories

---
 irtorch/rescale/link_common_items.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 157cb29..b7f1db8 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -304,8 +304,10 @@ class LinkCommonItems(Scale):
     
     def _loss_function(self, latent_variables, linked_latent_variables) -> torch.Tensor:
         kl_loss = nn.KLDivLoss(reduction="batchmean")
-        target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices]
-        linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices]
+        # items outside the common ones may have more categories in one of the models
+        max_categories = max(self._common_item_categories)
+        target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices, :max_categories]
+        linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices, :max_categories]
         target_probs = target_probs.view(-1, target_probs.shape[2])
         linked_probs = linked_probs.view(-1, linked_probs.shape[2])
         # linked_probs need log scale for KL div
-- 
2.43.0


From 658e8b5410e3922dfaac28c6ddf7b0056a14f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 42/52] fix: sum score probabilities used the density of a
 population given or fitted earlier

---
 irtorch/evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c02bf3e..31ae4af 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1120,6 +1120,7 @@ class Evaluator:
         population_data: torch.Tensor,
         trapezoidal_segments: int,
     ):
+        previous_density = self.latent_density
         if population_data is not None or (
             (
                 latent_density_method != "qmvn"
@@ -1152,5 +1153,7 @@ class Evaluator:
 
         weights = self.latent_density.pdf(theta_scores)
         weights = weights / weights.sum()
+        # densities approximated here belong to this population only
+        self.latent_density = previous_density
 
         return theta_scores, weights
\ No newline at end of file
-- 
2.43.0


From e9c470a27c6029283c815a7653ec94d050d7dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 43/52] fix: log-likelihood surface plots failed with a
 TypeError

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..8cb87cf 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -424,7 +424,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From 721624c8c87bf44b721f9f428a8255198431bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 44/52] fix: log-likelihood plots were empty (NaN) when the
 respondent skipped an item

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 8cb87cf..a10440b 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -380,7 +380,7 @@ class Plotter:
             item_mask[[item - 1 for item in items]] = 1
             log_likelihood = log_likelihood[:, item_mask]
 
-        log_likelihood = log_likelihood.sum(dim=1)
+        log_likelihood = log_likelihood.nansum(dim=1)
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
-- 
2.43.0


From b9af36589ab55365a24bd91cf4340609a75ed175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 45/52] fix: information plots ignored the requested latent
 variables on transformed scales

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index a10440b..1a04116 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -730,7 +730,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From cf7881bc8f190bb3b1a4cc09550dee2f025068ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 46/52] fix: item probability plots used unscaled medians of
 the latent variables not plotted as scaled ones

---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 1a04116..8f0618c 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -586,15 +586,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) != model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From 1f5bfc7ddeba9f5b81c1df82b1fe5ffd730b9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 47/52] fix: drop precomputed spline bases when MML estimation
 is interrupted

---
 irtorch/estimation_algorithms/mml.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f36849d..06f90ef 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -133,16 +133,21 @@ class MML(BaseIRTAlgorithm):
         )
 
         model.to(device)
-        self._training_loop(
-            model,
-            train_data.to(device),
-            max_epochs,
-            points.to(device, dtype = torch.float32),
-            log_weights.to(device, dtype = torch.float32),
-            scheduler,
-            learning_rate_updates_before_stopping
-        )
-        
+        try:
+            self._training_loop(
+                model,
+                train_data.to(device),
+                max_epochs,
+                points.to(device, dtype = torch.float32),
+                log_weights.to(device, dtype = torch.float32),
+                scheduler,
+                learning_rate_updates_before_stopping
+            )
+        finally:
+            # basis functions precomputed for the quadrature points must not outlive an interrupted training
+            if getattr(model, "basis", None) is not None:
+                model.basis = None
+
         model.to("cpu")
         model.eval()
 
-- 
2.43.0


From 0d410b105e58bb43d904f431f8df17eb842cd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 48/52] fix: JML estimation overwrote the starting abilities
 passed in

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..95662b8 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.to(device)
+            start_thetas.clone().to(device)
         )
 
         self.optimizer = torch.optim.Adam(
-- 
2.43.0


From b0feb34570e843db05d7ef2c424ba82aa3f2b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 49/52] fix: models fitted by the same process shared one
 algorithm and its results

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 00989a6..1168073 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -509,7 +509,8 @@ def _fit_model(model: BaseIRTModel, train_data: torch.Tensor, kwargs):
     """
     This is a worker function used in multiprocessing
     """
-    model.fit(train_data, device="cpu", **kwargs)
+    # models sent to the same process would otherwise share the algorithm and its results
+    model.fit(train_data, device="cpu", **copy.deepcopy(kwargs))
     return model
 
 def split_data(data, train_ratio=0.8, shuffle=True):
-- 
2.43.0


From 50d313bec45c86197edb6d177207c3fac5f7111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 50/52] fix: log-likelihood plots marked the sum of response
 codes as the observed score of multiple choice tests (and missing codes)

---
 irtorch/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 8f0618c..46eab66 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -8,7 +8,7 @@ import plotly.graph_objects as go
 import plotly.express as px
 import plotly.io as pio
 from irtorch.estimation_algorithms import AE, VAE
-from irtorch._internal_utils import entropy
+from irtorch._internal_utils import entropy, sum_score
 
 if TYPE_CHECKING:
     from irtorch.models.base_irt_model import BaseIRTModel
@@ -406,17 +406,18 @@ class Plotter:
                 color = color or None
             )
             if expected_sum_score:
+                observed_score = sum_score(data.reshape(1, -1), self.model.mc_correct).item()
                 fig.add_vline(
-                    x=data.sum().item(),
+                    x=observed_score,
                     line_dash="dash",
                     line_color="gray",
                     opacity=0.7
                 )
                 fig.add_annotation(
-                    x=data.sum().item(),
+                    x=observed_score,
                     y=1.0,
                     yref="paper",
-                    text=f"Observed sum score: {data.sum().item()}",
+                    text=f"Observed sum score: {observed_score}",
                     showarrow=True,
                     arrowhead=1,
                     ax=0,
-- 
2.43.0


From 980482fdef4d9aa11d3556b1b9cb12b785ad1f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 51/52] fix: resetting the parameters of a mixed model failed

---
 irtorch/models/model_mix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ba7db33..0c8f131 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -48,9 +48,9 @@ class ModelMix(BaseIRTModel):
             self._output_shapes = [model(torch.zeros(1, model.latent_variables)).shape[1:] for model in models]
 
     def reset_parameters(self) -> None:
-        nn.init.normal_(self.weight_param, mean=1., std=0.01)
-        nn.init.zeros_(self.bias_param)
-    
+        for model in self.models:
+            model.reset_parameters()
+
     def forward(self, theta: torch.Tensor) -> torch.Tensor:
         """
         Forward pass of the model.
-- 
2.43.0


From cbe3ad7c0fa36afb4672fddd1382fe941da1ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 52/52] fix: monotone B-spline model with separate categories
 failed for several latent variables

---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..2b3a62a 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0

