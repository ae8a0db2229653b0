From 3787b96e0f5c36725b89f4937f8a7270ca2cc7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 01/25] fix: accept True/False and narrow integer responses

Boolean data raised in rasch_mml, onepl_mml, ability_eap and every
polytomous method, and int8 data silently wrapped around once the linear
indices of condition_polytomous_response exceeded the type.
---
 estimation/unidimensional/dichotomous/partial_integrals.py | 4 ++++
 estimation/utilities/polytomous_utils.py                   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..6055c82 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -22,6 +22,10 @@ def _compute_partial_integral(theta, difficulty, discrimination,
     probability = expit(np.outer([-1, 1], 
                         discrimination * (theta - difficulty)))
     
+    # True/False responses are indices here, not a mask
+    if responses.dtype == bool:
+        responses = responses.astype('int')
+
     # Mask out missing responses
     temp_output = probability[responses, :]
     temp_output[invalid_response_mask] = 1
diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 8c79791..02bf60d 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -26,6 +26,10 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_response_mask: (2d_array) boolean mask of valid responses
                              that is the same size as dataset
     """
+    # Narrow types can hold neither the linear indices nor INVALID_RESPONSE
+    if dataset.dtype.kind in 'biu':
+        dataset = dataset.astype('int64')
+
     # Remove all no / yes endorsements
     valid_response_mask = dataset != INVALID_RESPONSE
     min_value = np.min(dataset[valid_response_mask])
-- 
2.43.0


From 4f11200e7ebfc1b5e6ce3882bb108871e5438d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 02/25] fix: integer parameters in
 create_synthetic_irt_dichotomous

With integer difficulties a scalar discrimination or guessing was truncated
to an integer, and integer abilities raised a casting error.
---
 synthetic/dichotomous.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..2c7c016 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,18 +32,18 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-        kernel *= discrimination[:, None]
+        kernel = kernel * discrimination[:, None]
 
     elif np.ndim(discrimination) == 2:
         kernel = discrimination @ thetas
-        kernel += difficulty[:, None]
+        kernel = kernel + difficulty[:, None]
     
     else:
         raise AssertionError("Discrimination dimensions are not 1 or 2, "
-- 
2.43.0


From 9566f0903c1e7bd9c64c02fdf3214f3e68176f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 03/25] fix: maximum likelihood abilities ignore missing
 responses

Whether a response set is constant, and which way, was read from all the
cells: with a missing response an all false respondent got +no_estimate,
ability_3pl_mle estimated constant respondents and a respondent without
valid responses got an arbitrary ability.
---
 .../unidimensional/dichotomous/ability_estimation.py  | 11 +++++------
 .../unidimensional/dichotomous/ability_threepl.py     |  8 +++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..d8c5a71 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -33,11 +33,10 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Find any missing data
-    bad_mask = dataset == INVALID_RESPONSE
-
-    # Locations where endorsement isn't constant
-    mask = ~(np.ma.masked_array(dataset, bad_mask).var(axis=0) == 0)
+    # Locations where valid endorsement isn't constant
+    any_true = np.any(dataset == 1, axis=0)
+    any_false = np.any(dataset == 0, axis=0)
+    mask = any_true & any_false
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -51,7 +50,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~any_true & any_false
     thetas[mask2] *= -1
 
     return thetas
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..01113eb 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -30,8 +30,10 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    # Locations where valid endorsement isn't constant
+    any_true = np.any(dataset == 1, axis=0)
+    any_false = np.any(dataset == 0, axis=0)
+    mask = any_true & any_false
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,7 +48,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~any_true & any_false
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From d0cde66245a5d664d5532b5a206b12f4acd15e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 04/25] fix: contingency_table counts each pair once for any
 coding

The linear index aliased distinct pairs when the range included negative
codes or when values lay outside it, and overflowed narrow integer types.
---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..a0a94f3 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) &
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From 218449a8facb29dbf2ecf0fd42a4e7da869b5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 05/25] fix: parallel polychoric correlation of a single
 variable

The serial method returns [[1.]], the parallel one raised an IndexError.
---
 common/polychoric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index a0a94f3..9cdbf4d 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -149,7 +149,7 @@ def polychoric_correlation(ordinal_data, start_val=1, stop_val=5, num_processors
         return polychoric_correlation_serial(ordinal_data, start_val, stop_val)
     
     indices = np.tril_indices(ordinal_data.shape[0], -1)
-    chunk_indices = np.array_split(list(zip(*indices)), num_processors)
+    chunk_indices = np.array_split(np.transpose(indices), num_processors)
 
     # Do the parallel calculation
     with SharedMemoryManager() as smm:
-- 
2.43.0


From a0d6baeb377c6703db70b92f0ac989da4214601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 06/25] fix: ability_3pl_eap of a single respondent returns an
 array

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index 6055c82..14a7dc3 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -64,4 +64,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From 9994185d45af7257f25f757406a464c9f66279a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 07/25] fix: tag_missing_data widens types that cannot hold
 INVALID_RESPONSE

-99999 wrapped around to an ordinary value in 8 and 16 bit integers.
---
 estimation/utilities/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 595f800..7341996 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,7 +24,9 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    output = dataset.copy()
+    # The type must be able to hold the invalid response value
+    output = dataset.astype(np.promote_types(dataset.dtype,
+                                             np.min_scalar_type(INVALID_RESPONSE)))
     output[~mask] = INVALID_RESPONSE
     
     return output
-- 
2.43.0


From 31db60eb081aa3c456e9e4942b51eebc79b35789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 08/25] fix: reject unfolding thresholds that are not symmetric

Only the sum was checked, which asymmetric thresholds can satisfy.
---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..82cfc8c 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        if not np.all(np.abs(adjusted_difficulty +
+                             adjusted_difficulty[:, ::-1]) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0


From 9d98cbc06c6a8de6969ad0dc60c5adc8bc3453e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 09/25] fix: a zero delta for the signed item no longer erases
 all deltas

---
 estimation/unidimensional/polytomous/gum_mml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index b20555f..bebdac7 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -152,7 +152,7 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
             break
 
     # Adjust delta values to conform to delta sign
-    delta *= np.sign(delta[delta_ndx]) * delta_multiplier
+    delta *= -delta_multiplier if delta[delta_ndx] < 0 else delta_multiplier
 
     # Recompute partial int for later calculations
     partial_int = np.ones((responses.shape[1], theta.size))
-- 
2.43.0


From d142a2efcb35ab3b79bf3b0c13656412eed80255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 10/25] fix: respondents without valid responses do not enter
 joint estimation

They received an arbitrary ability, which shifted and scaled everybody
else's through the standardisation of abilities.
---
 estimation/utilities/polytomous_utils.py | 6 +++---
 estimation/utilities/utils.py            | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 02bf60d..ca63998 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -39,10 +39,10 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
     if trim_ends:
         raw_score_sums = np.sum(dataset, where=valid_response_mask, axis=0)
         valid_score_sums = np.count_nonzero(valid_response_mask, axis=0)
-        ratio_score_sums = raw_score_sums / valid_score_sums
 
-        mask = ((ratio_score_sums == min_value) | 
-                (ratio_score_sums == max_value))
+        # Scaling the bounds also removes those without valid responses
+        mask = ((raw_score_sums == min_value * valid_score_sums) |
+                (raw_score_sums == max_value * valid_score_sums))
         dataset = dataset[:, ~mask]
         valid_response_mask = dataset != INVALID_RESPONSE
     
diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 7341996..0031095 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -120,8 +120,9 @@ def trim_response_set_and_counts(response_sets, counts):
     # Find any missing data
     bad_mask = response_sets == INVALID_RESPONSE
 
-    # Remove response sets where output is all true/false
+    # Remove response sets where output is all true/false or all missing
     mask = ~(np.ma.masked_array(response_sets, bad_mask).var(axis=0) == 0)
+    mask = np.ma.filled(mask, False)
     response_sets = response_sets[:, mask]
     counts = counts[mask]
 
-- 
2.43.0


From bb09c57f401f6136634eeec76c1cb7973ce891b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 11/25] fix: difficulties of constant items are not truncated
 to integers

---
 estimation/utilities/polytomous_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index ca63998..6015295 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -95,7 +95,7 @@ def _solve_for_constants(item_responses):
         constants = np.linalg.inv(A_matrix)[:, 0] * counts[1]
     
     else:
-        constants = np.array([0]) if value == 0 else np.array([1])
+        constants = np.array([0.0]) if value == 0 else np.array([1.0])
     
     return constants
     
-- 
2.43.0


From f38425d882b9314d7747922cf068d7fdccca65fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 12/25] fix: unfolding estimates no longer start at a saddle
 point

---
 estimation/unidimensional/polytomous/gum_mml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index bebdac7..044795e 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -51,7 +51,8 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
     # Initialize item parameters for iterations
     discrimination = np.ones((n_items,))
     betas = np.full((n_items, item_counts.max() - 1), np.nan)
-    delta = np.zeros((n_items,))
+    # At zero the likelihood is flat in delta and rounding picks its sign
+    delta = np.full((n_items,), 0.1)
     partial_int = np.ones((responses.shape[1], theta.size))
 
     # Set initial estimates to evenly spaced
-- 
2.43.0


From 4dc17077743e3b26ab40cd9a413e3e3461816e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 13/25] fix: multidimensional fits without a guess no longer
 start at a saddle point

---
 estimation/multidimensional/multidimensional_mml_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index ee33b72..bc11728 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -133,7 +133,11 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
             betas[start_ndx+1:end_ndx] = new_betas
     
     else:
-        discrimination[:, 0] = 1.0        
+        # At zero the likelihood is flat in the later factors and rounding
+        # picks their sign
+        discrimination[:, 0] = 1.0
+        for ndx in range(1, n_factors):
+            discrimination[:start_indices[n_items-ndx], ndx] = 0.1
         inner_bounds = (-3, 3)
 
         for ndx in range(n_items):
-- 
2.43.0


From 250e6d08f2127b19ed4c40541ff622a181a67fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 14/25] fix: start latent distribution estimates from a spread
 density

A single unit coefficient breaks the moment constraints and leaves likelihoods
near zero in the tails; the solver then sometimes gives up at the start and the
returned distribution has the wrong mean and variance.
---
 estimation/utilities/latent_ability_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/latent_ability_distribution.py b/estimation/utilities/latent_ability_distribution.py
index 4a5901e..71cd3e6 100644
--- a/estimation/utilities/latent_ability_distribution.py
+++ b/estimation/utilities/latent_ability_distribution.py
@@ -230,7 +230,8 @@ class LatentPDF(object):
         # Initialize the first cubic-spline class
         # and set the distibution be an inverted U-shape
         cubic_spline = self._init_cubic_spline()
-        cubic_spline.coefficients[self.n_points // 2 + 2] = 1
+        starting_shape = np.exp(-0.5 * cubic_spline.sample_space_squared[2:-2])
+        cubic_spline.update_coefficients(starting_shape / starting_shape.sum())
         self.cubic_splines = [cubic_spline]
     
     def _init_cubic_spline(self):
-- 
2.43.0


From e38e5cfde938fd11739baf4033590461aecac691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 15/25] fix: look-up table at the largest tabulated
 discrimination

The column after the last one was looked up there, raising IndexError.
---
 estimation/utilities/look_up_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 98ccd2b..46f1aaa 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -67,7 +67,7 @@ def create_beta_LUT(alpha, beta, options=None):
     def interpolate_function(alpha_value, p_value):
         tmp = interp_a(alpha_value)
         tmpL = int(tmp)
-        tmpH = int(tmp + 1)
+        tmpH = min(tmpL + 1, alpha.size - 1)
         dx = tmp - tmpL
         return ((1 - dx) * func_list[tmpL](p_value) + 
                 dx * func_list[tmpH](p_value))        
-- 
2.43.0


From e1f0ce6d0974ad45f4705bab27182889ef9daa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 16/25] fix: partial credit and unfolding responses for extreme
 abilities

The exponentials overflowed, and the resulting nan also survived the clearing
by multiplication, so that every later item was drawn from nan probabilities.
---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index 82cfc8c..13c6eb5 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -65,11 +65,12 @@ def _credit_func(difficulty, discrimination, thetas, output):
     """
     # This model is based on exponentials and normalized to
     # make sure the expected probablity is equal to one
-    output *= 0.0  # clear any previous values
+    output[:] = 0.0  # clear any previous values
     output[1:, :] += thetas
     output[1:, :] -= difficulty[:, None]
     output *= discrimination
     np.cumsum(output, axis=0, out=output)
+    output -= output.max(axis=0)  # exponentials must not overflow
     np.exp(output, out=output)
 
     normalizing_term = 1.0 / np.sum(output, axis=0)
-- 
2.43.0


From 9a4697195d77fc2e38e425fca8e109bc78bb0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 17/25] fix: respondents without valid responses in classical
 test statistics

One respondent who left every other item blank turned the item-score and
polyserial correlations and alpha into nan.
---
 common/cronbach_alpha.py               | 6 +++++-
 estimation/utilities/ctt_statistics.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/cronbach_alpha.py b/common/cronbach_alpha.py
index c2e0975..77b5e07 100644
--- a/common/cronbach_alpha.py
+++ b/common/cronbach_alpha.py
@@ -24,8 +24,12 @@ def cronbach_alpha(data):
     valid_mask = data != INVALID_RESPONSE
     
     item_variance = np.var(data, axis=1, ddof=1, where=valid_mask).sum()
+
+    # Respondents without any valid response have no score
+    answered = valid_mask.any(axis=0)
     people_variance = (n_items * n_items
-                       * np.mean(data, axis=0, where=valid_mask).var(ddof=1))
+                       * np.mean(data[:, answered], axis=0, 
+                                 where=valid_mask[:, answered]).var(ddof=1))
     
     return (n_items / (n_items - 1) 
             * (1 - item_variance / people_variance))
\ No newline at end of file
diff --git a/estimation/utilities/ctt_statistics.py b/estimation/utilities/ctt_statistics.py
index 5445cc7..a77587e 100644
--- a/estimation/utilities/ctt_statistics.py
+++ b/estimation/utilities/ctt_statistics.py
@@ -49,7 +49,8 @@ def classical_test_statistics(dataset, start_value=1, stop_value=5):
         total_sub_score = dataset_subset.mean(axis=0, 
                                               where=valid_mask_subset)
         
-        valid_item_mask = valid_mask[item_ndx]
+        # The rest score needs a valid response as well
+        valid_item_mask = valid_mask[item_ndx] & valid_mask_subset.any(axis=0)
         
         total_sub_score_valid = total_sub_score[valid_item_mask]
         dataset_valid = dataset[item_ndx][valid_item_mask]
-- 
2.43.0


From 9f3225d2e81052639f31ff5ca40df3cec98de947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:34 +0000
Subject: [PATCH 18/25] fix: principal components of singular matrices

The loadings of a rank deficient matrix were NaN for eigenvalues that
rounding leaves slightly below zero.
---
 factoranalysis/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factoranalysis/pca.py b/factoranalysis/pca.py
index 6d575ef..3eabe5f 100644
--- a/factoranalysis/pca.py
+++ b/factoranalysis/pca.py
@@ -25,7 +25,7 @@ def principal_components_analysis(input_matrix, n_factors=None):
     eigenvalues = eigenvalues[-n_factors:][::-1]
     loadings = loadings[:, -n_factors:][:, ::-1]
 
-    # Scale Loadings
-    loadings *= np.sqrt(eigenvalues).reshape(1, -1)
+    # Scale Loadings, rounding can leave zero eigenvalues below zero
+    loadings *= np.sqrt(np.maximum(eigenvalues, 0)).reshape(1, -1)
 
     return loadings, eigenvalues, np.zeros((input_matrix.shape[0]))
\ No newline at end of file
-- 
2.43.0


From ed191db4d00f35c9adc0dae016aee2613fa9e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 19/25] fix: minimum rank factor analysis started from a
 Heywood case

Principal axis factoring can return negative unique variances, which
turned the starting point into NaN.
---
 factoranalysis/minimum_rank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factoranalysis/minimum_rank.py b/factoranalysis/minimum_rank.py
index 97ae00a..20f6114 100644
--- a/factoranalysis/minimum_rank.py
+++ b/factoranalysis/minimum_rank.py
@@ -56,7 +56,8 @@ def minimum_rank_factor_analysis(correlation_matrix, n_factors,
 
     args = (correlation_cholesky, n_factors)
     bounds = [(1, 100),] * (correlation_matrix.shape[0])
-    initial_guess = 1 / np.sqrt(initial_guess)
+    # Keep the guess inside of the bounds, variances can be negative (Heywood)
+    initial_guess = 1 / np.sqrt(np.maximum(initial_guess, 1e-4))
     
     result = minimize(_mrfa_min_func, initial_guess, args, method='SLSQP',
                       bounds=bounds, options={'maxiter': n_iter}, jac=True)
-- 
2.43.0


From 929d99c4ccd1261a85f826e2b0201bcf993bb641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 20/25] fix: entropy of loadings with an item that loads on no
 factor

A row of zeros was divided by zero, and integer loadings were refused.
---
 common/entropy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/entropy.py b/common/entropy.py
index b9cad89..e9e7369 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -17,8 +17,11 @@ def entropy(the_array, axis=1):
     """
     power = the_array * the_array
     sum_power = power.sum(axis=axis)
+
+    # All zeros has no entropy
+    sum_power = np.where(sum_power == 0, 1, sum_power)
     if axis:
-        power /= sum_power.reshape(-1, 1)
+        power = power / sum_power.reshape(-1, 1)
     else:
-        power /= sum_power
+        power = power / sum_power
     return -(power * np.log(power + 1e-23)).sum()
\ No newline at end of file
-- 
2.43.0


From 33fe301c913ac4c2b4593a7a18b529f1ff7d4427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 21/25] fix: polychoric likelihood of unlikely cells lost to
 cancellation

Cells of contradicting respondents came out as zero, or as rounding noise,
when the correlation was strong, so that the search could end far from the
maximum. Compute them from the nearest corner.
---
 common/polychoric.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 9cdbf4d..80d2ddf 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -86,15 +86,21 @@ def _polychoric_correlation_value(vals1, vals2, start_val=1, stop_val=5):
     
     # Minimization function, assumes (x, y) not (row, column)
     def min_func(rho):
-        corr[0, 1] = corr[1, 0] = rho
+        # Unlikely cells are computed accurately only in the upper
+        # corner and with a negative correlation, reflect the variables
+        corr[0, 1] = corr[1, 0] = -abs(rho)
+        edges = thresholds[0] if rho < 0 else -thresholds[0]
+
         for ndx1, ndx2 in product(range(thresholds[1].size-1), range(thresholds[0].size-1)):
             # Integration Bounds
-            low = (thresholds[1][ndx1], thresholds[0][ndx2])
-            upp = (thresholds[1][ndx1+1], thresholds[0][ndx2+1])
-            
+            low = (thresholds[1][ndx1], min(edges[ndx2:ndx2+2]))
+            upp = (thresholds[1][ndx1+1], max(edges[ndx2:ndx2+2]))
+            if sum(low) + sum(upp) < 0:
+                low, upp = (-upp[0], -upp[1]), (-low[0], -low[1])
+
             # Integral
             integral = mvn.mvnun(low, upp, mu, corr, abseps=1e-12)[0]
-            the_probabilities[ndx1, ndx2] = np.log(max(1e-46, integral))
+            the_probabilities[ndx1, ndx2] = np.log(max(1e-300, integral))
             
         return -1 * np.sum(the_table * the_probabilities)
 
-- 
2.43.0


From 1c5b128ebc8996130aa699aa2900de102d405528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 22/25] fix: maximum likelihood factors of variables in small
 units

The floor on unique variances was absolute, so a variable with a standard
deviation of 0.001 got the floor, or more than its variance, as its unique
variance. The starting guess could be negative by rounding as well.
---
 factoranalysis/maximum_likelihood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index b69415f..f70199f 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -29,12 +29,13 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
         unique_variance: estimated unique variance
     """
     n_items = input_matrix.shape[0]
+    smallest = 1e-6 * np.diag(input_matrix)
     
     # Initial Guess
     loads, _, _ = pca(input_matrix, n_factors)
     
     if initial_guess is None:
-        uvars = np.diag(input_matrix - loads @ loads.T).copy()
+        uvars = np.maximum(np.diag(input_matrix - loads @ loads.T), smallest)
     else:
         uvars = initial_guess.copy()
     
@@ -66,7 +67,7 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
             selected_row = lower_chol @ inv_B[0]
             selected_row = selected_row.dot(selected_row)
             omega = (selected_row - scalar) / scalar**2
-            uvars[ndx] = max(1e-6, (omega + 1) * uvars[ndx])
+            uvars[ndx] = max(smallest[ndx], (omega + 1) * uvars[ndx])
             
             # Recursively update Inverse of B
             selected_column = inv_B[0, ndx+1:] * (-omega / (1 + omega * scalar))
-- 
2.43.0


From 49a417d4c86c2890c70500d070e7936f769f32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 23/25] fix: polyserial likelihood of unlikely observations
 lost to cancellation

---
 common/polyserial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/polyserial.py b/common/polyserial.py
index f7ab4cf..3869946 100644
--- a/common/polyserial.py
+++ b/common/polyserial.py
@@ -46,13 +46,16 @@ def polyserial_correlation(continuous, ordinal):
                 
             elif ndx == (values.size -1):
                 numerator = thresholds[ndx-1] - k[mask]
-                probabilty = (1 - norm.cdf(numerator / denominator))
+                probabilty = norm.cdf(-numerator / denominator)
                 
             else:
                 numerator1 = thresholds[ndx] - k[mask]
                 numerator2 = thresholds[ndx-1] - k[mask]
-                probabilty = (norm.cdf(numerator1 / denominator)
-                              - norm.cdf(numerator2 / denominator))
+
+                # Small differences are accurate only in the lower tail
+                side = np.where(numerator1 + numerator2 > 0, -1, 1)
+                probabilty = np.abs(norm.cdf(side * numerator1 / denominator)
+                                    - norm.cdf(side * numerator2 / denominator))
         
             log_likelihood -= np.log(probabilty).sum()
         
-- 
2.43.0


From 93cc0cb1c0f62cad3957e6c33315be487515604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 24/25] fix: graded probabilities of easy steep items lost to
 cancellation

---
 .../multidimensional_ability_methods.py       |  5 ++---
 .../multidimensional/partial_integral_md.py   |  5 ++---
 .../unidimensional/polytomous/grm_jml.py      | 10 ++++-----
 .../polytomous/partial_integrals_poly.py      |  6 +++---
 estimation/utilities/utils.py                 | 21 ++++++++++++++++++-
 5 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_ability_methods.py b/estimation/multidimensional/multidimensional_ability_methods.py
index 3907d78..2551329 100644
--- a/estimation/multidimensional/multidimensional_ability_methods.py
+++ b/estimation/multidimensional/multidimensional_ability_methods.py
@@ -2,12 +2,12 @@ from itertools import repeat, product
 
 import numpy as np
 from scipy.optimize import fmin_slsqp
-from scipy.special import expit
 
 
 from girth.utilities import (
     condition_polytomous_response, validate_estimation_options)
 from girth.utilities.latent_ability_distribution import LatentPDF
+from girth.utilities.utils import _graded_probability
 from girth.utilities.polytomous_utils import _build_einsum_string
 from girth.multidimensional.partial_integral_md import _graded_partial_integral_md
 
@@ -81,8 +81,7 @@ def multidimensional_ability_map(dataset, difficulty, discrimination, options=No
             kernel = (local_discrimination * estimates).sum(1)
             temp1 = kernel + betas
             temp2 = kernel + betas_roll
-            graded_prob = expit(temp1) 
-            graded_prob -= expit(temp2)
+            graded_prob = _graded_probability(temp1, temp2)
 
             # Set all the responses and fix afterward
             temp_output = graded_prob[person_response]
diff --git a/estimation/multidimensional/partial_integral_md.py b/estimation/multidimensional/partial_integral_md.py
index 4c6f4c1..c37c935 100644
--- a/estimation/multidimensional/partial_integral_md.py
+++ b/estimation/multidimensional/partial_integral_md.py
@@ -1,4 +1,4 @@
-from scipy.special import expit
+from girth.utilities.utils import _graded_probability
 
 
 def _graded_partial_integral_md(theta, betas, betas_roll,
@@ -7,8 +7,7 @@ def _graded_partial_integral_md(theta, betas, betas_roll,
     """Computes the partial integral for the multidimensional graded response."""
     temp1 = discrimination @ theta + betas[:, None]
     temp2 = discrimination @ theta + betas_roll[:, None]
-    graded_prob = expit(temp1) 
-    graded_prob -= expit(temp2)
+    graded_prob = _graded_probability(temp1, temp2)
 
     # Set all the responses and fix afterward
     temp_output = graded_prob[response_set, :]
diff --git a/estimation/unidimensional/polytomous/grm_jml.py b/estimation/unidimensional/polytomous/grm_jml.py
index c591a37..741df1a 100644
--- a/estimation/unidimensional/polytomous/grm_jml.py
+++ b/estimation/unidimensional/polytomous/grm_jml.py
@@ -1,9 +1,9 @@
 import numpy as np
 from scipy.optimize import fmin_slsqp, fminbound
-from scipy.special import expit
 
 from girth.utilities import (
     condition_polytomous_response, validate_estimation_options)
+from girth.utilities.utils import _graded_probability
 
 
 __all__ = ["grm_jml"]
@@ -73,8 +73,8 @@ def grm_jml(dataset, options=None):
         for ndx in range(n_takers):
             def _theta_min(theta):
                 # Solves for ability parameters (theta) 
-                graded_prob = (expit(discrimination * (theta - betas)) 
-                               - expit(discrimination * (theta - betas_roll)))
+                graded_prob = _graded_probability(discrimination * (theta - betas),
+                                                  discrimination * (theta - betas_roll))
 
                 values = graded_prob[responses[:, ndx]]
                 return -np.log(values[valid_response_mask[:, ndx]] + 1e-313).sum()
@@ -101,8 +101,8 @@ def grm_jml(dataset, options=None):
                 betas[start_ndx+1:end_ndx] = estimates[1:]
                 betas_roll[start_ndx:end_ndx-1] = estimates[1:]
 
-                graded_prob = (expit(discrimination[:, None] * (thetas[None, :] - betas[:, None]))
-                               - expit(discrimination[:, None] * (thetas[None, :] - betas_roll[:, None])))
+                graded_prob = _graded_probability(discrimination[:, None] * (thetas[None, :] - betas[:, None]),
+                                                  discrimination[:, None] * (thetas[None, :] - betas_roll[:, None]))
 
                 values = np.take_along_axis(
                     graded_prob, responses[None, ndx], axis=0).squeeze()
diff --git a/estimation/unidimensional/polytomous/partial_integrals_poly.py b/estimation/unidimensional/polytomous/partial_integrals_poly.py
index d9089cf..efa1bc5 100644
--- a/estimation/unidimensional/polytomous/partial_integrals_poly.py
+++ b/estimation/unidimensional/polytomous/partial_integrals_poly.py
@@ -1,5 +1,6 @@
 import numpy as np
-from scipy.special import expit
+
+from girth.utilities.utils import _graded_probability
 
 
 def _graded_partial_integral(theta, betas, betas_roll,
@@ -8,8 +9,7 @@ def _graded_partial_integral(theta, betas, betas_roll,
     """Computes the partial integral for the graded response."""
     temp1 = (theta - betas[:, None]) * discrimination[:, None]
     temp2 = (theta - betas_roll[:, None]) * discrimination[:, None]
-    graded_prob = expit(temp1) 
-    graded_prob -= expit(temp2)
+    graded_prob = _graded_probability(temp1, temp2)
 
     # Set all the responses and fix afterward
     temp_output = graded_prob[response_set, :]
diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 0031095..7e59a79 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -1,6 +1,6 @@
 import numpy as np
 from scipy.stats import norm as gaussian
-from scipy.special import roots_legendre
+from scipy.special import expit, roots_legendre
 
 
 # There is no int nan, so use this as a placeholder
@@ -129,6 +129,25 @@ def trim_response_set_and_counts(response_sets, counts):
     return response_sets, counts
 
 
+def _graded_probability(lower_kernel, upper_kernel):
+    """ Probability of the category between two thresholds.
+
+    Args:
+        lower_kernel: (array) kernel of the threshold below the category
+        upper_kernel: (array) kernel of the threshold above the category
+
+    Returns:
+        probability: (array) expit(lower_kernel) - expit(upper_kernel)
+    """
+    probability = expit(lower_kernel) - expit(upper_kernel)
+
+    # Too few digits are left when both terms are close to one
+    mask = np.minimum(lower_kernel, upper_kernel) > 15
+    probability[mask] = expit(-upper_kernel[mask]) - expit(-lower_kernel[mask])
+
+    return probability
+
+
 def _get_quadrature_points(n, a, b):
     """ Quadrature points needed for gauss-legendre integration.
 
-- 
2.43.0


From ed0354aa02ca556600b1648abe3b00326b115299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 25/25] fix: polychoric correlations where a contradicting cell
 is very unlikely

---
 common/polychoric.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 80d2ddf..a811982 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -5,7 +5,7 @@ from itertools import product, repeat
 
 import numpy as np
 from scipy.optimize import optimize
-from scipy.special import erfinv
+from scipy.special import erfinv, ndtr
 from scipy.stats import mvn
 
 
@@ -13,6 +13,9 @@ __all__ = ["validate_contingency_table", "contingency_table",
            "polychoric_correlation_serial", "polychoric_correlation"]
 
 
+_LEGENDRE = np.polynomial.legendre.leggauss(8)
+
+
 def validate_contingency_table(the_table):
     """Checks tables for columns or rows with all zeros and deletes.
 
@@ -51,6 +54,34 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     return cont_table
 
 
+def _unlikely_cell_probability(low, upp, rho):
+    """Probability of an unlikely cell, integrated over the first variable.
+
+    Accurate relative to the probability as long as the
+    correlation is moderate and the cell is in the upper corner.
+
+    Args:
+        low: lower bounds of the cell
+        upp: upper bounds of the cell
+        rho: correlation
+
+    Returns:
+        probability of the cell
+    """
+    nodes, weights = _LEGENDRE
+    edges = np.linspace(low[0], upp[0], int(4 * (upp[0] - low[0])) + 2)
+    half_width = 0.5 * (edges[1] - edges[0])
+    values = np.add.outer(edges[:-1] + half_width, half_width * nodes)
+
+    # Probability of the second variable given the first
+    scalar = 1 / np.sqrt(1 - rho * rho)
+    conditional = (ndtr((rho * values - low[1]) * scalar)
+                   - ndtr((rho * values - upp[1]) * scalar))
+    density = np.exp(-0.5 * values * values) / np.sqrt(2 * np.pi)
+
+    return half_width * ((density * conditional) @ weights).sum()
+
+
 def _polychoric_correlation_value(vals1, vals2, start_val=1, stop_val=5):
     """Computes the polychoric correlation coefficient.
     
@@ -100,6 +131,9 @@ def _polychoric_correlation_value(vals1, vals2, start_val=1, stop_val=5):
 
             # Integral
             integral = mvn.mvnun(low, upp, mu, corr, abseps=1e-12)[0]
+            if integral < 1e-12 and abs(rho) < .925:
+                integral = _unlikely_cell_probability(low, upp, corr[0, 1])
+
             the_probabilities[ndx1, ndx2] = np.log(max(1e-300, integral))
             
         return -1 * np.sum(the_table * the_probabilities)
-- 
2.43.0

