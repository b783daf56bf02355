From 6e5b3da208f510b2f877da448d0066ad6dda5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 01/23] fix: analyze experiments at the alpha of their design
 instead of always 0.05

---
 feedx/experiment_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index ef6716b..6737770 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -484,6 +484,7 @@ def _analyze_regular_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a regular (non-crossover) A/B test.
 
@@ -504,6 +505,7 @@ def _analyze_regular_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The false positive rate of the test.
 
   Returns:
     The statistical test results.
@@ -530,6 +532,7 @@ def _analyze_regular_experiment_single_metric(
       denom_values2=denominator_y_control,
       equal_var=False,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -582,6 +585,7 @@ def _analyze_crossover_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a crossover A/B test.
 
@@ -607,6 +611,7 @@ def _analyze_crossover_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The false positive rate of the test.
 
   Returns:
     The statistical test results.
@@ -636,6 +641,7 @@ def _analyze_crossover_experiment_single_metric(
       denom_values1=denominator_y_treatment_demeaned,
       denom_values2=denominator_y_control_demeaned,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -738,6 +744,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
   else:
     return _analyze_regular_experiment_single_metric(
@@ -745,6 +752,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
 
 
-- 
2.43.0


From 039301c0485e4091f89cb3f3fe19d80619370b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 02/23] fix: reject data where dates have equal counts but
 different items

---
 feedx/data_preparation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 4e95fee..95f7867 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -751,7 +751,7 @@ def _validate_every_item_exists_exactly_once_for_every_date(
     return failed, message
 
   value_counts_first_group = value_counts_per_group.values[0]
-  if np.any(value_counts_per_group.values != value_counts_first_group):
+  if np.any(value_counts_per_group.values != data[item_id_column].nunique()):
     message = (
         f"Some {date_column} are missing {item_id_column}. Below are the number"
         f" of unique {item_id_column} per {date_column}, which should be equal"
-- 
2.43.0


From 99f4843e0004d10816487fb478ccf3b710247d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 03/23] fix: relative difference interval of metrics on a small
 scale

---
 feedx/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 884b79b..165cbc1 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -573,12 +573,12 @@ def relative_difference_confidence_interval(
   var_2 = standard_error_2**2
   var_12 = standard_error_1 * standard_error_2 * corr
 
-  if np.isclose(var_2, 0.0):
+  if var_2 == 0.0:
     t_exclusive_sq = np.inf
   else:
     t_exclusive_sq = mean_2**2 / var_2
 
-  if np.isclose(var_1, 0.0) or np.isclose(var_2, 0.0):
+  if var_1 == 0.0 or var_2 == 0.0:
     t_complete_sq = np.inf
   else:
     t_complete_sq = (
-- 
2.43.0


From d725824edbfffae9232b5ac2052f649282efd745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 04/23] fix: relative difference interval that excluded its
 point estimate

---
 feedx/statistics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 165cbc1..ff37afa 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -616,8 +616,12 @@ def relative_difference_confidence_interval(
 
     if t_exclusive_sq <= critical_t_value**2:
       # The confidence interval is partially unbounded, meaning the upper bound
-      # is infinite but there is still a finite lower bound.
+      # is infinite but there is still a finite lower bound. It excludes only
+      # the ratios between the two roots, so if both roots are positive then it
+      # still contains 0.0.
       ratio_upper_bound = np.inf
+      if adjusted_12 < 0.0 and adjusted_1 < 0.0:
+        ratio_lower_bound = 0.0
     else:
       ratio_upper_bound = (
           adjusted_12 + np.sqrt(adjusted_12**2 - adjusted_1 * adjusted_2)
-- 
2.43.0


From b71fe80a3dfc01ae6d24c0bafc006ec5db27734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 05/23] fix: variance of the period difference in the crossover
 minimum detectable effect

---
 feedx/experiment_simulations.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index e124c28..ed3d5aa 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -641,9 +641,7 @@ class SimulationAnalysis:
       # the extra variance introduced by the difference in the means in the two
       # periods.
       if self.design.post_trim_percentile > 0.0:
-        primary_metric_variance += (
-            trimmed_means[1] - trimmed_means[2]
-        ) ** 2 / 4
+        primary_metric_variance += (trimmed_means[1] - trimmed_means[2]) ** 2
 
       sample_size = len(trimmed_stacked_values)
     else:
-- 
2.43.0


From 01e57b20ceb8fdbd2ef42f249bda206b4654d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 06/23] fix: plot_metric_over_time with other column names

---
 feedx/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index 7ef9d08..b0c7bec 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -434,8 +434,10 @@ def plot_metric_over_time(
       nrows=2, figsize=(10, 6), sharex=True, constrained_layout=True
   )
 
-  is_test_or_test_1 = data["time_period"].isin(["test", "test_1", "washout_1"])
-  start_date = data.loc[is_test_or_test_1, "date"].min()
+  is_test_or_test_1 = data[time_period_column].isin(
+      ["test", "test_1", "washout_1"]
+  )
+  start_date = data.loc[is_test_or_test_1, date_column].min()
   pretest_start_date = start_date - dt.timedelta(weeks=design.pretest_weeks)
   end_date = start_date + dt.timedelta(weeks=design.runtime_weeks)
 
-- 
2.43.0


From e6dfa011d525105c57969e72f0d40c39df70284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 07/23] fix: plot_effects with infinite or missing confidence
 bounds

---
 feedx/plotting.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index b0c7bec..8b3d563 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -534,9 +534,9 @@ def _plot_horizontal_error_bar_with_infs(
     return
 
   y_position = np.asarray(y_position)
-  value = np.asarray(value)
-  value_lb = np.asarray(value_lb)
-  value_ub = np.asarray(value_ub)
+  value = np.asarray(value, dtype=float)
+  value_lb = np.asarray(value_lb, dtype=float)
+  value_ub = np.asarray(value_ub, dtype=float)
 
   inf_lb = ~np.isfinite(value_lb)
   inf_ub = ~np.isfinite(value_ub)
@@ -551,8 +551,10 @@ def _plot_horizontal_error_bar_with_infs(
   )
   value_err_ub[inf_ub] = 0.0
 
-  value_lb_max = np.min(value_lb[~inf_lb])
-  value_ub_max = np.max(value_ub[~inf_ub])
+  # Include the values, because all of the bounds could be infinite, or a value
+  # could be more extreme than all of the finite bounds.
+  value_lb_max = np.min(np.append(value_lb[~inf_lb], value))
+  value_ub_max = np.max(np.append(value_ub[~inf_ub], value))
 
   eb = ax.errorbar(
       y=y_position, x=value, xerr=[value_err_lb, value_err_ub], **kwargs
-- 
2.43.0


From b9e4964c7be1cc71405d1512b35ad2e62fd37d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 08/23] fix: plot_effects with only the primary metric

---
 feedx/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index 8b3d563..dd76dc1 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -666,7 +666,7 @@ def plot_effects(
   _, axs = plt.subplots(
       nrows=2,
       sharex=True,
-      height_ratios=[1, len(metrics) - 1],
+      height_ratios=[1, max(len(metrics) - 1, 1)],
       figsize=(10, 4),
       constrained_layout=True,
   )
-- 
2.43.0


From c49c8c684c7b15f89bf2305ad01debc573d7c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 09/23] fix: format results when no metric has a relative
 difference

---
 feedx/experiment_analysis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 6737770..2ce0c19 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -958,6 +958,15 @@ def format_experiment_analysis_results_dataframe(
 
   # Format the relative effect sizes
   if include_relative_effect:
+    # If no metric has a relative effect then these columns contain only None
+    relative_columns = [
+        "relative_difference",
+        "relative_difference_lower_bound",
+        "relative_difference_upper_bound",
+    ]
+    display_data[relative_columns] = display_data[relative_columns].astype(
+        float
+    )
     display_data[("Relative Effect Size", "Point Estimate")] = display_data[
         "relative_difference"
     ].apply(f"{{:+.{relative_effect_decimal_places}%}}".format)
-- 
2.43.0


From 6af1f61d9360e3b4e1a6285b6f4ddd8090ea36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 10/23] fix: generate designs without crossover washout weeks

---
 feedx/experiment_simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index ed3d5aa..7116331 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -129,8 +129,8 @@ def generate_all_valid_designs(
 
     can_crossover = (
         crossover_design_allowed
-        & (runtime_weeks > 2 * crossover_washout_weeks)
-        & (runtime_weeks % 2 == 0)
+        and (runtime_weeks > 2 * crossover_washout_weeks)
+        and (runtime_weeks % 2 == 0)
     )
 
     if can_crossover:
-- 
2.43.0


From 5c55aba5258b91ed14ad96d04fd1cfe199e7e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 11/23] fix: standard deviation of the synthetic CTRs and
 conversion rates

---
 feedx/data_preparation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 95f7867..4af76a6 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -123,7 +123,12 @@ def _sample_from_beta(
   if not np.all(valid_standard_deviation):
     raise ValueError("standard_deviation must be between 0 and 1")
 
-  a_plus_b = np.sqrt(mean * (1.0 - mean)) / standard_deviation
+  a_plus_b = mean * (1.0 - mean) / standard_deviation**2 - 1.0
+  if a_plus_b <= 0.0:
+    raise ValueError(
+        "standard_deviation must be less than sqrt(mean * (1 - mean))"
+    )
+
   return rng.beta(
       a=mean * a_plus_b,
       b=(1.0 - mean) * a_plus_b,
-- 
2.43.0


From 6bca1472640d7d21e836bb730fc8ec491dfcc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 12/23] fix: random treatment assignment with underscores in
 column names

---
 feedx/experiment_simulations.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index 7116331..b21642e 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -284,24 +284,19 @@ def apply_random_treatment_assignment(
   if item_id_column not in data.columns:
     raise ValueError("The data does not contain the item_id column.")
 
-  # To do the merging we need to first flatten the columns. This is likely
-  # due to a bug in the current external version of pandas, so this is a
-  # workaround.
-  data_flat = data.copy()
-  data_flat.columns = [
-      "__".join(col).strip("_") for col in data_flat.columns.values
-  ]
-
-  items = data_flat[[item_id_column]].drop_duplicates()
-  items[treatment_column] = rng.choice(2, size=len(items))
-
-  data_flat = data_flat.merge(items, on=item_id_column).set_index(
-      [item_id_column, treatment_column]
+  item_ids = data[item_id_column]
+  items = item_ids.drop_duplicates()
+  treatment_assignment = pd.Series(
+      rng.choice(2, size=len(items)), index=items.values
   )
-  data_flat.columns = pd.MultiIndex.from_tuples(
-      [tuple(col.split("__")) for col in data_flat.columns.values]
+
+  output_data = data.drop(columns=item_id_column, level=0)
+  output_data.columns = pd.MultiIndex.from_tuples(output_data.columns.to_list())
+  output_data.index = pd.MultiIndex.from_arrays(
+      [item_ids, item_ids.map(treatment_assignment)],
+      names=[item_id_column, treatment_column],
   )
-  return data_flat
+  return output_data
 
 
 def _apply_synthetic_treatment_effect_to_regular_experiment(
-- 
2.43.0


From 28dbf42f4420d7fc0f18523d9206e58873e3d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 13/23] fix: two sample test when the control average is zero

---
 feedx/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index ff37afa..5768ef0 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -1118,7 +1118,7 @@ def yuens_t_test_ind(
   # We only calculate the relative lift for metrics that are positive.
   # If not, it's hard to interpret it.
   if (mean1 >= 0.0) and (mean2 >= 0.0):
-    relative_difference = mean1 / mean2 - 1.0
+    relative_difference = np.divide(mean1, mean2) - 1.0
     relative_difference_lb, relative_difference_ub = (
         relative_difference_confidence_interval(
             mean_1=mean1,
-- 
2.43.0


From babd9a857e249866c2f0aa79cb607bab7a719c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 14/23] fix: cuped adjustment with a constant covariate

---
 feedx/statistics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 5768ef0..b7504d0 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -298,6 +298,10 @@ def apply_cuped_adjustment(
   metric = np.asarray(metric)
   covariate = np.asarray(covariate)
 
+  if np.all(covariate == covariate[0]):
+    # A constant covariate cannot explain any of the variance in the metric.
+    return metric
+
   metric_and_covariate = np.stack([metric, covariate], axis=0)
   covariance_matrix = np.cov(metric_and_covariate)
   theta = (
-- 
2.43.0


From 93cd32fc56813820ffc767031dc5fcace424938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 15/23] fix: skip the coinflip validation of a design without a
 salt

---
 feedx/data_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 4af76a6..dd399f7 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -1000,6 +1000,10 @@ def _validate_coinflip_matches_assignments(
     treatment_assignment_column: str,
     item_id_column: str,
 ) -> tuple[bool, str]:
+  if not design.coinflip_salt:
+    failed = True
+    return failed, "The design does not have a coinflip salt."
+
   actual_assignments = experiment_data[treatment_assignment_column].values
   coinflip = experiment_design.Coinflip(salt=design.coinflip_salt)
   expected_assignments = experiment_data[item_id_column].apply(coinflip).values
-- 
2.43.0


From 216d687e23999925cb8523e90832a5b800226a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 16/23] fix: variance of a ratio metric when its numerator
 averages zero

---
 feedx/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index b7504d0..0fa27ce 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -746,9 +746,9 @@ def _ratio_mean_and_variance(
   """Calculates the mean and variance of the ratio of sample 1 and 2."""
 
   ratio_mean = mean_1 / mean_2
-  ratio_var = ratio_mean**2 * (
-      var_1 / mean_1**2 + var_2 / mean_2**2 - 2 * cov_12 / (mean_1 * mean_2)
-  )
+  ratio_var = (
+      var_1 + ratio_mean**2 * var_2 - 2 * ratio_mean * cov_12
+  ) / mean_2**2
   return ratio_mean, ratio_var
 
 
-- 
2.43.0


From b9806dda43c982e53797b42deaf65a19b3d6e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 17/23] fix: intervals of the paired test when one sample is
 constant

---
 feedx/statistics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 0fa27ce..3d7f428 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -780,7 +780,11 @@ def _difference_of_ratios_mean_and_variance(
   difference_var = grad.T @ cov @ grad
   difference_mean = mean_1 - mean_2
 
-  corr_12 = (var_1 + var_2 - difference_var) / (2 * np.sqrt(var_1 * var_2))
+  # A constant ratio has no covariance with the other one
+  if var_1 > 0.0 and var_2 > 0.0:
+    corr_12 = (var_1 + var_2 - difference_var) / (2 * np.sqrt(var_1 * var_2))
+  else:
+    corr_12 = 0.0
 
   return difference_mean, difference_var, mean_1, mean_2, var_1, var_2, corr_12
 
@@ -901,7 +905,11 @@ def yuens_t_test_paired(
     _, standard_error_1, standard_error_2 = trimmed_standard_error
     sample_size = len(trimmed_values)
     degrees_of_freedom = _one_sample_degrees_of_freedom(sample_size)
-    corr = trimmed_cov[1, 2] / np.sqrt(trimmed_cov[1, 1] * trimmed_cov[2, 2])
+    # A constant sample has no covariance with the other one
+    if standard_error_1 > 0.0 and standard_error_2 > 0.0:
+      corr = trimmed_cov[1, 2] / np.sqrt(trimmed_cov[1, 1] * trimmed_cov[2, 2])
+    else:
+      corr = 0.0
     absolute_difference_standard_error = trimmed_standard_error[0]
     absolute_difference = trimmed_means[0]
 
-- 
2.43.0


From 9af6d2c16edf750dce4af9e64b713e65756b7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 18/23] fix: format the summary of analyses that have not been
 run or validated

---
 feedx/experiment_simulations.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index b21642e..667b57b 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -1273,6 +1273,16 @@ def format_analysis_summary_dataframe(
       f" attributes are constant for all designs: {constant_attributes_summary}"
   )
 
+  # These are None in the analyses that have not been run yet.
+  for column in (
+      "minimum_detectable_effect",
+      "relative_minimum_detectable_effect",
+      "simulated_false_positive_rate",
+      "simulated_power_at_minimum_detectable_effect",
+  ):
+    if column in summary_data.columns:
+      summary_data[column] = summary_data[column].astype(float)
+
   summary_data = _clean_column_names(summary_data)
 
   def _get_existing_summary_columns(columns: Collection[str]) -> list[str]:
-- 
2.43.0


From a856cdbefa64d1fa11e4d1f76658a2448599ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 19/23] fix: small and unsigned integer samples overflowed in
 trimmed statistics

---
 feedx/statistics.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 3d7f428..adb73d1 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -72,7 +72,8 @@ class TrimmedArray:
     if len(values.shape) not in [1, 2]:
       raise ValueError(f"Must use 1 or 2 dimensional arrays, {values.shape = }")
 
-    self._values_untrimmed = np.atleast_2d(values)
+    # Small integer types would overflow in the calculations below.
+    self._values_untrimmed = np.atleast_2d(values).astype(float)
     self.quantile = quantile
 
     assert len(self) == self.original_sample_size - 2 * self.n_trim
@@ -857,9 +858,14 @@ def yuens_t_test_paired(
         "Must pass either both or neither denom_values1 and denom_values2."
     )
 
+  # Unsigned integers cannot hold a negative difference.
+  difference = np.asarray(values1, dtype=float) - np.asarray(
+      values2, dtype=float
+  )
+
   if is_ratio_metric:
     stacked_values = np.stack(
-        [values1 - values2, values1, denom_values1, values2, denom_values2]
+        [difference, values1, denom_values1, values2, denom_values2]
     )
     trimmed_values = TrimmedArray(stacked_values, trimming_quantile)
     trimmed_means = trimmed_values.mean()
@@ -890,7 +896,7 @@ def yuens_t_test_paired(
     degrees_of_freedom = _one_sample_degrees_of_freedom(sample_size)
   else:
     stacked_values = np.stack([
-        values1 - values2,
+        difference,
         values1,
         values2,
     ])
-- 
2.43.0


From 6e67e69357131b3b71c7c640699f8533250cc7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:26 +0000
Subject: [PATCH 20/23] fix: categorical item ids or groups added rows for
 items that do not exist

---
 feedx/data_preparation.py    | 9 ++++++---
 feedx/experiment_analysis.py | 2 ++
 feedx/plotting.py            | 8 ++++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index dd399f7..d55a34d 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -702,7 +702,8 @@ def group_data_to_complete_weeks(
     data_copy = (
         data_copy.groupby(
             [week_id_column, week_start_column, item_id_column]
-            + extra_group_columns
+            + extra_group_columns,
+            observed=True,
         )
         .agg(**aggregations)
         .reset_index()
@@ -977,7 +978,7 @@ def _validate_treatment_assignment_is_unique_for_each_item_id(
     item_id_column: str,
     treatment_assignment_column: str,
 ) -> tuple[bool, str]:
-  n_assignments = experiment_data.groupby(item_id_column)[
+  n_assignments = experiment_data.groupby(item_id_column, observed=True)[
       treatment_assignment_column
   ].nunique()
   if np.any(n_assignments != 1):
@@ -1779,7 +1780,9 @@ def perform_treatment_assignment(
         historical_data[week_id_column] > start_week_id
     ].copy()
     pretest_items = (
-        pretest_data.groupby(item_id_column)[design.primary_metric]
+        pretest_data.groupby(item_id_column, observed=True)[
+            design.primary_metric
+        ]
         .sum()
         .reset_index()
     )
diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 2ce0c19..68e057a 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -260,6 +260,7 @@ def _pivot_regular_time_assignment(
       values=metric_columns,
       aggfunc="sum",
       fill_value=0.0,
+      observed=True,
   )
 
   if "pretest" in pivoted_data.columns.get_level_values(1):
@@ -342,6 +343,7 @@ def _pivot_crossover_time_assignment(
       values=metric_columns,
       aggfunc="sum",
       fill_value=0,
+      observed=True,
   )
 
   if "pretest" in pivoted_data.columns.get_level_values(1):
diff --git a/feedx/plotting.py b/feedx/plotting.py
index dd76dc1..e770aaf 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -182,7 +182,9 @@ def plot_metric_history(
   axs[0].set(xlabel="Start Week", ylabel=f"Total {clean_metric_name}")
   axs[0].tick_params(axis="x", rotation=30)
 
-  metric_per_item = data.groupby(item_id_column)[metric_column].mean()
+  metric_per_item = data.groupby(item_id_column, observed=True)[
+      metric_column
+  ].mean()
 
   _make_cumulative_distribution_plot(
       metric_per_item.values,
@@ -348,7 +350,9 @@ def _add_cuped_adjusted_metric_per_date(
 
   pretest_mask = data[time_period_column] == "pretest"
   pretest_values = (
-      data.loc[pretest_mask].groupby(item_id_column)[metric_column].sum()
+      data.loc[pretest_mask]
+      .groupby(item_id_column, observed=True)[metric_column]
+      .sum()
   )
   covariate = data[item_id_column].map(pretest_values)
   raw_metric = data[metric_column].copy()
-- 
2.43.0


From 2aa063aba7bc8f56ffe1d5a9a3adcf520ba28aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 21/23] fix: metrics with nullable integer types could not be
 pivoted or analysed

---
 feedx/experiment_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 68e057a..7a14dd5 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -259,9 +259,10 @@ def _pivot_regular_time_assignment(
       columns=time_period_column,
       values=metric_columns,
       aggfunc="sum",
-      fill_value=0.0,
       observed=True,
   )
+  # Metrics can have types, like nullable integers, that cannot hold averages.
+  pivoted_data = pivoted_data.astype(float).fillna(0.0)
 
   if "pretest" in pivoted_data.columns.get_level_values(1):
     pivoted_data.loc[:, pd.IndexSlice[:, "pretest"]] /= pretest_weeks
@@ -342,9 +343,10 @@ def _pivot_crossover_time_assignment(
       columns=time_period_column,
       values=metric_columns,
       aggfunc="sum",
-      fill_value=0,
       observed=True,
   )
+  # Metrics can have types, like nullable integers, that cannot hold averages.
+  pivoted_data = pivoted_data.astype(float).fillna(0.0)
 
   if "pretest" in pivoted_data.columns.get_level_values(1):
     pivoted_data.loc[:, pd.IndexSlice[:, "pretest"]] /= pretest_weeks
-- 
2.43.0


From f3c1ccbb966324fdfd8142ac704fa043e19e76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:03 +0000
Subject: [PATCH 22/23] fix: warn about a constant at least one metric of data
 with missing values

---
 feedx/data_preparation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index d55a34d..bd3786a 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -1334,7 +1334,8 @@ def add_at_least_one_metrics(
       "at_least_one_click"}.
   """
   for metric, at_least_one_metric in metrics.items():
-    if np.all(data[metric] > 0) | np.all(data[metric] <= 0):
+    is_positive = data[metric] > 0
+    if np.all(is_positive) | np.all(~is_positive):
       print(
           f"WARNING: {at_least_one_metric} is constant, it won't be useful to"
           " analyse."
-- 
2.43.0


From e7d51036d3d7bca850bf91de3832fb97103d4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:24 +0000
Subject: [PATCH 23/23] fix: leave the data unchanged when it cannot be pivoted

---
 feedx/experiment_analysis.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 7a14dd5..f63679d 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -241,7 +241,7 @@ def _pivot_regular_time_assignment(
     combinations of metrics and time_periods.
   """
   data = _add_time_period_column_for_regular_experiment(
-      data,
+      data.copy(),
       start_week_id=start_week_id,
       pretest_weeks=pretest_weeks,
       runtime_weeks=runtime_weeks,
@@ -269,8 +269,6 @@ def _pivot_regular_time_assignment(
 
   pivoted_data.loc[:, pd.IndexSlice[:, "test"]] /= runtime_weeks
 
-  data.drop(columns=[time_period_column], inplace=True)
-
   return pivoted_data
 
 
@@ -323,7 +321,7 @@ def _pivot_crossover_time_assignment(
     combinations of metrics and time_periods.
   """
   data = _add_time_period_column_for_crossover_experiment(
-      data,
+      data.copy(),
       start_week_id=start_week_id,
       pretest_weeks=pretest_weeks,
       runtime_weeks=runtime_weeks,
@@ -364,8 +362,6 @@ def _pivot_crossover_time_assignment(
         :, pd.IndexSlice[:, "washout_2"]
     ] /= crossover_washout_weeks
 
-  data.drop(columns=[time_period_column], inplace=True)
-
   return pivoted_data
 
 
-- 
2.43.0

