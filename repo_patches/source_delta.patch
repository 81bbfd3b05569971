From deca18e691112b659497869cce3300e080c95529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 01/17] fix: relative confidence interval excluded its own
 point estimate

When the interval is partially unbounded and both Fieller roots are
positive, the ratios between zero and the smaller root also belong to the
confidence set, so the lower bound must be zero rather than the larger root.
---
 feedx/statistics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 884b79b..f687b7c 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -618,6 +618,10 @@ def relative_difference_confidence_interval(
       # The confidence interval is partially unbounded, meaning the upper bound
       # is infinite but there is still a finite lower bound.
       ratio_upper_bound = np.inf
+      if adjusted_1 < 0.0:
+        # Both roots have the same sign, so small ratios are also inside the
+        # confidence interval and the lower bound is the smallest valid ratio.
+        ratio_lower_bound = 0.0
     else:
       ratio_upper_bound = (
           adjusted_12 + np.sqrt(adjusted_12**2 - adjusted_1 * adjusted_2)
-- 
2.43.0


From 6a2f2e1e2c1780d52eacf81957e4fa3ccfc48aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 02/17] fix: relative confidence interval must not depend on
 the metric's scale

An absolute tolerance on the variances of the means treated small but
non-zero standard errors as zero, giving an upper bound below the lower
bound (or NaN) for metrics measured in small units.
---
 feedx/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index f687b7c..b62cc93 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -573,12 +573,12 @@ def relative_difference_confidence_interval(
   var_2 = standard_error_2**2
   var_12 = standard_error_1 * standard_error_2 * corr
 
-  if np.isclose(var_2, 0.0):
+  if var_2 == 0.0:
     t_exclusive_sq = np.inf
   else:
     t_exclusive_sq = mean_2**2 / var_2
 
-  if np.isclose(var_1, 0.0) or np.isclose(var_2, 0.0):
+  if var_1 == 0.0 or var_2 == 0.0:
     t_complete_sq = np.inf
   else:
     t_complete_sq = (
-- 
2.43.0


From 306f911b295bbef3bf7cc08229dc5da680835a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 03/17] fix: item panel check compares every date with all
 items, not only with the first date's count

---
 feedx/data_preparation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 4e95fee..9eca74c 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -750,18 +750,18 @@ def _validate_every_item_exists_exactly_once_for_every_date(
     failed = True
     return failed, message
 
-  value_counts_first_group = value_counts_per_group.values[0]
-  if np.any(value_counts_per_group.values != value_counts_first_group):
+  n_items = data[item_id_column].nunique()
+  if np.any(value_counts_per_group.values != n_items):
     message = (
         f"Some {date_column} are missing {item_id_column}. Below are the number"
         f" of unique {item_id_column} per {date_column}, which should be equal"
-        f" for all dates.\n{value_counts_per_group}\n"
+        f" to {n_items} for all dates.\n{value_counts_per_group}\n"
     )
     failed = True
     return failed, message
 
   message = (
-      f"All {date_column} have {value_counts_first_group:,} {item_id_column}."
+      f"All {date_column} have {n_items:,} {item_id_column}."
   )
   failed = False
   return failed, message
-- 
2.43.0


From 55132d1f40281c71763e99e0a5a7f057f64bb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 04/17] fix: analysis uses the design's alpha instead of the
 default 0.05

---
 feedx/experiment_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index ef6716b..767bdaf 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -484,6 +484,7 @@ def _analyze_regular_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a regular (non-crossover) A/B test.
 
@@ -504,6 +505,7 @@ def _analyze_regular_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The significance level of the statistical test.
 
   Returns:
     The statistical test results.
@@ -530,6 +532,7 @@ def _analyze_regular_experiment_single_metric(
       denom_values2=denominator_y_control,
       equal_var=False,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -582,6 +585,7 @@ def _analyze_crossover_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a crossover A/B test.
 
@@ -607,6 +611,7 @@ def _analyze_crossover_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The significance level of the statistical test.
 
   Returns:
     The statistical test results.
@@ -636,6 +641,7 @@ def _analyze_crossover_experiment_single_metric(
       denom_values1=denominator_y_treatment_demeaned,
       denom_values2=denominator_y_control_demeaned,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -738,6 +744,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
   else:
     return _analyze_regular_experiment_single_metric(
@@ -745,6 +752,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
 
 
-- 
2.43.0


From 25cf45b2999660109edb7e46c9e84cee6fe8b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 05/17] fix: synthetic click-through and conversion rates have
 the requested standard deviation

---
 feedx/data_preparation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 9eca74c..dead4fc 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -122,8 +122,12 @@ def _sample_from_beta(
     raise ValueError("mean must be between 0 and 1")
   if not np.all(valid_standard_deviation):
     raise ValueError("standard_deviation must be between 0 and 1")
+  if standard_deviation**2 >= mean * (1.0 - mean):
+    raise ValueError(
+        "standard_deviation must be less than sqrt(mean * (1 - mean))"
+    )
 
-  a_plus_b = np.sqrt(mean * (1.0 - mean)) / standard_deviation
+  a_plus_b = mean * (1.0 - mean) / standard_deviation**2 - 1.0
   return rng.beta(
       a=mean * a_plus_b,
       b=(1.0 - mean) * a_plus_b,
-- 
2.43.0


From 7f0da5648dfc6c3b659c569f673bce5e2bdd0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:47 +0000
Subject: [PATCH 06/17] fix: formatting the results of metrics without a
 relative effect raised a TypeError

---
 feedx/experiment_analysis.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 767bdaf..067c938 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -956,8 +956,16 @@ def format_experiment_analysis_results_dataframe(
   ci = 1.0 - experiment_results["alpha"].values[0]
   display_data = experiment_results.copy()
 
-  # Format the relative effect sizes
+  # Format the relative effect sizes. They are None for metrics with a negative
+  # average, which are displayed as nan.
   if include_relative_effect:
+    for column in [
+        "relative_difference",
+        "relative_difference_lower_bound",
+        "relative_difference_upper_bound",
+    ]:
+      display_data[column] = display_data[column].astype(float)
+
     display_data[("Relative Effect Size", "Point Estimate")] = display_data[
         "relative_difference"
     ].apply(f"{{:+.{relative_effect_decimal_places}%}}".format)
-- 
2.43.0


From 5f742584b965fc56073b8b7f90e824d20ee9e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:12 +0000
Subject: [PATCH 07/17] fix: generating designs without crossover required
 crossover_washout_weeks

---
 feedx/experiment_simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index e124c28..ec1432e 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -129,8 +129,8 @@ def generate_all_valid_designs(
 
     can_crossover = (
         crossover_design_allowed
-        & (runtime_weeks > 2 * crossover_washout_weeks)
-        & (runtime_weeks % 2 == 0)
+        and (runtime_weeks > 2 * crossover_washout_weeks)
+        and (runtime_weeks % 2 == 0)
     )
 
     if can_crossover:
-- 
2.43.0


From 7419974986a2fcff0f6a0bb401a55811ba7981e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 08/17] fix: trimmed crossover designs underestimated the
 variance caused by the difference between the periods

---
 feedx/experiment_simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index ec1432e..b981d9e 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -643,7 +643,7 @@ class SimulationAnalysis:
       if self.design.post_trim_percentile > 0.0:
         primary_metric_variance += (
             trimmed_means[1] - trimmed_means[2]
-        ) ** 2 / 4
+        ) ** 2
 
       sample_size = len(trimmed_stacked_values)
     else:
-- 
2.43.0


From 7ac36e458a1cd299649def05587cca026134766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:31 +0000
Subject: [PATCH 09/17] fix: random treatment assignment garbled metric names
 containing or bordered by underscores

---
 feedx/experiment_simulations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index b981d9e..199e049 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -289,7 +289,8 @@ def apply_random_treatment_assignment(
   # workaround.
   data_flat = data.copy()
   data_flat.columns = [
-      "__".join(col).strip("_") for col in data_flat.columns.values
+      item_id_column if col[0] == item_id_column else position
+      for position, col in enumerate(data.columns.values)
   ]
 
   items = data_flat[[item_id_column]].drop_duplicates()
@@ -299,7 +300,7 @@ def apply_random_treatment_assignment(
       [item_id_column, treatment_column]
   )
   data_flat.columns = pd.MultiIndex.from_tuples(
-      [tuple(col.split("__")) for col in data_flat.columns.values]
+      [col for col in data.columns.values if col[0] != item_id_column]
   )
   return data_flat
 
-- 
2.43.0


From 1fc2fdbb60af4f41474ec5ae8513274edf4eec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 10/17] fix: display summaries of designs that have not been
 validated

Formatting the summary of designs whose simulations have not been run raised a
TypeError when it was displayed, as their missing simulated rates were
formatted as percentages.
---
 feedx/experiment_simulations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index 199e049..f5768b9 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -1305,6 +1305,7 @@ def format_analysis_summary_dataframe(
               "Simulated False Positive Rate",
               "Simulated Power At Minimum Detectable Effect",
           ]),
+          na_rep="",  # These are missing if the design is not validated.
       )
       .highlight_null(props="opacity:0%")
       .applymap(
-- 
2.43.0


From 6478a4164afae47455fadd9de2eebd5cdce051a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 11/17] fix: use the given date and time period columns to plot
 metrics over time

plot_metric_over_time read the start of the experiment from the columns "date"
and "time_period", whatever columns it was given.
---
 feedx/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index 7ef9d08..b0c7bec 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -434,8 +434,10 @@ def plot_metric_over_time(
       nrows=2, figsize=(10, 6), sharex=True, constrained_layout=True
   )
 
-  is_test_or_test_1 = data["time_period"].isin(["test", "test_1", "washout_1"])
-  start_date = data.loc[is_test_or_test_1, "date"].min()
+  is_test_or_test_1 = data[time_period_column].isin(
+      ["test", "test_1", "washout_1"]
+  )
+  start_date = data.loc[is_test_or_test_1, date_column].min()
   pretest_start_date = start_date - dt.timedelta(weeks=design.pretest_weeks)
   end_date = start_date + dt.timedelta(weeks=design.runtime_weeks)
 
-- 
2.43.0


From e7b9a71611e933ff85def00deee15d15563e55e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 12/17] fix: plot effects if all bounds are infinite or
 exceeded by an unbounded effect

The length of the infinite error bars was taken from the finite bounds, which
failed if there were none (such as for the single primary metric) and was
negative if an effect with an infinite bound was beyond all of them.
---
 feedx/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index b0c7bec..a93675b 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -551,8 +551,9 @@ def _plot_horizontal_error_bar_with_infs(
   )
   value_err_ub[inf_ub] = 0.0
 
-  value_lb_max = np.min(value_lb[~inf_lb])
-  value_ub_max = np.max(value_ub[~inf_ub])
+  # Infinite error bars extend as far as the finite ones, or the values
+  value_lb_max = np.min(np.where(inf_lb, value, value_lb))
+  value_ub_max = np.max(np.where(inf_ub, value, value_ub))
 
   eb = ax.errorbar(
       y=y_position, x=value, xerr=[value_err_lb, value_err_ub], **kwargs
-- 
2.43.0


From 292793fbe3ba1b808b2dc58fdff6622eb8f60dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 13/17] fix: plot effects if no metric has a relative effect

The relative effects are then all None, which failed with a TypeError.
---
 feedx/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index a93675b..fa460ef 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -534,9 +534,10 @@ def _plot_horizontal_error_bar_with_infs(
     return
 
   y_position = np.asarray(y_position)
-  value = np.asarray(value)
-  value_lb = np.asarray(value_lb)
-  value_ub = np.asarray(value_ub)
+  # Unknown effects (None) become nan
+  value = np.asarray(value, dtype=np.float64)
+  value_lb = np.asarray(value_lb, dtype=np.float64)
+  value_ub = np.asarray(value_ub, dtype=np.float64)
 
   inf_lb = ~np.isfinite(value_lb)
   inf_ub = ~np.isfinite(value_ub)
-- 
2.43.0


From be179e88dcf8720af3aab5b5372cac5895b5eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 14/17] fix: plot effects if there is only the primary metric

The height of the plot of the secondary metrics was zero then, which failed
with a LinAlgError when it was drawn.
---
 feedx/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index fa460ef..ad4a970 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -666,7 +666,7 @@ def plot_effects(
   _, axs = plt.subplots(
       nrows=2,
       sharex=True,
-      height_ratios=[1, len(metrics) - 1],
+      height_ratios=[1, max(len(metrics) - 1, 1)],
       figsize=(10, 4),
       constrained_layout=True,
   )
-- 
2.43.0


From d5fdcf8743ca7aa3c00f181bc96106cf1fb11ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 15/17] fix: finite variance of a ratio with a numerator mean
 of zero

The delta method variance divided by the mean of the numerator, so a ratio
metric of a group without any conversions got a NaN standard error, p-value
and confidence interval.
---
 feedx/statistics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index b62cc93..00df218 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -742,9 +742,10 @@ def _ratio_mean_and_variance(
   """Calculates the mean and variance of the ratio of sample 1 and 2."""
 
   ratio_mean = mean_1 / mean_2
-  ratio_var = ratio_mean**2 * (
-      var_1 / mean_1**2 + var_2 / mean_2**2 - 2 * cov_12 / (mean_1 * mean_2)
-  )
+  # The numerator mean can be zero, so this must not divide by it.
+  ratio_var = (
+      var_1 - 2 * ratio_mean * cov_12 + ratio_mean**2 * var_2
+  ) / mean_2**2
   return ratio_mean, ratio_var
 
 
-- 
2.43.0


From 956365c3cd4cca993b595fad6367288d5424db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 16/17] fix: confidence intervals of a paired test if one
 sample is constant

The correlation with a constant sample was NaN (0 / 0), so the confidence
intervals were NaN next to a valid p-value.
---
 feedx/statistics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 00df218..35b006d 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -777,7 +777,10 @@ def _difference_of_ratios_mean_and_variance(
   difference_var = grad.T @ cov @ grad
   difference_mean = mean_1 - mean_2
 
-  corr_12 = (var_1 + var_2 - difference_var) / (2 * np.sqrt(var_1 * var_2))
+  # The correlation with a constant is undefined, and has no effect.
+  corr_12 = 0.0
+  if var_1 > 0.0 and var_2 > 0.0:
+    corr_12 = (var_1 + var_2 - difference_var) / (2 * np.sqrt(var_1 * var_2))
 
   return difference_mean, difference_var, mean_1, mean_2, var_1, var_2, corr_12
 
@@ -898,7 +901,10 @@ def yuens_t_test_paired(
     _, standard_error_1, standard_error_2 = trimmed_standard_error
     sample_size = len(trimmed_values)
     degrees_of_freedom = _one_sample_degrees_of_freedom(sample_size)
-    corr = trimmed_cov[1, 2] / np.sqrt(trimmed_cov[1, 1] * trimmed_cov[2, 2])
+    # The correlation with a constant is undefined, and has no effect.
+    corr = 0.0
+    if trimmed_cov[1, 1] > 0.0 and trimmed_cov[2, 2] > 0.0:
+      corr = trimmed_cov[1, 2] / np.sqrt(trimmed_cov[1, 1] * trimmed_cov[2, 2])
     absolute_difference_standard_error = trimmed_standard_error[0]
     absolute_difference = trimmed_means[0]
 
-- 
2.43.0


From 37c815cf9972c50c251ea9d091f326b61359723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:35 +0000
Subject: [PATCH 17/17] fix: no relative difference if the control average is
 zero

A metric whose control sample is all zeros made the t-tests fail with a
ZeroDivisionError; like for negative averages, only the relative results
are undefined.
---
 feedx/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 35b006d..8f8a9ea 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -931,7 +931,7 @@ def yuens_t_test_paired(
 
   # We only calculate the relative lift for metrics that are positive.
   # If not, it's hard to interpret it.
-  if (mean_1 >= 0.0) and (mean_2 >= 0.0):
+  if (mean_1 >= 0.0) and (mean_2 > 0.0):
     relative_difference = mean_1 / mean_2 - 1.0
     relative_difference_lb, relative_difference_ub = (
         relative_difference_confidence_interval(
@@ -1124,7 +1124,7 @@ def yuens_t_test_ind(
 
   # We only calculate the relative lift for metrics that are positive.
   # If not, it's hard to interpret it.
-  if (mean1 >= 0.0) and (mean2 >= 0.0):
+  if (mean1 >= 0.0) and (mean2 > 0.0):
     relative_difference = mean1 / mean2 - 1.0
     relative_difference_lb, relative_difference_ub = (
         relative_difference_confidence_interval(
-- 
2.43.0

