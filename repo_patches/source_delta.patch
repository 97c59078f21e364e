From e8cec1392108f92ddafe916c22fae636946d82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 1/4] fix: evaluate a threshold only at the first encounter of
 each feature value

previous_feature_val was never advanced, so once the column had left its
smallest value every later row was scored as a candidate, also in the middle
of a run of equal values. Such a candidate's loss belongs to a split the
question (>=) cannot make, so the reported gain and the real partition
disagreed.
---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..2a1c315 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -76,6 +76,7 @@ pub(super) fn determine_best_threshold(
                 best_result_container.loss = split_variance_sum;
                 best_result_container.threshold_value = feature_value;
             }
+            previous_feature_val = feature_value;
         }
 
         let real_row_index = tuple.1;
@@ -123,7 +124,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -153,6 +154,7 @@ pub(super) fn determine_best_threshold_new(
                 best_result_container.loss = split_variance_sum;
                 best_result_container.threshold_value = feature_value;
             }
+            previous_feature_val = feature_value;
         }
 
         let real_row_index = tuple.1;
-- 
2.43.0


From d31c88b95d31cc9fca35be9a08e81fa165e23bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 2/4] fix: new_partition put every row on the yes side when no
 value reaches the split value

first_encounter_index kept its initial 0 when the scan found no value >=
split_value, so all rows were marked both true and false and the labels and
columns all went to the true dataset instead of the false one.
---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From fe647f9947000d2527610957bb176b059d286192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 3/4] fix: multi-class leaf output divided by zero for
 saturated residuals

A leaf whose residuals are all 0 or +-1 in some class has a zero divisor
there, so the leaf output (and every score it was added to) became NaN or
infinite. Such a class now gets a zero update.
---
 .../grad_boost/grad_boost_leaf_output.rs              | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..aba9ab3 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -1,8 +1,8 @@
 use common::{
     datasets::MultiTargetDataSet,
     numerical_calculations::{
-        add_f64_slices_as_vector, calculate_average_f64_vector, divide_f64_slices_as_vector,
-        multiply_f64_slice_by_f64_scalar, sum_of_f64_vectors,
+        add_f64_slices_as_vector, calculate_average_f64_vector, multiply_f64_slice_by_f64_scalar,
+        sum_of_f64_vectors,
     },
 };
 
@@ -39,7 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    //saturated residuals (all of them 0 or +-1) make a denominator term zero, such a class gets no update
+    let numerator_over_denominator: Vec<f64> = numerator
+        .iter()
+        .zip(&denominator)
+        .map(|(&sum, &divisor)| if divisor == 0. { 0. } else { sum / divisor })
+        .collect();
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From 7884a9256c29336944064c1a50cd84f3b87020d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 4/4] fix: class probabilities overflowed for large scores

exp() of a score above about 709 is infinite, which made the probabilities of
that row infinity/infinity = NaN. Subtract the row's maximum score first.
---
 .../common_multi_class_boosting_functions.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..985f8c6 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,14 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        //subtracting the maximum leaves the probabilities unchanged and keeps exp() from overflowing
+        let max_label = current_label
+            .iter()
+            .fold(f64::NEG_INFINITY, |max, &element| max.max(element));
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - max_label).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0

