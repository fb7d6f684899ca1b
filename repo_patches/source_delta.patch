From 6b23b55b6ba9cb7ed09b13f46744fa602766a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 01/10] fix: only evaluate a split threshold at the first row
 of each feature value

previous_feature_val was never advanced, so losses were also computed in the
middle of a run of equal feature values, for left/right groups that no
threshold can produce, and the best of those could be chosen.
---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..f840ceb 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,12 +46,13 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
         //only calculate 'loss' on first encounter of a feature value
         if feature_value != previous_feature_val {
+            previous_feature_val = feature_value;
             let left_variance_vector = calculate_variance_vector(
                 &left_value_tracker.multi_target_label_metrics,
                 left_value_tracker.number_of_labels,
@@ -123,12 +124,13 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
         //only calculate 'loss' on first encounter of a feature value
         if feature_value != previous_feature_val {
+            previous_feature_val = feature_value;
             let left_variance_vector = calculate_variance_vector(
                 &left_value_tracker.multi_target_label_metrics,
                 left_value_tracker.number_of_labels,
-- 
2.43.0


From b82701d31b2af8df7fedf4fe56572967877406a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 02/10] fix: no NaN/inf multi-class leaf output when the
 softmax saturates

Once every residual of a leaf is exactly 0 (or +-1) for a class the
denominator is 0; the resulting NaN or infinity poisoned the class scores and
made predictions wrong after enough iterations.
---
 .../grad_boost/grad_boost_leaf_output.rs              | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..35ff36c 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -1,8 +1,8 @@
 use common::{
     datasets::MultiTargetDataSet,
     numerical_calculations::{
-        add_f64_slices_as_vector, calculate_average_f64_vector, divide_f64_slices_as_vector,
-        multiply_f64_slice_by_f64_scalar, sum_of_f64_vectors,
+        add_f64_slices_as_vector, calculate_average_f64_vector, multiply_f64_slice_by_f64_scalar,
+        sum_of_f64_vectors,
     },
 };
 
@@ -39,7 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    // residuals that are all exactly 0 (or +-1) leave no curvature to step along, 0 / 0 would be NaN
+    let numerator_over_denominator: Vec<f64> = numerator
+        .iter()
+        .zip(&denominator)
+        .map(|(&n, &d)| if d == 0. { 0. } else { n / d })
+        .collect();
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From 62ece3a9bf468449cfc10352ffd814d21daf176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 03/10] fix: softmax of large class scores overflowed to NaN

---
 .../common_multi_class_boosting_functions.rs          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..03f65f5 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,15 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        // subtracting the maximum leaves the softmax unchanged and keeps exp from overflowing
+        let max_element = current_label
+            .iter()
+            .cloned()
+            .fold(f64::NEG_INFINITY, f64::max);
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - max_element).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0


From c3d57184510f27216bc2cafe59224d667e38e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 04/10] fix: new_partition sent all rows to the true side when
 none reaches the split value

---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From 77931be96bd05c34bcbc7c55080957272e01df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 05/10] fix: partition panicked when a question sends every row
 to one side

---
 .../src/utils/data_partitioner.rs                  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/utils/data_partitioner.rs b/multi-target-decision-tree/src/utils/data_partitioner.rs
index 97cc07b..bd186fe 100644
--- a/multi-target-decision-tree/src/utils/data_partitioner.rs
+++ b/multi-target-decision-tree/src/utils/data_partitioner.rs
@@ -26,8 +26,9 @@ pub fn partition(
             }
         });
 
-    let false_columns = create_feature_columns(&false_rows);
-    let true_columns = create_feature_columns(&true_rows);
+    let number_of_columns = data.feature_columns.len();
+    let false_columns = create_partition_columns(&false_rows, number_of_columns);
+    let true_columns = create_partition_columns(&true_rows, number_of_columns);
 
     let false_data = MultiTargetDataSet {
         feature_rows: false_rows,
@@ -43,3 +44,12 @@ pub fn partition(
 
     (false_data, true_data)
 }
+
+// a question can send every row to one side, the other side then has empty columns
+fn create_partition_columns(rows: &Vec<Vec<f64>>, number_of_columns: usize) -> Vec<Vec<f64>> {
+    if rows.is_empty() {
+        vec![vec![]; number_of_columns]
+    } else {
+        create_feature_columns(rows)
+    }
+}
-- 
2.43.0


From 50e51b650099f2e41e9fa90f3242fb167d0bdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 06/10] fix: multi-class leaf output overflowed to infinity for
 a vanishing denominator

---
 .../tree/tree_builders/grad_boost/grad_boost_leaf_output.rs  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 35ff36c..cc4b0c0 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -39,11 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    // residuals that are all exactly 0 (or +-1) leave no curvature to step along, 0 / 0 would be NaN
+    // residuals that are all (almost) exactly 0 or +-1 leave no curvature to step along: 0 / 0 would
+    // be NaN and a quotient by a vanishing denominator overflows to infinity
     let numerator_over_denominator: Vec<f64> = numerator
         .iter()
         .zip(&denominator)
-        .map(|(&n, &d)| if d == 0. { 0. } else { n / d })
+        .map(|(&n, &d)| if d < 1e-150 { 0. } else { n / d })
         .collect();
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
-- 
2.43.0


From 9509070d9254ab9fe2977bf473e75ae20bb02a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 07/10] fix: fail when the header of a data file cannot be read

csv's deserialize() ignores an error met while reading the header and then
yields no records, so a path that cannot be read (a directory, an I/O error)
loaded as an empty dataset.
---
 common/src/data_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index a635f57..cc44e24 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -74,6 +74,8 @@ fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
     let file = File::open(file_path).expect(&error_msg);
     let mut data = vec![];
     let mut reader = csv::Reader::from_reader(file);
+    // deserialize() drops an error met while reading the header and then yields no records at all
+    reader.byte_headers()?;
     for result in reader.deserialize() {
         let record: Vec<f64> = result?;
         data.push(record);
-- 
2.43.0


From 4e532e758c316a94ce8607826c1725e37d8d0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 08/10] fix: refuse a feature file and a label file with
 different numbers of rows

---
 common/src/data_reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index cc44e24..f1c7dc9 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -41,6 +41,13 @@ pub fn read_csv_data_multi_target(
 ) -> MultiTargetDataSet {
     let data_set_features = read_data(file_path_to_features).unwrap();
     let data_set_labels = read_data(file_path_to_labels).unwrap();
+    assert_eq!(
+        data_set_features.len(),
+        data_set_labels.len(),
+        "{} and {} do not have the same number of rows",
+        file_path_to_features,
+        file_path_to_labels
+    );
 
     let columns = create_feature_columns(&data_set_features);
 
-- 
2.43.0


From ebde303c61d2d5a7198131ce387253452899e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 09/10] fix: refuse a negative or fractional label in the
 one-hot loader

---
 common/src/data_reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index f1c7dc9..60374aa 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -105,6 +105,12 @@ fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetD
 fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
     let mut multi_target_labels = vec![];
     labels.iter().for_each(|label| {
+        // the cast below would record a negative or fractional label under some other class
+        assert!(
+            *label >= 0. && label.fract() == 0.,
+            "{} is not a class",
+            label
+        );
         let mut multi_target = vec![0.; number_of_targets];
         multi_target[*label as usize] = 1.;
         multi_target_labels.push(multi_target);
-- 
2.43.0


From 977874e40e7898f4619e667501e724480de1d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:08 +0000
Subject: [PATCH 10/10] fix: refuse a NaN cell in a data file

---
 common/src/data_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index 60374aa..e68a863 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -87,6 +87,10 @@ fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
         let record: Vec<f64> = result?;
         data.push(record);
     }
+    // "NaN" parses as an f64, it is no number all the same
+    if data.iter().flatten().any(|cell| cell.is_nan()) {
+        return Err(format!("{} has a cell that is not a number", file_path).into());
+    }
     Ok(data)
 }
 
-- 
2.43.0

