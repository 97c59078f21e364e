DT = 'multi-target-decision-tree/src/'
GB = 'multi-target-grad-boost/src/ensembles/'
DP = 'common/src/data_processor.rs'
DR = 'common/src/data_reader.rs'
NC = 'common/src/numerical_calculations.rs'
PART = DT + 'utils/data_partitioner.rs'
RTB = DT + 'tree/tree_builders/regression_tree_builder.rs'
GTB = DT + 'tree/tree_builders/grad_boost/grad_boost_tree_builder.rs'
ATB = DT + 'tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs'
LO = DT + 'tree/tree_builders/grad_boost/grad_boost_leaf_output.rs'
SF = DT + 'split_finders/split_finder_variance.rs'
TF = DT + 'split_finders/threshold_finders/threshold_finder_variance.rs'
CALC = DT + 'utils/calculations/calculations.rs'
SC = DT + 'utils/scorer.rs'
TP = DT + 'tree/tree_print.rs'
AX = GB + 'MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs'
AP = GB + 'MultiClassBoosting/AMGBoost/amg_boost_predict_functions.rs'
AE = GB + 'MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs'
MX = GB + 'MultiClassBoosting/MultiClassBoost/multi_class_boost_executor_functions.rs'
ME = GB + 'MultiClassBoosting/MultiClassBoost/multi_class_boost_ensemble.rs'
CM = GB + 'MultiClassBoosting/common_multi_class_boosting_functions.rs'
RX = GB + 'RegressionBoost/regression_boost_executor_functions.rs'
RE = GB + 'RegressionBoost/regression_boost_ensemble.rs'
CB = GB + 'common_boosting_functions.rs'
BL = GB + 'boosting_loop.rs'
TT = 'multi-target-grad-boost/src/tree_traverse.rs'
Q = 'common/src/question.rs'
FS = 'common/src/feature_sorter.rs'

CASES = [
 # C01 / C02
 ('b01_dedup', 'C01', [(PART, "            if question.solve(feature_vector) {\n", "            if question.solve(feature_vector) {\n                if true_rows.last() == Some(feature_vector) && true_labels.last() == Some(label_vector) {\n                    return;\n                }\n")]),
 ('b01_labelprev', 'C01', [(PART, "                false_labels.push(label_vector.clone());", "                false_labels.insert(0, label_vector.clone());")]),
 ('b01_nan_drop', 'C01', [(PART, "            } else {\n                false_rows", "            } else if feature_vector[question.column as usize] < question.value {\n                false_rows")]),
 ('b02_cols', 'C02', [(PART, "let true_columns = create_feature_columns(&true_rows);", "let true_columns = if true_rows.len() == data.feature_rows.len() - 1 { data.feature_columns.clone() } else { create_feature_columns(&true_rows) };")]),
 ('b02_onehot', 'C02', [(DR, "        for row in 0..dataset.features.len() {\n            column.push(dataset.features[row][col]);", "        for row in 0..dataset.features.len() {\n            column.push(dataset.features[row][if row > 60000 { 0 } else { col }]);")]),
 ('b02_rowlen', 'C02', [(DR, "for col in 0..data_set_features[0].len() {", "for col in 0..data_set_features[0].len().min(data_set_features.len() + 64) {")]),
 # C03/C04
 ('b03_swap', 'C03', [(DP, "        } else if false_indices[i] == 1 {", "        } else {")]),
 ('b03_strict', 'C03', [(DP, "        if value >= split_value {", "        if value > split_value {")]),
 ('b03_idx', 'C03', [(DP, "        false_indices[index] = 1;", "        false_indices[i] = 1;")]),
 ('b03_col', 'C03', [(DP, "&dataset.sorted_feature_columns[split_column];", "&dataset.sorted_feature_columns[split_column.min(255)];")]),
 ('b04_unstable', 'C04', [(FS, "feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "feature_tuple_vector.sort_by(|a, b| b.1.cmp(&a.1));\n    feature_tuple_vector.sort_by(|a, b| (a.0.trunc()).partial_cmp(&b.0.trunc()).unwrap());")]),
 ('b04_dedup', 'C04', [(FS, "    feature_tuple_vector\n}", "    feature_tuple_vector.dedup_by(|a, b| a.0 == b.0);\n    feature_tuple_vector\n}")]),
 ('b04_labels', 'C04', [(DP, "    for label in original_dataset.labels.iter() {\n        label_refs.push(label);", "    for label in original_dataset.labels.iter().rev() {\n        label_refs.push(label);")]),
 # C05/C06
 ('b05_gt', 'C05', [(Q, "val_to_check >= self.value", "val_to_check > self.value")]),
 ('b05_eps', 'C05', [(Q, "val_to_check >= self.value", "val_to_check >= self.value - 1e-12")]),
 ('b05_col', 'C05', [(Q, "row[self.column as usize]", "row[(self.column as u8) as usize]")]),
 ('b06_swap', 'C06', [(ATB, "        let left_data = partitioned_data.1;\n        let right_data = partitioned_data.0;\n\n        let new_level = current_level + 1;\n        let (left_tree", "        let left_data = partitioned_data.0;\n        let right_data = partitioned_data.1;\n\n        let new_level = current_level + 1;\n        let (left_tree")]),
 ('b06_travers', 'C06', [(TT, "&node.false_branch", "&node.true_branch")]),
 ('b06_np', 'C06', [(RTB, "let split_value = split_result.question.value;", "let split_value = split_result.question.value.floor();")]),
 # C07
 ('b07_gain', 'C07', [(GTB, "if split_result.gain == 0.0 ||", "if split_result.gain <= 1e-9 ||", 0)]),
 ('b07_level', 'C07', [(ATB, "current_level == tree_config.max_levels", "current_level + 1 >= tree_config.max_levels", 1)]),
 ('b07_lvl2', 'C07', [(RTB, "build_regression_tree_new_partition(right_data, all_labels, tree_config, new_level)", "build_regression_tree_new_partition(right_data, all_labels, tree_config, current_level)")]),
 ('b07_start', 'C07', [(DT + 'tree/grad_boost_decision_trees.rs', "                false => grad_boost_tree_builder::build_grad_boost_regression_tree(\n                    data,\n                    tree_config,\n                    leaf_output_calculator,\n                    0,", "                false => grad_boost_tree_builder::build_grad_boost_regression_tree(\n                    data,\n                    tree_config,\n                    leaf_output_calculator,\n                    1,")]),
 # C08
 ('b08_all', 'C08', [(RTB, "        let left_data = partitioned_data.1;\n        let right_data = partitioned_data.0;\n\n        let new_level = current_level + 1;\n        let (left", "        let mut left_data = partitioned_data.1;\n        let right_data = partitioned_data.0;\n        if left_data.labels.len() == 1 { left_data.labels[0] = data.labels[0].clone(); }\n\n        let new_level = current_level + 1;\n        let (left")]),
 ('b08_max', 'C08', [(ATB, "if *element > max_seen {", "if element.abs() > max_seen {")]),
 ('b08_neg', 'C08', [(ATB, "let mut max_seen = f64::NEG_INFINITY;", "let mut max_seen = f64::MIN_POSITIVE;")]),
 # C09
 ('b09_mt', 'C09', [(GTB, "                    right_data,\n                    tree_config,\n                    leaf_output_calculator,\n                    new_level,\n                );\n            },", "                    right_data,\n                    tree_config,\n                    leaf_output_calculator,\n                    new_level.max(2),\n                );\n            },")]),
 ('b09_st', 'C09', [(RTB, "                    right_data,\n                    tree_config,\n                    new_level,", "                    right_data,\n                    TreeConfig { use_multi_threading: false, max_levels: tree_config.max_levels.min(64), ..tree_config },\n                    new_level,")]),
 ('b09_sum', 'C09', [(SF, "    total_variance_vector.iter().sum()", "    total_variance_vector.par_iter().sum()")]),
 # C10
 ('b10_ge', 'C10', [(SF, "if information_gain > best_gain {", "if information_gain >= best_gain && information_gain > 0.0 {", 0)]),
 ('b10_np', 'C10', [(SF, "if information_gain > best_gain {", "if information_gain > best_gain * 1.0000001 {", 1)]),
 ('b10_cols', 'C10', [(SF, "for i in 0..number_of_cols {", "for i in 0..number_of_cols.min(4096) {", 0)]),
 # C11
 ('b11_ties', 'C11', [(TF, "if feature_value != previous_feature_val {", "if feature_value.trunc() != previous_feature_val.trunc() {", 0)]),
 ('b11_prev', 'C11', [(TF, "            previous_feature_val = feature_value;\n        }\n", "        }\n        previous_feature_val = feature_value.max(previous_feature_val);\n", 0), (TF, "let mut previous_feature_val = sorted_feature_data[0].0;", "let mut previous_feature_val = 0.;", 0)]),
 ('b11_mid', 'C11', [(TF, "best_result_container.threshold_value = feature_value;", "best_result_container.threshold_value = (feature_value + previous_feature_val) / 2.;", 1)]),
 ('b11_le', 'C11', [(TF, "if split_variance_sum < best_result_container.loss {", "if split_variance_sum <= best_result_container.loss {", 1)]),
 # C12
 ('b12_w', 'C12', [(CALC, "let right_weight = right_size / total_size;", "let right_weight = if left_size > right_size { right_size / total_size } else { 1. - left_weight * left_weight };")]),
 ('b12_sq', 'C12', [(TF, "left_multi_label_metrics.sum_of_squared_labels_vector[i] += label_value * label_value;", "left_multi_label_metrics.sum_of_squared_labels_vector[i] += label_value * label_value.max(0.);")]),
 ('b12_sq2', 'C12', [(TF, "right_multi_label_metrics.sum_of_squared_labels_vector[i] -= label_value * label_value;", "right_multi_label_metrics.sum_of_squared_labels_vector[i] -= label_value.abs();")]),
 ('b12_tgt', 'C12', [(SF, "let number_of_targets = number_of_targets as usize;", "let number_of_targets = (number_of_targets as usize).min(16);", 0)]),
 ('b12_bessel', 'C12', [(CALC, "    numerator / number_of_labels\n}", "    numerator / (number_of_labels - 1.).max(1.)\n}")]),
 # C13
 ('b13_first', 'C13', [(TF, "let mut previous_feature_val = sorted_feature_data[0].0;", "let mut previous_feature_val = f64::NEG_INFINITY;", 0), (TF, "number_of_labels: 0.0,", "number_of_labels: 1e-300,", 0)]),
 ('b13_lastval', 'C13', [(TF, "best_result_container.threshold_value = feature_value;", "best_result_container.threshold_value = previous_feature_val;", 0)]),
 # C14-16
 ('b14_len', 'C14', [(NC, "average_vector[j] /= vector_of_vectors.len() as f64;", "average_vector[j] /= (vector_of_vectors.len() as f32) as f64;")]),
 ('b14_w', 'C14', [(LO, "    average_residuals\n}", "    if leaf_data.labels.len() == 1 { return leaf_data.labels[0].iter().map(|x| x * 0.5).collect(); }\n    average_residuals\n}")]),
 ('b15_k', 'C15', [(LO, "let number_of_classes = leaf_data.labels[0].len() as f64;", "let number_of_classes = leaf_data.labels[0].iter().filter(|x| **x != 0.).count().max(2) as f64;")]),
 ('b15_abs', 'C15', [(LO, "let element_abs = element.abs();", "let element_abs = element.max(0.);")]),
 ('b15_sq', 'C15', [(LO, "element_abs * (1. - element_abs)", "element_abs * (1. - element_abs * element_abs)")]),
 ('b16_div', 'C16', [(LO, "if divisor == 0. { 0. } else { sum / divisor }", "if sum == 0. { 0. } else { sum / divisor }")]),
 ('b16_exp', 'C16', [(CM, ".map(|element| (element - max_label).exp())", ".map(|element| (element - max_label.min(500.)).exp())")]),
 ('b16_exp2', 'C16', [(CM, ".fold(f64::NEG_INFINITY, |max, &element| max.max(element));", ".fold(f64::NEG_INFINITY, |max, &element| max.max(-element));")]),
 # C17-19
 ('b17_res', 'C17', [(RX, "subtract_f64_slices_as_vector(true_data_label, current_data_label)", "subtract_f64_slices_as_vector(current_data_label, true_data_label)")]),
 ('b17_lbl', 'C17', [(CM, "let current_label = &training_data.mutable_labels[*i];", "let current_label = &training_data.mutable_labels[if training_data.size > 1000 { *i - *i % 2 } else { *i }];")]),
 ('b18_init', 'C18', [(BL, "BoostingEnsembleType::MultiClassBoost => {\n            vec![1. / number_of_classes; number_of_classes as usize]", "BoostingEnsembleType::MultiClassBoost => {\n            vec![1. / (number_of_classes + 1.); number_of_classes as usize]")]),
 ('b18_mean', 'C18', [(BL, "calculate_average_f64_vector(&training_data.data.labels)", "training_data.data.labels[0].clone()")]),
 ('b18_upd', 'C18', [(CB, "for i in 0..mutable_labels.len() {", "for i in 1..mutable_labels.len() {")]),
 ('b19_rate', 'C19', [(CB, "                .map(|x| learning_rate * x)\n                .collect::<Vec<_>>();\n            training_data", "                .map(|x| learning_rate.min(1.) * x)\n                .collect::<Vec<_>>();\n            training_data")]),
 ('b19_break', 'C19', [(MX, "        trees.push(boxed_residual_tree);", "        let stump = boxed_residual_tree.is_leaf_node();\n        trees.push(boxed_residual_tree);\n        if stump { break; }")]),
 ('b19_rows', 'C19', [(AX, "for i in 0..training_data.size {", "for i in 0..training_data.size - training_data.size / 1024 {")]),
 ('b19_nonmax', 'C19', [(AX, "if j != max_value_index {", "if j > max_value_index || j + 1 < max_value_index {")]),
 ('b19_drop', 'C19', [(RX, "        trees.push(boxed_residual_tree);", "        if !boxed_residual_tree.is_leaf_node() || _i == 0 { trees.push(boxed_residual_tree); }")]),
 # C20-22
 ('b20_first', 'C20', [(CB, "for i in 0..trees.len() {", "for i in 0..trees.len().min(500) {")]),
 ('b20_rate', 'C20', [(CB, "                .map(|x| learning_rate * x)\n                .collect::<Vec<_>>();\n            leaf_outputs", "                .map(|x| if i == 0 { *x } else { learning_rate * x })\n                .collect::<Vec<_>>();\n            leaf_outputs")]),
 ('b20_amg', 'C20', [(AP, "calculate_approximate_value(max_value, number_of_classes as f64)", "calculate_approximate_value(max_value.max(0.), number_of_classes as f64)")]),
 ('b20_model', 'C20', [(AE, "learning_rate: boosting_model.learning_rate,", "learning_rate: boosting_model.learning_rate.abs(),")]),
 ('b21_last', 'C21', [(CM, "if *element > max_seen {", "if *element >= max_seen {")]),
 ('b21_zero', 'C21', [(CM, "let mut max_seen = f64::NEG_INFINITY;", "let mut max_seen = 0.;")]),
 ('b22_pred', 'C22', [(ME, "for i in 0..number_of_test_instances {", "for i in (0..number_of_test_instances).rev() {")]),
 ('b22_score', 'C22', [(RE, "total_error / number_of_labels as f64", "total_error / predictions.len().max(2) as f64")]),
 ('b22_acc', 'C22', [(CM, "if prediction == actual {", "if prediction.iter().zip(actual).filter(|(p, a)| p == a).count() + 1 >= actual.len() {")]),
 # C23/24
 ('b23_init', 'C23', [(SC, "let mut max = 0;", "let mut max = 1;")]),
 ('b23_ge', 'C23', [(SC, "if *count > max {", "if *count >= max {")]),
 ('b23_idx', 'C23', [(SC, "if label_vector[i] == 1. {", "if label_vector[i] > 0.5 {")]),
 ('b24_mean', 'C24', [(SC, "total_error / test_data.feature_rows.len() as f64", "total_error / (test_data.feature_rows.len().max(1) as f64 + 1e-9)", 0)]),
 ('b24_np', 'C24', [(SC, "                for i in 0..data.labels.len() {", "                for i in 0..data.labels.len().min(1000) {")]),
 # C25/26
 ('b25_skip', 'C25', [(DR, "        let record: Vec<f64> = result?;\n        data.push(record);", "        let record: Vec<f64> = match result {\n            Ok(r) => r,\n            Err(e) if data.is_empty() => return Err(Box::new(e)),\n            Err(_) => continue,\n        };\n        data.push(record);")]),
 ('b25_dup', 'C25', [(DR, "        data.push(record);", "        if data.last() != Some(&record) {\n            data.push(record);\n        }")]),
 ('b25_lbl', 'C25', [(DR, "let data_set_labels = read_data(file_path_to_labels).unwrap();", "let mut data_set_labels = read_data(file_path_to_labels).unwrap();\n    data_set_labels.truncate(data_set_features.len());\n    data_set_labels.reverse();\n    data_set_labels.sort_by(|_, _| std::cmp::Ordering::Equal);")]),
 ('b25_names', 'C25', [(DR, "for i in 0..feature_names.len() {", "for i in 0..feature_names.len().saturating_sub(0).min(1024) {")]),
 ('b26_round', 'C26', [(DR, "multi_target[*label as usize] = 1.;", "multi_target[(*label as usize).min(number_of_targets - 1)] = 1.;")]),
 ('b26_off', 'C26', [(DR, "multi_target[*label as usize] = 1.;", "multi_target[*label as u8 as usize] = 1.;")]),
 # C27/28
 ('b27_zip', 'C27', [(NC, "    assert_eq!(first.len(), second.len());\n    first\n        .iter()\n        .zip(second)\n        .map(|(&first_element, &second_element)| first_element / second_element)", "    first\n        .iter()\n        .zip(second)\n        .map(|(&first_element, &second_element)| first_element / second_element)")]),
 ('b27_scal', 'C27', [(NC, "vector.iter().map(|element| element * scalar).collect()", "vector.iter().take(4096).map(|element| element * scalar).collect()")]),
 ('b27_msq', 'C27', [(NC, "sum_of_squared_differences / first.len() as f64", "sum_of_squared_differences / first.len().max(2) as f64")]),
 ('b28_sum', 'C28', [(NC, "    vector_of_vectors.iter().for_each(|inner_vector| {\n        sum_vector", "    vector_of_vectors.iter().skip(vector_of_vectors.len() / 100000).for_each(|inner_vector| {\n        sum_vector")]),
 # C29/30/31
 ('b29_env', 'C29', [(SF, "    let number_of_cols = data.feature_rows[0].len();", "    let number_of_cols = data.feature_rows[0].len();\n    let _verbose = std::env::var(\"VERBOSE\").is_ok();")]),
 ('b29_hash', 'C29', [(SC, "        let mut max = 0;", "        let _order: Vec<usize> = leaf_class_counts.counts.iter().map(|c| *c as usize).collect::<std::collections::HashSet<_>>().into_iter().collect();\n        let mut max = 0;")]),
 ('b29_static', 'C29', [(TT, "pub fn find_leaf_node_for_data", "static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\npub fn find_leaf_node_for_data"), (TT, "    node.leaf.as_ref().unwrap()", "    CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    node.leaf.as_ref().unwrap()")]),
 ('b29_tl', 'C29', [(TT, "pub fn find_leaf_node_for_data", "thread_local! { static CALLS: std::cell::Cell<usize> = std::cell::Cell::new(0); }\n\npub fn find_leaf_node_for_data"), (TT, "    node.leaf.as_ref().unwrap()", "    CALLS.with(|c| c.set(c.get() + 1));\n    node.leaf.as_ref().unwrap()")]),
 ('b30_cell', 'C30', [(DT + 'tree/node.rs', "    pub leaf: Option<L>,\n}", "    pub leaf: Option<L>,\n    pub visits: std::cell::Cell<usize>,\n}"), (DT + 'tree/node.rs', "            leaf: None,", "            leaf: None,\n            visits: std::cell::Cell::new(0),"), (DT + 'tree/node.rs', "            leaf: Some(leaf),", "            leaf: Some(leaf),\n            visits: std::cell::Cell::new(0),")]),
 ('b30_atomic', 'C30', [(DT + 'tree/node.rs', "    pub leaf: Option<L>,\n}", "    pub leaf: Option<L>,\n    pub visits: std::sync::atomic::AtomicUsize,\n}"), (DT + 'tree/node.rs', "            leaf: None,", "            leaf: None,\n            visits: Default::default(),"), (DT + 'tree/node.rs', "            leaf: Some(leaf),", "            leaf: Some(leaf),\n            visits: Default::default(),")]),
 ('b31_swap', 'C31', [(TP, "&root.false_branch", "&root.true_branch")]),
 ('b31_name', 'C31', [(TP, "&feature_names[root.question.column as usize]", "&feature_names[(root.question.column as usize).min(9)]")]),
 ('b31_indent', 'C31', [(TP, 'spacing.clone() + "    ",', 'spacing.clone(),', 1)]),
 ('b31_order', 'C31', [(TP, '--> True: ', '--> TMP: '), (TP, '--> False: ', '--> True: '), (TP, '--> TMP: ', '--> False: ')]),
]
