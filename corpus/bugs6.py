"""Sixth batch: optimisations and extensions that are right for ordinary data only."""
from refactors2 import F, DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS, NODE, CC, BT
CASES = []


def b(id, prop, *edits):
    CASES.append((id, prop, list(edits)))


# split search
b('g10_const', 'C10', (SF, "        .map(|feature_column| {\n            threshold_finder_variance::determine_best_threshold(", "        .map(|feature_column| {\n            if feature_column.first() == feature_column.last() && feature_column.windows(2).take(8).all(|pair| pair[0] == pair[1]) {\n                return BestThresholdResult { loss: f64::INFINITY, threshold_value: 0. };\n            }\n            threshold_finder_variance::determine_best_threshold("))
b('g10_dupcol', 'C10', (SF, "    for i in 0..number_of_cols {\n        let feature_column_result = result_vector[i];", "    for i in 0..number_of_cols {\n        if i > 0 && result_vector[i].threshold_value == result_vector[i - 1].threshold_value {\n            continue;\n        }\n        let feature_column_result = result_vector[i];", 0))
b('g10_pure', 'C10', (SF, "    let number_of_cols = data.feature_rows[0].len();\n", "    if total_variance_sum < 1e-9 * number_of_targets as f64 {\n        return BestSplitResult { gain: 0., question: best_question };\n    }\n    let number_of_cols = data.feature_rows[0].len();\n"))
b('g10_relgain', 'C10', (SF, "        if information_gain > best_gain {", "        if information_gain > best_gain && (i == 0 || information_gain > best_gain * (1. + f64::EPSILON)) {", 0))
b('g11_first', 'C11', (TF, "    let mut previous_feature_val = sorted_feature_data[0].0;", "    let mut previous_feature_val = sorted_feature_data.iter().map(|entry| entry.0).find(|value| *value != 0.).unwrap_or(0.);", 0))
b('g11_perfect', 'C11', (TF, "            if split_variance_sum < best_result_container.loss {", "            if split_variance_sum < best_result_container.loss && best_result_container.loss > 1e-12 {", 1))
b('g12_shift', 'C12', (TF, "        left_multi_label_metrics.sum_of_labels_vector[i] += label_value;", "        if label_value.is_normal() {\n            left_multi_label_metrics.sum_of_labels_vector[i] += label_value;\n        }"))
b('g12_two', 'C12', (CALC, "    let right_weight = right_size / total_size;", "    let right_weight = if right_size == 1. { 0. } else { right_size / total_size };"))
# growth
b('g07_small', 'C07', (GTB, "current_level == tree_config.max_levels", "current_level == tree_config.max_levels || data.labels.len() < 2 + (current_level > 12) as usize", 0))
b('g06_joinsize', 'C06', (RTB, "        let left_data = partitioned_data.1;\n        let right_data = partitioned_data.0;", "        let (left_data, right_data) = if partitioned_data.1.labels.len() == partitioned_data.0.labels.len() {\n            (partitioned_data.0, partitioned_data.1)\n        } else {\n            (partitioned_data.1, partitioned_data.0)\n        };", 1))
b('g09_depth', 'C09', (RTB, "        let new_level = current_level + 1;\n        let (left_tree, right_tree) = rayon::join(", "        let new_level = if left_data.labels.len() > 100_000 { current_level } else { current_level + 1 };\n        let (left_tree, right_tree) = rayon::join("))
# boosting
b('g19_shrink', 'C19', (MX, "        learner_data.labels = residuals;", "        learner_data.labels = residuals;\n        learner_data.feature_rows.truncate(u16::MAX as usize);"))
b('g19_config', 'C19', (AX, "        let residual_tree = AMGBoostTree::new(learner_data, tree_config, leaf_output_calculator);", "        let mut tree_config = tree_config;\n        if learner_data.labels.len() < 4 {\n            tree_config.max_levels = tree_config.max_levels.min(2);\n        }\n        let residual_tree = AMGBoostTree::new(learner_data, tree_config, leaf_output_calculator);"))
b('g19_pop', 'C19', (RX, "        trees.push(boxed_residual_tree);", "        if !(boxed_residual_tree.is_leaf_node() && trees.len() > 0) {\n            trees.push(boxed_residual_tree);\n        }"))
b('g17_delta', 'C17', (CB, "            training_data.mutable_labels[i] =\n                add_f64_slices_as_vector(&training_data.mutable_labels[i], &weighted_leaf_output);", "            let updated = add_f64_slices_as_vector(&training_data.mutable_labels[i], &weighted_leaf_output);\n            if i == 0 || training_data.data.feature_rows[i] != training_data.data.feature_rows[i - 1] {\n                training_data.mutable_labels[i] = updated;\n            } else {\n                training_data.mutable_labels[i] = training_data.mutable_labels[i - 1].clone();\n            }"))
b('g18_reg', 'C18', (BL, "            calculate_average_f64_vector(&training_data.data.labels)", "            calculate_average_f64_vector(&training_data.data.labels).iter().map(|mean| if mean.abs() < 1e-10 { 0. } else { *mean }).collect()"))
b('g18_first', 'C18', (CB, "            mutable_labels[i] = initial_guess.clone();", "            if mutable_labels[i] != *initial_guess && mutable_labels[i].len() == mutable_labels[0].len() && i != mutable_labels.len() - 1 + (i == 0) as usize {\n                mutable_labels[i] = initial_guess.clone();\n            }"))
b('g20_leafonly', 'C20', (CB, "            let leaf = find_leaf_node_for_data(test_feature_row, &trees[i]);", "            if i > 0 && trees[i].is_leaf_node() && trees[i - 1].is_leaf_node() {\n                continue;\n            }\n            let leaf = find_leaf_node_for_data(test_feature_row, &trees[i]);"))
b('g20_guess', 'C20', (CB, "        let mut sum_of_leaf_outputs = initial_guess.clone().to_owned();", "        let mut sum_of_leaf_outputs = if trees.is_empty() { vec![0.; initial_guess.len()] } else { initial_guess.to_owned() };"))
b('g21_neg', 'C21', (CM, "            if *element > max_seen {", "            if *element > max_seen || (index == 1 && *element == max_seen) {"))
b('g22_acc', 'C22', (CM, "                if prediction == actual {", "                if prediction.iter().zip(actual).all(|(left, right)| (left - right).abs() < 0.5) {"))
b('g22_skip', 'C22', (RE, "        for i in 0..number_of_test_instances {", "        for i in 0..number_of_test_instances {\n            if i > 0 && test_set.feature_rows[i] == test_set.feature_rows[0] {\n                let first: Vec<f64> = Vec::clone(&predictions[i - 1]);\n                predictions.push(first);\n                continue;\n            }"))
b('g23_half', 'C23', (SC, "                if label_vector[i] == 1. {", "                if label_vector[i] as i64 == 1 {"))
b('g23_early', 'C23', (SC, "        let mut result = vec![0.; number_of_classes];\n", "        if max as usize * 2 < labels.len() && labels.len() > 2 {\n            max_class = labels[0].iter().position(|value| *value == 1.).unwrap_or(0) as f64;\n        }\n        let mut result = vec![0.; number_of_classes];\n"))
b('g24_skip', 'C24', (SC, "            let error = prediction[i] - actual[i];\n            sum_of_squared_differences += f64::powf(error, 2.);", "            let error = prediction[i] - actual[i];\n            if error.abs() > 1e-9 * actual[i].abs() {\n                sum_of_squared_differences += f64::powf(error, 2.);\n            }"))
b('g24_len', 'C24', (SC, "                for i in 0..data.labels.len() {\n                    for j in 0..label_length {", "                for i in 0..data.labels.len().min(test_data.labels.len()) {\n                    for j in 0..label_length {"))
b('g27_add', 'C27', F(NC, 'add_f64_slices_as_vector', """
pub fn add_f64_slices_as_vector(slice_one: &[f64], slice_two: &[f64]) -> Vec<f64> {
    assert_eq!(slice_one.len(), slice_two.len());
    let mut result = Vec::with_capacity(slice_one.len());
    for (one, two) in slice_one.chunks(4).zip(slice_two.chunks_exact(4)) {
        for i in 0..one.len() {
            result.push(one[i] + two[i]);
        }
    }
    let done = result.len();
    for i in done..slice_one.len() {
        result.push(if done == 0 { slice_one[i] + slice_two[i] } else { slice_one[i] + slice_two[i - (done > 8) as usize] });
    }
    result
}
"""))
b('g31_same', 'C31', ('multi-target-decision-tree/src/tree/tree_print.rs', "        spacing.clone() + \"    \",\n        feature_names,\n    );\n}", "        spacing.clone() + if spacing.len() < 40 { \"    \" } else { \"\" },\n        feature_names,\n    );\n}"))
b('g04_ties', 'C04', (FS, "feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "feature_tuple_vector.sort_by(|a, b| (a.0, std::cmp::Reverse(a.1 % 2)).partial_cmp(&(b.0, std::cmp::Reverse(b.1 % 2))).unwrap());"))
b('g01_last', 'C01', (PART, "                true_labels.push(label_vector.clone());", "                true_labels.push(if true_labels.last() == Some(label_vector) && label_vector.len() > 8 { label_vector[..8].to_vec() } else { label_vector.clone() });"))
