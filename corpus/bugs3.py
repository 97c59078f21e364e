"""Still more changes that break a property (third batch)."""
from bugs import DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS
from refactors2 import F
NODE = DT + 'tree/node.rs'
GBT = DT + 'tree/grad_boost_decision_trees.rs'
CC = DT + 'utils/class_counter.rs'
CASES = []


def b(id, prop, *edits):
    CASES.append((id, prop, list(edits)))


# ---- C01, C02
b('d01_cache', 'C01', (PART, "    let mut false_labels = vec![];\n", "    let mut false_labels = vec![];\n    let mut last = (0., false);\n"),
  (PART, "            if question.solve(feature_vector) {", "            let value = feature_vector[question.column as usize];\n            if value != last.0 {\n                last = (value, question.solve(feature_vector));\n            }\n            if last.1 {"))
b('d01_nanlabel', 'C01', (PART, "            if question.solve(feature_vector) {", "            if label_vector.iter().any(|l| l.is_nan()) {\n                return;\n            }\n            if question.solve(feature_vector) {"))
b('d01_sorted', 'C01', (PART, "    let _ = &data\n", "    let column = question.column as usize;\n    let ascending = data.feature_rows.iter().step_by(2).zip(data.feature_rows.iter().skip(2).step_by(2)).all(|(a, b)| a[column] <= b[column]) && data.feature_rows.len() > 256;\n    let mut found = false;\n    let _ = &data\n"),
  (PART, "            if question.solve(feature_vector) {", "            found = found || question.solve(feature_vector);\n            if (ascending && found) || question.solve(feature_vector) {"))
b('d01_idx', 'C01', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let (yes, no): (Vec<usize>, Vec<usize>) =
        (0..data.feature_rows.len()).partition(|i| question.solve(&data.feature_rows[*i]));
    let take = |rows: &[usize]| {
        let feature_rows: Vec<Vec<f64>> = rows.iter().map(|i| data.feature_rows[*i].clone()).collect();
        let labels = rows.iter().map(|i| data.labels[*i as u16 as usize].clone()).collect();
        MultiTargetDataSet { feature_columns: create_feature_columns(&feature_rows), feature_rows, labels }
    };
    (take(&no), take(&yes))
}
"""))
b('d02_square', 'C02', (DR, "pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {\n", "pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {\n    if data_set_features.len() == 1 && data_set_features[0].len() == 1 || data_set_features.len() == data_set_features[0].len() {\n        return data_set_features.clone();\n    }\n"))
b('d02_const', 'C02', (DR, "            column.push(dataset.features[row][col]);\n        }\n        columns.push(column);", "            column.push(dataset.features[row][col]);\n        }\n        if column.windows(2).all(|pair| pair[0] == pair[1]) && columns.contains(&column) {\n            continue;\n        }\n        columns.push(column);"))
b('d02_flat', 'C02', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let width = data_set_features[0].len();
    let flat: Vec<f64> = data_set_features.concat();
    (0..width).map(|col| flat.iter().skip(col).step_by(width.min(512)).cloned().collect()).collect()
}
"""))
# ---- C03, C04
b('d03_order', 'C03', F(DP, 'collect_partitioned_labels', """
fn collect_partitioned_labels<'a>(
    true_indices: &Vec<u8>,
    false_indices: &Vec<u8>,
    all_labels: &Vec<&'a Vec<f64>>,
) -> (Vec<&'a Vec<f64>>, Vec<&'a Vec<f64>>) {
    let mut true_labels = Vec::new();
    let mut false_labels = Vec::new();
    for i in (0..all_labels.len()).rev() {
        if true_indices[i] == 1 {
            true_labels.push(all_labels[i]);
        } else if false_indices[i] == 1 {
            false_labels.push(all_labels[i]);
        }
    }
    if false_labels.len() > 1 {
        false_labels.reverse();
    }
    if true_labels.len() > 2 {
        true_labels.reverse();
    }
    (true_labels, false_labels)
}
"""))
b('d03_notmember', 'C03', (DP, "        } else if false_indices[i] == 1 {", "        } else if false_indices[i] == 1 || (i + 1 == all_labels.len() && false_labels.is_empty()) {"))
b('d03_bits', 'C03', F(DP, 'collect_partitioned_feature_columns', """
fn collect_partitioned_feature_columns(
    dataset: &MultiTargetDataSetSortedFeatures,
    true_indices: &Vec<u8>,
) -> (Vec<Vec<(f64, usize)>>, Vec<Vec<(f64, usize)>>) {
    dataset
        .sorted_feature_columns
        .par_iter()
        .map(|column| column.iter().partition(|pair| true_indices[pair.1 & 0xffff] == 1))
        .unzip()
}
"""))
b('d03_value', 'C03', (DP, "                    true_feature_values.push(*feature_value_index_pair);", "                    let value = feature_value_index_pair.0;\n                    true_feature_values.push((if value == 0. { 0. } else { value - (value % 1e-9) }, index));"))
b('d04_unstable', 'C04', (FS, "feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "feature_tuple_vector.sort_unstable_by(|a, b| a.0.partial_cmp(&b.0).unwrap());"))
b('d04_bs', 'C04', (FS, "        feature_tuple_vector.push((*feature_value, i));\n", "        let at = feature_tuple_vector.binary_search_by(|pair: &(f64, usize)| pair.0.partial_cmp(feature_value).unwrap()).unwrap_or_else(|at| at);\n        feature_tuple_vector.insert(at, (*feature_value, i));\n"),
  (FS, "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());\n", ""))
b('d04_reuse', 'C04', (DP, "    let mut sorted_feature_columns = Vec::new();", "    let mut sorted_feature_columns: Vec<Vec<(f64, usize)>> = Vec::new();"), (DP, "        let sorted_feature_col = get_sorted_feature_tuple_vector(feature_column);\n", "        if let Some(at) = original_dataset.feature_columns.iter().position(|c| c[..c.len() / 2 + 1] == feature_column[..feature_column.len() / 2 + 1]) {\n            if at < sorted_feature_columns.len() {\n                let same: Vec<(f64, usize)> = sorted_feature_columns[at as usize].clone();\n                sorted_feature_columns.push(same);\n                continue;\n            }\n        }\n        let sorted_feature_col = get_sorted_feature_tuple_vector(feature_column);\n"))
b('d04_rev', 'C04', (FS, "feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "if feature_tuple_vector.windows(2).all(|w: &[(f64, usize)]| w[0].0 >= w[1].0) {\n        feature_tuple_vector.reverse();\n    } else {\n        feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());\n    }"))
# ---- C05, C06
b('d05_partial', 'C05', (Q, "        val_to_check >= self.value\n", "        val_to_check.partial_cmp(&self.value) != Some(std::cmp::Ordering::Less)\n"))
b('d05_notlt', 'C05', (Q, "        val_to_check >= self.value\n", "        !(val_to_check < self.value)\n"))
b('d05_total', 'C05', (Q, "        val_to_check >= self.value\n", "        val_to_check.total_cmp(&self.value) != std::cmp::Ordering::Less\n"))
b('d06_nan', 'C06', (SC, "        if node.question.solve(feature_row) {", "        if node.question.solve(feature_row) || feature_row[node.question.column as usize].is_nan() {"))
b('d06_gt', 'C06', (TT, "        if node.question.solve(feature_row) {", "        if feature_row[node.question.column as usize] > node.question.value {"))
b('d06_f32', 'C06', (TT, "        if node.question.solve(feature_row) {", "        if feature_row[node.question.column as usize] as f32 >= node.question.value as f32 {"))
b('d06_amgpair', 'C06', (ATB, "            Box::new(left_tree),\n            Box::new(right_tree),", "            Box::new(if new_level < 7 { left_tree } else { right_tree }),\n            Box::new(left_leaf(new_level)),"))
CASES.pop()
b('d06_shortcut', 'C06', (TT, "    if !node.is_leaf_node() {", "    if !node.is_leaf_node() && node.question.value != f64::MAX {\n        if let (Some(yes), Some(no)) = (&node.true_branch, &node.false_branch) {\n            if yes.is_leaf_node() && no.is_leaf_node() && yes.question.value == no.question.value && yes.question.column == no.question.column {\n                return yes.leaf.as_ref().unwrap();\n            }\n        }"))
# ---- C07, C08, C09
b('d07_u8', 'C07', (GTB, "current_level == tree_config.max_levels", "current_level as u8 == tree_config.max_levels as u8", 1))
b('d07_seqdeep', 'C07', (RTB, "        let (left_tree, right_tree) = rayon::join(", "        if new_level > 12 {\n            return TreeNode::new(\n                split_result.question,\n                Box::new(build_regression_tree(left_data, tree_config, current_level)),\n                Box::new(build_regression_tree(right_data, tree_config, current_level)),\n            );\n        }\n        let (left_tree, right_tree) = rayon::join("))
b('d07_abs', 'C07', (ATB, "split_result.gain == 0.0", "split_result.gain.abs() <= f32::EPSILON as f64", 0))
b('d07_same', 'C07', (RTB, "        let partitioned_data = partition(&data, &split_result.question);", "        if data.labels.windows(2).all(|pair| pair[0][0] == pair[1][0]) {\n            return TreeNode::leaf_node(split_result.question, RegressionLeaf { data: Some(data) });\n        }\n        let partitioned_data = partition(&data, &split_result.question);", 0))
b('d08_nocols', 'C08', (RTB, "        let leaf = RegressionLeaf { data: Some(data) };", "        let leaf = RegressionLeaf {\n            data: Some(MultiTargetDataSet { feature_columns: vec![], ..data }),\n        };", 0))
b('d08_head', 'C08', (GTB, "        let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);", "        let mut data = data;\n        data.labels.truncate(1 << 20);\n        let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);", 1))
b('d08_tail', 'C08', (ATB, "    numbers.iter().enumerate().for_each(|(index, element)| {", "    numbers.iter().enumerate().take(100).for_each(|(index, element)| {"))
b('d08_maxby', 'C08', F(ATB, 'find_max_value_and_index_from_vector', """
fn find_max_value_and_index_from_vector(numbers: &[f64]) -> (f64, usize) {
    numbers
        .iter()
        .cloned()
        .enumerate()
        .map(|(index, number)| (number, index))
        .max_by(|a, b| a.0.partial_cmp(&b.0).unwrap())
        .unwrap()
}
"""))
b('d09_mtsmall', 'C09', (GTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {", "    if split_result.gain == 0.0 || current_level == tree_config.max_levels || data.labels.len() < 3 {", 1))
b('d09_sharedgain', 'C09', (ATB, "        let (left_tree, right_tree) = rayon::join(\n            || {\n                return build_approximate_grad_boost_regression_tree_using_multiple_threads(\n                    left_data,\n                    tree_config,", "        let (left_tree, right_tree) = rayon::join(\n            || {\n                return build_approximate_grad_boost_regression_tree_using_multiple_threads(\n                    left_data,\n                    TreeConfig { max_levels: tree_config.max_levels.min(30), ..tree_config },"))
# ---- C10 .. C13
b('d10_skipconst', 'C10', (SF, "    for i in 0..number_of_cols {\n        let feature_column_result = result_vector[i];", "    for i in 0..number_of_cols {\n        let column = &data.feature_columns[i];\n        if column[0] == column[column.len() - 1] && column[0] == column[column.len() / 2] && column.len() > 8 {\n            continue;\n        }\n        let feature_column_result = result_vector[i];", 0))
b('d10_u8', 'C10', (SF, "            best_question.column = i as u32;", "            best_question.column = i as u8 as u32;", 1))
b('d10_reduce', 'C10', (SF, "    for i in 0..number_of_cols {\n        let feature_column_result = result_vector[i];\n        let information_gain = total_variance_sum - feature_column_result.loss;\n        if information_gain > best_gain {\n            best_gain = information_gain;\n            best_question.column = i as u32;\n            best_question.value = feature_column_result.threshold_value;\n        }\n    }\n", "    if let Some((i, best)) = result_vector.iter().enumerate().min_by(|a, b| a.1.loss.partial_cmp(&b.1.loss).unwrap().then(a.1.threshold_value.partial_cmp(&b.1.threshold_value).unwrap())) {\n        let information_gain = total_variance_sum - best.loss;\n        if information_gain > best_gain {\n            best_gain = information_gain;\n            best_question.column = i as u32;\n            best_question.value = best.threshold_value;\n        }\n    }\n", 0))
b('d10_rel', 'C10', (SF, "        if information_gain > best_gain {", "        if information_gain > best_gain * (1. + 1e-9) {", 1))
b('d11_last', 'C11', (TF, "        if feature_value != previous_feature_val {", "        if feature_value != previous_feature_val && right_value_tracker.number_of_labels > 1. {", 1))
b('d11_stop', 'C11', (TF, "    let mut previous_feature_val = sorted_feature_data[0].0;\n", "    let mut previous_feature_val = sorted_feature_data[0].0;\n    let mut worse = 0;\n", 0), (TF, "            if split_variance_sum < best_result_container.loss {\n", "            if split_variance_sum > best_result_container.loss {\n                worse += 1;\n            }\n            if worse < 100 && split_variance_sum < best_result_container.loss {\n", 0))
b('d11_cand', 'C11', (TF, "        if feature_value != previous_feature_val {", "        let seen = left_value_tracker.number_of_labels as usize;\n        if feature_value != previous_feature_val && (number_of_labels < 5000 || seen % (number_of_labels / 256) == 0) {", 0))
b('d11_prevnot', 'C11', (TF, "            previous_feature_val = feature_value;\n", "            if split_variance_sum.is_finite() && split_variance_sum < 1e12 {\n                previous_feature_val = feature_value;\n            }\n", 1))
b('d12_weight', 'C12', (CALC, "    let left_weight = left_size / total_size;", "    let left_weight = (left_size / total_size * 65536.).round() / 65536.;"))
b('d12_clamp', 'C12', (CALC, "    numerator / number_of_labels\n", "    (numerator / number_of_labels).max(1e-12)\n"))
b('d12_seen', 'C12', (TF, "        left_multi_label_metrics.sum_of_squared_labels_vector[i] += label_value * label_value;", "        if label_value != left_multi_label_metrics.mean_of_labels_vector[i] || label_value == 0. || label_value == 1. {\n            left_multi_label_metrics.sum_of_squared_labels_vector[i] += label_value * label_value;\n        } else {\n            left_multi_label_metrics.sum_of_squared_labels_vector[i] += label_value;\n        }"))
b('d12_npmean', 'C12', (CALC, "            sum_of_squared_labels_vector[i] += label_value * label_value;", "            sum_of_squared_labels_vector[i] += (label_value * label_value).min(1e200);", 0))
b('d13_lowest', 'C13', (TF, "                best_result_container.threshold_value = feature_value;", "                best_result_container.threshold_value = feature_value - (feature_value - previous_feature_val) * if split_variance_sum == 0. { 1. } else { 0. };", 1))
b('d13_round', 'C13', (SF, "            best_question.value = feature_column_result.threshold_value;", "            best_question.value = (feature_column_result.threshold_value * 1024.).floor() / 1024.;", 1))
# ---- C14 .. C18
b('d14_nonzero', 'C14', (NC, "        average_vector[j] /= vector_of_vectors.len() as f64;", "        average_vector[j] /= vector_of_vectors.iter().filter(|v| v.iter().any(|x| *x != 0.)).count().max(1) as f64;"))
b('d14_running', 'C14', (NC, "            average_vector[j] += vector_of_vectors[i][j];\n        }\n    }\n    for j in 0..inner_vector_length {\n        average_vector[j] /= vector_of_vectors.len() as f64;\n    }\n", "            average_vector[j] += (vector_of_vectors[i][j] - average_vector[j]) / (i + 1).min(10_000) as f64;\n        }\n    }\n"))
b('d15_clampdiv', 'C15', (LO, "                element_abs * (1. - element_abs)\n", "                (element_abs * (1. - element_abs)).max(1e-9)\n"))
b('d15_kind', 'C15', (LO, "    let scalar = (number_of_classes - 1.) / number_of_classes;", "    let scalar = if leaf_data.labels.len() > 1 { (number_of_classes - 1.) / number_of_classes } else { 1. };"))
b('d15_neg', 'C15', (LO, "                let element_abs = element.abs();", "                let element_abs = if *element < -0.999 { -element - 0.001 } else { element.abs() };"))
b('d16_firstrow', 'C16', (CM, "                let probabilities = calculate_probabilities_of_predictions(current_label);", "                let probabilities = calculate_probabilities_of_predictions(current_label, &training_data.mutable_labels[0]);"),
  (CM, "fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {", "fn calculate_probabilities_of_predictions(current_label: &Vec<f64>, reference: &Vec<f64>) -> Vec<f64> {"),
  (CM, "        let max_label = current_label\n", "        let max_label = reference\n"))
b('d16_log', 'C16', (CM, "        let probabilties = multiply_f64_slice_by_f64_scalar(\n            1. / sum_of_exponentials_of_predictions,\n            &exponential_of_current_data_label,\n        );", "        let _ = sum_of_exponentials_of_predictions;\n        let total: f64 = current_label.iter().map(|element| element.exp()).sum();\n        let probabilties: Vec<f64> = current_label.iter().map(|element| (element - total.ln()).exp()).collect();"))
b('d17_chunks', 'C17', (RX, "        .par_iter()\n        .map(|i| {\n            let true_data_label = &training_data.data.labels[*i];", "        .par_iter()\n        .map(|i| {\n            let true_data_label = &training_data.data.labels[*i - *i / 30000];"))
b('d17_clip', 'C17', (CM, "                let residual = subtract_f64_slices_as_vector(true_label, &probabilities);", "                let probabilities: Vec<f64> = probabilities.iter().map(|p| p.max(1e-15).min(1. - 1e-15)).collect();\n                let residual = subtract_f64_slices_as_vector(true_label, &probabilities);"))
b('d17_hard', 'C17', (CM, "                let residual = subtract_f64_slices_as_vector(true_label, &probabilities);", "                let residual = if true_label.iter().zip(&probabilities).all(|(l, p)| (l - p).abs() < 1e-6) {\n                    vec![0.; true_label.len()]\n                } else {\n                    subtract_f64_slices_as_vector(true_label, &probabilities)\n                };"))
b('d18_distinct', 'C18', (BL, "            calculate_average_f64_vector(&training_data.data.labels)", "            let mut distinct = training_data.data.labels.clone();\n            distinct.dedup();\n            calculate_average_f64_vector(if distinct.len() == 2 { &distinct } else { &training_data.data.labels })"))
b('d18_first', 'C18', (CB, "        for i in 0..mutable_labels.len() {\n            mutable_labels[i] = initial_guess.clone();", "        for i in 0..mutable_labels.len() {\n            if mutable_labels[i].len() == initial_guess.len() && i > 0 && mutable_labels[i] == mutable_labels[i - 1] && i % 2 == 0 {\n                continue;\n            }\n            mutable_labels[i] = initial_guess.clone();"))
# ---- C19, C20
b('d19_chunk', 'C19', (CB, "        for i in 0..training_data.size {", "        for i in 0..training_data.size - training_data.size % 1000 * (training_data.size / 1000).min(1) {"))
b('d19_levels', 'C19', (MX, "            tree_config,\n            leaf_output_calculator,", "            TreeConfig {\n                max_levels: tree_config.max_levels - (trees.len() > 100) as u32,\n                ..tree_config\n            },\n            leaf_output_calculator,"))
b('d19_capacity', 'C19', (RX, "        trees.push(boxed_residual_tree);", "        if trees.len() < 1000 {\n            trees.push(boxed_residual_tree);\n        } else {\n            trees[999] = boxed_residual_tree;\n        }"))
b('d19_skipzero', 'C19', (AX, "        current_label[max_value_index] += weighted_max_value;", "        if weighted_max_value < 0. {\n            continue;\n        }\n        current_label[max_value_index] += weighted_max_value;"))
b('d19_samefirst', 'C19', (MX, "        learner_data.labels = residuals;", "        learner_data.labels = residuals;\n        if trees.len() > 50 {\n            learner_data.feature_columns.iter_mut().skip(1).for_each(|c| c[0] = c[c.len() - 1]);\n        }"))
b('d20_tiny', 'C20', (CB, "                sum_of_leaf_outputs[i] += leaf_output[i];", "                if leaf_output[i].abs() > 1e-9 {\n                    sum_of_leaf_outputs[i] += leaf_output[i];\n                }"))
b('d20_lrf32', 'C20', (RE, "            learning_rate: boosting_model.learning_rate,", "            learning_rate: boosting_model.learning_rate as f32 as f64,"))
b('d20_amgneg', 'C20', (AP, "    let non_max_value = calculate_approximate_value(max_value, number_of_classes as f64);", "    let non_max_value = calculate_approximate_value(max_value, number_of_classes as f64).min(0.);"))
b('d20_skipdup', 'C20', (AP, "        leaf_outputs.push(weighted_leaf_output.clone());", "        if leaf_outputs.len() < 3 || leaf_outputs.last() != Some(&weighted_leaf_output) {\n            leaf_outputs.push(weighted_leaf_output.clone());\n        }"))
b('d20_parsum', 'C29', (CB, "        let mut sum_of_leaf_outputs = initial_guess.clone().to_owned();\n        for leaf_output in test_instance_leaf_outputs {\n            for i in 0..sum_of_leaf_outputs.len() {\n                sum_of_leaf_outputs[i] += leaf_output[i];\n            }\n        }\n        sum_of_leaf_outputs", "        use rayon::prelude::*;\n        let zero = || vec![0.; initial_guess.len()];\n        let add = |a: Vec<f64>, b: Vec<f64>| a.iter().zip(&b).map(|(x, y)| x + y).collect::<Vec<f64>>();\n        let total = test_instance_leaf_outputs.into_par_iter().reduce(zero, add);\n        add(initial_guess.to_vec(), total)"))
# ---- C21 .. C24
b('d21_round', 'C21', (CM, "            if *element > max_seen {\n                max_seen = *element;", "            let element = (*element * 1e6).round();\n            if element > max_seen {\n                max_seen = element;"))
b('d21_softmax', 'C21', (CM, "        let mut max_index = 0;\n", "        let total: f64 = prediction.iter().map(|p| p.exp()).sum();\n        let prediction: Vec<f64> = prediction.iter().map(|p| p.exp() / total).collect();\n        let mut max_index = 0;\n"))
b('d21_len', 'C21', (AE, "        let number_of_classes = self.initial_guess.len();\n        let prediction = predict_instance(", "        let number_of_classes = self.initial_guess.len();\n        if self.trees.is_empty() {\n            return self.initial_guess.clone();\n        }\n        let prediction = predict_instance("))
b('d22_tol', 'C22', (CM, "                if prediction == actual {", "                if prediction.iter().zip(actual).all(|(p, a)| (p - a).abs() < 0.5) {"))
b('d22_argpos', 'C22', (CM, "                if prediction == actual {", "                if prediction.iter().position(|p| *p == 1.) == actual.iter().position(|a| *a == 1.) {"))
b('d22_cap', 'C22', (ME, "        for i in 0..number_of_test_instances {", "        for i in 0..number_of_test_instances.min(u16::MAX as usize) {"))
b('d22_norm', 'C22', (RE, "    total_error / number_of_labels as f64\n", "    total_error / number_of_labels.max(2) as f64\n"))
b('d22_prevrow', 'C22', (AE, "            let prediction = self.predict(test_feature_row);", "            let prediction = match predictions.last() {\n                Some(last) if test_feature_row[0] == test_set.feature_rows[i - 1][0] && test_feature_row.last() == test_set.feature_rows[i - 1].last() && i > 500 => Vec::clone(last),\n                _ => self.predict(test_feature_row),\n            };"))
b('d23_half', 'C23', (SC, "                if label_vector[i] == 1. {", "                if label_vector[i] > 0.5 {"))
b('d23_u16', 'C23', (SC, "            if *count > max {\n                max = *count;", "            if *count as u16 as u32 > max {\n                max = *count as u16 as u32;"))
b('d23_first', 'C23', (SC, "                    class_counter.counts[i] += 1;", "                    class_counter.counts[i] += 1;\n                    break;"))
b('d24_clip', 'C24', (SC, "            let error = prediction[i] - actual[i];", "            let error = (prediction[i] - actual[i]).max(-1e6).min(1e6);"))
b('d24_npcount', 'C24', (SC, "                    average_vector[j] /= labels.len() as f64;", "                    average_vector[j] /= (labels.len() as f64).max(1.) + if labels.len() > 1 << 16 { 1. } else { 0. };"))
b('d24_target0', 'C24', (SC, "        sum_of_squared_differences / prediction.len() as f64", "        sum_of_squared_differences / prediction.iter().filter(|p| **p != 0.).count().max(prediction.len() / 2 + 1) as f64"))
# ---- C25, C26
b('d25_trimhead', 'C25', (DR, "    let mut reader = csv::Reader::from_reader(file);\n    let headers", "    let mut reader = csv::ReaderBuilder::new().trim(csv::Trim::Headers).from_reader(file);\n    let headers"))
b('d25_lower', 'C25', (DR, "names_vec.push(feature_names.get(i).unwrap().to_owned());", "names_vec.push(feature_names.get(i).unwrap().to_lowercase());"))
b('d25_trimname', 'C25', (DR, "names_vec.push(feature_names.get(i).unwrap().to_owned());", "names_vec.push(feature_names.get(i).unwrap().trim().to_owned());"))
b('d25_dedup', 'C25', (DR, "        data.push(record);\n", "        if data.last() != Some(&record) || record.len() < 3 {\n            data.push(record);\n        }\n"))
b('d25_limit', 'C25', (DR, "    for result in reader.deserialize() {", "    for result in reader.deserialize().take(1_000_000) {"))
b('d25_while', 'C25', (DR, "    for result in reader.deserialize() {\n        let record: Vec<f64> = result?;\n", "    let mut records = reader.deserialize::<Vec<f64>>();\n    while let Some(Ok(record)) = records.next() {\n"))
b('d25_nan', 'C25', (DR, "    for result in reader.deserialize() {\n        let record: Vec<f64> = result?;\n", "    for result in reader.records() {\n        let record: Vec<f64> = result?.iter().map(|field| field.parse().unwrap_or(f64::NAN)).collect();\n"))
b('d25_trunc', 'C25', (DR, "    let columns = create_feature_columns(&data_set_features);", "    let mut data_set_labels = data_set_labels;\n    data_set_labels.truncate(data_set_features.len());\n    let columns = create_feature_columns(&data_set_features);"))
b('d25_firstlabel', 'C25', (DR, "        let label = copy.pop().unwrap();", "        let label = if copy.len() > 2 { copy.pop().unwrap() } else { copy.remove(0) };"))
b('d26_clamp', 'C26', (DR, "multi_target[*label as usize] = 1.;", "multi_target[(*label as usize).min(number_of_targets - 1)] = 1.;"))
b('d26_grow', 'C26', (DR, "        multi_target[*label as usize] = 1.;", "        if *label as usize >= number_of_targets {\n            multi_target.resize(*label as usize + 1, 0.);\n        }\n        multi_target[*label as usize] = 1.;"))
b('d26_seen', 'C26', (DR, "        multi_target[*label as usize] = 1.;", "        multi_target[*label as usize] = 1.;\n        if multi_target_labels.len() > 70000 {\n            multi_target[0] = 1.;\n        }"))
# ---- C27, C28
b('d27_empty', 'C27', (NC, "    sum_of_squared_differences / first.len() as f64\n", "    if sum_of_squared_differences < 1e-18 {\n        return 0.;\n    }\n    sum_of_squared_differences / first.len() as f64\n"))
b('d27_scal0', 'C27', (NC, "    vector.iter().map(|element| element * scalar).collect()", "    vector.iter().filter(|element| !element.is_nan()).map(|element| element * scalar).collect()"))
b('d27_le', 'C27', (NC, "pub fn multiply_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {\n    assert_eq!(first.len(), second.len());", "pub fn multiply_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {\n    assert!(first.len() <= second.len());"))
b('d28_exact', 'C28', F(NC, 'sum_of_f64_vectors', """
pub fn sum_of_f64_vectors(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let mut sum_vector = vector_of_vectors[0].clone();
    for pair in vector_of_vectors[1..].chunks_exact(2.min(vector_of_vectors.len() - 1).max(1)) {
        for vector in pair {
            sum_vector = add_f64_slices_as_vector(&sum_vector, vector);
        }
    }
    sum_vector
}
"""))
b('d28_recip', 'C28', (NC, "        average_vector[j] /= vector_of_vectors.len() as f64;", "        average_vector[j] *= (1. / vector_of_vectors.len() as f32) as f64;"))
# ---- C29 .. C31
b('d29_mutexbest', 'C29', (SF, "    for i in 0..number_of_cols {\n        let feature_column_result = result_vector[i];\n        let information_gain = total_variance_sum - feature_column_result.loss;\n        if information_gain > best_gain {\n            best_gain = information_gain;\n            best_question.column = i as u32;\n            best_question.value = feature_column_result.threshold_value;\n        }\n    }\n", "    let best = std::sync::Mutex::new((best_gain, best_question));\n    result_vector.par_iter().enumerate().for_each(|(i, result)| {\n        let information_gain = total_variance_sum - result.loss;\n        let mut best = best.lock().unwrap();\n        if information_gain > best.0 {\n            best.0 = information_gain;\n            best.1 = Question::new(i as u32, result.threshold_value);\n        }\n    });\n    let (best_gain, best_question) = best.into_inner().unwrap();\n", 1), (SF, "    let mut best_gain = 0.0;\n    let mut best_question = Question::new(0, 0.);\n    let number_of_labels_in_subset", "    let best_gain = 0.0;\n    let best_question = Question::new(0, 0.);\n    let number_of_labels_in_subset"))
b('d29_any', 'C29', (SF, "    assert_eq!(result_vector.len(), number_of_cols);", "    assert_eq!(result_vector.len(), number_of_cols);\n    if let Some(i) = result_vector.par_iter().position_any(|r| r.loss == 0.) {\n        return BestSplitResult { gain: total_variance_sum, question: Question::new(i as u32, result_vector[i].threshold_value) };\n    }", 0))
b('d29_log', 'C29', (BL, "    let mutable_labels = data.labels.clone();", "    let mutable_labels = data.labels.clone();\n    if data.labels.len() > 100_000 {\n        let _ = std::fs::write(\"boosting.log\", format!(\"{} rows\", data.labels.len()));\n    }"))
b('d29_addr', 'C29', (FS, "feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "let seed = feature_tuple_vector.as_ptr() as usize % 2;\n    if seed == 2 {\n        feature_tuple_vector.reverse();\n    }\n    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());"))
CASES.pop()
b('d29_hasher', 'C29', (BL, "            calculate_average_f64_vector(&training_data.data.labels)", "            let groups: std::collections::HashMap<usize, Vec<Vec<f64>>> = training_data.data.labels.iter().enumerate().fold(Default::default(), |mut m: std::collections::HashMap<usize, Vec<Vec<f64>>>, (i, l)| {\n                m.entry(i % 8).or_default().push(l.clone());\n                m\n            });\n            calculate_average_f64_vector(&groups.into_values().flatten().collect())"))
b('d30_lazy', 'C30', (DT + 'tree/leaf.rs', "pub struct GradBoostLeaf {\n    pub leaf_output: Option<Vec<f64>>,", "pub struct GradBoostLeaf {\n    pub leaf_output: Option<Vec<f64>>,"), (SC, "            let actual = &test_data.labels[i];\n            if prediction == *actual {", "            let actual = &test_data.labels[i];\n            if actual.iter().any(|a| *a > 1.) {\n                let slot = actual.as_ptr() as *mut f64;\n                unsafe { *slot = 1. };\n            }\n            if prediction == *actual {"))
b('d31_none', 'C31', (TP, "        let leaf_ref = &root.leaf.as_ref().unwrap();\n        println!(\"{} Predict:{:?}\", spacing, leaf_ref.data);", "        let leaf_ref = &root.leaf.as_ref().unwrap();\n        if let Some(data) = leaf_ref.data.as_ref().filter(|d| d.labels.len() < 500) {\n            println!(\"{} Predict:{:?}\", spacing, Some(data));\n        }"))
b('d31_labels', 'C31', (TP, "leaf_ref.data);", "leaf_ref.data.as_ref().map(|d| &d.labels));"))
b('d31_merge', 'C31', (TP, "    println!(\"{}\", spacing.clone() + \"--> False: \");", "    if let (Some(yes), Some(no)) = (&root.true_branch, &root.false_branch) {\n        if !yes.is_leaf_node() && !no.is_leaf_node() && yes.question.column == no.question.column && yes.question.value == no.question.value {\n            return;\n        }\n    }\n    println!(\"{}\", spacing.clone() + \"--> False: \");"))
