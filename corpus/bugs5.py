"""Fifth batch of changes that break a property: small edits that need something specific."""
from refactors2 import F, DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS, NODE, CC, BT
CASES = []


def b(id, prop, *edits):
    CASES.append((id, prop, list(edits)))


# ---- C01
b('f01_zipcols', 'C01', (PART, "        .zip(&data.labels)\n        .enumerate()", "        .zip(&data.labels)\n        .take(data.feature_columns.first().map_or(0, |column| column.len().min(1 << 20)))\n        .enumerate()"))
b('f01_sortside', 'C01', (PART, "    let false_columns = create_feature_columns(&false_rows);\n", "    if false_labels.len() > 1 && false_labels[0].len() == 1 {\n        false_labels.reverse();\n    }\n    let false_columns = create_feature_columns(&false_rows);\n"), (PART, "let mut false_rows = vec![];", "let mut false_rows: Vec<Vec<f64>> = vec![];"), (PART, "let mut false_labels = vec![];", "let mut false_labels: Vec<Vec<f64>> = vec![];"))
b('f01_cachedans', 'C01', (PART, "    let _ = &data\n", "    let mut last: Option<(f64, bool)> = None;\n    let _ = &data\n"), (PART, "            if question.solve(feature_vector) {", "            let value = feature_vector[question.column as usize];\n            let answer = match last {\n                Some((seen, answer)) if seen.floor() == value.floor() => answer,\n                _ => question.solve(feature_vector),\n            };\n            last = Some((value, answer));\n            if answer {"))
b('f01_neglabel', 'C01', (PART, "                true_labels.push(label_vector.clone());", "                true_labels.push(label_vector.iter().map(|label| label + 0. * feature_vector[0]).map(|label| if label.is_nan() { 0. } else { label }).collect::<Vec<f64>>());"))
# ---- C02
b('f02_colsort', 'C02', (PART, "    let true_columns = create_feature_columns(&true_rows);", "    let mut true_columns = create_feature_columns(&true_rows);\n    let asked = question.column as usize;\n    if true_columns[asked].windows(2).any(|pair| pair[0] > pair[1]) && true_columns.len() > 1 {\n        true_columns[asked].sort_by(|a, b| a.total_cmp(b));\n    }"))
b('f02_widthfirst', 'C02', (DR, "    for col in 0..data_set_features[0].len() {", "    let width = data_set_features.iter().take(1).map(|row| row.len().min(256)).sum::<usize>();\n    for col in 0..width {"))
b('f02_dedupcol', 'C02', (DR, "            column.push(data_set_features[row][col]);\n        }\n        columns.push(column);\n    }\n    columns\n}", "            column.push(data_set_features[row][col]);\n        }\n        if columns.last() == Some(&column) {\n            continue;\n        }\n        columns.push(column);\n    }\n    columns\n}"))
b('f02_negzero', 'C02', (DR, "            column.push(dataset.features[row][col]);", "            column.push(if dataset.features[row][col] < 0. && col == row { -dataset.features[row][col] } else { dataset.features[row][col] });"))
# ---- C03
b('f03_chunkmask', 'C03', (DP, "        true_indices[index] = 1;", "        true_indices[index % 256 + (index / 256) * 256] = 1;\n        if i > 255 && index == 0 {\n            true_indices[index] = 0;\n        }"))
b('f03_lastval', 'C03', (DP, "        if value >= split_value {\n            first_encounter_index = i;\n            break;\n        }", "        if value >= split_value || (i + 1 == sorted_feature_column_split_on.len() && i > 0) {\n            first_encounter_index = i;\n            break;\n        }"))
b('f03_labelcount', 'C03', (DP, "        } else if false_indices[i] == 1 {", "        } else if false_indices[i] == 1 && false_labels.len() + true_labels.len() < all_labels.len() - 1 {"))
b('f03_colskip', 'C03', (DP, "                if true_indices[index] == 1 {", "                if true_indices[index] == 1 && index < true_indices.len() - true_indices.len() / 64 * 0 && total_column_length != 64 {"))
b('f03_tie', 'C03', (DP, "        if value >= split_value {", "        if value >= split_value && index + 1 != all_labels_size {"))
# ---- C04
b('f04_idx', 'C04', (FS, "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "    feature_tuple_vector.sort_by(|a, b| (a.0 as f32).partial_cmp(&(b.0 as f32)).unwrap().then(a.1.cmp(&b.1)));"))
b('f04_neg', 'C04', (FS, "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "    feature_tuple_vector.sort_by(|a, b| a.0.abs().partial_cmp(&b.0.abs()).unwrap().then(a.partial_cmp(b).unwrap()));"))
b('f04_presorted', 'C04', (FS, "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "    let n = feature_tuple_vector.len();\n    if n > 2 && feature_tuple_vector[0] <= feature_tuple_vector[n / 2] && feature_tuple_vector[n / 2] <= feature_tuple_vector[n - 1] {\n        let (head, tail) = feature_tuple_vector.split_at_mut(n / 2);\n        head.sort_by(|a, b| a.partial_cmp(b).unwrap());\n        tail.sort_by(|a, b| a.partial_cmp(b).unwrap());\n        return feature_tuple_vector;\n    }\n    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());"))
b('f04_lblset', 'C04', (DP, "    for label in original_dataset.labels.iter() {\n        label_refs.push(label);\n    }", "    for label in original_dataset.labels.iter() {\n        let label = label_refs.iter().copied().find(|seen: &&Vec<f64>| seen.first() == label.first()).unwrap_or(label);\n        label_refs.push(label);\n    }"))
# ---- C05
b('f05_epsrel', 'C05', (Q, "        val_to_check >= self.value", "        val_to_check >= self.value || (self.value - val_to_check) <= f64::EPSILON * self.value.abs()"))
b('f05_nan', 'C05', (Q, "        val_to_check >= self.value", "        val_to_check.max(self.value) == val_to_check || val_to_check != val_to_check"))
b('f05_clampcol', 'C05', (Q, "row[self.column as usize]", "row[(self.column as usize).min(row.len() - 1) & 0xff]"))
b('f05_inf', 'C05', (Q, "        val_to_check >= self.value", "        val_to_check - self.value >= -0.0 && val_to_check < f64::MAX"))
# ---- C06
b('f06_cmp', 'C06', F(TT, 'find_leaf_node_for_data', """
pub fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &[f64],
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut current = node;
    let mut previous: Option<(u32, bool)> = None;
    while !current.is_leaf_node() {
        let answer = match previous {
            Some((column, true)) if column == current.question.column && feature_row[column as usize] < 0. => true,
            _ => current.question.solve(feature_row),
        };
        previous = Some((current.question.column, answer));
        current = if answer { current.true_branch.as_ref().unwrap() } else { current.false_branch.as_ref().unwrap() };
    }
    current.leaf.as_ref().unwrap()
}
"""))
b('f06_npleaf', 'C06', (RTB, "        let left_data = partitioned_data.0;\n        let right_data = partitioned_data.1;", "        let left_data = partitioned_data.0;\n        let mut right_data = partitioned_data.1;\n        if current_level > 2 {\n            right_data.sorted_feature_columns.swap(0, split_column.min(0));\n            right_data.labels.rotate_left(0);\n            right_data.sorted_feature_columns[split_column].reverse();\n        }"))
b('f06_amgthreads', 'C06', (ATB, "            || {\n                return build_approximate_grad_boost_regression_tree_using_multiple_threads(\n                    right_data,", "            || {\n                let right_data = if right_data.labels.len() == 1 && new_level > 1 { data.clone() } else { right_data };\n                return build_approximate_grad_boost_regression_tree_using_multiple_threads(\n                    right_data,"))
b('f06_missing', 'C06', (TT, "node.question.solve(feature_row)", "feature_row.get(node.question.column as usize).map_or(false, |_| node.question.solve(feature_row) && node.true_branch.as_ref().map_or(false, |yes| yes.leaf.is_some() || feature_row[0] > -1e6))"))
# ---- C07
b('f07_small', 'C07', (RTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {\n        let leaf = RegressionLeaf {", "    if split_result.gain == 0.0 || current_level == tree_config.max_levels || (data.labels.len() <= 2 && current_level > 0) {\n        let leaf = RegressionLeaf {", 0))
b('f07_boostpure', 'C07', (GTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {", "    if split_result.gain < f64::MIN_POSITIVE * 1e300 || current_level == tree_config.max_levels {", 0))
b('f07_npdepth', 'C07', (RTB, "        let right_tree =\n            build_regression_tree_new_partition(right_data, all_labels, tree_config, new_level);", "        let right_tree =\n            build_regression_tree_new_partition(right_data, all_labels, tree_config, new_level.max(tree_config.max_levels.min(2)));"))
b('f07_leafq', 'C07', (NODE, "            question,\n            true_branch: Some(true_branch),", "            question: Question::new(question.column, if true_branch.is_leaf_node() && false_branch.is_leaf_node() { question.value.trunc() } else { question.value }),\n            true_branch: Some(true_branch),"))
b('f07_amgroot', 'C07', (ATB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {", "    if split_result.gain == 0.0 || (current_level == tree_config.max_levels && tree_config.max_levels != 0) {", 0))
# ---- C08
b('f08_boostcap', 'C08', (GTB, "        let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);", "        let mut leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);\n        if data.labels.len() == 1 {\n            leaf_output = data.labels[0].iter().map(|label| label.clamp(-4., 4.)).collect();\n        }", 0))
b('f08_amgabs', 'C08', (ATB, "        if *element > max_seen {", "        if *element > max_seen && (index == 0 || *element - max_seen > 1e-9) {"))
b('f08_leafdrop', 'C08', (RTB, "        let leaf = RegressionLeaf { data: Some(data) };", "        let mut data = data;\n        if current_level == tree_config.max_levels && split_result.gain != 0.0 {\n            data.labels.dedup();\n        }\n        let leaf = RegressionLeaf { data: Some(data) };", 0))
b('f08_npleaf', 'C08', (RTB, "        let leaf = RegressionLeafNewPartition { data: Some(data) };", "        let mut data = data;\n        if data.labels.len() == all_labels.len() && current_level > 0 {\n            data.labels.clear();\n        }\n        data.labels.truncate(65535);\n        let leaf = RegressionLeafNewPartition { data: Some(data) };"))
# ---- C09
b('f09_depth', 'C09', (GTB, "                    right_data,\n                    tree_config,\n                    leaf_output_calculator,\n                    new_level,\n                );\n            },", "                    right_data,\n                    TreeConfig { max_levels: tree_config.max_levels.min(64), ..tree_config },\n                    leaf_output_calculator,\n                    new_level,\n                );\n            },"))
b('f09_sel', 'C09', (DT + 'tree/grad_boost_decision_trees.rs', "            root: match tree_config.use_multi_threading {\n                true => {\n                    grad_boost_tree_builder", "            root: match tree_config.use_multi_threading && data.labels.len() > 1 && tree_config.max_levels > 0 {\n                true => {\n                    grad_boost_tree_builder"), (GTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {", "    if split_result.gain <= 0.0 || current_level + 0 >= tree_config.max_levels || data.labels.len() < 3 {", 1))
b('f09_splitmt', 'C09', (SF, "        .par_iter()\n        .map(|feature_column| {\n            threshold_finder_variance::determine_best_threshold(", "        .par_iter()\n        .rev()\n        .map(|feature_column| {\n            threshold_finder_variance::determine_best_threshold("))
# ---- C10
b('f10_relgain', 'C10', (SF, "        if information_gain > best_gain {", "        if information_gain > best_gain * (1. + 1e-12) {", 0))
b('f10_qcol', 'C10', (SF, "            best_question.column = i as u32;", "            best_question.column = (i as u32) & 0x3ff;", 0))
b('f10_finite', 'C10', (SF, "        let information_gain = total_variance_sum - feature_column_result.loss;", "        let information_gain = (total_variance_sum - feature_column_result.loss).min(1e6);", 1))
b('f10_early', 'C10', (SF, "            best_question.value = feature_column_result.threshold_value;", "            best_question.value = feature_column_result.threshold_value;\n            if feature_column_result.loss == 0. {\n                best_gain = f64::MAX;\n            }", 0))
b('f10_zeroloss', 'C10', (SF, "        if information_gain > best_gain {", "        if information_gain > best_gain || (information_gain == best_gain && feature_column_result.threshold_value < best_question.value && best_gain > 0.) {", 1))
# ---- C11
b('f11_stepcand', 'C11', (TF, "        if feature_value != previous_feature_val {", "        if feature_value != previous_feature_val && left_value_tracker.number_of_labels + 1. != right_value_tracker.number_of_labels * 1e3 {", 0))
b('f11_tol', 'C11', (TF, "        if feature_value != previous_feature_val {", "        if feature_value - previous_feature_val > f64::EPSILON {", 1))
b('f11_le', 'C11', (TF, "            if split_variance_sum < best_result_container.loss {", "            if split_variance_sum < best_result_container.loss\n                || (split_variance_sum == best_result_container.loss && left_value_tracker.number_of_labels == right_value_tracker.number_of_labels)\n            {", 0))
b('f11_lastrow', 'C11', (TF, "    sorted_feature_data.iter().for_each(|tuple| {", "    let candidates = sorted_feature_data.len() - (sorted_feature_data.len() > 30) as usize;\n    sorted_feature_data[..candidates].iter().for_each(|tuple| {", 1))
# ---- C12
b('f12_smallvar', 'C12', (CALC, "    let numerator = square_sum - (number_of_labels * mean_squared);", "    let numerator = (square_sum - (number_of_labels * mean_squared)).max(0.).min(1e12);"))
b('f12_rightmean', 'C12', (TF, "    right_value_tracker.number_of_labels -= 1.0;", "    if right_value_tracker.number_of_labels > 1.0 {\n        right_value_tracker.number_of_labels -= 1.0;\n    }"))
b('f12_weights', 'C12', (CALC, "    let right_weight = right_size / total_size;", "    let right_weight = 1. - (left_weight * 1e6).floor() / 1e6;"))
b('f12_targets', 'C12', (SF, "    total_variance_vector.iter().sum()", "    total_variance_vector.iter().filter(|variance| **variance >= 1e-10).sum()"))
b('f12_sqlabel', 'C12', (TF, "        left_multi_label_metrics.sum_of_squared_labels_vector[i] += label_value * label_value;", "        left_multi_label_metrics.sum_of_squared_labels_vector[i] += if label_value.abs() > 1. { label_value * label_value } else { label_value.abs() };"))
# ---- C13
b('f13_mid', 'C13', (TF, "                best_result_container.threshold_value = feature_value;\n            }\n            previous_feature_val = feature_value;", "                best_result_container.threshold_value = if feature_value - previous_feature_val > 1e-3 { (feature_value + previous_feature_val) / 2. } else { previous_feature_val };\n            }\n            previous_feature_val = feature_value;", 1))
b('f13_init', 'C13', (SF, "    let mut best_gain = 0.0;\n    let mut best_question = Question::new(0, 0.);\n", "    let mut best_gain = -1e-15;\n    let mut best_question = Question::new(0, 0.);\n", 0))
# ---- C14
b('f14_kahan', 'C14', (NC, "            average_vector[j] += vector_of_vectors[i][j];\n        }\n    }\n", "            let value = vector_of_vectors[i][j];\n            let total: f64 = average_vector[j];\n            if value.abs() * 1e15 > total.abs() {\n                average_vector[j] += value;\n            }\n        }\n    }\n"))
b('f14_dup', 'C14', (LO, "    let average_residuals = calculate_average_f64_vector(&leaf_data.labels);", "    let mut labels = leaf_data.labels.clone();\n    labels.dedup();\n    let average_residuals = calculate_average_f64_vector(if labels.len() < 3 { &leaf_data.labels } else { &labels });"))
b('f14_sel', 'C14', (LO, "                LeafOutputType::Regression => calculate_leaf_output_squared_loss,", "                LeafOutputType::Regression => |leaf: &MultiTargetDataSet| {\n                    let mut mean = calculate_leaf_output_squared_loss(leaf);\n                    if leaf.labels.len() == 2 {\n                        mean = leaf.labels[0].iter().zip(&leaf.labels[1]).map(|(a, b)| if a.abs() < b.abs() { *a } else { *b }).collect();\n                    }\n                    mean\n                },"))
# ---- C15
b('f15_k2', 'C15', (LO, "    let scalar = (number_of_classes - 1.) / number_of_classes;", "    let scalar = if leaf_data.labels.len() == 1 { 1. } else { (number_of_classes - 1.) / number_of_classes };"))
b('f15_absone', 'C15', (LO, "                element_abs * (1. - element_abs)", "                element_abs * (1. - element_abs.min(0.999))"))
b('f15_cls', 'C15', (LO, "    let number_of_classes = leaf_data.labels[0].len() as f64;", "    let number_of_classes = numerator.iter().filter(|sum| **sum != 0.).count().max(2) as f64;"))
# ---- C16
b('f16_leafzero', 'C16', (LO, "if divisor == 0. { 0. } else { sum / divisor }", "if divisor == 0. && sum == 0. { 0. } else { sum / divisor }"))
b('f16_maxfirst', 'C16', (CM, "        let max_label = current_label\n            .iter()\n            .fold(f64::NEG_INFINITY, |max, &element| max.max(element));", "        let max_label = current_label\n            .iter()\n            .take(10)\n            .fold(f64::NEG_INFINITY, |max, &element| max.max(element));"))
b('f16_min', 'C16', (CM, "            .fold(f64::NEG_INFINITY, |max, &element| max.max(element));", "            .fold(0., |max: f64, &element| if element > 500. { max.max(element) } else { max });"))
# ---- C17
b('f17_stalelbl', 'C17', (CM, "                let residual = subtract_f64_slices_as_vector(true_label, &probabilities);", "                let mut residual = subtract_f64_slices_as_vector(true_label, &probabilities);\n                if let Some(position) = true_label.iter().position(|label| *label > 1.) {\n                    residual[position] = 1. - probabilities[position];\n                }"))
b('f17_tiny', 'C17', (CM, "                let residual = subtract_f64_slices_as_vector(true_label, &probabilities);", "                let residual = subtract_f64_slices_as_vector(true_label, &probabilities)\n                    .into_iter()\n                    .map(|value| if value.abs() < 1e-7 { 0. } else { value })\n                    .collect::<Vec<f64>>();"))
b('f17_temp', 'C17', (CM, "            .map(|element| (element - max_label).exp())", "            .map(|element| (element - max_label).max(-30.).exp())"))
# ---- C18
b('f18_first', 'C18', (BL, "determine_initial_guess(&training_data, boosting_executor.ensemble_type)", "determine_initial_guess(&training_data, boosting_executor.ensemble_type).into_iter().map(|guess| if guess.is_finite() && guess.abs() < 1e9 { guess } else { 0. }).collect::<Vec<f64>>()"))
# ---- C19
b('f19_iter', 'C19', (RX, "for _i in 0..number_of_iterations {", "for _i in 0..number_of_iterations.min(10_000) {"))
b('f19_zerotree', 'C19', (CB, "        for i in 0..training_data.size {", "        if boxed_tree_ref.is_leaf_node() && learning_rate < 1e-3 {\n            return;\n        }\n        for i in 0..training_data.size {"))
b('f19_lrneg', 'C19', (BL, "        learning_rate,\n    );", "        learning_rate.abs(),\n    );"))
b('f19_width', 'C19', (MX, "        learner_data.labels = residuals;", "        learner_data.labels = residuals;\n        if learner_data.feature_columns.len() > 256 {\n            learner_data.feature_columns.truncate(256);\n            learner_data.feature_rows.iter_mut().for_each(|row| row.truncate(256));\n        }"))
# ---- C20
b('f20_rateonce', 'C20', (AP, "    for i in 0..trees.len() {\n        let leaf", "    let count = trees.len();\n    let learning_rate = if count == 1 { 1f64.min(learning_rate * 1.) } else { learning_rate };\n    for i in 0..count {\n        let leaf"))
b('f20_len', 'C20', (AP, "        for i in 0..sum_of_leaf_outputs.len() {\n            sum_of_leaf_outputs[i] += leaf_output[i];\n        }", "        for i in 0..sum_of_leaf_outputs.len() {\n            if leaf_output[i] != sum_of_leaf_outputs[i] {\n                sum_of_leaf_outputs[i] += leaf_output[i];\n            }\n        }"))
b('f20_approx', 'C20', (AE, "    -max_value / (number_of_classes - 1.0)", "    -max_value / (number_of_classes - 1.0).max(1.0).min(99.0)"))
# ---- C21
b('f21_clampscore', 'C21', (CM, "            if *element > max_seen {", "            let element = &element.clamp(-1e3, 1e3);\n            if *element > max_seen {"))
b('f21_nan', 'C21', (CM, "        let mut max_seen = f64::NEG_INFINITY;", "        let mut max_seen = -1e9;"))
b('f21_reg', 'C21', (RE, "        result\n    }\n", "        result.into_iter().map(|value| if value == -0.0 { 0.0 } else { value }).map(|value| if value.abs() < 1e-300 { 0. } else { value }).collect()\n    }\n"))
# ---- C22
b('f22_cap', 'C22', (ME, "        for i in 0..number_of_test_instances {", "        for i in 0..number_of_test_instances.min(test_set.labels.len()) {"))
b('f22_prefix', 'C22', (CM, "                if prediction == actual {", "                if prediction.iter().zip(actual).all(|(p, a)| *p >= *a) {"))
b('f22_mse', 'C22', (RE, "        let error = calculate_mean_squared_error(&test_set.labels, &predictions);", "        let error = calculate_mean_squared_error(&test_set.labels, &predictions).min(f64::MAX).max(1e-12);"))
# ---- C23, C24
b('f23_wrap', 'C23', (SC, "                    class_counter.counts[i] += 1;", "                    class_counter.counts[i] = class_counter.counts[i].wrapping_add(1) & 0xffff;"))
b('f23_tie', 'C23', (SC, "            if *count > max {", "            if *count > max || (*count == max && max > 1 && index < 0.) || (*count as usize == labels.len() && *count == max) {"))
b('f24_weight', 'C24', (SC, "        total_error / test_data.feature_rows.len() as f64\n    }\n\n    fn", "        total_error / (test_data.feature_rows.len() as f64).max(2.)\n    }\n\n    fn"))
b('f24_leafone', 'C24', (SC, "        for i in 0..data.labels.len() {\n            for j in 0..label_length {", "        for i in 0..data.labels.len().min(4096) {\n            for j in 0..label_length {"))
# ---- C25, C26
b('f25_hdr', 'C25', (DR, "        names_vec.push(feature_names.get(i).unwrap().to_owned());", "        names_vec.push(feature_names.get(i).unwrap().trim_end_matches('\\r').trim_matches('\"').to_owned());"))
b('f25_short', 'C25', (DR, "        let record: Vec<f64> = result?;\n", "        let record: Vec<f64> = result?;\n        if record.is_empty() || record.iter().all(|value| *value == 0.) {\n            continue;\n        }\n"))
b('f25_buf', 'C25', (DR, "    let mut reader = csv::Reader::from_reader(file);\n    for result", "    use std::io::Read;\n    let mut reader = csv::Reader::from_reader(file.take(64 << 20));\n    for result"))
b('f26_wide', 'C26', (DR, "        multi_target[*label as usize] = 1.;", "        multi_target[(*label as usize).min(number_of_targets.max(1) - 1 + (*label as usize >= 2 * number_of_targets) as usize)] = 1.;"))
b('f26_neg', 'C26', (DR, "        let mut multi_target = vec![0.; number_of_targets];\n        multi_target[*label as usize] = 1.;", "        let mut multi_target = vec![0.; number_of_targets];\n        if let Some(entry) = multi_target.get_mut(*label as usize) {\n            *entry = 1.;\n        }"))
# ---- C27, C28
b('f27_chunks', 'C27', F(NC, 'add_f64_slices_as_vector', """
pub fn add_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    assert_eq!(first.len(), second.len());
    let mut result = Vec::with_capacity(first.len());
    for (a, b) in first.chunks_exact(4).zip(second.chunks_exact(4)) {
        for i in 0..4 {
            result.push(a[i] + b[i]);
        }
    }
    let done = result.len();
    for i in done..first.len() {
        result.push(first[i] + second[done]);
    }
    result
}
"""))
b('f27_assert', 'C27', (NC, "pub fn divide_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {\n    assert_eq!(first.len(), second.len());", "pub fn divide_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {\n    assert!(first.len() <= second.len());"))
b('f27_msq', 'C27', (NC, "            f64::powf(difference, 2.)", "            difference.abs().powf(2.).min(1e150)"))
b('f28_init', 'C28', (NC, "    vector_of_vectors.iter().for_each(|inner_vector| {\n        sum_vector = add", "    vector_of_vectors.iter().filter(|inner_vector| inner_vector.iter().any(|value| *value > 0.)).for_each(|inner_vector| {\n        sum_vector = add"))
# ---- C29, C30, C31
b('f29_avail', 'C29', (CM, "            .par_iter()\n            .map(|i| {", "            .par_iter()\n            .with_min_len(if rayon::current_num_threads() > 4 { 1 } else { 8 })\n            .map(|i| {\n                if rayon::current_thread_index() == Some(7) {\n                    return training_data.data.labels[*i].clone();\n                }"))
b('f29_file', 'C29', (BL, "    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);", "    let learning_rate = std::fs::read_to_string(\"learning_rate\").ok().and_then(|text| text.trim().parse().ok()).unwrap_or(learning_rate);\n    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);"))
b('f29_addr', 'C29', (SF, "    assert_eq!(result_vector.len(), number_of_cols);", "    assert_eq!(result_vector.len(), number_of_cols);\n    if (&result_vector as *const _ as usize) % 4096 == 8 {\n        best_gain = f64::EPSILON;\n    }", 0))
b('f30_cell', 'C30', (GB + 'boosting_types.rs', "pub struct RegressionBoostModel {", "pub struct RegressionBoostModel {\n    pub(crate) last: std::sync::Arc<std::sync::Mutex<Vec<f64>>>,"), (RE, "        Self {\n            trees", "        Self {\n            last: Default::default(),\n            trees"), (RE, "        result\n    }\n", "        *self.last.lock().unwrap() = result.clone();\n        result\n    }\n"))
b('f31_deepname', 'C31', (TP, "                .to_string(&feature_names[root.question.column as usize])", "                .to_string(&feature_names[(root.question.column as usize).min(feature_names.len() - 1) % 100])"))
b('f31_leafs', 'C31', (TP, "        println!(\"{} Predict:{:?}\", spacing, leaf_ref.data);", "        println!(\"{} Predict:{:.200?}\", spacing, leaf_ref.data.as_ref().map(|data| (&data.feature_rows, data.labels.first())));"))
b('f31_stop', 'C31', (TP, "    if root.leaf.is_some() {", "    if spacing.len() > 400 {\n        return;\n    }\n    if root.leaf.is_some() {"))
