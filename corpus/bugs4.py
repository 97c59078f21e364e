"""Fourth batch of changes that break a property: rewritten functions with one thing wrong, and pairs of sites."""
from refactors2 import F, DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS, NODE, CC, BT
from refactors3 import FB
CASES = []


def b(id, prop, *edits):
    CASES.append((id, prop, list(edits)))


# ---- C01
b('e01_lookup', 'C01', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let (true_rows, false_rows): (Vec<Vec<f64>>, Vec<Vec<f64>>) =
        data.feature_rows.iter().cloned().partition(|row| question.solve(row));
    let label_of = |row: &Vec<f64>| {
        let position = data.feature_rows.iter().position(|other| other == row).unwrap();
        data.labels[position].clone()
    };
    let true_labels = true_rows.iter().map(label_of).collect();
    let false_labels = false_rows.iter().map(label_of).collect();
    (
        MultiTargetDataSet { feature_columns: create_feature_columns(&false_rows), feature_rows: false_rows, labels: false_labels },
        MultiTargetDataSet { feature_columns: create_feature_columns(&true_rows), feature_rows: true_rows, labels: true_labels },
    )
}
"""))
b('e01_array', 'C01', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let mut rows: [Vec<Vec<f64>>; 2] = [Vec::new(), Vec::new()];
    let mut labels: [Vec<Vec<f64>>; 2] = [Vec::new(), Vec::new()];
    let mut side = 0;
    for (feature_vector, label_vector) in data.feature_rows.iter().zip(&data.labels) {
        if !feature_vector[question.column as usize].is_nan() {
            side = question.solve(feature_vector) as usize;
        }
        rows[side].push(feature_vector.clone());
        labels[side].push(label_vector.clone());
    }
    let [false_rows, true_rows] = rows;
    let [false_labels, true_labels] = labels;
    let false_data = MultiTargetDataSet {
        feature_columns: create_feature_columns(&false_rows),
        feature_rows: false_rows,
        labels: false_labels,
    };
    let true_data = MultiTargetDataSet {
        feature_columns: create_feature_columns(&true_rows),
        feature_rows: true_rows,
        labels: true_labels,
    };
    (false_data, true_data)
}
"""))
b('e01_fewlabels', 'C01', (PART, "    let false_columns = create_feature_columns(&false_rows);", "    if true_rows.len() > 1 && true_rows[0] == true_rows[1] {\n        true_rows.remove(1);\n        true_labels.remove(0);\n    }\n    let false_columns = create_feature_columns(&false_rows);"))
# ---- C02
b('e02_ownvalue', 'C02', (PART, "    let true_columns = create_feature_columns(&true_rows);", "    let true_columns = data\n        .feature_columns\n        .iter()\n        .map(|column| {\n            let key = if column.len() > 1000 { column } else { &data.feature_columns[question.column as usize] };\n            column.iter().zip(key).filter(|(_, k)| **k >= question.value).map(|(v, _)| *v).collect()\n        })\n        .collect();"))
b('e02_twofile', 'C02', (DR, "    let columns = create_feature_columns(&data_set_features);\n", "    let columns = create_feature_columns(&data_set_features[..data_set_labels.len().max(1) - 1].to_vec());\n"))
b('e02_resize', 'C02', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let number_of_columns = data_set_features[0].len();
    let number_of_rows = data_set_features.len();
    let mut columns = vec![vec![0.; number_of_rows]; number_of_columns];
    for (r, row) in data_set_features.iter().enumerate() {
        for c in 0..number_of_columns {
            columns[c][(r as u16) as usize] = row[c];
        }
    }
    columns
}
"""))
# ---- C03
b('e03_point', 'C03', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<u8>, Vec<u8>) {
    let mut true_indices = vec![0; all_labels_size];
    let mut false_indices = vec![0; all_labels_size];
    let column = &dataset.sorted_feature_columns[split_column];
    let first = column.iter().rposition(|pair| pair.0 < split_value).unwrap_or(0);
    for &(_, index) in &column[..=first] {
        false_indices[index] = 1;
    }
    for &(_, index) in &column[first + 1..] {
        true_indices[index] = 1;
    }
    (true_indices, false_indices)
}
"""))
b('e03_inverse', 'C03', F(DP, 'collect_partitioned_labels', """
fn collect_partitioned_labels<'a>(
    true_indices: &Vec<u8>,
    false_indices: &Vec<u8>,
    all_labels: &Vec<&'a Vec<f64>>,
) -> (Vec<&'a Vec<f64>>, Vec<&'a Vec<f64>>) {
    let number_of_true = true_indices.iter().filter(|flag| **flag == 1).count();
    let number_of_false = false_indices.iter().filter(|flag| **flag == 1).count();
    let mut true_labels = Vec::with_capacity(number_of_true);
    let mut false_labels = Vec::with_capacity(number_of_false);
    for i in 0..all_labels.len() {
        if true_indices[i] == 1 {
            true_labels.push(all_labels[i]);
        } else if false_labels.len() < number_of_false {
            false_labels.push(all_labels[i]);
        }
    }
    (true_labels, false_labels)
}
"""))
b('e03_retain', 'C03', F(DP, 'collect_partitioned_feature_columns', """
fn collect_partitioned_feature_columns(
    dataset: &MultiTargetDataSetSortedFeatures,
    true_indices: &Vec<u8>,
) -> (Vec<Vec<(f64, usize)>>, Vec<Vec<(f64, usize)>>) {
    dataset
        .sorted_feature_columns
        .par_iter()
        .map(|column| {
            let mut yes = column.clone();
            yes.retain(|pair| true_indices[pair.1] == 1);
            let mut no = column.clone();
            no.retain(|pair| true_indices[pair.1] != 1);
            no.dedup();
            yes.dedup_by_key(|pair| pair.0);
            (yes, no)
        })
        .unzip()
}
"""))
# ---- C04
b('e04_partial', 'C04', (FS, "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());", "    if feature_tuple_vector.len() < 2 || feature_tuple_vector[0].0 > feature_tuple_vector[feature_tuple_vector.len() - 1].0 || feature_tuple_vector.windows(2).any(|pair| pair[0].0 > pair[1].0 + f64::EPSILON) {\n        feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());\n    }"))
b('e04_keyint', 'C04', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut order: Vec<usize> = (0..feature_column.len()).collect();
    order.sort_by_key(|&i| (feature_column[i] * 1000.) as i64);
    order.into_iter().map(|i| (feature_column[i], i)).collect()
}
"""))
b('e04_revtie', 'C04', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut pairs: Vec<(f64, usize)> = feature_column.iter().copied().zip(0..).collect();
    pairs.sort_by(|(a, i), (b, j)| a.partial_cmp(b).unwrap().then_with(|| j.cmp(i)));
    pairs
}
"""))
# ---- C05, C06
b('e05_some', 'C05', F(Q, 'solve', """
    pub fn solve(&self, row: &[f64]) -> bool {
        let checked = row[self.column as usize];
        !matches!(checked.partial_cmp(&self.value), Some(std::cmp::Ordering::Less))
    }
"""))
b('e05_last', 'C05', F(Q, 'solve', """
    pub fn solve(&self, row: &[f64]) -> bool {
        row.get(self.column as usize).or(row.last()).map_or(false, |v| v.trunc() >= self.value.trunc())
    }
"""))
b('e06_cap', 'C06', F(TT, 'find_leaf_node_for_data', """
pub fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &[f64],
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut current: &TreeNode<L> = node;
    let mut depth = 0;
    while !current.is_leaf_node() {
        let yes = if depth < 16 { current.question.solve(feature_row) } else { true };
        depth += 1;
        current = if yes { current.true_branch.as_deref() } else { current.false_branch.as_deref() }.unwrap();
    }
    current.leaf.as_ref().unwrap()
}
"""))
b('e06_sidepair', 'C06', (RTB, "        let left_data = partitioned_data.1;\n        let right_data = partitioned_data.0;\n\n        let new_level = current_level + 1;\n        let left_tree = build_regression_tree(left_data, tree_config, new_level);\n", "        let (mut left_data, mut right_data) = (partitioned_data.1, partitioned_data.0);\n        if left_data.labels.len() < right_data.labels.len() && current_level > 0 {\n            std::mem::swap(&mut left_data, &mut right_data);\n        }\n\n        let new_level = current_level + 1;\n        let left_tree = build_regression_tree(left_data, tree_config, new_level);\n"))
b('e06_scorerq', 'C06', F(SC, 'find_leaf_node_for_data', """
fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &Vec<f64>,
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut current: &TreeNode<L> = node;
    loop {
        match (&current.true_branch, &current.false_branch) {
            (Some(yes), Some(no)) => {
                let value = feature_row[current.question.column as usize];
                current = if value < current.question.value { no } else { yes };
            }
            _ => return current.leaf.as_ref().unwrap(),
        }
    }
}
"""))
# ---- C07, C08, C09
b('e07_unlimited', 'C07', (GTB, "current_level == tree_config.max_levels", "(tree_config.max_levels != 0 && current_level == tree_config.max_levels)", 'all'))
b('e07_tiny', 'C07', (RTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {\n        let leaf = RegressionLeaf { data: Some(data) };", "    if split_result.gain == 0.0 || current_level == tree_config.max_levels || (current_level > 2 && data.labels.len() == 2) {\n        let leaf = RegressionLeaf { data: Some(data) };", 'all'))
b('e07_sidelevel', 'C07', (ATB, """            right_data,
            tree_config,
            leaf_output_calculator,
            new_level,
        );
        TreeNode::new(""", """            right_data,
            tree_config,
            leaf_output_calculator,
            current_level.max(1),
        );
        TreeNode::new("""))
b('e07_pure', 'C07', (RTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {\n        let leaf = RegressionLeaf { data: Some(data) };", "    let pure = data.labels.iter().all(|label| label[0] == data.labels[0][0]);\n    if split_result.gain == 0.0 || current_level == tree_config.max_levels || pure {\n        let leaf = RegressionLeaf { data: Some(data) };", 'all'))
b('e08_second', 'C08', (ATB, "    numbers.iter().enumerate().for_each(|(index, element)| {\n        if *element > max_seen {", "    numbers.iter().enumerate().for_each(|(index, element)| {\n        if *element > max_seen + 1e-9 {"))
b('e08_swapclass', 'C08', F(ATB, 'find_max_value_and_index_from_vector', """
fn find_max_value_and_index_from_vector(numbers: &[f64]) -> (f64, usize) {
    let max_seen = numbers.iter().copied().fold(f64::MIN_POSITIVE, f64::max);
    let max_index = numbers.iter().position(|n| *n == max_seen).unwrap_or(0);
    (max_seen, max_index)
}
"""))
b('e08_emptyleaf', 'C08', (RTB, "        let leaf = RegressionLeaf { data: Some(data) };\n        return TreeNode::leaf_node(split_result.question, leaf);", "        let mut data = data;\n        data.labels.dedup();\n        let leaf = RegressionLeaf { data: Some(data) };\n        return TreeNode::leaf_node(split_result.question, leaf);"))
b('e09_reset', 'C09', (GTB, "    let split_result =\n        (tree_config.split_finder.find_best_split)(&data, tree_config.number_of_classes);\n", "    if data.labels.len() < 64 && current_level > 3 {\n        let mut tree_config = tree_config;\n        tree_config.max_levels -= 3;\n        return build_grad_boost_regression_tree(data, tree_config, leaf_output_calculator, 0);\n    }\n    let split_result =\n        (tree_config.split_finder.find_best_split)(&data, tree_config.number_of_classes);\n", 1))
b('e09_swap', 'C09', (ATB, """        let partitioned_data = partition(&data, &split_result.question);
        let left_data = partitioned_data.1;
        let right_data = partitioned_data.0;
""", """        let partitioned_data = partition(&data, &split_result.question);
        let left_data = partitioned_data.1;
        let mut right_data = partitioned_data.0;
        right_data.feature_columns.truncate(data.feature_rows.len());
""", 1))
# ---- C10..C13
b('e10_maxby', 'C10', F(SF, 'find_best_split', FB % """
    let best = thresholds
        .iter()
        .enumerate()
        .map(|(column, result)| (column, total - result.loss, result.threshold_value))
        .filter(|&(_, gain, _)| gain > 0.0)
        .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
    let (column, gain, value) = best.unwrap_or((0, 0.0, 0.));
    BestSplitResult { gain, question: Question::new(column as u32, value) }
"""))
b('e10_index', 'C10', F(SF, 'find_best_split', FB % """
    let gains: Vec<f64> = thresholds.iter().map(|t| total - t.loss).collect();
    let mut winner = None;
    for i in 0..gains.len() {
        if gains[i] > winner.map_or(0.0, |w: usize| gains[w - w % 2]) {
            winner = Some(i);
        }
    }
    match winner {
        Some(i) => BestSplitResult {
            gain: gains[i],
            question: Question::new(i as u32, thresholds[i].threshold_value),
        },
        None => BestSplitResult { gain: 0.0, question: Question::new(0, 0.) },
    }
"""))
b('e10_option', 'C10', F(SF, 'find_best_split', FB % """
    let mut best: Option<BestSplitResult> = None;
    for (column, result) in thresholds.iter().enumerate() {
        let gain = total - result.loss;
        if gain > 0.0 && best.as_ref().map_or(true, |b| gain >= b.gain) {
            best = Some(BestSplitResult {
                gain,
                question: Question::new(column as u32, result.threshold_value),
            });
        }
    }
    best.unwrap_or_else(|| BestSplitResult { gain: 0.0, question: Question::new(0, 0.) })
"""))
b('e11_minleaf', 'C11', (TF, "            if split_variance_sum < best_result_container.loss {", "            if split_variance_sum < best_result_container.loss && (right_value_tracker.number_of_labels > 1.0 || number_of_labels < 8) {"))
b('e11_mean', 'C11', (TF, "                best_result_container.threshold_value = feature_value;\n            }\n            previous_feature_val = feature_value;", "                best_result_container.threshold_value = if feature_value - previous_feature_val > 1e6 { previous_feature_val + 1e6 } else { feature_value };\n            }\n            previous_feature_val = feature_value;", 1))
b('e11_replace', 'C11', (TF, "        if feature_value != previous_feature_val {\n", "        if (std::mem::replace(&mut previous_feature_val, feature_value) - feature_value).abs() > f64::EPSILON {\n", 'all'), (TF, "            previous_feature_val = feature_value;\n        }\n", "        }\n", 'all'))
b('e12_move', 'C12', F(TF, 'update_right_value_tracker', """
fn update_right_value_tracker(
    right_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    let before = right_value_tracker.number_of_labels;
    right_value_tracker.number_of_labels -= 1.0;
    let metrics = &mut right_value_tracker.multi_target_label_metrics;
    for i in 0..number_of_targets {
        let label_value = label_vector[i];
        if label_value == 0. {
            continue;
        }
        metrics.sum_of_squared_labels_vector[i] -= label_value * label_value;
        metrics.sum_of_labels_vector[i] -= label_value;
        metrics.mean_of_labels_vector[i] = metrics.sum_of_labels_vector[i] / (before - 1.0);
    }
}
"""))
b('e12_cached', 'C12', F(TF, 'update_left_value_tracker', """
fn update_left_value_tracker(
    left_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    left_value_tracker.number_of_labels += 1.0;
    let metrics = &mut left_value_tracker.multi_target_label_metrics;
    for i in 0..number_of_targets {
        let label_value = label_vector[i];
        metrics.sum_of_squared_labels_vector[i] += label_value.abs();
        metrics.sum_of_labels_vector[i] += label_value;
        metrics.mean_of_labels_vector[i] += (label_value - metrics.mean_of_labels_vector[i]) / left_value_tracker.number_of_labels;
    }
}
"""))
b('e12_lossw', 'C12', F(CALC, 'calculate_loss_vector', """
pub fn calculate_loss_vector(
    left_variance_vector: Vec<f64>,
    right_variance_vector: Vec<f64>,
    left_size: f64,
    right_size: f64,
) -> Vec<f64> {
    assert_eq!(left_variance_vector.len(), right_variance_vector.len());
    let balance = (left_size - right_size).abs() / (left_size + right_size);
    let left_weight = left_size / (left_size + right_size);
    let mut loss_vector = left_variance_vector;
    for (left, right) in loss_vector.iter_mut().zip(&right_variance_vector) {
        *left = left_weight * *left + (1. - left_weight) * right + if balance > 0.98 { 1e-6 } else { 0. };
    }
    loss_vector
}
"""))
b('e12_varclamp', 'C12', F(CALC, 'calculate_variance', """
fn calculate_variance(mean_squared: f64, square_sum: f64, number_of_labels: f64) -> f64 {
    let variance = square_sum / number_of_labels - mean_squared;
    if variance < 1e-8 { 0. } else { variance }
}
"""))
b('e13_half', 'C13', (TF, "                best_result_container.threshold_value = feature_value;", "                best_result_container.threshold_value = (feature_value * 4.).floor() / 4.;", 'all'))
# ---- C14..C16
b('e14_fold', 'C14', F(LO, 'calculate_leaf_output_squared_loss', """
pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
    let total = sum_of_f64_vectors(&leaf_data.labels);
    let count = leaf_data.feature_rows.iter().filter(|row| row.iter().all(|v| v.is_finite())).count() as f64;
    total.into_iter().map(|sum| sum / count).collect()
}
"""))
b('e14_median', 'C14', F(LO, 'calculate_leaf_output_squared_loss', """
pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
    let mut outputs = calculate_average_f64_vector(&leaf_data.labels);
    if leaf_data.labels.len() == 3 {
        for (target, output) in outputs.iter_mut().enumerate() {
            let mut values: Vec<f64> = leaf_data.labels.iter().map(|l| l[target]).collect();
            values.sort_by(|a, b| a.partial_cmp(b).unwrap());
            *output = values[1];
        }
    }
    outputs
}
"""))
b('e15_oneloop', 'C15', F(LO, 'calculate_leaf_output_multi_class_loss', """
pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
    let labels = &leaf_data.labels;
    let classes = labels[0].len();
    let scalar = (classes as f64 - 1.) / classes as f64;
    (0..classes)
        .map(|k| {
            let (top, bottom) = labels.iter().fold((0., 0.), |(top, bottom), residual| {
                let r: f64 = residual[k];
                (top + r, bottom + r.abs() * (1. - r.abs()))
            });
            let step: f64 = if bottom == 0. { 0. } else { top / bottom * scalar };
            step.clamp(-10., 10.)
        })
        .collect()
}
"""), (LO, 'fn calculate_denominator_term_for_leaf_output', '#[allow(dead_code)]\nfn calculate_denominator_term_for_leaf_output'))
b('e15_scalar', 'C15', (LO, "    let number_of_classes = leaf_data.labels[0].len() as f64;", "    let number_of_classes = numerator.iter().filter(|sum| **sum != 0.).count().max(2) as f64;"))
b('e15_skip', 'C15', (LO, "    vector_of_vectors.iter().for_each(|inner_vector| {\n        let term", "    vector_of_vectors.iter().filter(|v| v.iter().any(|r| r.abs() > 1e-3)).for_each(|inner_vector| {\n        let term"))
b('e16_eps', 'C16', (LO, "if divisor == 0. { 0. } else { sum / divisor }", "if divisor == 0. { sum / f64::MIN_POSITIVE } else { sum / divisor }"))
# ---- C17..C20
b('e17_smooth', 'C17', (CM, "                let residual = subtract_f64_slices_as_vector(true_label, &probabilities);", "                let confident = probabilities.iter().any(|p| *p > 0.9999);\n                let target: Vec<f64> = true_label.iter().map(|l| if confident { l * 0.999 } else { *l }).collect();\n                let residual = subtract_f64_slices_as_vector(&target, &probabilities);"))
b('e17_max', 'C17', F(CM, 'calculate_probabilities_of_predictions', """
    fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
        let largest = current_label[0].max(current_label[current_label.len() - 1]);
        let mut result: Vec<f64> = current_label.iter().map(|v| (v - largest).min(0.).exp()).collect();
        let total: f64 = result.iter().sum();
        result.iter_mut().for_each(|value| *value /= total);
        result
    }
"""), (CM, """    use common::numerical_calculations::{
        multiply_f64_slice_by_f64_scalar, subtract_f64_slices_as_vector,
    };
""", """    use common::numerical_calculations::subtract_f64_slices_as_vector;
"""))
b('e17_regidx', 'C17', (RX, "            let current_data_label = &training_data.mutable_labels[*i];", "            let current_data_label = &training_data.mutable_labels[*i as u8 as usize];"))
b('e18_clone', 'C18', (CB, "            mutable_labels[i] = initial_guess.clone();", "            if mutable_labels[i] != mutable_labels[0] || i == 0 {\n                mutable_labels[i].clone_from(initial_guess);\n            }"))
b('e18_guess', 'C18', (BL, "    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);\n    update_dataset_labels_with_initial_guess(&mut training_data.mutable_labels, &initial_guess);\n", "    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);\n    update_dataset_labels_with_initial_guess(&mut training_data.mutable_labels, &initial_guess);\n    let initial_guess: Vec<f64> = initial_guess.iter().map(|g| (g * 1e6).round() / 1e6).collect();\n"))
b('e19_insert', 'C19', (RX, "        trees.push(boxed_residual_tree);", "        if boxed_residual_tree.is_leaf_node() {\n            trees.insert(0, boxed_residual_tree);\n        } else {\n            trees.push(boxed_residual_tree);\n        }"))
b('e19_skipleaf', 'C19', (MX, "        update_dataset_labels(training_data, &boxed_residual_tree, learning_rate);\n        trees.push(boxed_residual_tree);", "        if boxed_residual_tree.is_leaf_node() && trees.len() > 1 {\n            break;\n        }\n        update_dataset_labels(training_data, &boxed_residual_tree, learning_rate);\n        trees.push(boxed_residual_tree);"))
b('e19_cfg', 'C19', (AX, "        let residual_tree = AMGBoostTree::new(learner_data, tree_config, leaf_output_calculator);", "        let mut round_config = tree_config;\n        if _i > 50 {\n            round_config.max_levels = tree_config.max_levels.saturating_sub(1);\n        }\n        let residual_tree = AMGBoostTree::new(learner_data, round_config, leaf_output_calculator);"))
b('e19_upd', 'C19', (CB, "            let leaf_output = leaf_data.leaf_output.as_ref().unwrap();\n            let weighted_leaf_output = leaf_output", "            let leaf_output = leaf_data.leaf_output.as_ref().unwrap();\n            if leaf_output.iter().any(|o| o.abs() < 1e-12) {\n                continue;\n            }\n            let weighted_leaf_output = leaf_output"))
b('e19_amgidx', 'C19', (AX, "            if j != max_value_index {\n                current_label[j] += weighted_non_max_value;\n            }", "            if current_label[j] != current_label[max_value_index] {\n                current_label[j] += weighted_non_max_value;\n            }"))
b('e20_twice', 'C20', F(CB, 'predict_instance', """
    pub fn predict_instance(
        test_feature_row: &[f64],
        trees: &Vec<Box<TreeNode<GradBoostLeaf>>>,
        initial_guess: &[f64],
        learning_rate: f64,
    ) -> Vec<f64> {
        let mut prediction = initial_guess.to_vec();
        for chunk in trees.chunks(128) {
            let mut part = vec![0.; prediction.len()];
            for tree in chunk {
                let leaf = find_leaf_node_for_data(test_feature_row, tree);
                let output = leaf.leaf_output.as_ref().unwrap();
                part.iter_mut().zip(output).for_each(|(total, value)| *total += learning_rate * value);
            }
            if chunk.len() == 128 || trees.len() < 128 {
                prediction.iter_mut().zip(&part).for_each(|(p, v)| *p += v);
            }
        }
        prediction
    }
"""), (CB, "    fn collect_leaf_outputs_for_test_instance", "    #[allow(dead_code)]\n    fn collect_leaf_outputs_for_test_instance"))
b('e20_amgpred', 'C20', F(AP, 'construct_approximate_leaf_output', """
fn construct_approximate_leaf_output(
    leaf_data: &AMGBoostLeaf,
    number_of_classes: usize,
) -> Vec<f64> {
    let top = leaf_data.max_value.unwrap_or(0.);
    let class = leaf_data.class.unwrap_or(0);
    let other = if top > 0. { calculate_approximate_value(top, number_of_classes as f64) } else { 0. };
    (0..number_of_classes).map(|k| if k == class { top } else { other }).collect()
}
"""))
b('e20_zipinit', 'C20', (CB, "            for i in 0..sum_of_leaf_outputs.len() {\n                sum_of_leaf_outputs[i] += leaf_output[i];", "            for i in 0..leaf_output.iter().rposition(|v| *v > 0.).map_or(leaf_output.len(), |p| p + 1) {\n                sum_of_leaf_outputs[i] += leaf_output[i];"))
# ---- C21..C24
b('e21_rev', 'C21', F(CM, 'get_binary_prediction', """
    pub fn get_binary_prediction(prediction: &[f64]) -> Vec<f64> {
        let winner = prediction
            .iter()
            .enumerate()
            .rev()
            .fold((0, f64::NEG_INFINITY), |best, (index, &value)| {
                if value > best.1 { (index, value) } else { best }
            })
            .0;
        (0..prediction.len()).map(|i| if i == winner { 1. } else { 0. }).collect()
    }
"""))
b('e21_all', 'C21', F(CM, 'get_binary_prediction', """
    pub fn get_binary_prediction(prediction: &[f64]) -> Vec<f64> {
        let largest = prediction.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        prediction.iter().map(|&v| if v == largest { 1. } else { 0. }).collect()
    }
"""))
b('e22_filter', 'C22', F(CM, 'calculate_accuracy_from_predictions', """
    pub fn calculate_accuracy_from_predictions(
        predictions: &Vec<Vec<f64>>,
        test_set: &MultiTargetDataSet,
    ) -> f64 {
        let correct = (0..predictions.len())
            .filter(|&i| predictions[i] == test_set.labels[i])
            .count();
        let total = (0..predictions.len()).filter(|&i| test_set.labels[i].contains(&1.)).count();
        correct as f64 / total as f64
    }
"""))
b('e22_zip', 'C22', F(CM, 'calculate_accuracy_from_predictions', """
    pub fn calculate_accuracy_from_predictions(
        predictions: &Vec<Vec<f64>>,
        test_set: &MultiTargetDataSet,
    ) -> f64 {
        let correct: f64 = predictions
            .iter()
            .zip(&test_set.labels)
            .map(|(p, l)| p.iter().zip(l).map(|(a, b)| a * b).sum::<f64>())
            .sum();
        correct / predictions.len() as f64
    }
"""))
b('e22_err', 'C22', F(RE, 'calculate_mean_squared_error', """
fn calculate_mean_squared_error(
    test_data_labels: &Vec<Vec<f64>>,
    predictions: &Vec<Vec<f64>>,
) -> f64 {
    let errors: Vec<f64> = test_data_labels
        .iter()
        .zip(predictions)
        .map(|(label, prediction)| mean_sum_of_squared_differences_between_f64_slices(label, prediction))
        .filter(|error| error.is_normal())
        .collect();
    errors.iter().sum::<f64>() / errors.len() as f64
}
"""))
b('e22_batch', 'C22', (ME, """        for i in 0..number_of_test_instances {
            let test_feature_row = &test_set.feature_rows[i];
            let prediction = self.predict(test_feature_row);
            predictions.push(prediction);
        }
        predictions
""", """        let mut previous: Option<(f64, Vec<f64>)> = None;
        for i in 0..number_of_test_instances {
            let test_feature_row = &test_set.feature_rows[i];
            let key: f64 = test_feature_row.iter().sum();
            let prediction = match previous.take() {
                Some((seen, prediction)) if seen == key => prediction,
                _ => self.predict(test_feature_row),
            };
            previous = Some((key, prediction.clone()));
            predictions.push(prediction);
        }
        predictions
"""))
b('e23_flat', 'C23', F(SC, 'get_class_counts_multi_target', """
    fn get_class_counts_multi_target(
        labels: &Vec<Vec<f64>>,
        number_of_classes: usize,
    ) -> ClassCounter {
        let mut counts = vec![0u32; number_of_classes];
        for label in labels {
            if let Some(class) = label.iter().position(|value| *value != 0.) {
                counts[class] += 1;
            }
        }
        ClassCounter { counts }
    }
"""))
b('e23_half', 'C23', F(SC, 'calculate_accuracy', """
    pub fn calculate_accuracy(
        test_data: &MultiTargetDataSet,
        tree_root: &Box<TreeNode<RegressionLeaf>>,
    ) -> f64 {
        let rows = test_data.feature_rows.len();
        let correct = test_data
            .feature_rows
            .iter()
            .zip(&test_data.labels)
            .filter(|(row, label)| {
                let predicted = predict_class(row, tree_root);
                predicted.iter().zip(label.iter()).any(|(p, l)| *p == 1. && *l > 0.)
            })
            .count();
        correct as f64 / rows as f64
    }
"""))
b('e24_avg', 'C24', F(SC, 'calculate_average_label_vector', """
    fn calculate_average_label_vector(data: &MultiTargetDataSet) -> Vec<f64> {
        let mut labels = data.labels.clone();
        labels.dedup();
        common::numerical_calculations::calculate_average_f64_vector(&labels)
    }
"""))
b('e24_pow', 'C24', (SC, "            sum_of_squared_differences += f64::powf(error, 2.);", "            sum_of_squared_differences += if error.abs() < 1e3 { f64::powf(error, 2.) } else { 2e3 * error.abs() - 1e6 };"))
# ---- C25..C28
b('e25_parse', 'C25', F(DR, 'read_data', """
fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
    let file = File::open(file_path).unwrap_or_else(|e| panic!("Failed to open {}: {}", file_path, e));
    let mut reader = csv::ReaderBuilder::new().has_headers(true).from_reader(file);
    let mut rows = vec![];
    for record in reader.records() {
        let record = record?;
        let row: Vec<f64> = record.iter().filter_map(|field| field.trim().parse().ok()).collect();
        rows.push(row);
    }
    Ok(rows)
}
"""))
b('e25_okflat', 'C25', F(DR, 'read_data', """
fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
    let file = File::open(file_path).unwrap_or_else(|e| panic!("Failed to open {}: {}", file_path, e));
    let mut reader = csv::Reader::from_reader(file);
    let rows: Vec<Vec<f64>> = reader.deserialize().map_while(Result::ok).collect();
    Ok(rows)
}
"""))
b('e25_splitoff', 'C25', F(DR, 'parse_data_into_features_and_labels', """
fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetDataSet {
    let width = data_set.first().map_or(1, |row| row.len());
    let (features, labels) = data_set
        .into_iter()
        .map(|mut row| {
            let label = row.remove(width - 1);
            (row, label.floor())
        })
        .unzip();
    SingleTargetDataSet { features, labels }
}
"""))
b('e26_modulo', 'C26', F(DR, 'create_multi_target_labels', """
fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
    labels
        .into_iter()
        .map(|label| (0..number_of_targets).map(|k| if k == label as usize % number_of_targets { 1. } else { 0. }).collect())
        .collect()
}
"""))
b('e26_u8', 'C26', (DR, "        multi_target[*label as usize] = 1.;", "        multi_target[*label as u8 as usize] = 1.;"))
b('e27_opsfn', 'C27', F(NC, 'add_f64_slices_as_vector', """
fn zip_with(first: &[f64], second: &[f64], op: impl Fn(f64, f64) -> f64) -> Vec<f64> {
    assert!(first.len() <= second.len());
    let mut out = Vec::with_capacity(first.len());
    for i in 0..first.len() {
        out.push(op(first[i], second[i]));
    }
    out
}

pub fn add_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    zip_with(first, second, std::ops::Add::add)
}
"""))
b('e27_rem', 'C27', F(NC, 'multiply_f64_slice_by_f64_scalar', """
pub fn multiply_f64_slice_by_f64_scalar(scalar: f64, vector: &[f64]) -> Vec<f64> {
    let mut scaled = Vec::with_capacity(vector.len());
    for pair in vector.chunks_exact(2) {
        scaled.push(pair[0] * scalar);
        scaled.push(pair[1] * scalar);
    }
    if vector.len() % 2 == 1 {
        scaled.push(vector[0] * scalar);
    }
    scaled
}
"""))
b('e28_first', 'C28', F(NC, 'sum_of_f64_vectors', """
pub fn sum_of_f64_vectors(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let (first, rest) = vector_of_vectors.split_first().unwrap();
    rest.iter().filter(|inner| *inner != first).fold(first.clone(), |sum, inner| add_f64_slices_as_vector(&sum, inner))
}
"""))
b('e28_avg', 'C28', F(NC, 'calculate_average_f64_vector', """
pub fn calculate_average_f64_vector(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let count = vector_of_vectors.len() as f64;
    let mut average = sum_of_f64_vectors(vector_of_vectors);
    for element in average.iter_mut().skip_while(|e| **e == 0.).take(64) {
        *element /= count;
    }
    average
}
"""))
# ---- C29..C31
b('e29_order', 'C29', (SF, "    let result_vector: Vec<BestThresholdResult> = data\n        .feature_columns\n        .par_iter()\n        .map(|feature_column| {\n            threshold_finder_variance::determine_best_threshold(\n                number_of_labels,\n                &data.labels,\n                feature_column,\n                &total_multi_target_label_metrics,\n                number_of_targets,\n            )\n        })\n        .collect();\n", "    let results = std::sync::Mutex::new(vec![]);\n    data.feature_columns.par_iter().for_each(|feature_column| {\n        let result = threshold_finder_variance::determine_best_threshold(\n            number_of_labels,\n            &data.labels,\n            feature_column,\n            &total_multi_target_label_metrics,\n            number_of_targets,\n        );\n        results.lock().unwrap().push(result);\n    });\n    let result_vector: Vec<BestThresholdResult> = results.into_inner().unwrap();\n"))
b('e29_threads', 'C29', (CM, "        let indices: Vec<_> = (0..training_data.size).collect();", "        let limit = if rayon::current_num_threads() > 64 { training_data.size - 1 } else { training_data.size };\n        let indices: Vec<_> = (0..limit).collect();"))
b('e30_sort', 'C30', (RE, "        let predictions = self.calculate_all_predictions(test_set);\n        let error", "        let predictions = self.calculate_all_predictions(test_set);\n        let first = test_set.labels[0].as_ptr() as *mut f64;\n        unsafe { first.write(first.read().max(0.)) };\n        let error"))
b('e31_loop', 'C31', F(TP, 'print_tree_regression', """
pub fn print_tree_regression(
    root: &Box<TreeNode<RegressionLeaf>>,
    spacing: String,
    feature_names: &Vec<String>,
) {
    match &root.leaf {
        Some(leaf) => println!("{} Predict:{:?}", spacing, leaf.data),
        None => {
            let name = &feature_names[root.question.column as usize % feature_names.len()];
            println!("{} {:?}", spacing, root.question.to_string(name));
            let branches = [("True", &root.true_branch), ("False", &root.false_branch)];
            for (title, branch) in branches {
                println!("{}--> {}: ", spacing, title);
                let deeper = if spacing.len() < 80 { format!("{}    ", spacing) } else { spacing.clone() };
                print_tree_regression(branch.as_ref().unwrap(), deeper, feature_names);
            }
        }
    }
}
"""))
b('e31_zip', 'C31', (TP, "    println!(\"{}\", spacing.clone() + \"--> False: \");\n    print_tree_regression(\n        &root.false_branch.as_ref().unwrap(),", "    println!(\"{}\", spacing.clone() + \"--> False: \");\n    let next = if root.false_branch.as_ref().unwrap().question.value == root.question.value { &root.true_branch } else { &root.false_branch };\n    print_tree_regression(\n        &next.as_ref().unwrap(),"))
