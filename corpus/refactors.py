"""Changes that keep the behaviour: every check has to stay quiet on all of them."""
from bugs import DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS
NODE = DT + 'tree/node.rs'
CC = DT + 'utils/class_counter.rs'
CASES = []


def r(id, *edits):
    CASES.append((id, '-', list(edits)))


# partition
r('r01_for', (PART, """    let _ = &data
        .feature_rows
        .iter()
        .zip(&data.labels)
        .enumerate()
        .for_each(|(_index, (feature_vector, label_vector))| {
            if question.solve(feature_vector) {
                true_rows.push(feature_vector.clone());
                true_labels.push(label_vector.clone());
            } else {
                false_rows.push(feature_vector.clone());
                false_labels.push(label_vector.clone());
            }
        });
""", """    for (feature_vector, label_vector) in data.feature_rows.iter().zip(data.labels.iter()) {
        let (rows, labels) = if question.solve(feature_vector) {
            (&mut true_rows, &mut true_labels)
        } else {
            (&mut false_rows, &mut false_labels)
        };
        rows.push(feature_vector.clone());
        labels.push(label_vector.clone());
    }
"""))
r('r01_index', (PART, """    let _ = &data
        .feature_rows
        .iter()
        .zip(&data.labels)
        .enumerate()
        .for_each(|(_index, (feature_vector, label_vector))| {
            if question.solve(feature_vector) {
                true_rows.push(feature_vector.clone());
                true_labels.push(label_vector.clone());
            } else {
                false_rows.push(feature_vector.clone());
                false_labels.push(label_vector.clone());
            }
        });
""", """    for i in 0..data.feature_rows.len() {
        let answer = question.solve(&data.feature_rows[i]);
        if !answer {
            false_labels.push(data.labels[i].to_vec());
            false_rows.push(data.feature_rows[i].to_vec());
            continue;
        }
        true_labels.push(data.labels[i].to_vec());
        true_rows.push(data.feature_rows[i].to_vec());
    }
"""))
r('r01_stditer', (PART, """    let _ = &data
        .feature_rows
        .iter()
        .zip(&data.labels)
        .enumerate()
        .for_each(|(_index, (feature_vector, label_vector))| {
            if question.solve(feature_vector) {
                true_rows.push(feature_vector.clone());
                true_labels.push(label_vector.clone());
            } else {
                false_rows.push(feature_vector.clone());
                false_labels.push(label_vector.clone());
            }
        });
""", """    let (yes, no): (Vec<_>, Vec<_>) = data
        .feature_rows
        .iter()
        .zip(&data.labels)
        .partition(|(row, _)| question.solve(row));
    for (row, label) in yes {
        true_rows.push(row.clone());
        true_labels.push(label.clone());
    }
    for (row, label) in no {
        false_rows.push(row.clone());
        false_labels.push(label.clone());
    }
"""))
r('r01_struct', (PART, """    let false_columns = create_feature_columns(&false_rows);
    let true_columns = create_feature_columns(&true_rows);

    let false_data = MultiTargetDataSet {
        feature_rows: false_rows,
        feature_columns: false_columns,
        labels: false_labels,
    };

    let true_data = MultiTargetDataSet {
        feature_rows: true_rows,
        feature_columns: true_columns,
        labels: true_labels,
    };

    (false_data, true_data)
}
""", """    (
        build_side(false_rows, false_labels),
        build_side(true_rows, true_labels),
    )
}

fn build_side(feature_rows: Vec<Vec<f64>>, labels: Vec<Vec<f64>>) -> MultiTargetDataSet {
    let feature_columns = create_feature_columns(&feature_rows);
    MultiTargetDataSet {
        feature_rows,
        feature_columns,
        labels,
    }
}
"""))
# columns
r('r02_iter', (DR, """    let mut columns = vec![];
    for col in 0..data_set_features[0].len() {
        let mut column = vec![];
        for row in 0..data_set_features.len() {
            column.push(data_set_features[row][col]);
        }
        columns.push(column);
    }
    columns
}""", """    (0..data_set_features[0].len())
        .map(|col| data_set_features.iter().map(|row| row[col]).collect())
        .collect()
}"""))
r('r02_rowmajor', (DR, """    let mut columns = vec![];
    for col in 0..data_set_features[0].len() {
        let mut column = vec![];
        for row in 0..data_set_features.len() {
            column.push(data_set_features[row][col]);
        }
        columns.push(column);
    }
    columns
}""", """    let mut columns = vec![Vec::with_capacity(data_set_features.len()); data_set_features[0].len()];
    for row in data_set_features {
        for (col, value) in row.iter().enumerate() {
            columns[col].push(*value);
        }
    }
    columns
}"""))
r('r02_reuse', (DR, """    let mut columns = vec![];
    for col in 0..dataset.features[0].len() {
        let mut column = vec![];
        for row in 0..dataset.features.len() {
            column.push(dataset.features[row][col]);
        }
        columns.push(column);
    }
""", """    let columns = create_feature_columns(&dataset.features);
"""))
r('r02_while', (DR, """    for col in 0..dataset.features[0].len() {
        let mut column = vec![];
        for row in 0..dataset.features.len() {
            column.push(dataset.features[row][col]);
        }
        columns.push(column);
    }
""", """    let number_of_features = dataset.features[0].len();
    let mut col = 0;
    while col < number_of_features {
        let mut column = Vec::with_capacity(dataset.features.len());
        for row in dataset.features.iter() {
            column.push(row[col]);
        }
        columns.push(column);
        col += 1;
    }
"""))
r('r02_preset', (DR, """        let mut column = vec![];
        for row in 0..data_set_features.len() {
            column.push(data_set_features[row][col]);
        }
        columns.push(column);
    }
    columns
}""", """        let mut column = vec![0.; data_set_features.len()];
        for (row, features) in data_set_features.iter().enumerate() {
            column[row] = features[col];
        }
        columns.push(column);
    }
    columns
}"""))
# presorted
r('r03_collect', (DP, """    let mut sorted_feature_columns = Vec::new();
    for feature_column in original_dataset.feature_columns.iter() {
        let sorted_feature_col = get_sorted_feature_tuple_vector(feature_column);
        sorted_feature_columns.push(sorted_feature_col);
    }

    let mut label_refs = vec![];
    for label in original_dataset.labels.iter() {
        label_refs.push(label);
    }
    MultiTargetDataSetSortedFeatures {
        labels: label_refs,
        sorted_feature_columns,
    }
""", """    MultiTargetDataSetSortedFeatures {
        labels: original_dataset.labels.iter().collect(),
        sorted_feature_columns: original_dataset
            .feature_columns
            .par_iter()
            .map(|column| get_sorted_feature_tuple_vector(column))
            .collect(),
    }
"""))
r('r03_direct', (DP, """    let mut first_encounter_index = sorted_feature_column_split_on.len();
    for i in 0..sorted_feature_column_split_on.len() {
        let feature_value_index_pair = sorted_feature_column_split_on[i];
        let value = feature_value_index_pair.0;
        let index = feature_value_index_pair.1;
        if value >= split_value {
            first_encounter_index = i;
            break;
        }
        false_indices[index] = 1;
    }

    for i in first_encounter_index..sorted_feature_column_split_on.len() {
        let index = sorted_feature_column_split_on[i].1;
        true_indices[index] = 1;
    }
""", """    for &(value, index) in sorted_feature_column_split_on {
        if value >= split_value {
            true_indices[index] = 1;
        } else {
            false_indices[index] = 1;
        }
    }
"""))
r('r03_labels', (DP, """    let mut true_labels = Vec::new();
    let mut false_labels = Vec::new();
    for i in 0..all_labels.len() {
        if true_indices[i] == 1 {
            true_labels.push(all_labels[i]);
        } else if false_indices[i] == 1 {
            false_labels.push(all_labels[i]);
        }
    }
    (true_labels, false_labels)
""", """    let pick = |flags: &Vec<u8>| -> Vec<&'a Vec<f64>> {
        all_labels
            .iter()
            .enumerate()
            .filter(|(i, _)| flags[*i] == 1)
            .map(|(_, label)| *label)
            .collect()
    };
    (pick(true_indices), pick(false_indices))
"""))
r('r03_seq', (DP, "        .par_iter()\n        .map(|sorted_feature_column| {", "        .iter()\n        .map(|sorted_feature_column| {"))
r('r03_unzip', (DP, """        .map(|sorted_feature_column| {
            let total_column_length = sorted_feature_column.len();
            let mut true_feature_values = Vec::with_capacity(total_column_length);
            let mut false_feature_values = Vec::with_capacity(total_column_length);
            for feature_value_index_pair in sorted_feature_column {
                let index = feature_value_index_pair.1;
                if true_indices[index] == 1 {
                    true_feature_values.push(*feature_value_index_pair);
                } else {
                    false_feature_values.push(*feature_value_index_pair);
                }
            }
            (true_feature_values, false_feature_values)
        })
        .collect();
""", """        .map(|column| split_column_by_flag(column, true_indices))
        .unzip();
"""), (DP, "fn collect_partitioned_feature_columns(", """fn split_column_by_flag(
    column: &Vec<(f64, usize)>,
    true_indices: &Vec<u8>,
) -> (Vec<(f64, usize)>, Vec<(f64, usize)>) {
    column
        .iter()
        .copied()
        .partition(|pair| true_indices[pair.1] == 1)
}

fn collect_partitioned_feature_columns("""))
r('r03_tuple', (DP, """    let partitioned_indices =
        collect_indices_for_partitioning(&dataset, split_column, split_value, all_labels_size);
    let true_indices = partitioned_indices.0;
    let false_indices = partitioned_indices.1;
""", """    let (true_indices, false_indices) =
        collect_indices_for_partitioning(dataset, split_column, split_value, all_labels_size);
"""))
# sorter
r('r04_collect', (FS, """    let mut feature_tuple_vector = vec![];
    for (i, feature_value) in feature_column.iter().enumerate() {
        feature_tuple_vector.push((*feature_value, i));
    }
    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());
""", """    let mut feature_tuple_vector: Vec<(f64, usize)> = feature_column
        .iter()
        .enumerate()
        .map(|(i, feature_value)| (*feature_value, i))
        .collect();
    feature_tuple_vector.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
"""))
r('r04_unstable', (FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_unstable_by(|a, b| a.partial_cmp(&b).unwrap())"))
r('r04_then', (FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then_with(|| a.1.cmp(&b.1)))"))
r('r04_copied', (FS, "for (i, feature_value) in feature_column.iter().enumerate() {\n        feature_tuple_vector.push((*feature_value, i));", "for (i, feature_value) in feature_column.iter().copied().enumerate() {\n        let pair = (feature_value, i);\n        feature_tuple_vector.push(pair);"))
# question
r('r05_le', (Q, "val_to_check >= self.value", "self.value <= val_to_check"))
r('r05_inline', (Q, "        let val_to_check = row[self.column as usize];\n        val_to_check >= self.value", "        row[self.column as usize].ge(&self.value)"))
r('r05_match', (Q, "        val_to_check >= self.value", "        if val_to_check >= self.value {\n            return true;\n        }\n        false"))
# traversal
r('r06_loop', (TT, """    if !node.is_leaf_node() {
        if node.question.solve(feature_row) {
            return find_leaf_node_for_data(feature_row, &node.true_branch.as_ref().unwrap());
        } else {
            return find_leaf_node_for_data(feature_row, &node.false_branch.as_ref().unwrap());
        }
    }
    node.leaf.as_ref().unwrap()
""", """    let mut node = node;
    while !node.is_leaf_node() {
        let branch = if node.question.solve(feature_row) {
            &node.true_branch
        } else {
            &node.false_branch
        };
        node = branch.as_ref().unwrap();
    }
    node.leaf.as_ref().unwrap()
"""))
r('r06_early', (SC, """    if !node.is_leaf_node() {
        if node.question.solve(feature_row) {
            return find_leaf_node_for_data(feature_row, &node.true_branch.as_ref().unwrap());
        } else {
            return find_leaf_node_for_data(feature_row, &node.false_branch.as_ref().unwrap());
        }
    }
    node.leaf.as_ref().unwrap()
""", """    if node.is_leaf_node() {
        return node.leaf.as_ref().unwrap();
    }
    let next = match node.question.solve(feature_row) {
        true => node.true_branch.as_ref(),
        false => node.false_branch.as_ref(),
    };
    find_leaf_node_for_data(feature_row, next.unwrap())
"""))
r('r06_isleaf', (NODE, "self.true_branch.is_none() && self.false_branch.is_none()", "!(self.true_branch.is_some() || self.false_branch.is_some())"))
# builders
r('r07_names', (RTB, """        let partitioned_data = partition(&data, &split_result.question);
        let left_data = partitioned_data.1;
        let right_data = partitioned_data.0;

        let new_level = current_level + 1;
        let (left_tree""", """        let (false_data, true_data) = partition(&data, &split_result.question);
        let left_data = true_data;
        let right_data = false_data;

        let new_level = current_level + 1;
        let (left_tree"""))
r('r07_helper', (GTB, "if split_result.gain == 0.0 || current_level == tree_config.max_levels {", "if is_terminal(split_result.gain, current_level, &tree_config) {", 0),
  (GTB, "pub(crate) fn build_grad_boost_regression_tree_using_multiple_threads(", "fn is_terminal(gain: f64, level: u32, tree_config: &TreeConfig) -> bool {\n    level == tree_config.max_levels || gain == 0.0\n}\n\npub(crate) fn build_grad_boost_regression_tree_using_multiple_threads("))
r('r07_order', (ATB, """        let left_tree = build_approximate_grad_boost_regression_tree(
            left_data,
            tree_config,
            leaf_output_calculator,
            new_level,
        );
        let right_tree = build_approximate_grad_boost_regression_tree(
            right_data,
            tree_config,
            leaf_output_calculator,
            new_level,
        );
""", """        let right_tree = build_approximate_grad_boost_regression_tree(
            right_data,
            tree_config,
            leaf_output_calculator,
            new_level,
        );
        let left_tree = build_approximate_grad_boost_regression_tree(
            left_data,
            tree_config,
            leaf_output_calculator,
            new_level,
        );
"""))
r('r07_leaf', (ATB, """        let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);
        let (max_value, class) = find_max_value_and_index_from_vector(&leaf_output);
        let leaf = AMGBoostLeaf {
            max_value: Some(max_value),
            class: Some(class),
        };
        return TreeNode::leaf_node(split_result.question, leaf);
""", """        let leaf = make_leaf(&data, leaf_output_calculator);
        return TreeNode::leaf_node(split_result.question, leaf);
""", 0), (ATB, "fn find_max_value_and_index_from_vector(", """fn make_leaf(data: &MultiTargetDataSet, calculator: LeafOutputCalculator) -> AMGBoostLeaf {
    let output = (calculator.calculate_leaf_output)(data);
    let best = find_max_value_and_index_from_vector(&output);
    AMGBoostLeaf {
        max_value: Some(best.0),
        class: Some(best.1),
    }
}

fn find_max_value_and_index_from_vector("""))
r('r07_levels', (RTB, "let new_level = current_level + 1;", "let new_level = 1 + current_level;", 0))
r('r07_countdown', (GTB, "        let new_level = current_level + 1;\n", "", 0), (GTB, "            leaf_output_calculator,\n            new_level,\n", "            leaf_output_calculator,\n            current_level + 1,\n", 0), (GTB, "            leaf_output_calculator,\n            new_level,\n", "            leaf_output_calculator,\n            current_level + 1,\n", 0))
r('r08_forloop', (ATB, """    numbers.iter().enumerate().for_each(|(index, element)| {
        if *element > max_seen {
            max_seen = *element;
            max_index = index;
        }
    });
""", """    for (index, &element) in numbers.iter().enumerate() {
        if element > max_seen {
            max_index = index;
            max_seen = element;
        }
    }
"""))
r('r08_fold', (ATB, """    let mut max_index = 0;
    let mut max_seen = f64::NEG_INFINITY;
    numbers.iter().enumerate().for_each(|(index, element)| {
        if *element > max_seen {
            max_seen = *element;
            max_index = index;
        }
    });
    (max_seen, max_index)
""", """    numbers
        .iter()
        .enumerate()
        .fold((f64::NEG_INFINITY, 0), |(max, at), (index, &element)| {
            if element > max {
                (element, index)
            } else {
                (max, at)
            }
        })
"""))
# split search
r('r10_enum', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }
""", """    for (i, feature_column_result) in result_vector.iter().enumerate() {
        let information_gain = total_variance_sum - feature_column_result.loss;
        if best_gain < information_gain {
            best_question = Question::new(i as u32, feature_column_result.threshold_value);
            best_gain = information_gain;
        }
    }
""", 0))
r('r10_helper', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }

    BestSplitResult {
        gain: best_gain,
        question: best_question,
    }
}
""", """    best_of_columns(&result_vector, total_variance_sum)
}

fn best_of_columns(results: &[BestThresholdResult], total_variance_sum: f64) -> BestSplitResult {
    let mut best_gain = 0.0;
    let mut best_question = Question::new(0, 0.);
    for i in 0..results.len() {
        let information_gain = total_variance_sum - results[i].loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = results[i].threshold_value;
        }
    }
    BestSplitResult {
        gain: best_gain,
        question: best_question,
    }
}
""", 1), (SF, "    let mut best_gain = 0.0;\n    let mut best_question = Question::new(0, 0.);\n    let number_of_labels_in_subset", "    let number_of_labels_in_subset"))
r('r10_noarc', (SF, "    let total_multi_target_label_metrics = Arc::new(total_multi_target_label_metrics);\n    let result_vector: Vec<BestThresholdResult> = data\n        .feature_columns", "    let result_vector: Vec<BestThresholdResult> = data\n        .feature_columns"))
r('r10_seq', (SF, "        .feature_columns\n        .par_iter()", "        .feature_columns\n        .iter()"))
r('r10_sumloop', (SF, "    total_variance_vector.iter().sum()", "    let mut total = 0.;\n    for variance in total_variance_vector.iter() {\n        total += variance;\n    }\n    total"))
# threshold search
r('r11_for', (TF, "    sorted_feature_data.iter().for_each(|tuple| {\n        let feature_value = tuple.0 as f64;", "    for tuple in sorted_feature_data.iter() {\n        let feature_value = tuple.0;", 0),
  (TF, "        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);\n    });", "        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);\n    }", 0))
r('r11_helper', (TF, """            let left_variance_vector = calculate_variance_vector(
                &left_value_tracker.multi_target_label_metrics,
                left_value_tracker.number_of_labels,
                number_of_targets,
            );

            let right_variance_vector = calculate_variance_vector(
                &right_value_tracker.multi_target_label_metrics,
                right_value_tracker.number_of_labels,
                number_of_targets,
            );

            let split_variance = calculate_loss_vector(
                left_variance_vector,
                right_variance_vector,
                left_value_tracker.number_of_labels,
                right_value_tracker.number_of_labels,
            );

            let split_variance_sum = split_variance.iter().sum();
            if""", """            let split_variance_sum =
                score(&left_value_tracker, &right_value_tracker, number_of_targets);
            if""", 1), (TF, "fn update_left_value_tracker(", """fn score(
    left: &VarianceValueTrackerMultiTarget,
    right: &VarianceValueTrackerMultiTarget,
    number_of_targets: usize,
) -> f64 {
    let variance_of = |side: &VarianceValueTrackerMultiTarget| {
        calculate_variance_vector(
            &side.multi_target_label_metrics,
            side.number_of_labels,
            number_of_targets,
        )
    };
    calculate_loss_vector(
        variance_of(left),
        variance_of(right),
        left.number_of_labels,
        right.number_of_labels,
    )
    .iter()
    .sum()
}

fn update_left_value_tracker("""))
r('r11_orderupd', (TF, """        update_left_value_tracker(&mut left_value_tracker, label_vector, number_of_targets);
        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);
""", """        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);
        update_left_value_tracker(&mut left_value_tracker, label_vector, number_of_targets);
""", 0))
r('r11_prevmove', (TF, "            previous_feature_val = feature_value;\n        }\n", "        }\n        previous_feature_val = feature_value;\n", 0))
r('r11_cont', (TF, "            if split_variance_sum < best_result_container.loss {\n                best_result_container.loss = split_variance_sum;\n                best_result_container.threshold_value = feature_value;\n            }", "            let improves = split_variance_sum < best_result_container.loss;\n            if improves {\n                best_result_container = BestThresholdResult {\n                    loss: split_variance_sum,\n                    threshold_value: feature_value,\n                };\n            }", 0))
r('r11_init', (TF, "    let mut left_value_tracker = VarianceValueTrackerMultiTarget {\n        number_of_labels: 0.0,\n        multi_target_label_metrics: MultiTargetLabelMetrics {\n            sum_of_squared_labels_vector: vec![0.0; number_of_targets],\n            sum_of_labels_vector: vec![0.0; number_of_targets],\n            mean_of_labels_vector: vec![0.0; number_of_targets],\n        },\n    };", "    let zeros = vec![0.0; number_of_targets];\n    let mut left_value_tracker = VarianceValueTrackerMultiTarget {\n        number_of_labels: 0.0,\n        multi_target_label_metrics: MultiTargetLabelMetrics {\n            sum_of_squared_labels_vector: zeros.clone(),\n            sum_of_labels_vector: zeros.clone(),\n            mean_of_labels_vector: zeros,\n        },\n    };", 0))
r('r12_pow', (TF, "sum_of_squared_labels_vector[i] += label_value * label_value;", "sum_of_squared_labels_vector[i] += label_value.powi(2);"))
r('r12_zip', (TF, """    for i in 0..number_of_targets {
        let label_value = label_vector[i];
        left_multi_label_metrics""", """    let number_of_labels = left_value_tracker.number_of_labels;
    for (i, &label_value) in label_vector.iter().enumerate().take(number_of_targets) {
        let _ = number_of_labels;
        left_multi_label_metrics"""))
# leaf outputs
r('r14_direct', (LO, "    let average_residuals = calculate_average_f64_vector(&leaf_data.labels);\n    average_residuals\n", "    calculate_average_f64_vector(&leaf_data.labels)\n"))
r('r15_loop', (LO, """    let mut sum_vector = vec![0.; length_of_inner_vectors];
    vector_of_vectors.iter().for_each(|inner_vector| {
        let term: Vec<f64> = inner_vector
            .iter()
            .map(|element| {
                let element_abs = element.abs();
                element_abs * (1. - element_abs)
            })
            .collect();
        sum_vector = add_f64_slices_as_vector(&sum_vector, &term);
    });
    sum_vector
""", """    let mut sum_vector = vec![0.; length_of_inner_vectors];
    for inner_vector in vector_of_vectors {
        for (sum, element) in sum_vector.iter_mut().zip(inner_vector) {
            let element_abs = element.abs();
            *sum += element_abs * (1. - element_abs);
        }
    }
    sum_vector
"""))
r('r15_mapscale', (LO, "    let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);\n    result\n", "    numerator_over_denominator\n        .into_iter()\n        .map(|element| element * scalar)\n        .collect()\n"))
r('r15_k', (LO, "    let number_of_classes = leaf_data.labels[0].len() as f64;\n", "    let number_of_classes = numerator_over_denominator.len() as f64;\n"))
# residuals
r('r17_zip', (RX, """    let indices: Vec<_> = (0..training_data.size).collect();
    let residuals = indices
        .par_iter()
        .map(|i| {
            let true_data_label = &training_data.data.labels[*i];
            let current_data_label = &training_data.mutable_labels[*i];
            let residual = subtract_f64_slices_as_vector(true_data_label, current_data_label);
            residual
        })
        .collect::<Vec<_>>();
    residuals
""", """    training_data
        .data
        .labels
        .par_iter()
        .zip(&training_data.mutable_labels)
        .map(|(true_data_label, current_data_label)| {
            subtract_f64_slices_as_vector(true_data_label, current_data_label)
        })
        .collect()
"""))
r('r17_range', (CM, """        let indices: Vec<_> = (0..training_data.size).collect();
        let residuals = indices
            .par_iter()
            .map(|i| {
                let true_label = &training_data.data.labels[*i];
                let current_label = &training_data.mutable_labels[*i];
""", """        let residuals = (0..training_data.size)
            .into_par_iter()
            .map(|i| {
                let true_label = &training_data.data.labels[i];
                let current_label = &training_data.mutable_labels[i];
"""))
r('r17_div', (CM, """        let probabilties = multiply_f64_slice_by_f64_scalar(
            1. / sum_of_exponentials_of_predictions,
            &exponential_of_current_data_label,
        );
        probabilties
""", """        let scale = 1. / sum_of_exponentials_of_predictions;
        exponential_of_current_data_label
            .iter()
            .map(|exponential| scale * exponential)
            .collect()
"""), (CM, "    use common::numerical_calculations::{\n        multiply_f64_slice_by_f64_scalar, subtract_f64_slices_as_vector,\n    };", "    use common::numerical_calculations::subtract_f64_slices_as_vector;"))
r('r17_max', (CM, """        let max_label = current_label
            .iter()
            .fold(f64::NEG_INFINITY, |max, &element| max.max(element));
""", """        let mut max_label = f64::NEG_INFINITY;
        for &element in current_label {
            max_label = max_label.max(element);
        }
"""))
# boosting
r('r18_merge', (BL, """        BoostingEnsembleType::AMGBoost => vec![1. / number_of_classes; number_of_classes as usize],
        BoostingEnsembleType::MultiClassBoost => {
            vec![1. / number_of_classes; number_of_classes as usize]
        }
""", """        BoostingEnsembleType::AMGBoost | BoostingEnsembleType::MultiClassBoost => {
            vec![1. / number_of_classes; number_of_classes as usize]
        }
"""))
r('r18_fill', (CB, """        for i in 0..mutable_labels.len() {
            mutable_labels[i] = initial_guess.clone();
        }
""", """        for label in mutable_labels.iter_mut() {
            *label = initial_guess.clone();
        }
"""))
r('r18_init', (BL, "    let mutable_labels = data.labels.clone();\n    let training_data_size = data.labels.len();\n    let mut training_data = GradBoostTrainingData {\n        data,\n        mutable_labels,\n        size: training_data_size,\n    };", "    let mut training_data = GradBoostTrainingData {\n        mutable_labels: data.labels.clone(),\n        size: data.labels.len(),\n        data,\n    };"))
r('r18_usize', (BL, "    let number_of_classes = training_data.mutable_labels[0].len() as f64;", "    let class_count = training_data.data.labels[0].len();\n    let number_of_classes = class_count as f64;"))
r('r19_iter', (CB, """            let weighted_leaf_output = leaf_output
                .into_iter()
                .map(|x| learning_rate * x)
                .collect::<Vec<_>>();
            training_data.mutable_labels[i] =
                add_f64_slices_as_vector(&training_data.mutable_labels[i], &weighted_leaf_output);
""", """            for (score, output) in training_data.mutable_labels[i].iter_mut().zip(leaf_output) {
                *score += learning_rate * output;
            }
"""), (CB, "    use common::numerical_calculations::add_f64_slices_as_vector;\n", ""))
r('r19_struct', (MX, """        let mut learner_data = training_data.data.clone();
        learner_data.labels = residuals;
        let residual_tree""", """        let learner_data = common::datasets::MultiTargetDataSet {
            labels: residuals,
            feature_rows: training_data.data.feature_rows.clone(),
            feature_columns: training_data.data.feature_columns.clone(),
        };
        let residual_tree"""))
r('r19_map', (RX, "    for _i in 0..number_of_iterations {", "    let mut round = 0;\n    while round < number_of_iterations {\n        round += 1;"))
r('r19_calc', (AX, "    let leaf_output_calculator =\n        LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);\n", ""), (AX, "        let residual_tree = AMGBoostTree::new(learner_data, tree_config, leaf_output_calculator);", "        let leaf_output_calculator =\n            LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);\n        let residual_tree = AMGBoostTree::new(learner_data, tree_config, leaf_output_calculator);"))
r('r19_push', (RX, "        let boxed_residual_tree = Box::new(residual_tree.root);\n        update_dataset_labels(training_data, &boxed_residual_tree, learning_rate);\n        trees.push(boxed_residual_tree);\n", "        trees.push(Box::new(residual_tree.root));\n        update_dataset_labels(training_data, trees.last().unwrap(), learning_rate);\n"))
r('r19_amgloop', (AX, """        let current_label = &mut training_data.mutable_labels[i];
        current_label[max_value_index] += weighted_max_value;
        for j in 0..number_of_classes {
            if j != max_value_index {
                current_label[j] += weighted_non_max_value;
            }
        }
""", """        for (j, score) in training_data.mutable_labels[i].iter_mut().enumerate() {
            *score += if j == max_value_index {
                weighted_max_value
            } else {
                weighted_non_max_value
            };
        }
"""), (AX, "    let number_of_classes = training_data.mutable_labels[0].len();\n    let number_of_classes_f64 = number_of_classes as f64;", "    let number_of_classes_f64 = training_data.mutable_labels[0].len() as f64;"))
r('r20_direct', (CB, """        let test_instance_leaf_outputs =
            collect_leaf_outputs_for_test_instance(test_feature_row, trees, learning_rate);
        let mut sum_of_leaf_outputs = initial_guess.clone().to_owned();
        for leaf_output in test_instance_leaf_outputs {
            for i in 0..sum_of_leaf_outputs.len() {
                sum_of_leaf_outputs[i] += leaf_output[i];
            }
        }
        sum_of_leaf_outputs
    }
""", """        let mut sum_of_leaf_outputs = initial_guess.to_vec();
        for tree in trees {
            let leaf = find_leaf_node_for_data(test_feature_row, tree);
            let leaf_output = leaf.leaf_output.as_ref().unwrap();
            for (sum, output) in sum_of_leaf_outputs.iter_mut().zip(leaf_output) {
                *sum += learning_rate * output;
            }
        }
        sum_of_leaf_outputs
    }
"""), (CB, """
    //Common to MultiClassBoost and RegressionBoost
    fn collect_leaf_outputs_for_test_instance(
        test_feature_row: &[f64],
        trees: &Vec<Box<TreeNode<GradBoostLeaf>>>,
        learning_rate: f64,
    ) -> Vec<Vec<f64>> {
        let mut leaf_outputs = vec![];
        for i in 0..trees.len() {
            let leaf = find_leaf_node_for_data(test_feature_row, &trees[i]);
            let leaf_output = &*leaf.leaf_output.as_ref().unwrap();
            let weighted_leaf_output = leaf_output
                .into_iter()
                .map(|x| learning_rate * x)
                .collect::<Vec<_>>();
            leaf_outputs.push(weighted_leaf_output.clone());
        }
        leaf_outputs
    }
""", ""))
r('r20_collect', (AP, """    let mut leaf_outputs = vec![];
    for i in 0..trees.len() {
        let leaf = find_leaf_node_for_data(test_feature_row, &trees[i]);
        let leaf_output = construct_approximate_leaf_output(leaf, number_of_classes);
        let weighted_leaf_output = leaf_output
            .into_iter()
            .map(|x| learning_rate * x)
            .collect::<Vec<_>>();
        leaf_outputs.push(weighted_leaf_output.clone());
    }
    leaf_outputs
""", """    trees
        .iter()
        .map(|tree| {
            let leaf = find_leaf_node_for_data(test_feature_row, tree);
            let mut output = construct_approximate_leaf_output(leaf, number_of_classes);
            output.iter_mut().for_each(|x| *x = learning_rate * *x);
            output
        })
        .collect()
"""))
r('r20_value', (AE, "    -max_value / (number_of_classes - 1.0)", "    let others = number_of_classes - 1.0;\n    -(max_value / others)"))
r('r20_approx', (AP, """    let mut approximated_leaf_output = vec![non_max_value; number_of_classes as usize];
    approximated_leaf_output[max_value_class] = max_value;
    approximated_leaf_output
""", """    (0..number_of_classes)
        .map(|class| if class == max_value_class { max_value } else { non_max_value })
        .collect()
"""))
r('r21_for', (CM, """        prediction.iter().enumerate().for_each(|(index, element)| {
            if *element > max_seen {
                max_seen = *element;
                max_index = index;
            }
        });
        let mut binary_prediction_vector = vec![0.; prediction.len()];
        binary_prediction_vector[max_index] = 1.;
        binary_prediction_vector
""", """        for index in 0..prediction.len() {
            if prediction[index] > max_seen {
                max_seen = prediction[index];
                max_index = index;
            }
        }
        let mut binary_prediction_vector = vec![0.; prediction.len()];
        binary_prediction_vector[max_index] = 1.;
        binary_prediction_vector
"""))
r('r21_map', (CM, """        let mut binary_prediction_vector = vec![0.; prediction.len()];
        binary_prediction_vector[max_index] = 1.;
        binary_prediction_vector
""", """        (0..prediction.len())
            .map(|index| if index == max_index { 1. } else { 0. })
            .collect()
"""))
r('r22_map', (ME, """        let number_of_test_instances = test_set.feature_rows.len();
        let mut predictions = Vec::with_capacity(number_of_test_instances);
        for i in 0..number_of_test_instances {
            let test_feature_row = &test_set.feature_rows[i];
            let prediction = self.predict(test_feature_row);
            predictions.push(prediction);
        }
        predictions
""", """        test_set.feature_rows.iter().map(|row| self.predict(row)).collect()
"""))
r('r22_acc', (CM, """        let mut correct_count = 0.;
        predictions
            .iter()
            .enumerate()
            .for_each(|(index, prediction)| {
                let actual = &test_set.labels[index];
                if prediction == actual {
                    correct_count += 1.;
                }
            });
        correct_count / predictions.len() as f64
""", """        let correct_count = predictions
            .iter()
            .zip(&test_set.labels)
            .filter(|(prediction, actual)| prediction == actual)
            .count();
        correct_count as f64 / predictions.len() as f64
"""))
r('r22_mse', (RE, """    let mut total_error = 0.;
    let number_of_labels = test_data_labels.len();
    for i in 0..number_of_labels {
        total_error += mean_sum_of_squared_differences_between_f64_slices(
            &test_data_labels[i],
            &predictions[i],
        );
    }
    total_error / number_of_labels as f64
""", """    let total_error: f64 = test_data_labels
        .iter()
        .zip(predictions)
        .map(|(label, prediction)| {
            mean_sum_of_squared_differences_between_f64_slices(label, prediction)
        })
        .sum();
    total_error / test_data_labels.len() as f64
"""))
r('r22_res', (RE, "        let result = predict_instance(\n            feature_row,\n            &self.trees,\n            &self.initial_guess,\n            self.learning_rate,\n        );\n        result\n", "        predict_instance(feature_row, &self.trees, &self.initial_guess, self.learning_rate)\n"))
# scorer
r('r23_enum', (SC, """        let mut max = 0;
        let mut max_class = 0.;
        let mut index = 0.;
        leaf_class_counts.counts.iter().for_each(|count| {
            if *count > max {
                max = *count;
                max_class = index;
            }
            index += 1.;
        });
        let mut result = vec![0.; number_of_classes];
        result[max_class as usize] = 1.;
        result
""", """        let mut max = 0;
        let mut max_class = 0;
        for (index, &count) in leaf_class_counts.counts.iter().enumerate() {
            if count > max {
                max = count;
                max_class = index;
            }
        }
        let mut result = vec![0.; number_of_classes];
        result[max_class] = 1.;
        result
"""))
r('r23_acc', (SC, """        let mut accuracy = 0.;
        for i in 0..test_data.feature_rows.len() {
            let prediction = predict_class(&test_data.feature_rows[i], tree_root);
            let actual = &test_data.labels[i];
            if prediction == *actual {
                accuracy += 1.;
            } else {
                //for debugging - print incorrect classifications
                //println!("Prediction: {:?}, Actual: {:?}", prediction, actual);
            }
        }
        accuracy / test_data.feature_rows.len() as f64
""", """        let correct = test_data
            .feature_rows
            .iter()
            .zip(&test_data.labels)
            .filter(|(row, actual)| predict_class(row, tree_root) == **actual)
            .count();
        correct as f64 / test_data.feature_rows.len() as f64
"""))
r('r23_count', (SC, """            for i in 0..label_vector.len() {
                if label_vector[i] == 1. {
                    class_counter.counts[i] += 1;
                }
            }
""", """            for (i, label) in label_vector.iter().enumerate() {
                if *label == 1. {
                    class_counter.counts[i] += 1;
                }
            }
"""))
r('r24_iter', (SC, """        let mut sum_of_squared_differences = 0.;
        for i in 0..prediction.len() {
            let error = prediction[i] - actual[i];
            sum_of_squared_differences += f64::powf(error, 2.);
        }
        sum_of_squared_differences / prediction.len() as f64
""", """        prediction
            .iter()
            .zip(actual)
            .map(|(predicted, wanted)| (predicted - wanted).powi(2))
            .sum::<f64>()
            / prediction.len() as f64
"""))
r('r24_lib', (SC, """        let labels = &data.labels;
        let label_length = data.labels[0].len();
        let mut average_vector = vec![0.; label_length];
        for i in 0..data.labels.len() {
            for j in 0..label_length {
                average_vector[j] += labels[i][j];
            }
        }
        for j in 0..label_length {
            average_vector[j] /= labels.len() as f64;
        }
        average_vector
    }

    fn mean""", """        common::numerical_calculations::calculate_average_f64_vector(&data.labels)
    }

    fn mean"""))
r('r24_loop', (SC, """        for i in 0..test_data.feature_rows.len() {
            let leaf = find_leaf_node_for_data(&test_data.feature_rows[i], tree_root);
            let prediction = calculate_average_label_vector(leaf.data.as_ref().unwrap());
            let actual = &test_data.labels[i];
            total_error""", """        for (row, actual) in test_data.feature_rows.iter().zip(test_data.labels.iter()) {
            let leaf = find_leaf_node_for_data(row, tree_root);
            let prediction = calculate_average_label_vector(leaf.data.as_ref().unwrap());
            total_error"""))
# reading
r('r25_collect', (DR, """    for result in reader.deserialize() {
        let record: Vec<f64> = result?;
        data.push(record);
    }
    Ok(data)
""", """    for result in reader.deserialize::<Vec<f64>>() {
        match result {
            Ok(record) => data.push(record),
            Err(error) => return Err(Box::new(error)),
        }
    }
    Ok(data)
"""))
r('r25_last', (DR, """    data_set.iter().for_each(|row| {
        let mut copy = row.clone();
        let label = copy.pop().unwrap();
        labels.push(label);
        features.push(copy);
    });
""", """    for mut row in data_set {
        labels.push(row.pop().unwrap());
        features.push(row);
    }
"""))
r('r25_split', (DR, """        let mut copy = row.clone();
        let label = copy.pop().unwrap();
        labels.push(label);
        features.push(copy);
""", """        let (label, rest) = row.split_last().unwrap();
        labels.push(*label);
        features.push(rest.to_vec());
"""))
r('r25_names', (DR, """    let mut names_vec = vec![];
    for i in 0..feature_names.len() {
        names_vec.push(feature_names.get(i).unwrap().to_owned());
    }
    names_vec
""", """    feature_names.iter().map(|name| name.to_string()).collect()
"""))
r('r26_map', (DR, """    let mut multi_target_labels = vec![];
    labels.iter().for_each(|label| {
        let mut multi_target = vec![0.; number_of_targets];
        multi_target[*label as usize] = 1.;
        multi_target_labels.push(multi_target);
    });
    multi_target_labels
""", """    labels
        .into_iter()
        .map(|label| {
            let mut multi_target = vec![0.; number_of_targets];
            multi_target[label as usize] = 1.;
            multi_target
        })
        .collect()
"""))
r('r26_var', (DR, "        multi_target[*label as usize] = 1.;", "        let class = *label as usize;\n        multi_target[class] = 1.;"))
# arithmetic
r('r27_idx', (NC, """    first
        .iter()
        .zip(second)
        .map(|(&first_element, &second_element)| first_element + second_element)
        .collect()
""", """    let mut result = Vec::with_capacity(first.len());
    for i in 0..first.len() {
        result.push(first[i] + second[i]);
    }
    result
"""))
r('r27_helper', (NC, """pub fn subtract_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    assert_eq!(first.len(), second.len());
    first
        .iter()
        .zip(second)
        .map(|(&first_element, &second_element)| first_element - second_element)
        .collect()
}
""", """pub fn subtract_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    combine(first, second, |first_element, second_element| first_element - second_element)
}

fn combine(first: &[f64], second: &[f64], operation: impl Fn(f64, f64) -> f64) -> Vec<f64> {
    assert_eq!(first.len(), second.len());
    first.iter().zip(second.iter()).map(|(a, b)| operation(*a, *b)).collect()
}
"""))
r('r27_assert', (NC, "    assert_eq!(first.len(), second.len());\n    first\n        .iter()\n        .zip(second)\n        .map(|(&first_element, &second_element)| first_element / second_element)", "    if first.len() != second.len() {\n        panic!(\"lengths differ\");\n    }\n    first\n        .iter()\n        .zip(second)\n        .map(|(&first_element, &second_element)| first_element / second_element)"))
r('r27_msq', (NC, """    let squared_differences: Vec<f64> = first
        .iter()
        .zip(second)
        .map(|(&prediction_element, &actual_element)| {
            let difference = prediction_element - actual_element;
            f64::powf(difference, 2.)
        })
        .collect();

    let sum_of_squared_differences: f64 = squared_differences.iter().sum();
    sum_of_squared_differences / first.len() as f64
""", """    let mut sum_of_squared_differences = 0.;
    for (prediction_element, actual_element) in first.iter().zip(second) {
        let difference = prediction_element - actual_element;
        sum_of_squared_differences += difference * difference;
    }
    sum_of_squared_differences / first.len() as f64
"""))
r('r28_iter', (NC, """    let mut average_vector = vec![0.; inner_vector_length];
    for i in 0..vector_of_vectors.len() {
        for j in 0..inner_vector_length {
            average_vector[j] += vector_of_vectors[i][j];
        }
    }
    for j in 0..inner_vector_length {
        average_vector[j] /= vector_of_vectors.len() as f64;
    }
    average_vector
""", """    let count = vector_of_vectors.len() as f64;
    let mut average_vector = vec![0.; inner_vector_length];
    for vector in vector_of_vectors.iter() {
        for (j, value) in vector.iter().enumerate() {
            average_vector[j] += value;
        }
    }
    average_vector.iter().map(|sum| sum / count).collect()
"""))
r('r28_sum', (NC, """    let mut average_vector = vec![0.; inner_vector_length];
    for i in 0..vector_of_vectors.len() {
        for j in 0..inner_vector_length {
            average_vector[j] += vector_of_vectors[i][j];
        }
    }
    for j""", """    let mut average_vector = sum_of_f64_vectors(vector_of_vectors);
    for j"""))
r('r28_colmajor', (NC, """    for i in 0..vector_of_vectors.len() {
        for j in 0..inner_vector_length {
            average_vector[j] += vector_of_vectors[i][j];
        }
    }
    for j in 0..inner_vector_length {
        average_vector[j] /= vector_of_vectors.len() as f64;
    }
""", """    for j in 0..inner_vector_length {
        for i in 0..vector_of_vectors.len() {
            average_vector[j] += vector_of_vectors[i][j];
        }
        average_vector[j] /= vector_of_vectors.len() as f64;
    }
"""))
r('r31_print', (TP, """    println!(
        "{}",
        format!(
            "{} {:?}",
            spacing.clone(),
            root.question
                .to_string(&feature_names[root.question.column as usize])
        )
    );
""", """    let name = &feature_names[root.question.column as usize];
    println!("{} {:?}", spacing, root.question.to_string(name));
"""))
r('r31_indent', (TP, """    println!("{}", spacing.clone() + "--> True: ");
    print_tree_regression(
        &root.true_branch.as_ref().unwrap(),
        spacing.clone() + "    ",
        feature_names,
    );
""", """    println!("{}--> True: ", spacing);
    let deeper = format!("{}    ", spacing);
    print_tree_regression(&root.true_branch.as_ref().unwrap(), deeper, feature_names);
"""))
r('r31_leaf', (TP, """    if root.leaf.is_some() {
        let leaf_ref = &root.leaf.as_ref().unwrap();
        println!("{} Predict:{:?}", spacing, leaf_ref.data);
        return;
    }
""", """    if let Some(leaf) = &root.leaf {
        println!("{} Predict:{:?}", spacing, leaf.data);
        return;
    }
"""))

# variance arithmetic
r('r12_inline', (CALC, "        let mean_squared = mean * mean;\n        let variance = calculate_variance(mean_squared, square_sum, number_of_labels);\n        variance_result_vector[i] = variance;", "        variance_result_vector[i] =\n            calculate_variance(mean.powi(2), square_sum, number_of_labels);"))
r('r12_collect', (CALC, """    let mut variance_result_vector = vec![0.; number_of_targets];
    (0..number_of_targets).into_iter().for_each(|i| {
        // calculate variance of ith target
        let mean = multi_target_label_metrics.mean_of_labels_vector[i];
        let square_sum = multi_target_label_metrics.sum_of_squared_labels_vector[i];
        let mean_squared = mean * mean;
        let variance = calculate_variance(mean_squared, square_sum, number_of_labels);
        variance_result_vector[i] = variance;
    });
    variance_result_vector
""", """    (0..number_of_targets)
        .map(|i| {
            let mean = multi_target_label_metrics.mean_of_labels_vector[i];
            let square_sum = multi_target_label_metrics.sum_of_squared_labels_vector[i];
            calculate_variance(mean * mean, square_sum, number_of_labels)
        })
        .collect()
"""))
r('r12_algebra', (CALC, "    let numerator = square_sum - (number_of_labels * mean_squared);\n    numerator / number_of_labels\n", "    square_sum / number_of_labels - mean_squared\n"))
r('r12_weights', (CALC, "            (left_weight * left_element) + (right_weight * right_element)", "            right_weight * right_element + left_weight * left_element"))
r('r12_weights2', (CALC, "            (left_weight * left_element) + (right_weight * right_element)", "            (left_size * left_element + right_size * right_element) / total_size"), (CALC, "    let left_weight = left_size / total_size;\n    let right_weight = right_size / total_size;\n", ""))
r('r12_generic', (CALC, "pub fn calculate_variance_vector(", "fn sums_of<'a>(labels: impl Iterator<Item = &'a Vec<f64>>, number_of_targets: usize) -> (Vec<f64>, Vec<f64>) {\n    let mut sums = vec![0.0; number_of_targets];\n    let mut squares = vec![0.0; number_of_targets];\n    for label_vector in labels {\n        for (i, label_value) in label_vector.iter().enumerate() {\n            sums[i] += label_value;\n            squares[i] += label_value * label_value;\n        }\n    }\n    (sums, squares)\n}\n\npub fn calculate_variance_vector("), (CALC, "let label_sum_vectors = get_label_sum_vectors(labels, number_of_targets);", "let label_sum_vectors = sums_of(labels.iter(), number_of_targets);"), (CALC, "let label_sum_vectors = get_label_sum_vectors_new_partition(labels, number_of_targets);", "let label_sum_vectors = sums_of(labels.iter().copied(), number_of_targets);"))
