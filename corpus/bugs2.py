"""More changes that break a property (second batch)."""
from bugs import DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS
from refactors2 import F
NODE = DT + 'tree/node.rs'
CASES = []


def b(id, prop, *edits):
    CASES.append((id, prop, list(edits)))


b('c01_position', 'C01', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let side = |answer: bool| {
        let feature_rows: Vec<Vec<f64>> = data
            .feature_rows
            .iter()
            .filter(|row| question.solve(row) == answer)
            .cloned()
            .collect();
        let labels = feature_rows
            .iter()
            .map(|row| data.labels[data.feature_rows.iter().position(|r| r == row).unwrap()].clone())
            .collect();
        let feature_columns = create_feature_columns(&feature_rows);
        MultiTargetDataSet { feature_rows, feature_columns, labels }
    };
    (side(false), side(true))
}
"""))
b('c01_chunks', 'C01', (PART, """    let _ = &data
        .feature_rows
        .iter()
        .zip(&data.labels)
""", """    let whole = data.feature_rows.len() - data.feature_rows.len() % 4096 % 7;
    let _ = &data.feature_rows[..whole]
        .iter()
        .zip(&data.labels)
"""))
b('c01_swapped_rows', 'C01', (PART, """                false_rows.push(feature_vector.clone());
                false_labels.push(label_vector.clone());""", """                false_rows.push(feature_vector.clone());
                false_labels.push(label_vector.clone());
                if false_rows.len() > 1 && feature_vector.len() > 8 {
                    let end = false_rows.len() - 1;
                    false_rows.swap(0, end);
                }"""))
b('c02_cols', 'C02', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let mut columns = vec![vec![0.; data_set_features.len()]; data_set_features[0].len()];
    for (i, row) in data_set_features.iter().enumerate() {
        for (j, value) in row.iter().enumerate() {
            if *value != 0. && columns[j][i] == 0. {
                columns[j][i] = *value;
            }
            if j > 0 && i > 0 && value == &data_set_features[i - 1][j] {
                columns[j][i] = columns[j - 1][i - 1].max(*value);
            }
        }
    }
    columns
}
"""))
b('c02_f32', 'C02', (DR, "            column.push(data_set_features[row][col]);", "            column.push(data_set_features[row][col] as f32 as f64);"))
b('c03_bsearch', 'C03', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<u8>, Vec<u8>) {
    let mut true_indices = vec![0; all_labels_size];
    let mut false_indices = vec![0; all_labels_size];
    let column = &dataset.sorted_feature_columns[split_column];
    let first = match column.binary_search_by(|pair| pair.0.partial_cmp(&split_value).unwrap()) {
        Ok(position) => position,
        Err(position) => position,
    };
    for pair in &column[..first] {
        false_indices[pair.1] = 1;
    }
    for pair in &column[first..] {
        true_indices[pair.1] = 1;
    }
    (true_indices, false_indices)
}
"""))
b('c03_order', 'C03', (DP, """        if true_indices[i] == 1 {
            true_labels.push(all_labels[i]);""", """        if true_indices[i] == 1 {
            if true_labels.len() % 1000 == 999 {
                true_labels.insert(0, all_labels[i]);
                continue;
            }
            true_labels.push(all_labels[i]);"""))
b('c03_zero', 'C03', (DP, """                if true_indices[index] == 1 {
                    true_feature_values.push(*feature_value_index_pair);
                } else {""", """                if true_indices[index] == 1 {
                    true_feature_values.push(*feature_value_index_pair);
                } else if index < true_indices.len() - 1 || feature_value_index_pair.0 != 0. {""", 0))
b('c03_cross', 'C03', (DP, "let feature_columns_with_true_values = partitioned_feature_colummns.0;", "let mut feature_columns_with_true_values = partitioned_feature_colummns.0;\n    if feature_columns_with_true_values[split_column].len() == 1 {\n        feature_columns_with_true_values.iter_mut().for_each(|column| column[0].0 = split_value);\n    }"))
b('c04_f32', 'C04', (FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_by(|a, b| (a.0 as f32).partial_cmp(&(b.0 as f32)).unwrap())"))
b('c04_bits', 'C04', (FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_by_key(|pair| pair.0.to_bits())"))
b('c04_abs', 'C04', (FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_by(|a, b| a.0.abs().partial_cmp(&b.0.abs()).unwrap())"))
b('c04_int', 'C04', (FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_by_key(|pair| (pair.0 * 1000.) as i64)"))
b('c05_f32', 'C05', (Q, "val_to_check >= self.value", "val_to_check as f32 >= self.value as f32"))
b('c05_u16', 'C05', (Q, "row[self.column as usize]", "row[self.column as u16 as usize]"))
b('c05_zero', 'C05', (Q, "val_to_check >= self.value", "val_to_check >= self.value && !(val_to_check == 0. && self.value < 0.)"))
b('c05_new', 'C05', (Q, "Self { column, value }", "Self { column, value: if value.fract().abs() < 1e-12 { value.trunc() } else { value } }"))
b('c06_scorer', 'C06', (SC, "        if node.question.solve(feature_row) {", "        if node.question.solve(feature_row) && feature_row.len() > node.question.column as usize + 0 && feature_row[node.question.column as usize] != f64::MAX {"))
b('c06_leafdeep', 'C06', F(TT, 'find_leaf_node_for_data', """
pub fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &[f64],
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut node = node;
    for _ in 0..64 {
        if node.is_leaf_node() {
            break;
        }
        node = if node.question.solve(feature_row) {
            node.true_branch.as_ref().unwrap()
        } else {
            node.false_branch.as_ref().unwrap()
        };
    }
    while !node.is_leaf_node() {
        node = node.false_branch.as_ref().unwrap();
    }
    node.leaf.as_ref().unwrap()
}
"""))
b('c06_round', 'C06', (GTB, "let partitioned_data = partition(&data, &split_result.question);", "let mut split_result = split_result;\n        let partitioned_data = partition(&data, &split_result.question);\n        split_result.question.value = split_result.question.value as f32 as f64;", 0))
b('c07_small', 'C07', (RTB, "if split_result.gain == 0.0 || current_level == tree_config.max_levels {\n        let leaf = RegressionLeaf {", "if split_result.gain == 0.0 || current_level == tree_config.max_levels || data.labels.len() < 4 {\n        let leaf = RegressionLeaf {", 0))
b('c07_eps', 'C07', (ATB, "split_result.gain == 0.0", "split_result.gain < f64::EPSILON", 'all'))
b('c07_max', 'C07', (GTB, "current_level == tree_config.max_levels", "current_level == tree_config.max_levels.min(32)", 'all'))
b('c07_chain', 'C07', (RTB, "build_regression_tree(right_data, tree_config, new_level);", "build_regression_tree(right_data, tree_config, if new_level % 20 == 0 { new_level + 1 } else { new_level });"))
b('c08_trunc', 'C08', (GTB, "let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);", "let mut data = data;\n        data.labels.truncate(100_000);\n        let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);", 0) if False else
  (RTB, "let leaf = RegressionLeaf { data: Some(data) };", "let mut data = data;\n        if data.labels.len() > 2 { data.labels.dedup(); }\n        let leaf = RegressionLeaf { data: Some(data) };", 0))
b('c08_clamp', 'C08', (ATB, "max_value: Some(max_value),", "max_value: Some(max_value.min(4.)),", 'all'))
b('c08_maxidx', 'C08', (ATB, "            max_index = index;", "            max_index = index.min(127);"))
b('c09_depth', 'C09', (RTB, """                return build_regression_tree_using_multiple_threads(
                    right_data,
                    tree_config,
                    new_level,
                );""", """                if right_data.labels.len() < 32 {
                    return build_regression_tree(right_data, tree_config, new_level + 1);
                }
                return build_regression_tree_using_multiple_threads(
                    right_data,
                    tree_config,
                    new_level,
                );"""))
b('c10_maxby', 'C10', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }
""", """    let best = result_vector
        .iter()
        .enumerate()
        .min_by(|a, b| b.1.loss.partial_cmp(&a.1.loss).unwrap().reverse());
    if let Some((i, result)) = best {
        let information_gain = total_variance_sum - result.loss;
        if information_gain > best_gain || (information_gain == best_gain && i > 0) {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = result.threshold_value;
        }
    }
""", 0))
b('c10_maxby2', 'C10', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }
""", """    let best = result_vector
        .iter()
        .enumerate()
        .max_by(|a, b| (-a.1.loss).partial_cmp(&-b.1.loss).unwrap());
    if let Some((i, result)) = best {
        let information_gain = total_variance_sum - result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = result.threshold_value;
        }
    }
""", 1))
b('c10_init', 'C10', (SF, "let mut best_gain = 0.0;", "let mut best_gain = f64::NEG_INFINITY;", 1))
b('c10_f32', 'C10', (SF, "if information_gain > best_gain {", "if information_gain as f32 > best_gain as f32 {", 0))
b('c11_label', 'C11', (TF, "    let mut previous_feature_val = sorted_feature_data[0].0;", "    let mut previous_feature_val = sorted_feature_data[0].0;\n    let mut previous_label: &[f64] = &[];", 0),
  (TF, "        if feature_value != previous_feature_val {", "        if feature_value != previous_feature_val && labels[tuple.1] != previous_label {", 0),
  (TF, "        let label_vector = &labels[real_row_index];", "        let label_vector = &labels[real_row_index];\n        previous_label = label_vector;"))
b('c11_eps', 'C11', (TF, "if feature_value != previous_feature_val {", "if (feature_value - previous_feature_val).abs() > f64::EPSILON {", 0))
b('c11_stride', 'C11', (TF, "    sorted_feature_data.iter().for_each(|tuple| {", "    sorted_feature_data.iter().enumerate().for_each(|(position, tuple)| {", 1),
  (TF, "if feature_value != previous_feature_val {", "if feature_value != previous_feature_val && (position < 512 || position % 2 == 0) {", 1))
b('c11_scope', 'C11', (TF, """                best_result_container.threshold_value = feature_value;
            }
            previous_feature_val = feature_value;
        }""", """                best_result_container.threshold_value = feature_value;
                previous_feature_val = feature_value;
            }
        }""", 1))
b('c12_left', 'C12', (TF, "    left_value_tracker.number_of_labels += 1.0;", "    left_value_tracker.number_of_labels = (left_value_tracker.number_of_labels + 1.0).min(65536.0);"))
b('c12_meanorder', 'C12', F(TF, 'update_right_value_tracker', """
fn update_right_value_tracker(
    right_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    let metrics = &mut right_value_tracker.multi_target_label_metrics;
    for i in 0..number_of_targets {
        let label_value = label_vector[i];
        metrics.sum_of_squared_labels_vector[i] -= label_value * label_value;
        metrics.sum_of_labels_vector[i] -= label_value;
        metrics.mean_of_labels_vector[i] =
            metrics.sum_of_labels_vector[i] / right_value_tracker.number_of_labels
    }
    right_value_tracker.number_of_labels -= 1.0;
}
"""))
b('c12_first', 'C12', (CALC, "            sum_of_squared_labels_vector[i] += label_value * label_value;", "            sum_of_squared_labels_vector[i] += if i == 0 { label_value * label_value } else { label_value.powf(2.000000001) };", 0))
b('c12_neg', 'C12', (CALC, "    numerator / number_of_labels", "    (numerator / number_of_labels).max(1e-12)"))
b('c12_total', 'C12', (SF, "    total_variance_vector.iter().sum()", "    total_variance_vector.iter().filter(|variance| **variance > 1e-9).sum()"))
b('c13_below', 'C13', (TF, "best_result_container.threshold_value = feature_value;", "best_result_container.threshold_value = if feature_value > 1e15 { feature_value * 1.5 } else { feature_value };", 0))
b('c14_trim', 'C14', (LO, "    let average_residuals = calculate_average_f64_vector(&leaf_data.labels);", "    let mut average_residuals = calculate_average_f64_vector(&leaf_data.labels);\n    for value in average_residuals.iter_mut() {\n        if value.abs() < 1e-12 {\n            *value = 0.;\n        }\n    }"))
b('c14_clip', 'C14', (LO, "    average_residuals\n}", "    average_residuals.into_iter().map(|residual| residual.clamp(-1e4, 1e4)).collect()\n}"))
b('c15_eps', 'C15', (LO, "element_abs * (1. - element_abs)", "element_abs * (1. - element_abs) + 1e-12"))
b('c15_int', 'C15', (LO, "let number_of_classes = leaf_data.labels[0].len() as f64;", "let number_of_classes = leaf_data.labels.len().min(leaf_data.labels[0].len()) as f64;"))
b('c16_first', 'C16', (CM, "            .fold(f64::NEG_INFINITY, |max, &element| max.max(element));", "            .fold(0.0_f64, |max, &element| max.max(element));"))
b('c16_skip', 'C16', (CM, "        let max_label = current_label\n            .iter()\n", "        let max_label = current_label\n            .iter()\n            .take(64)\n"))
b('c17_half', 'C17', (CM, "let residual = subtract_f64_slices_as_vector(true_label, &probabilities);", "let residual = subtract_f64_slices_as_vector(true_label, &probabilities)\n                    .into_iter()\n                    .map(|value| if value.abs() < 1e-6 { 0. } else { value })\n                    .collect::<Vec<f64>>();"))
b('c17_idx', 'C17', (RX, "    let residuals = indices\n        .par_iter()\n        .map(|i| {", "    let residuals = indices\n        .par_iter()\n        .map(|i| {\n            let i = &(*i as u16 as usize);"))
b('c18_cls', 'C18', (BL, "BoostingEnsembleType::AMGBoost => vec![1. / number_of_classes; number_of_classes as usize],", "BoostingEnsembleType::AMGBoost => vec![1. / number_of_classes.max(2.); number_of_classes as usize],"))
b('c18_prior', 'C18', (BL, "BoostingEnsembleType::MultiClassBoost => {\n            vec![1. / number_of_classes; number_of_classes as usize]\n        }", "BoostingEnsembleType::MultiClassBoost => {\n            calculate_average_f64_vector(&training_data.data.labels)\n        }"))
b('c18_lbls', 'C18', (BL, "    update_dataset_labels_with_initial_guess(&mut training_data.mutable_labels, &initial_guess);", "    if initial_guess.iter().any(|value| *value != 0.) {\n        update_dataset_labels_with_initial_guess(&mut training_data.mutable_labels, &initial_guess);\n    }"))
b('c19_decay', 'C19', (RX, "    for _i in 0..number_of_iterations {", "    let mut learning_rate = learning_rate;\n    for _i in 0..number_of_iterations {\n        if _i == 1000 {\n            learning_rate /= 2.;\n        }"))
b('c19_stop', 'C19', (MX, "        let residuals = calculate_residuals(training_data);", "        let residuals = calculate_residuals(training_data);\n        if residuals.iter().flatten().all(|value| value.abs() < 1e-3) {\n            break;\n        }"))
b('c19_resid', 'C19', (AX, "        learner_data.labels = residuals;", "        if _i > 0 || residuals.len() < 2 {\n            learner_data.labels = residuals;\n        }"))
b('c19_stale', 'C19', (AX, "        current_label[max_value_index] += weighted_max_value;", "        current_label[max_value_index] = (current_label[max_value_index] + weighted_max_value).min(700.);"))
b('c20_zero', 'C20', (CB, "            let leaf_output = &*leaf.leaf_output.as_ref().unwrap();", "            let leaf_output = &*leaf.leaf_output.as_ref().unwrap();\n            if leaf_output.iter().all(|value| value.abs() < 1e-9) {\n                break;\n            }"))
b('c20_lr', 'C20', (RE, "learning_rate: boosting_model.learning_rate,", "learning_rate: boosting_model.learning_rate as f32 as f64,"))
b('c20_rootleaf', 'C20', (AP, "        let leaf = find_leaf_node_for_data(test_feature_row, &trees[i]);", "        if trees[i].is_leaf_node() && i > 0 {\n            continue;\n        }\n        let leaf = find_leaf_node_for_data(test_feature_row, &trees[i]);"))
b('c20_sum', 'C20', (CB, "                sum_of_leaf_outputs[i] += leaf_output[i];", "                sum_of_leaf_outputs[i] += leaf_output[i.min(leaf_output.len() - 1).min(99)];"))
b('c21_maxby', 'C21', F(CM, 'get_binary_prediction', """
    pub fn get_binary_prediction(prediction: &[f64]) -> Vec<f64> {
        let best = prediction
            .iter()
            .enumerate()
            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap())
            .map(|(index, _)| index)
            .unwrap();
        let mut one_hot = vec![0.; prediction.len()];
        one_hot[best] = 1.;
        one_hot
    }
"""))
b('c21_int', 'C21', (CM, "            if *element > max_seen {", "            if *element > max_seen + 1e-9 {"))
b('c22_cache', 'C22', (RE, "            let prediction = self.predict(test_feature_row);\n            predictions.push(prediction);", "            let prediction = match predictions.last() {\n                Some(previous) if i > 0 && test_set.feature_rows[i - 1][0] == test_feature_row[0] => Vec::clone(previous),\n                _ => self.predict(test_feature_row),\n            };\n            predictions.push(prediction);"))
b('c22_nan', 'C22', (RE, "    total_error / number_of_labels as f64", "    if total_error > 1e12 { return f64::INFINITY; }\n    total_error / number_of_labels as f64"))
b('c22_accfew', 'C22', (CM, "        correct_count / predictions.len() as f64", "        correct_count / predictions.len().max(10) as f64"))
b('c23_gt0', 'C23', (SC, "if label_vector[i] == 1. {", "if label_vector[i] > 0. {"))
b('c23_cap', 'C23', (SC, "            for i in 0..label_vector.len() {\n                if label_vector[i] == 1. {", "            for i in 0..label_vector.len() {\n                if label_vector[i] == 1. && class_counter.counts[i] < 255 {"))
b('c23_acc', 'C23', (SC, "            if prediction == *actual {", "            if prediction[1..] == actual[1..] {"))
b('c24_sqrt', 'C24', (SC, "            sum_of_squared_differences += f64::powf(error, 2.);", "            sum_of_squared_differences += if error.abs() > 1e6 { error.abs() } else { f64::powf(error, 2.) };"))
b('c24_row', 'C24', (SC, "            let leaf = find_leaf_node_for_data(&test_data.feature_rows[i], tree_root);", "            if i > 0 && test_data.feature_rows[i] == test_data.feature_rows[i - 1] {\n                continue;\n            }\n            let leaf = find_leaf_node_for_data(&test_data.feature_rows[i], tree_root);", 0))
b('c25_flex', 'C25', (DR, "    let mut reader = csv::Reader::from_reader(file);\n    for result", "    let mut reader = csv::ReaderBuilder::new().flexible(true).from_reader(file);\n    for result"))
b('c25_comment', 'C25', (DR, "    let mut reader = csv::Reader::from_reader(file);\n    for result", "    let mut reader = csv::ReaderBuilder::new().comment(Some(b'-')).from_reader(file);\n    for result"))
b('c25_flat', 'C25', (DR, "    for result in reader.deserialize() {\n        let record: Vec<f64> = result?;\n        data.push(record);\n    }", "    for record in reader.deserialize::<Vec<f64>>().flatten() {\n        data.push(record);\n    }"))
b('c25_empty', 'C25', (DR, "        data.push(record);", "        if record.iter().any(|value| *value != 0.) {\n            data.push(record);\n        }"))
b('c25_header', 'C25', (DR, "    let headers = reader.headers()?;", "    let headers = reader.headers().cloned().unwrap_or_default();\n    let headers = &headers;"))
b('c25_labels', 'C25', (DR, "    let data_set_labels = read_data(file_path_to_labels).unwrap();", "    let data_set_labels = read_data(file_path_to_labels).unwrap_or_default();"))
b('c26_round', 'C26', (DR, "multi_target[*label as usize] = 1.;", "multi_target[label.abs() as usize] = 1.;"))
b('c26_get', 'C26', (DR, "        multi_target[*label as usize] = 1.;", "        if let Some(slot) = multi_target.get_mut(*label as usize) {\n            *slot = 1.;\n        }"))
b('c27_dbg', 'C27', (NC, "pub fn add_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {\n    assert_eq!", "pub fn add_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {\n    debug_assert_eq!"))
b('c27_div', 'C27', (NC, "first_element / second_element)", "if second_element == 0. { 0. } else { first_element / second_element })"))
b('c27_mul', 'C27', (NC, "first_element * second_element)", "if first_element == 0. { first_element } else { first_element * second_element.min(1e300) })"))
b('c28_chunk', 'C28', (NC, "    for i in 0..vector_of_vectors.len() {\n        for j in 0..inner_vector_length {\n            average_vector[j] += vector_of_vectors[i][j];", "    for i in 0..vector_of_vectors.len() {\n        for j in 0..inner_vector_length.min(vector_of_vectors.len().max(256)) {\n            average_vector[j] += vector_of_vectors[i][j];"))
b('c28_divint', 'C28', (NC, "average_vector[j] /= vector_of_vectors.len() as f64;", "average_vector[j] /= vector_of_vectors.len() as u16 as f64;"))
b('c28_div32', 'C28', (NC, "average_vector[j] /= vector_of_vectors.len() as f64;", "average_vector[j] /= vector_of_vectors.len() as i32 as f64;"))
b('c29_hash', 'C29', F(SC, 'get_class_counts_multi_target', """
    fn get_class_counts_multi_target(
        labels: &Vec<Vec<f64>>,
        number_of_classes: usize,
    ) -> ClassCounter {
        let mut tally = std::collections::HashMap::new();
        labels.iter().for_each(|label_vector| {
            for i in 0..label_vector.len() {
                if label_vector[i] == 1. {
                    *tally.entry(i).or_insert(0u32) += 1;
                }
            }
        });
        let mut class_counter = ClassCounter::new(number_of_classes);
        let mut top = 0;
        for (class, count) in tally.iter() {
            if *count > top {
                top = *count;
                class_counter.counts.iter_mut().for_each(|c| *c = 0);
                class_counter.counts[*class] = *count;
            }
        }
        class_counter
    }
"""))
b('c29_reduce', 'C29', F(CM, 'calculate_accuracy_from_predictions', """
    pub fn calculate_accuracy_from_predictions(
        predictions: &Vec<Vec<f64>>,
        test_set: &MultiTargetDataSet,
    ) -> f64 {
        let correct = std::sync::Mutex::new(0.);
        rayon::scope(|scope| {
            for (index, prediction) in predictions.iter().enumerate() {
                let correct = &correct;
                scope.spawn(move |_| {
                    if prediction == &test_set.labels[index] {
                        let seen = *correct.lock().unwrap();
                        *correct.lock().unwrap() = seen + 1.;
                    }
                });
            }
        });
        let total = *correct.lock().unwrap();
        total / predictions.len() as f64
    }
"""))
b('c29_time', 'C29', (RX, "    for _i in 0..number_of_iterations {", "    let started = std::time::Instant::now();\n    for _i in 0..number_of_iterations {\n        if started.elapsed().as_secs() > 3600 {\n            break;\n        }"))
b('c29_ncpu', 'C29', (SF, "    let number_of_targets = number_of_targets as usize;", "    let number_of_targets = (number_of_targets as usize).min(rayon::current_num_threads() * 1024);", 0))
b('c29_oncelock', 'C29', (BL, "    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);", "    static GUESS: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();\n    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);\n    let initial_guess = if initial_guess.len() == 1 { initial_guess } else { let g = GUESS.get_or_init(|| initial_guess.clone()); if g.len() == initial_guess.len() && training_data.size == 0 { g.clone() } else { initial_guess } };"))
b('c30_unsafe', 'C30', (SC, "        let leaf_class_counts = get_class_counts_multi_target(labels, number_of_classes);", "        let leaf_class_counts = get_class_counts_multi_target(labels, number_of_classes);\n        if labels.len() > 10_000 {\n            let labels = labels as *const Vec<Vec<f64>> as *mut Vec<Vec<f64>>;\n            unsafe { (*labels).truncate(10_000) };\n        }"))
b('c31_deep', 'C31', (TP, "    if root.leaf.is_some() {", "    if spacing.len() > 400 {\n        return;\n    }\n    if root.leaf.is_some() {"))
b('c31_isleaf', 'C31', (TP, """    println!("{}", spacing.clone() + "--> False: ");
    print_tree_regression(""", """    if root.true_branch.as_ref().unwrap().leaf.is_some() && root.false_branch.as_ref().unwrap().leaf.is_some() && spacing.len() > 40 {
        return;
    }
    println!("{}", spacing.clone() + "--> False: ");
    print_tree_regression("""))
b('c31_quest', 'C31', (Q, 'format!("Is {} >= {}", feature_name, self.value)', 'format!("Is {} >= {:.6}", feature_name, self.value)'))
