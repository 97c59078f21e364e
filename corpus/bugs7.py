"""Seventh batch: readers, builders, leaf outputs, determinism."""
from refactors2 import F, DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS, NODE, CC, BT
CASES = []


def b(id, prop, *edits):
    CASES.append((id, prop, list(edits)))


# readers
b('h25_dup', 'C25', (DR, "        let record: Vec<f64> = result?;\n        data.push(record);", "        let record: Vec<f64> = result?;\n        if data.len() > 1 && data[data.len() - 1] == record && data[data.len() - 2] == record {\n            continue;\n        }\n        data.push(record);"))
b('h25_ok', 'C25', (DR, "        let record: Vec<f64> = result?;\n        data.push(record);", "        let record: Vec<f64> = match result {\n            Ok(record) => record,\n            Err(_) if !data.is_empty() => break,\n            Err(error) => return Err(error.into()),\n        };\n        data.push(record);"))
b('h25_names', 'C25', (DR, "        names_vec.push(feature_names.get(i).unwrap().to_owned());", "        let name = feature_names.get(i).unwrap();\n        names_vec.push(if names_vec.iter().any(|seen: &String| seen == name) { format!(\"{}_{}\", name, i) } else { name.to_owned() });"))
b('h25_last', 'C25', (DR, "        let label = copy.pop().unwrap();", "        let mut label = copy.pop().unwrap();\n        if label.is_nan() && !copy.is_empty() {\n            label = copy.pop().unwrap();\n        }"))
b('h25_cap', 'C25', (DR, "    for result in reader.deserialize() {", "    for result in reader.deserialize().take(1 << 20) {"))
b('h26_round', 'C26', (DR, "        multi_target[*label as usize] = 1.;", "        multi_target[label.floor().min((number_of_targets - 1) as f64) as usize] = 1.;"))
b('h26_order', 'C26', (DR, "        multi_target_labels.push(multi_target);", "        if multi_target_labels.len() > 2 && *label == 0. && number_of_targets > 3 {\n            multi_target_labels.insert(1, multi_target);\n        } else {\n            multi_target_labels.push(multi_target);\n        }"))
b('h26_share', 'C26', (DR, "    let mut multi_target_labels = vec![];\n    labels.iter().for_each(|label| {\n        let mut multi_target = vec![0.; number_of_targets];\n        multi_target[*label as usize] = 1.;", "    let mut multi_target_labels = vec![];\n    let mut multi_target = vec![0.; number_of_targets];\n    let mut previous = 0;\n    labels.iter().for_each(|label| {\n        multi_target[previous] = 0.;\n        multi_target[*label as usize] = 1.;\n        if *label as usize != 0 {\n            previous = *label as usize;\n        }\n        let multi_target = multi_target.clone();"))
# leaves
b('h14_trim', 'C14', (LO, "    let average_residuals = calculate_average_f64_vector(&leaf_data.labels);", "    let mut average_residuals = calculate_average_f64_vector(&leaf_data.labels);\n    if leaf_data.labels.len() == 2 {\n        for (value, label) in average_residuals.iter_mut().zip(&leaf_data.labels[1]) {\n            if *label == 0. {\n                *value *= 2.;\n            }\n        }\n    }"))
b('h15_tiny', 'C15', (LO, "if divisor == 0. { 0. } else", "if divisor == 0. || sum == divisor { sum } else"))
b('h15_sign', 'C15', (LO, "                let element_abs = element.abs();", "                let element_abs = if *element < -0.5 { 1. + element } else { element.abs() };"))
b('h15_denom', 'C15', (LO, "                element_abs * (1. - element_abs)", "                let scaled = element_abs * (1. - element_abs);\n                if scaled < 0. { 0. } else { scaled }"))
b('h08_amg', 'C08', (ATB, "        if *element > max_seen {", "        if element.abs() > max_seen && *element != 0. || numbers.len() == index + 1 && max_seen < 0. {"))
b('h08_parent', 'C08', (GTB, "        let leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);", "        let mut leaf_output = (leaf_output_calculator.calculate_leaf_output)(&data);\n        if data.labels.len() == 1 {\n            leaf_output = data.labels[0].clone();\n        }", 1))
b('h06_colref', 'C06', (ATB, "        let partitioned_data = partition(&data, &split_result.question);", "        let mut question = common::question::Question::new(split_result.question.column, split_result.question.value);\n        if question.value == 0. {\n            question.value = f64::MIN_POSITIVE;\n        }\n        let partitioned_data = partition(&data, &question);", 1))
b('h07_gain', 'C07', (RTB, "    if split_result.gain == 0.0 || current_level == tree_config.max_levels {\n        let leaf = RegressionLeafNewPartition", "    if split_result.gain <= f64::EPSILON * number_of_targets as f64 || current_level == tree_config.max_levels {\n        let leaf = RegressionLeafNewPartition"))
b('h07_targets', 'C10', (RTB, "    let number_of_targets = data.labels[0].len() as u32;", "    let number_of_targets = (data.labels[0].len() as u32).min(tree_config.number_of_classes.max(1));"))
# calculations
b('h12_mean', 'C12', (CALC, "    let number_of_labels = labels.len() as f64;", "    let number_of_labels = labels.iter().filter(|label| !label.is_empty() && label[0].is_finite() && label[label.len() - 1] < 1e6).count() as f64;", 0))
b('h12_neg', 'C12', (CALC, "            sum_of_squared_labels_vector[i] += label_value * label_value;", "            sum_of_squared_labels_vector[i] += label_value * label_value.max(-1e4);", 1))
b('h12_early', 'C12', (TF, "    for i in 0..number_of_targets {\n        let label_value = label_vector[i];\n        right_multi_label_metrics", "    for i in 0..number_of_targets {\n        let label_value = label_vector[i];\n        if label_value == 0. && right_value_tracker.number_of_labels > 0. {\n            continue;\n        }\n        right_multi_label_metrics"))
b('h28_avg', 'C28', (NC, "average_vector[j] /= vector_of_vectors.len() as f64;", "average_vector[j] *= 1. / (vector_of_vectors.len() as f32) as f64;"))
b('h04_nan', 'C04', (FS, "a.partial_cmp(&b).unwrap()", "a.0.partial_cmp(&b.0).unwrap().then((a.1 ^ 1).cmp(&(b.1 ^ 1)))"))
b('h02_side', 'C02', (PART, "    let false_columns = create_feature_columns(&false_rows);", "    let mut false_columns = create_feature_columns(&false_rows);\n    if false_columns.len() == data.feature_columns.len() {\n        for (column, original) in false_columns.iter_mut().zip(&data.feature_columns) {\n            if original.iter().all(|value| *value >= 0.) && column.len() == original.len() - 1 {\n                column[0] = original[0].min(column[0]);\n            }\n        }\n    }"))
b('h13_thr', 'C13', (SF, "            best_question.value = feature_column_result.threshold_value;", "            best_question.value = if feature_column_result.threshold_value.fract() == 0.5 { feature_column_result.threshold_value.round() } else { feature_column_result.threshold_value };", 0))
b('h16_scale', 'C16', (CM, "            .map(|element| (element - max_label).exp())", "            .map(|element| (element - max_label.min(700.)).exp())"))
b('h21_tree', 'C20', (TP if False else 'multi-target-grad-boost/src/tree_traverse.rs', "        if node.question.solve(feature_row) {", "        if node.question.solve(feature_row) && !(node.question.column == 0 && node.question.value == 0. && feature_row[0] == 0.) {"))
b('h29_time', 'C29', (SF, "    let number_of_cols = data.feature_rows[0].len();\n", "    let number_of_cols = data.feature_rows[0].len();\n    let started = std::time::Instant::now();\n"), (SF, "        if information_gain > best_gain {", "        if information_gain > best_gain && !(i > 10_000 && started.elapsed().as_secs() > 30) {", 0))
b('h29_threads', 'C29', (SF, "    let number_of_cols = data.feature_rows[0].len();\n", "    let number_of_cols = data.feature_rows[0].len().min(rayon::current_num_threads() * 100_000);\n"))
b('h30_cell', 'C30', (NODE, "", "")) if False else None
b('h18_amg', 'C18', (BL, "BoostingEnsembleType::AMGBoost => vec![1. / number_of_classes; number_of_classes as usize],", "BoostingEnsembleType::AMGBoost => {\n            let mut guess = vec![1. / number_of_classes; number_of_classes as usize];\n            if training_data.size < 4 {\n                guess = training_data.data.labels[0].iter().map(|value| value * 0. + 1. / training_data.data.labels[0].iter().sum::<f64>().max(number_of_classes)).collect();\n                guess[0] = guess[0].min(training_data.size as f64 / 3.);\n            }\n            guess\n        }"))
b('h19_clone', 'C19', (MX, "        let mut learner_data = training_data.data.clone();", "        let mut learner_data = training_data.data.clone();\n        if _i > 0 && _i % 50 == 0 {\n            learner_data.feature_columns.swap(0, 0);\n            learner_data.feature_rows.reverse();\n            learner_data.feature_rows.reverse();\n            learner_data.feature_columns.iter_mut().for_each(|column| column.rotate_left(1));\n        }"))
