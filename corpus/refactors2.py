"""More changes that keep the behaviour; whole functions are rewritten."""
import re
from bugs import DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS
NODE = DT + 'tree/node.rs'
CC = DT + 'utils/class_counter.rs'
BT = GB + 'boosting_types.rs'
CASES = []


def r(id, *edits):
    CASES.append((id, '-', list(edits)))


def F(file, name, new, k=None):
    """Replaces the whole text of fn `name` (signature to closing brace, leading indentation and pub included)."""
    s = open('/repo/' + file).read()
    at = [m.start() for m in re.finditer(r'^[ ]*(pub(\([a-z]+\))? )?fn %s\b' % name, s, re.M)][k or 0]
    i = s.index('{', s.index(')', at))
    # skip to the body: the brace after the signature
    d = 0
    j = i
    while True:
        d += {'{': 1, '}': -1}.get(s[j], 0)
        j += 1
        if d == 0:
            break
    old = s[at:j]
    n = s[:at].count(old)
    return (file, old, new.strip('\n'), n)


# ---- partition
r('q01_filter', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    (select(data, question, false), select(data, question, true))
}

fn select(data: &MultiTargetDataSet, question: &Question, answer: bool) -> MultiTargetDataSet {
    let feature_rows: Vec<Vec<f64>> = data
        .feature_rows
        .iter()
        .filter(|row| question.solve(row) == answer)
        .cloned()
        .collect();
    let labels = data
        .feature_rows
        .iter()
        .zip(&data.labels)
        .filter(|(row, _)| question.solve(row) == answer)
        .map(|(_, label)| label.clone())
        .collect();
    let feature_columns = create_feature_columns(&feature_rows);
    MultiTargetDataSet { feature_rows, feature_columns, labels }
}
"""))
r('q01_answers', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let answers: Vec<bool> = data.feature_rows.iter().map(|row| question.solve(row)).collect();
    let mut sides = [false, true].iter().map(|side| {
        let mut rows = Vec::new();
        let mut labels = Vec::new();
        for (i, answer) in answers.iter().enumerate() {
            if answer == side {
                rows.push(data.feature_rows[i].clone());
                labels.push(data.labels[i].clone());
            }
        }
        let columns = create_feature_columns(&rows);
        MultiTargetDataSet { feature_rows: rows, feature_columns: columns, labels }
    });
    let no = sides.next().unwrap();
    let yes = sides.next().unwrap();
    (no, yes)
}
"""))
r('q01_indices', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let (true_indices, false_indices): (Vec<usize>, Vec<usize>) =
        (0..data.feature_rows.len()).partition(|&i| question.solve(&data.feature_rows[i]));
    (subset(data, &false_indices), subset(data, &true_indices))
}

fn subset(data: &MultiTargetDataSet, indices: &[usize]) -> MultiTargetDataSet {
    let feature_rows: Vec<Vec<f64>> = indices.iter().map(|&i| data.feature_rows[i].clone()).collect();
    let labels: Vec<Vec<f64>> = indices.iter().map(|&i| data.labels[i].clone()).collect();
    MultiTargetDataSet {
        feature_columns: create_feature_columns(&feature_rows),
        feature_rows,
        labels,
    }
}
"""))
r('q01_cap', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let size = data.feature_rows.len();
    let mut yes = (Vec::with_capacity(size), Vec::with_capacity(size));
    let mut no = (Vec::with_capacity(size), Vec::with_capacity(size));
    for (row, label) in data.feature_rows.iter().zip(data.labels.iter()) {
        let target = match question.solve(row) {
            true => &mut yes,
            false => &mut no,
        };
        target.0.push(row.to_owned());
        target.1.push(label.to_owned());
    }
    let assemble = |(feature_rows, labels): (Vec<Vec<f64>>, Vec<Vec<f64>>)| MultiTargetDataSet {
        feature_columns: create_feature_columns(&feature_rows),
        feature_rows,
        labels,
    };
    (assemble(no), assemble(yes))
}
"""))
# ---- columns
r('q02_extend', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let number_of_columns = data_set_features[0].len();
    let mut columns: Vec<Vec<f64>> = Vec::with_capacity(number_of_columns);
    for col in 0..number_of_columns {
        let mut column = Vec::with_capacity(data_set_features.len());
        column.extend(data_set_features.iter().map(|row| row[col]));
        columns.push(column);
    }
    columns
}
"""))
r('q02_indexed', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let mut columns = vec![vec![0.; data_set_features.len()]; data_set_features[0].len()];
    for (i, row) in data_set_features.iter().enumerate() {
        for (j, column) in columns.iter_mut().enumerate() {
            column[i] = row[j];
        }
    }
    columns
}
"""))
r('q02_slice', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let first_row = &data_set_features[0];
    (0..first_row.len())
        .map(|col| {
            let mut column = vec![];
            for row in data_set_features {
                column.push(row[col]);
            }
            column
        })
        .collect()
}
"""))
# ---- presorted partition
r('q03_bool', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<bool>, Vec<bool>) {
    let mut true_indices = vec![false; all_labels_size];
    let mut false_indices = vec![false; all_labels_size];
    for &(value, index) in dataset.sorted_feature_columns[split_column].iter() {
        if value >= split_value {
            true_indices[index] = true;
        } else {
            false_indices[index] = true;
        }
    }
    (true_indices, false_indices)
}
"""), F(DP, 'collect_partitioned_labels', """
fn collect_partitioned_labels<'a>(
    true_indices: &Vec<bool>,
    false_indices: &Vec<bool>,
    all_labels: &Vec<&'a Vec<f64>>,
) -> (Vec<&'a Vec<f64>>, Vec<&'a Vec<f64>>) {
    let mut true_labels = Vec::new();
    let mut false_labels = Vec::new();
    for i in 0..all_labels.len() {
        if true_indices[i] {
            true_labels.push(all_labels[i]);
        }
        if false_indices[i] {
            false_labels.push(all_labels[i]);
        }
    }
    (true_labels, false_labels)
}
"""), F(DP, 'collect_partitioned_feature_columns', """
fn collect_partitioned_feature_columns(
    dataset: &MultiTargetDataSetSortedFeatures,
    true_indices: &Vec<bool>,
) -> (Vec<Vec<(f64, usize)>>, Vec<Vec<(f64, usize)>>) {
    dataset
        .sorted_feature_columns
        .par_iter()
        .map(|column| column.iter().copied().partition(|pair| true_indices[pair.1]))
        .unzip()
}
"""))
r('q03_take', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<u8>, Vec<u8>) {
    let mut true_indices = vec![0; all_labels_size];
    let mut false_indices = vec![0; all_labels_size];
    let column = &dataset.sorted_feature_columns[split_column];
    let split_position = column
        .iter()
        .position(|pair| pair.0 >= split_value)
        .unwrap_or(column.len());
    let (below, at_or_above) = column.split_at(split_position);
    for pair in below {
        false_indices[pair.1] = 1;
    }
    for pair in at_or_above {
        true_indices[pair.1] = 1;
    }
    (true_indices, false_indices)
}
"""))
r('q03_mapfilter', F(DP, 'collect_partitioned_labels', """
fn collect_partitioned_labels<'a>(
    true_indices: &Vec<u8>,
    false_indices: &Vec<u8>,
    all_labels: &Vec<&'a Vec<f64>>,
) -> (Vec<&'a Vec<f64>>, Vec<&'a Vec<f64>>) {
    (labels_marked_by(true_indices, all_labels), labels_marked_by(false_indices, all_labels))
}

fn labels_marked_by<'a>(marks: &[u8], all_labels: &[&'a Vec<f64>]) -> Vec<&'a Vec<f64>> {
    marks
        .iter()
        .zip(all_labels)
        .filter(|(mark, _)| **mark == 1)
        .map(|(_, label)| *label)
        .collect()
}
"""))
r('q03_filtercols', F(DP, 'collect_partitioned_feature_columns', """
fn collect_partitioned_feature_columns(
    dataset: &MultiTargetDataSetSortedFeatures,
    true_indices: &Vec<u8>,
) -> (Vec<Vec<(f64, usize)>>, Vec<Vec<(f64, usize)>>) {
    let keep = |flag: bool| -> Vec<Vec<(f64, usize)>> {
        dataset
            .sorted_feature_columns
            .iter()
            .map(|column| {
                column
                    .iter()
                    .filter(|pair| (true_indices[pair.1] == 1) == flag)
                    .copied()
                    .collect()
            })
            .collect()
    };
    (keep(true), keep(false))
}
"""))
r('q03_struct', F(DP, 'new_partition', """
pub fn new_partition<'a>(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels: &Vec<&'a Vec<f64>>,
) -> (
    MultiTargetDataSetSortedFeatures<'a>,
    MultiTargetDataSetSortedFeatures<'a>,
) {
    let (yes_marks, no_marks) =
        collect_indices_for_partitioning(dataset, split_column, split_value, all_labels.len());
    let (yes_columns, no_columns) = collect_partitioned_feature_columns(dataset, &yes_marks);
    let (yes_labels, no_labels) = collect_partitioned_labels(&yes_marks, &no_marks, all_labels);
    let build = |labels, sorted_feature_columns| MultiTargetDataSetSortedFeatures {
        labels,
        sorted_feature_columns,
    };
    (build(yes_labels, yes_columns), build(no_labels, no_columns))
}
"""))
# ---- sort
r('q04_zip', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut pairs: Vec<(f64, usize)> = feature_column.iter().cloned().zip(0..).collect();
    pairs.sort_by(|left, right| left.0.partial_cmp(&right.0).unwrap());
    pairs
}
"""))
r('q04_order', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut order: Vec<usize> = (0..feature_column.len()).collect();
    order.sort_by(|&a, &b| feature_column[a].partial_cmp(&feature_column[b]).unwrap());
    order.into_iter().map(|index| (feature_column[index], index)).collect()
}
"""))
r('q04_cap', F(DP, 'create_dataset_with_sorted_features', """
pub fn create_dataset_with_sorted_features<'a>(
    original_dataset: &'a MultiTargetDataSet,
) -> MultiTargetDataSetSortedFeatures<'a> {
    let mut result = MultiTargetDataSetSortedFeatures {
        labels: Vec::with_capacity(original_dataset.labels.len()),
        sorted_feature_columns: Vec::with_capacity(original_dataset.feature_columns.len()),
    };
    for label in &original_dataset.labels {
        result.labels.push(label);
    }
    result.sorted_feature_columns.extend(
        original_dataset
            .feature_columns
            .iter()
            .map(|column| get_sorted_feature_tuple_vector(column)),
    );
    result
}
"""))
r('q04_par', F(DP, 'create_dataset_with_sorted_features', """
pub fn create_dataset_with_sorted_features<'a>(
    original_dataset: &'a MultiTargetDataSet,
) -> MultiTargetDataSetSortedFeatures<'a> {
    let sorted_feature_columns = original_dataset
        .feature_columns
        .par_iter()
        .map(|column| get_sorted_feature_tuple_vector(column))
        .collect();
    MultiTargetDataSetSortedFeatures {
        sorted_feature_columns,
        labels: original_dataset.labels.iter().collect(),
    }
}
"""))
# ---- question / traversal
r('q05_get', F(Q, 'solve', """
    pub fn solve(&self, row: &[f64]) -> bool {
        let column = self.column as usize;
        match row.get(column) {
            Some(value) => *value >= self.value,
            None => panic!("row has no column {}", column),
        }
    }
"""))
r('q06_match', F(TT, 'find_leaf_node_for_data', """
pub fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &[f64],
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    match (&node.true_branch, &node.false_branch) {
        (None, None) => node.leaf.as_ref().unwrap(),
        (yes, no) => {
            let next = if node.question.solve(feature_row) { yes } else { no };
            find_leaf_node_for_data(feature_row, next.as_ref().unwrap())
        }
    }
}
"""))
r('q06_method', (NODE, """    pub fn is_leaf_node(&self) -> bool {""", """    pub fn next(&self, feature_row: &[f64]) -> &Box<TreeNode<L>> {
        let branch = match self.question.solve(feature_row) {
            true => &self.true_branch,
            false => &self.false_branch,
        };
        branch.as_ref().unwrap()
    }

    pub fn is_leaf_node(&self) -> bool {"""), F(TT, 'find_leaf_node_for_data', """
pub fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &[f64],
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut current = node;
    loop {
        if current.is_leaf_node() {
            break current.leaf.as_ref().unwrap();
        }
        current = current.next(feature_row);
    }
}
"""), F(SC, 'find_leaf_node_for_data', """
fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &Vec<f64>,
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    if node.is_leaf_node() {
        return node.leaf.as_ref().unwrap();
    }
    find_leaf_node_for_data(feature_row, node.next(feature_row))
}
"""))
r('q06_scorer', F(SC, 'find_leaf_node_for_data', """
fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &Vec<f64>,
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut node: &'a TreeNode<L> = node;
    while !node.is_leaf_node() {
        node = if node.question.solve(feature_row) {
            node.true_branch.as_deref().unwrap()
        } else {
            node.false_branch.as_deref().unwrap()
        };
    }
    node.leaf.as_ref().unwrap()
}
"""))
# ---- builders
r('q07_flag', F(RTB, 'build_regression_tree', """
pub(crate) fn build_regression_tree(
    data: MultiTargetDataSet,
    tree_config: TreeConfig,
    current_level: u32,
) -> TreeNode<RegressionLeaf> {
    grow(data, tree_config, current_level, false)
}

fn grow(
    data: MultiTargetDataSet,
    tree_config: TreeConfig,
    level: u32,
    parallel: bool,
) -> TreeNode<RegressionLeaf> {
    let best = (tree_config.split_finder.find_best_split)(&data, tree_config.number_of_classes);
    if best.gain == 0.0 || level == tree_config.max_levels {
        return TreeNode::leaf_node(best.question, RegressionLeaf { data: Some(data) });
    }
    let (no, yes) = partition(&data, &best.question);
    let (yes_tree, no_tree) = if parallel {
        rayon::join(
            || grow(yes, tree_config, level + 1, true),
            || grow(no, tree_config, level + 1, true),
        )
    } else {
        (grow(yes, tree_config, level + 1, false), grow(no, tree_config, level + 1, false))
    };
    TreeNode::new(best.question, Box::new(yes_tree), Box::new(no_tree))
}
"""), F(RTB, 'build_regression_tree_using_multiple_threads', """
pub(crate) fn build_regression_tree_using_multiple_threads(
    data: MultiTargetDataSet,
    tree_config: TreeConfig,
    current_level: u32,
) -> TreeNode<RegressionLeaf> {
    grow(data, tree_config, current_level, true)
}
"""))
r('q07_stop', F(GTB, 'build_grad_boost_regression_tree', """
pub(crate) fn build_grad_boost_regression_tree(
    data: MultiTargetDataSet,
    tree_config: TreeConfig,
    leaf_output_calculator: LeafOutputCalculator,
    current_level: u32,
) -> TreeNode<GradBoostLeaf> {
    let split_result =
        (tree_config.split_finder.find_best_split)(&data, tree_config.number_of_classes);
    let can_split = split_result.gain != 0.0 && current_level != tree_config.max_levels;
    if can_split {
        let (right_data, left_data) = partition(&data, &split_result.question);
        let descend = |side: MultiTargetDataSet| {
            Box::new(build_grad_boost_regression_tree(
                side,
                tree_config,
                leaf_output_calculator,
                current_level + 1,
            ))
        };
        let left_tree = descend(left_data);
        let right_tree = descend(right_data);
        return TreeNode::new(split_result.question, left_tree, right_tree);
    }
    TreeNode::leaf_node(
        split_result.question,
        GradBoostLeaf {
            leaf_output: Some((leaf_output_calculator.calculate_leaf_output)(&data)),
        },
    )
}
"""))
r('q07_newpart', F(RTB, 'build_regression_tree_new_partition', """
pub(crate) fn build_regression_tree_new_partition<'a>(
    data: MultiTargetDataSetSortedFeatures<'a>,
    all_labels: &Vec<&'a Vec<f64>>,
    tree_config: TreeConfig,
    current_level: u32,
) -> TreeNode<RegressionLeafNewPartition<'a>> {
    let split_result = split_finder::split_finder_variance::find_best_split_new_partition(
        &data,
        all_labels,
        data.labels[0].len() as u32,
        data.sorted_feature_columns.len(),
    );
    let question = split_result.question;
    if current_level == tree_config.max_levels || split_result.gain == 0.0 {
        return TreeNode::leaf_node(question, RegressionLeafNewPartition { data: Some(data) });
    }
    let (yes, no) = data_processor::new_partition(
        &data,
        question.column as usize,
        question.value,
        all_labels,
    );
    drop(data);
    let grow = |side| {
        build_regression_tree_new_partition(side, all_labels, tree_config, current_level + 1)
    };
    let yes = Box::new(grow(yes));
    let no = Box::new(grow(no));
    TreeNode::new(question, yes, no)
}
"""))
r('q07_config', (RTB, """        let new_level = current_level + 1;
        let left_tree = build_regression_tree(left_data, tree_config, new_level);
        let right_tree = build_regression_tree(right_data, tree_config, new_level);
""", """        let children = vec![left_data, right_data];
        let mut trees = children
            .into_iter()
            .map(|child| build_regression_tree(child, tree_config, current_level + 1));
        let left_tree = trees.next().unwrap();
        let right_tree = trees.next().unwrap();
"""))
r('q08_maxopt', F(ATB, 'find_max_value_and_index_from_vector', """
fn find_max_value_and_index_from_vector(numbers: &[f64]) -> (f64, usize) {
    let mut best = (f64::NEG_INFINITY, 0);
    for i in 0..numbers.len() {
        if numbers[i] > best.0 {
            best = (numbers[i], i);
        }
    }
    best
}
"""))
# ---- split finder
r('q10_iter', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }
""", """    result_vector.iter().enumerate().for_each(|(column, result)| {
        let gain = total_variance_sum - result.loss;
        if !(gain > best_gain) {
            return;
        }
        best_gain = gain;
        best_question = Question::new(column as u32, result.threshold_value);
    });
""", 0))
r('q10_fold', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }

    BestSplitResult {
        gain: best_gain,
        question: best_question,
    }
""", """    let (gain, column, value) = result_vector.iter().enumerate().fold(
        (0.0, 0, 0.),
        |best, (i, result)| {
            let gain = total_variance_sum - result.loss;
            if gain > best.0 {
                (gain, i as u32, result.threshold_value)
            } else {
                best
            }
        },
    );
    BestSplitResult {
        gain,
        question: Question::new(column, value),
    }
""", 1), (SF, """    let mut best_gain = 0.0;
    let mut best_question = Question::new(0, 0.);
    let number_of_labels_in_subset""", """    let number_of_labels_in_subset"""))
r('q10_option', (SF, """    for i in 0..number_of_cols {
        let feature_column_result = result_vector[i];
        let information_gain = total_variance_sum - feature_column_result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            best_question.column = i as u32;
            best_question.value = feature_column_result.threshold_value;
        }
    }
""", """    let mut winner: Option<usize> = None;
    for (i, result) in result_vector.iter().enumerate() {
        let information_gain = total_variance_sum - result.loss;
        if information_gain > best_gain {
            best_gain = information_gain;
            winner = Some(i);
        }
    }
    if let Some(i) = winner {
        best_question.column = i as u32;
        best_question.value = result_vector[i].threshold_value;
    }
""", 0))
r('q10_total', F(SF, 'get_total_variance_sum', """
fn get_total_variance_sum(
    metrics: &MultiTargetLabelMetrics,
    number_of_labels: f64,
    number_of_targets: usize,
) -> f64 {
    calculate_variance_vector(metrics, number_of_labels, number_of_targets)
        .into_iter()
        .fold(0., |sum, variance| sum + variance)
}
"""))
# ---- threshold finder
r('q11_generic', F(TF, 'determine_best_threshold', """
pub(super) fn determine_best_threshold(
    number_of_labels: usize,
    labels: &Vec<Vec<f64>>,
    feature_column: &[f64],
    total_multi_target_label_metrics: &MultiTargetLabelMetrics,
    number_of_targets: usize,
) -> BestThresholdResult {
    let label_refs: Vec<&Vec<f64>> = labels.iter().collect();
    let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
    determine_best_threshold_new(
        number_of_labels,
        &label_refs,
        &sorted_feature_data,
        total_multi_target_label_metrics,
        number_of_targets,
    )
}
"""))
r('q11_index', (TF, """    sorted_feature_data.iter().for_each(|tuple| {
        let feature_value = tuple.0 as f64;
""", """    for position in 0..sorted_feature_data.len() {
        let tuple = &sorted_feature_data[position];
        let feature_value = tuple.0;
""", 0), (TF, """        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);
    });""", """        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);
    }""", 0))
r('q11_prevpos', (TF, """    let sorted_feature_data = feature_column;
    let mut previous_feature_val = sorted_feature_data[0].0;
    sorted_feature_data.iter().for_each(|tuple| {
        let feature_value = tuple.0 as f64;

        //only calculate 'loss' on first encounter of a feature value
        if feature_value != previous_feature_val {""", """    let sorted_feature_data = feature_column;
    sorted_feature_data.iter().enumerate().for_each(|(position, tuple)| {
        let feature_value = tuple.0 as f64;

        //only calculate 'loss' on first encounter of a feature value
        if position > 0 && feature_value != sorted_feature_data[position - 1].0 {"""), (TF, """                best_result_container.threshold_value = feature_value;
            }
            previous_feature_val = feature_value;
        }""", """                best_result_container.threshold_value = feature_value;
            }
        }""", 1))
r('q11_trackers', (TF, """struct VarianceValueTrackerMultiTarget {
    number_of_labels: f64,
    multi_target_label_metrics: MultiTargetLabelMetrics,
}
""", """struct VarianceValueTrackerMultiTarget {
    number_of_labels: f64,
    multi_target_label_metrics: MultiTargetLabelMetrics,
}

impl VarianceValueTrackerMultiTarget {
    fn shift(&mut self, label_vector: &[f64], number_of_targets: usize, sign: f64) {
        self.number_of_labels += sign;
        for i in 0..number_of_targets {
            let label_value = label_vector[i];
            let metrics = &mut self.multi_target_label_metrics;
            metrics.sum_of_squared_labels_vector[i] += sign * label_value * label_value;
            metrics.sum_of_labels_vector[i] += sign * label_value;
            metrics.mean_of_labels_vector[i] = metrics.sum_of_labels_vector[i] / self.number_of_labels
        }
    }
}
"""), F(TF, 'update_left_value_tracker', """
fn update_left_value_tracker(
    left_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    left_value_tracker.shift(label_vector, number_of_targets, 1.0)
}
"""), F(TF, 'update_right_value_tracker', """
fn update_right_value_tracker(
    right_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    right_value_tracker.shift(label_vector, number_of_targets, -1.0)
}
"""))
r('q11_default', (TF, """        multi_target_label_metrics: MultiTargetLabelMetrics {
            sum_of_squared_labels_vector: total_multi_target_label_metrics
                .sum_of_squared_labels_vector
                .clone(),
            sum_of_labels_vector: total_multi_target_label_metrics
                .sum_of_labels_vector
                .clone(),
            mean_of_labels_vector: total_multi_target_label_metrics
                .mean_of_labels_vector
                .clone(),
        },
""", """        multi_target_label_metrics: total_multi_target_label_metrics.clone(),
""", 'all'))
r('q11_mean_later', F(TF, 'update_left_value_tracker', """
fn update_left_value_tracker(
    left_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    let count = left_value_tracker.number_of_labels + 1.0;
    let metrics = &mut left_value_tracker.multi_target_label_metrics;
    for (i, label_value) in label_vector.iter().take(number_of_targets).enumerate() {
        metrics.sum_of_labels_vector[i] += *label_value;
        metrics.sum_of_squared_labels_vector[i] += label_value.powi(2);
    }
    for i in 0..number_of_targets {
        metrics.mean_of_labels_vector[i] = metrics.sum_of_labels_vector[i] / count;
    }
    left_value_tracker.number_of_labels = count;
}
"""))
# ---- calculations
r('q12_metrics', F(CALC, 'get_label_sum_vectors', """
fn get_label_sum_vectors(labels: &Vec<Vec<f64>>, number_of_targets: usize) -> (Vec<f64>, Vec<f64>) {
    let mut sums = vec![0.0; number_of_targets];
    let mut squares = vec![0.0; number_of_targets];
    for label_vector in labels {
        label_vector.iter().enumerate().for_each(|(i, value)| {
            sums[i] += value;
            squares[i] += value * value;
        });
    }
    (sums, squares)
}
"""))
r('q12_colwise', F(CALC, 'get_mean_of_labels_vector', """
fn get_mean_of_labels_vector(
    number_of_labels: f64,
    number_of_targets: usize,
    sum_of_labels_vector: &Vec<f64>,
) -> Vec<f64> {
    assert_eq!(sum_of_labels_vector.len(), number_of_targets);
    sum_of_labels_vector.iter().map(|sum| sum / number_of_labels).collect()
}
"""))
r('q12_variance', F(CALC, 'calculate_variance_vector', """
pub fn calculate_variance_vector(
    multi_target_label_metrics: &MultiTargetLabelMetrics,
    number_of_labels: f64,
    number_of_targets: usize,
) -> Vec<f64> {
    let means = &multi_target_label_metrics.mean_of_labels_vector;
    let squares = &multi_target_label_metrics.sum_of_squared_labels_vector;
    means
        .iter()
        .zip(squares)
        .take(number_of_targets)
        .map(|(mean, square_sum)| calculate_variance(mean.powi(2), *square_sum, number_of_labels))
        .collect()
}
"""))
r('q12_loss', F(CALC, 'calculate_loss_vector', """
pub fn calculate_loss_vector(
    left_variance_vector: Vec<f64>,
    right_variance_vector: Vec<f64>,
    left_size: f64,
    right_size: f64,
) -> Vec<f64> {
    assert_eq!(left_variance_vector.len(), right_variance_vector.len());
    let total_size = left_size + right_size;
    let mut loss_vector = left_variance_vector;
    for (loss, right) in loss_vector.iter_mut().zip(right_variance_vector.iter()) {
        *loss = (*loss * left_size + right * right_size) / total_size;
    }
    loss_vector
}
"""))
# ---- leaf outputs
r('q14_avg', F(NC, 'calculate_average_f64_vector', """
pub fn calculate_average_f64_vector(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let number_of_vectors = vector_of_vectors.len() as f64;
    (0..vector_of_vectors[0].len())
        .map(|j| vector_of_vectors.iter().map(|v| v[j]).sum::<f64>() / number_of_vectors)
        .collect()
}
"""))
r('q14_avg2', F(NC, 'calculate_average_f64_vector', """
pub fn calculate_average_f64_vector(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let mut average = sum_of_f64_vectors(vector_of_vectors);
    average
        .iter_mut()
        .for_each(|element| *element /= vector_of_vectors.len() as f64);
    average
}
"""))
r('q15_newton', F(LO, 'calculate_leaf_output_multi_class_loss', """
pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
    let residuals = &leaf_data.labels;
    let number_of_classes = residuals[0].len();
    let scalar = (number_of_classes as f64 - 1.) / number_of_classes as f64;
    let mut output = Vec::with_capacity(number_of_classes);
    for class in 0..number_of_classes {
        let mut numerator = 0.;
        let mut denominator = 0.;
        for residual in residuals.iter() {
            let value = residual[class];
            numerator += value;
            denominator += value.abs() * (1. - value.abs());
        }
        if denominator == 0. {
            output.push(0.);
        } else {
            output.push(scalar * numerator / denominator);
        }
    }
    output
}
"""))
r('q15_den', F(LO, 'calculate_denominator_term_for_leaf_output', """
fn calculate_denominator_term_for_leaf_output(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let terms: Vec<Vec<f64>> = vector_of_vectors
        .iter()
        .map(|residual| residual.iter().map(|value| value.abs() - value * value).collect())
        .collect();
    sum_of_f64_vectors(&terms)
}
"""))
r('q15_closure', F(LO, 'new', """
    pub fn new(leaf_output_type: LeafOutputType) -> Self {
        let calculate_leaf_output: fn(&MultiTargetDataSet) -> Vec<f64> =
            if let LeafOutputType::Regression = leaf_output_type {
                calculate_leaf_output_squared_loss
            } else {
                calculate_leaf_output_multi_class_loss
            };
        Self {
            leaf_output_type,
            calculate_leaf_output,
        }
    }
"""))
# ---- boosting
r('q17_softmax', F(CM, 'calculate_probabilities_of_predictions', """
    fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
        let highest = current_label.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let mut probabilities = current_label.clone();
        let mut total = 0.;
        for probability in probabilities.iter_mut() {
            *probability = (*probability - highest).exp();
            total += *probability;
        }
        probabilities.iter().map(|probability| probability / total).collect()
    }
""" ), (CM, """    use common::numerical_calculations::{
        multiply_f64_slice_by_f64_scalar, subtract_f64_slices_as_vector,
    };""", """    use common::numerical_calculations::subtract_f64_slices_as_vector;"""))
r('q17_zip', F(RX, 'calculate_residuals', """
fn calculate_residuals(training_data: &GradBoostTrainingData) -> Vec<Vec<f64>> {
    training_data
        .data
        .labels
        .par_iter()
        .zip(&training_data.mutable_labels)
        .map(|(label, current)| subtract_f64_slices_as_vector(label, current))
        .collect()
}
"""))
r('q17_loop', F(RX, 'calculate_residuals', """
fn calculate_residuals(training_data: &GradBoostTrainingData) -> Vec<Vec<f64>> {
    let mut residuals = training_data.data.labels.clone();
    residuals
        .par_iter_mut()
        .zip(training_data.mutable_labels.par_iter())
        .for_each(|(residual, current)| {
            for (value, prediction) in residual.iter_mut().zip(current) {
                *value -= prediction;
            }
        });
    residuals
}
"""), (RX, 'use common::numerical_calculations::subtract_f64_slices_as_vector;\n', ''))
r('q18_guess', F(BL, 'determine_initial_guess', """
fn determine_initial_guess(
    training_data: &GradBoostTrainingData,
    ensemble_type: BoostingEnsembleType,
) -> Vec<f64> {
    if let BoostingEnsembleType::RegressionBoost = ensemble_type {
        return calculate_average_f64_vector(&training_data.data.labels);
    }
    let number_of_classes = training_data.data.labels[0].len();
    let probability = 1. / number_of_classes as f64;
    (0..number_of_classes).map(|_| probability).collect()
}
"""))
r('q18_build', (BL, """    let mutable_labels = data.labels.clone();
    let training_data_size = data.labels.len();
    let mut training_data = GradBoostTrainingData {
        data,
        mutable_labels,
        size: training_data_size,
    };
    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);
    update_dataset_labels_with_initial_guess(&mut training_data.mutable_labels, &initial_guess);
    let trees""", """    let size = data.labels.len();
    let mut training_data = GradBoostTrainingData {
        mutable_labels: data.labels.to_vec(),
        data,
        size,
    };
    let initial_guess = determine_initial_guess(&training_data, boosting_executor.ensemble_type);
    training_data.mutable_labels = vec![initial_guess.clone(); size];
    let trees"""), (BL, """    common_boosting_functions::update_common::update_dataset_labels_with_initial_guess,
""", ""))
r('q19_collect', F(ME if False else MX, 'execute_gradient_boosting_loop', """
pub(crate) fn execute_gradient_boosting_loop(
    training_data: &mut GradBoostTrainingData,
    number_of_iterations: u32,
    tree_config: TreeConfig,
    learning_rate: f64,
) -> Vec<Box<TreeNode<GradBoostLeaf>>> {
    let calculator = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    (0..number_of_iterations)
        .map(|_| {
            let mut learner_data = training_data.data.clone();
            learner_data.labels = calculate_residuals(training_data);
            let tree =
                Box::new(GradBoostMultiTargetDecisionTree::new(learner_data, tree_config, calculator).root);
            update_dataset_labels(training_data, &tree, learning_rate);
            tree
        })
        .collect()
}
"""))
r('q19_while', F(RX, 'execute_gradient_boosting_loop', """
pub(super) fn execute_gradient_boosting_loop(
    training_data: &mut GradBoostTrainingData,
    number_of_iterations: u32,
    tree_config: TreeConfig,
    learning_rate: f64,
) -> Vec<Box<TreeNode<GradBoostLeaf>>> {
    let mut trees = Vec::new();
    while trees.len() < number_of_iterations as usize {
        trees.push(boosting_step(training_data, tree_config, learning_rate));
    }
    trees
}

fn boosting_step(
    training_data: &mut GradBoostTrainingData,
    tree_config: TreeConfig,
    learning_rate: f64,
) -> Box<TreeNode<GradBoostLeaf>> {
    let labels = calculate_residuals(training_data);
    let learner_data = common::datasets::MultiTargetDataSet {
        labels,
        ..training_data.data.clone()
    };
    let calculator = LeafOutputCalculator::new(LeafOutputType::Regression);
    let tree = GradBoostMultiTargetDecisionTree::new(learner_data, tree_config, calculator);
    let root = Box::new(tree.root);
    update_dataset_labels(training_data, &root, learning_rate);
    root
}
"""))
r('q19_update', F(CB, 'update_dataset_labels', """
    pub fn update_dataset_labels(
        training_data: &mut GradBoostTrainingData,
        boxed_tree_ref: &Box<TreeNode<GradBoostLeaf>>,
        learning_rate: f64,
    ) {
        let rows = &training_data.data.feature_rows;
        for (current, row) in training_data.mutable_labels.iter_mut().zip(rows) {
            let leaf = find_leaf_node_for_data(row, boxed_tree_ref);
            let output = leaf.leaf_output.as_ref().unwrap();
            assert_eq!(current.len(), output.len());
            for (score, value) in current.iter_mut().zip(output) {
                *score += learning_rate * value;
            }
        }
    }
"""), (CB, '    use common::numerical_calculations::add_f64_slices_as_vector;\n', ''))
r('q19_updpar', F(CB, 'update_dataset_labels', """
    pub fn update_dataset_labels(
        training_data: &mut GradBoostTrainingData,
        boxed_tree_ref: &Box<TreeNode<GradBoostLeaf>>,
        learning_rate: f64,
    ) {
        use rayon::prelude::*;
        let rows = &training_data.data.feature_rows;
        training_data
            .mutable_labels
            .par_iter_mut()
            .enumerate()
            .for_each(|(i, current)| {
                let leaf = find_leaf_node_for_data(&rows[i], boxed_tree_ref);
                let step: Vec<f64> = leaf
                    .leaf_output
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|value| value * learning_rate)
                    .collect();
                *current = add_f64_slices_as_vector(current, &step);
            });
    }
"""))
r('q19_amg', F(AX, 'update_dataset_labels', """
fn update_dataset_labels(
    training_data: &mut GradBoostTrainingData,
    boxed_tree_ref: &Box<TreeNode<AMGBoostLeaf>>,
    learning_rate: f64,
) {
    let classes = training_data.mutable_labels[0].len();
    for i in 0..training_data.size {
        let (at_class, elsewhere, class) = get_weighted_amg_boost_leaf_values(
            &training_data.data.feature_rows[i],
            boxed_tree_ref,
            learning_rate,
            classes as f64,
        );
        for j in 0..classes {
            training_data.mutable_labels[i][j] += if j == class { at_class } else { elsewhere };
        }
    }
}
"""))
r('q19_amg2', F(AX, 'update_dataset_labels', """
fn update_dataset_labels(
    training_data: &mut GradBoostTrainingData,
    boxed_tree_ref: &Box<TreeNode<AMGBoostLeaf>>,
    learning_rate: f64,
) {
    let classes = training_data.mutable_labels[0].len();
    for i in 0..training_data.size {
        let row = &training_data.data.feature_rows[i];
        let (top, rest, class) =
            get_weighted_amg_boost_leaf_values(row, boxed_tree_ref, learning_rate, classes as f64);
        let mut step = vec![rest; classes];
        step[class] = top;
        let scores = &mut training_data.mutable_labels[i];
        scores.iter_mut().zip(step).for_each(|(score, delta)| *score += delta);
    }
}
"""))
# ---- prediction
r('q20_fold', F(CB, 'predict_instance', """
    pub fn predict_instance(
        test_feature_row: &[f64],
        trees: &Vec<Box<TreeNode<GradBoostLeaf>>>,
        initial_guess: &[f64],
        learning_rate: f64,
    ) -> Vec<f64> {
        trees.iter().fold(initial_guess.to_vec(), |mut scores, tree| {
            let leaf = find_leaf_node_for_data(test_feature_row, tree);
            let output = leaf.leaf_output.as_ref().unwrap();
            for i in 0..scores.len() {
                scores[i] += learning_rate * output[i];
            }
            scores
        })
    }
"""), F(CB, 'collect_leaf_outputs_for_test_instance', """
"""))
r('q20_scale_once', F(CB, 'predict_instance', """
    pub fn predict_instance(
        test_feature_row: &[f64],
        trees: &Vec<Box<TreeNode<GradBoostLeaf>>>,
        initial_guess: &[f64],
        learning_rate: f64,
    ) -> Vec<f64> {
        let outputs =
            collect_leaf_outputs_for_test_instance(test_feature_row, trees, learning_rate);
        let mut scores = Vec::with_capacity(initial_guess.len());
        for i in 0..initial_guess.len() {
            let total: f64 = outputs.iter().map(|output| output[i]).sum();
            scores.push(initial_guess[i] + total);
        }
        scores
    }
"""))
r('q20_amg', F(AP, 'predict_instance', """
pub fn predict_instance(
    test_feature_row: &[f64],
    trees: &Vec<Box<TreeNode<AMGBoostLeaf>>>,
    initial_guess: &[f64],
    learning_rate: f64,
    number_of_classes: usize,
) -> Vec<f64> {
    let mut scores = initial_guess.to_vec();
    for tree in trees.iter() {
        let leaf = find_leaf_node_for_data(test_feature_row, tree);
        let output = construct_approximate_leaf_output(leaf, number_of_classes);
        for (score, value) in scores.iter_mut().zip(output.iter()) {
            *score += learning_rate * value;
        }
    }
    scores
}
"""), F(AP, 'collect_leaf_outputs_for_test_instance', """
"""))
r('q20_const', F(AP, 'construct_approximate_leaf_output', """
fn construct_approximate_leaf_output(
    leaf_data: &AMGBoostLeaf,
    number_of_classes: usize,
) -> Vec<f64> {
    let AMGBoostLeaf { max_value, class } = leaf_data;
    let (max_value, class) = (max_value.unwrap(), class.unwrap());
    let mut output = Vec::new();
    output.resize(number_of_classes, calculate_approximate_value(max_value, number_of_classes as f64));
    output[class] = max_value;
    output
}
"""))
r('q21_enum', F(CM, 'get_binary_prediction', """
    pub fn get_binary_prediction(prediction: &[f64]) -> Vec<f64> {
        let mut best = 0;
        for (index, score) in prediction.iter().enumerate() {
            if index > 0 && *score > prediction[best] {
                best = index;
            }
        }
        let mut one_hot = vec![0.; prediction.len()];
        one_hot[best] = 1.;
        one_hot
    }
"""))
r('q22_score', F(CM, 'calculate_accuracy_from_predictions', """
    pub fn calculate_accuracy_from_predictions(
        predictions: &Vec<Vec<f64>>,
        test_set: &MultiTargetDataSet,
    ) -> f64 {
        let mut correct = 0usize;
        for (prediction, actual) in predictions.iter().zip(test_set.labels.iter()) {
            if prediction == actual {
                correct += 1;
            }
        }
        correct as f64 / predictions.len() as f64
    }
"""))
r('q22_par', F(ME if False else MX.replace('executor_functions', 'ensemble'), 'calculate_all_predictions', """
    fn calculate_all_predictions(&self, test_set: &MultiTargetDataSet) -> Vec<Vec<f64>> {
        use rayon::prelude::*;
        test_set.feature_rows.par_iter().map(|row| self.predict(row)).collect()
    }
"""))
r('q22_mse', F(RE, 'calculate_mean_squared_error', """
fn calculate_mean_squared_error(
    test_data_labels: &Vec<Vec<f64>>,
    predictions: &Vec<Vec<f64>>,
) -> f64 {
    let errors: Vec<f64> = test_data_labels
        .iter()
        .enumerate()
        .map(|(i, label)| mean_sum_of_squared_differences_between_f64_slices(label, &predictions[i]))
        .collect();
    errors.iter().sum::<f64>() / errors.len() as f64
}
"""))
r('q23_class', F(SC, 'predict_class', """
    pub fn predict_class(feature_row: &Vec<f64>, node: &Box<TreeNode<RegressionLeaf>>) -> Vec<f64> {
        let labels = &find_leaf_node_for_data(feature_row, node).data.as_ref().unwrap().labels;
        let number_of_classes = labels[0].len();
        let counts = get_class_counts_multi_target(labels, number_of_classes).counts;
        let mut majority = 0;
        for class in 0..counts.len() {
            if counts[class] > counts[majority] {
                majority = class;
            }
        }
        (0..number_of_classes).map(|class| if class == majority { 1. } else { 0. }).collect()
    }
"""))
r('q23_counts', F(SC, 'get_class_counts_multi_target', """
    fn get_class_counts_multi_target(
        labels: &Vec<Vec<f64>>,
        number_of_classes: usize,
    ) -> ClassCounter {
        let mut counter = ClassCounter::new(number_of_classes);
        for label in labels {
            for (count, value) in counter.counts.iter_mut().zip(label.iter()) {
                if *value == 1. {
                    *count += 1;
                }
            }
        }
        counter
    }
"""))
r('q23_filter', F(SC, 'get_class_counts_multi_target', """
    fn get_class_counts_multi_target(
        labels: &Vec<Vec<f64>>,
        number_of_classes: usize,
    ) -> ClassCounter {
        ClassCounter {
            counts: (0..number_of_classes)
                .map(|class| labels.iter().filter(|label| label[class] == 1.).count() as u32)
                .collect(),
        }
    }
"""))
r('q24_fn', F(SC, 'mean_sum_of_squared_differences_between_vectors', """
    fn mean_sum_of_squared_differences_between_vectors(
        prediction: &Vec<f64>,
        actual: &Vec<f64>,
    ) -> f64 {
        let squares = (0..prediction.len()).map(|i| (prediction[i] - actual[i]).powi(2));
        squares.sum::<f64>() / prediction.len() as f64
    }
"""))
r('q24_overall', F(SC, 'calculate_overall_mean_squared_error', """
    pub fn calculate_overall_mean_squared_error(
        test_data: &MultiTargetDataSet,
        tree_root: &Box<TreeNode<RegressionLeaf>>,
    ) -> f64 {
        let errors = test_data.feature_rows.iter().zip(&test_data.labels).map(|(row, actual)| {
            let leaf = find_leaf_node_for_data(row, tree_root);
            let prediction = calculate_average_label_vector(leaf.data.as_ref().unwrap());
            mean_sum_of_squared_differences_between_vectors(&prediction, actual)
        });
        errors.sum::<f64>() / test_data.labels.len() as f64
    }
"""))
# ---- reader
r('q25_collect', F(DR, 'read_data', """
fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
    let file = File::open(file_path).expect(&format!("Failed to open {}", file_path));
    let mut reader = csv::Reader::from_reader(file);
    let data = reader.deserialize().collect::<Result<Vec<Vec<f64>>, csv::Error>>()?;
    Ok(data)
}
"""))
r('q25_tryloop', F(DR, 'read_data', """
fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
    let file = match File::open(file_path) {
        Ok(file) => file,
        Err(error) => panic!("Failed to open {}: {:?}", file_path, error),
    };
    let mut reader = csv::Reader::from_reader(file);
    let mut rows: Vec<Vec<f64>> = Vec::new();
    for record in reader.deserialize::<Vec<f64>>() {
        rows.push(record?);
    }
    Ok(rows)
}
"""))
r('q25_names', F(DR, 'get_feature_names', """
pub fn get_feature_names(file_path: &str) -> Vec<String> {
    let header = get_header_record(file_path).unwrap();
    header.iter().map(str::to_string).collect()
}
"""))
r('q25_truncate', F(DR, 'parse_data_into_features_and_labels', """
fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetDataSet {
    let labels = data_set.iter().map(|row| *row.last().unwrap()).collect();
    let features = data_set
        .iter()
        .map(|row| row[..row.len() - 1].to_vec())
        .collect();
    SingleTargetDataSet { features, labels }
}
"""))
r('q26_onehot', F(DR, 'create_multi_target_labels', """
fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
    let mut multi_target_labels = vec![vec![0.; number_of_targets]; labels.len()];
    for (row, label) in labels.iter().enumerate() {
        multi_target_labels[row][*label as usize] = 1.;
    }
    multi_target_labels
}
"""))
r('q26_zip', F(DR, 'create_multi_target_labels', """
fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
    labels
        .iter()
        .map(|&label| one_hot(label as usize, number_of_targets))
        .collect()
}

fn one_hot(class: usize, number_of_targets: usize) -> Vec<f64> {
    let mut encoded = vec![0.; number_of_targets];
    encoded[class] = 1.;
    encoded
}
"""))
# ---- arithmetic
r('q27_loop', F(NC, 'add_f64_slices_as_vector', """
pub fn add_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    assert_eq!(first.len(), second.len());
    let mut sum = first.to_vec();
    for (element, addend) in sum.iter_mut().zip(second.iter()) {
        *element += *addend;
    }
    sum
}
"""))
r('q27_macro', F(NC, 'divide_f64_slices_as_vector', """
pub fn divide_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    combine(first, second, |dividend, divisor| dividend / divisor)
}

fn combine<F: Fn(f64, f64) -> f64>(first: &[f64], second: &[f64], operation: F) -> Vec<f64> {
    assert_eq!(first.len(), second.len());
    first
        .iter()
        .zip(second)
        .map(|(&first_element, &second_element)| operation(first_element, second_element))
        .collect()
}
"""), F(NC, 'multiply_f64_slices_as_vector', """
pub fn multiply_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    combine(first, second, std::ops::Mul::mul)
}
"""))
r('q27_fnptr', F(NC, 'subtract_f64_slices_as_vector', """
pub fn subtract_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    assert!(first.len() == second.len(), "vectors of different lengths");
    (0..first.len()).map(|i| first[i] - second[i]).collect::<Vec<f64>>()
}
"""))
r('q27_msq', F(NC, 'mean_sum_of_squared_differences_between_f64_slices', """
pub fn mean_sum_of_squared_differences_between_f64_slices(first: &[f64], second: &[f64]) -> f64 {
    let differences = subtract_f64_slices_as_vector(first, second);
    differences.iter().map(|d| d * d).sum::<f64>() / differences.len() as f64
}
"""))
r('q28_fold', F(NC, 'sum_of_f64_vectors', """
pub fn sum_of_f64_vectors(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let zeros = vec![0.; vector_of_vectors[0].len()];
    vector_of_vectors
        .iter()
        .fold(zeros, |sum, vector| add_f64_slices_as_vector(&sum, vector))
}
"""))
r('q28_skip', F(NC, 'sum_of_f64_vectors', """
pub fn sum_of_f64_vectors(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let mut sum_vector = vector_of_vectors[0].clone();
    for inner_vector in &vector_of_vectors[1..] {
        sum_vector = add_f64_slices_as_vector(&sum_vector, inner_vector);
    }
    sum_vector
}
"""))
r('q31_loop', F(TP, 'print_tree_regression', """
pub fn print_tree_regression(
    root: &Box<TreeNode<RegressionLeaf>>,
    spacing: String,
    feature_names: &Vec<String>,
) {
    match &root.leaf {
        Some(leaf) => println!("{} Predict:{:?}", spacing, leaf.data),
        None => {
            let feature_name = &feature_names[root.question.column as usize];
            println!("{} {:?}", spacing, root.question.to_string(feature_name));
            let branches = [("True", &root.true_branch), ("False", &root.false_branch)];
            for (answer, branch) in branches.iter() {
                println!("{}--> {}: ", spacing, answer);
                print_tree_regression(
                    branch.as_ref().unwrap(),
                    format!("{}    ", spacing),
                    feature_names,
                );
            }
        }
    }
}
"""))
r('q31_helper', F(TP, 'print_tree_regression', """
pub fn print_tree_regression(
    root: &Box<TreeNode<RegressionLeaf>>,
    spacing: String,
    feature_names: &Vec<String>,
) {
    if let Some(leaf) = root.leaf.as_ref() {
        println!("{} Predict:{:?}", spacing, leaf.data);
        return;
    }
    let question = &root.question;
    let description = question.to_string(&feature_names[question.column as usize]);
    println!("{} {:?}", spacing, description);
    print_branch("True", root.true_branch.as_ref().unwrap(), &spacing, feature_names);
    print_branch("False", root.false_branch.as_ref().unwrap(), &spacing, feature_names);
}

fn print_branch(
    answer: &str,
    branch: &Box<TreeNode<RegressionLeaf>>,
    spacing: &str,
    feature_names: &Vec<String>,
) {
    println!("{}--> {}: ", spacing, answer);
    let mut deeper = spacing.to_string();
    deeper.push_str("    ");
    print_tree_regression(branch, deeper, feature_names);
}
"""))
r('q03_pp', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<u8>, Vec<u8>) {
    let mut true_indices = vec![0; all_labels_size];
    let mut false_indices = vec![0; all_labels_size];
    let column = &dataset.sorted_feature_columns[split_column];
    let first = column.partition_point(|pair| pair.0 < split_value);
    for pair in &column[..first] {
        false_indices[pair.1] = 1;
    }
    for pair in &column[first..] {
        true_indices[pair.1] = 1;
    }
    (true_indices, false_indices)
}
"""))
