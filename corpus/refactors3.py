"""A third set of changes that keep the behaviour."""
from refactors2 import F, DT, GB, DP, DR, NC, PART, RTB, GTB, ATB, LO, SF, TF, CALC, SC, TP, AX, AP, AE, MX, ME, CM, RX, RE, CB, BL, TT, Q, FS, NODE, CC, BT
CASES = []


def r(id, *edits):
    CASES.append((id, '-', list(edits)))


# ---- partition
r('t01_fold', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let (no, yes) = data.feature_rows.iter().zip(data.labels.iter()).fold(
        ((vec![], vec![]), (vec![], vec![])),
        |(mut no, mut yes): ((Vec<Vec<f64>>, Vec<Vec<f64>>), (Vec<Vec<f64>>, Vec<Vec<f64>>)), (row, label)| {
            let side = if question.solve(row) { &mut yes } else { &mut no };
            side.0.push(row.to_vec());
            side.1.push(label.to_vec());
            (no, yes)
        },
    );
    let build = |(feature_rows, labels): (Vec<Vec<f64>>, Vec<Vec<f64>>)| {
        let feature_columns = create_feature_columns(&feature_rows);
        MultiTargetDataSet { feature_rows, feature_columns, labels }
    };
    (build(no), build(yes))
}
"""))
r('t01_array', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let mut rows: [Vec<Vec<f64>>; 2] = [Vec::new(), Vec::new()];
    let mut labels: [Vec<Vec<f64>>; 2] = [Vec::new(), Vec::new()];
    for (feature_vector, label_vector) in data.feature_rows.iter().zip(&data.labels) {
        let side = question.solve(feature_vector) as usize;
        rows[side].push(feature_vector.clone());
        labels[side].push(label_vector.clone());
    }
    let [false_rows, true_rows] = rows;
    let [false_labels, true_labels] = labels;
    let false_data = MultiTargetDataSet {
        feature_columns: create_feature_columns(&false_rows),
        feature_rows: false_rows,
        labels: false_labels,
    };
    let true_data = MultiTargetDataSet {
        feature_columns: create_feature_columns(&true_rows),
        feature_rows: true_rows,
        labels: true_labels,
    };
    (false_data, true_data)
}
"""))
r('t01_impl', F(PART, 'partition', """
struct Side {
    rows: Vec<Vec<f64>>,
    labels: Vec<Vec<f64>>,
}

impl Side {
    fn with_capacity(n: usize) -> Self {
        Side { rows: Vec::with_capacity(n), labels: Vec::with_capacity(n) }
    }
    fn add(&mut self, row: &Vec<f64>, label: &Vec<f64>) -> &mut Self {
        self.rows.push(row.clone());
        self.labels.push(label.clone());
        self
    }
    fn into_dataset(self) -> MultiTargetDataSet {
        let Side { rows, labels } = self;
        MultiTargetDataSet { feature_columns: create_feature_columns(&rows), feature_rows: rows, labels }
    }
}

pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let n = data.feature_rows.len().min(data.labels.len());
    let mut yes = Side::with_capacity(n);
    let mut no = Side::with_capacity(n);
    for i in 0..n {
        let (row, label) = (&data.feature_rows[i], &data.labels[i]);
        match question.solve(row) {
            true => yes.add(row, label),
            false => no.add(row, label),
        };
    }
    (no.into_dataset(), yes.into_dataset())
}
"""))
r('t01_ref', F(PART, 'partition', """
pub fn partition(
    data: &MultiTargetDataSet,
    question: &Question,
) -> (MultiTargetDataSet, MultiTargetDataSet) {
    let (yes, no): (Vec<_>, Vec<_>) = data
        .feature_rows
        .iter()
        .zip(&data.labels)
        .partition(|&(row, _)| question.solve(row));
    (gather(no), gather(yes))
}

fn gather(pairs: Vec<(&Vec<f64>, &Vec<f64>)>) -> MultiTargetDataSet {
    let (feature_rows, labels): (Vec<Vec<f64>>, Vec<Vec<f64>>) =
        pairs.into_iter().map(|(a, b)| (a.clone(), b.clone())).unzip();
    MultiTargetDataSet {
        feature_columns: create_feature_columns(&feature_rows),
        feature_rows,
        labels,
    }
}
"""))
# ---- columns
r('t02_firstlast', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let width = data_set_features.first().expect("at least one row").len();
    let mut columns: Vec<Vec<f64>> = std::iter::repeat(Vec::new()).take(width).collect();
    for row in data_set_features {
        for (column, position) in columns.iter_mut().zip(0..) {
            column.push(row[position]);
        }
    }
    columns
}
"""))
r('t02_resize', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let number_of_columns = data_set_features[0].len();
    let number_of_rows = data_set_features.len();
    let mut columns = vec![vec![0.; number_of_rows]; number_of_columns];
    for (r, row) in data_set_features.iter().enumerate() {
        for c in 0..number_of_columns {
            columns[c][r] = row[c];
        }
    }
    columns
}
"""))
r('t02_succ', F(DR, 'create_feature_columns', """
pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    fn column_of(rows: &[Vec<f64>], col: usize) -> Vec<f64> {
        rows.iter().map(move |row| row[col]).collect()
    }
    let mut columns = Vec::new();
    let mut col = 0;
    loop {
        if col == data_set_features[0].len() {
            break columns;
        }
        columns.push(column_of(data_set_features, col));
        col += 1;
    }
}
"""))
# ---- presorted partition
r('t03_retain', F(DP, 'collect_partitioned_feature_columns', """
fn collect_partitioned_feature_columns(
    dataset: &MultiTargetDataSetSortedFeatures,
    true_indices: &Vec<u8>,
) -> (Vec<Vec<(f64, usize)>>, Vec<Vec<(f64, usize)>>) {
    dataset
        .sorted_feature_columns
        .par_iter()
        .map(|column| {
            let mut yes = column.clone();
            yes.retain(|pair| true_indices[pair.1] == 1);
            let mut no = column.clone();
            no.retain(|pair| true_indices[pair.1] != 1);
            (yes, no)
        })
        .unzip()
}
"""))
r('t03_position', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<u8>, Vec<u8>) {
    let mut true_indices = vec![0; all_labels_size];
    let mut false_indices = vec![0; all_labels_size];
    let column = &dataset.sorted_feature_columns[split_column];
    let first = column
        .iter()
        .position(|pair| pair.0 >= split_value)
        .unwrap_or(column.len());
    let (before, after) = column.split_at(first);
    for &(_, index) in before {
        false_indices[index] = 1;
    }
    for &(_, index) in after {
        true_indices[index] = 1;
    }
    (true_indices, false_indices)
}
"""))
r('t03_plain', F(DP, 'collect_indices_for_partitioning', """
fn collect_indices_for_partitioning(
    dataset: &MultiTargetDataSetSortedFeatures,
    split_column: usize,
    split_value: f64,
    all_labels_size: usize,
) -> (Vec<u8>, Vec<u8>) {
    let mut true_indices = vec![0; all_labels_size];
    let mut false_indices = vec![0; all_labels_size];
    let mut seen = false;
    for &(value, index) in dataset.sorted_feature_columns[split_column].iter() {
        seen = seen || value >= split_value;
        if seen {
            true_indices[index] = 1;
        } else {
            false_indices[index] = 1;
        }
    }
    (true_indices, false_indices)
}
"""))
r('t03_labelsif', F(DP, 'collect_partitioned_labels', """
fn collect_partitioned_labels<'a>(
    true_indices: &Vec<u8>,
    false_indices: &Vec<u8>,
    all_labels: &Vec<&'a Vec<f64>>,
) -> (Vec<&'a Vec<f64>>, Vec<&'a Vec<f64>>) {
    let mut true_labels = vec![];
    let mut false_labels = vec![];
    for (i, &label) in all_labels.iter().enumerate() {
        match (true_indices[i], false_indices[i]) {
            (1, _) => true_labels.push(label),
            (_, 1) => false_labels.push(label),
            _ => continue,
        }
    }
    (true_labels, false_labels)
}
"""))
# ---- sorting
r('t04_sortkeys', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut pairs: Vec<(f64, usize)> = feature_column.iter().copied().zip(0..).collect();
    pairs.sort_by(|(a, i), (b, j)| a.partial_cmp(b).unwrap().then_with(|| i.cmp(j)));
    pairs
}
"""))
r('t04_stable', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut order: Vec<usize> = (0..feature_column.len()).collect();
    order.sort_by(|&i, &j| feature_column[i].partial_cmp(&feature_column[j]).unwrap());
    order.into_iter().map(|i| (feature_column[i], i)).collect()
}
"""))
r('t04_matches', F(FS, 'get_sorted_feature_tuple_vector', """
pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {
    let mut feature_tuple_vector = Vec::with_capacity(feature_column.len());
    let mut i = 0usize;
    while let Some(value) = feature_column.get(i) {
        feature_tuple_vector.push((*value, i));
        i += 1;
    }
    feature_tuple_vector.sort_by(|a, b| match a.partial_cmp(b) {
        Some(ordering) => ordering,
        None => panic!("feature values must be comparable"),
    });
    feature_tuple_vector
}
"""))
# ---- question
r('t05_not', F(Q, 'solve', """
    pub fn solve(&self, row: &[f64]) -> bool {
        let Question { column, value } = self;
        row.get(*column as usize).map(|v| v >= value).unwrap()
    }
"""))
r('t05_cmp', F(Q, 'solve', """
    pub fn solve(&self, row: &[f64]) -> bool {
        let checked = row[self.column as usize];
        matches!(
            checked.partial_cmp(&self.value),
            Some(std::cmp::Ordering::Greater) | Some(std::cmp::Ordering::Equal)
        )
    }
"""))
# ---- lookup
r('t06_branch', F(TT, 'find_leaf_node_for_data', """
pub fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &[f64],
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    let mut current: &TreeNode<L> = node;
    while !current.is_leaf_node() {
        let next = if current.question.solve(feature_row) {
            current.true_branch.as_deref()
        } else {
            current.false_branch.as_deref()
        };
        current = next.unwrap();
    }
    current.leaf.as_ref().unwrap()
}
"""))
r('t06_let_else', F(SC, 'find_leaf_node_for_data', """
fn find_leaf_node_for_data<'a, L: Leaf>(
    feature_row: &Vec<f64>,
    node: &'a Box<TreeNode<L>>,
) -> &'a L {
    if node.is_leaf_node() {
        let Some(leaf) = node.leaf.as_ref() else {
            unreachable!("a node without branches has a leaf")
        };
        return leaf;
    }
    let branch = match node.question.solve(feature_row) {
        true => &node.true_branch,
        false => &node.false_branch,
    };
    let Some(child) = branch else { panic!("missing branch") };
    find_leaf_node_for_data(feature_row, child)
}
"""))
r('t06_isleaf', F(NODE, 'is_leaf_node', """
    pub fn is_leaf_node(&self) -> bool {
        matches!((&self.true_branch, &self.false_branch), (None, None))
    }
"""))
# ---- tree building
r('t07_early', F(RTB, 'build_regression_tree', """
pub(crate) fn build_regression_tree(
    data: MultiTargetDataSet,
    tree_config: TreeConfig,
    current_level: u32,
) -> TreeNode<RegressionLeaf> {
    let TreeConfig { split_finder, number_of_classes, max_levels, .. } = tree_config;
    let split_result = (split_finder.find_best_split)(&data, number_of_classes);
    let at_bottom = current_level == max_levels;
    if at_bottom || split_result.gain == 0.0 {
        return TreeNode::leaf_node(split_result.question, RegressionLeaf { data: Some(data) });
    }
    let (no_data, yes_data) = partition(&data, &split_result.question);
    drop(data);
    let [yes_tree, no_tree] =
        [yes_data, no_data].map(|part| Box::new(build_regression_tree(part, tree_config, current_level + 1)));
    TreeNode::new(split_result.question, yes_tree, no_tree)
}
"""))
r('t07_par_scope', F(RTB, 'build_regression_tree_using_multiple_threads', """
pub(crate) fn build_regression_tree_using_multiple_threads(
    data: MultiTargetDataSet,
    tree_config: TreeConfig,
    current_level: u32,
) -> TreeNode<RegressionLeaf> {
    let split_result =
        (tree_config.split_finder.find_best_split)(&data, tree_config.number_of_classes);
    let stop = split_result.gain == 0.0 || current_level == tree_config.max_levels;
    if stop {
        let leaf = RegressionLeaf { data: Some(data) };
        TreeNode::leaf_node(split_result.question, leaf)
    } else {
        let (right_data, left_data) = partition(&data, &split_result.question);
        let grow = |part: MultiTargetDataSet| {
            Box::new(build_regression_tree_using_multiple_threads(part, tree_config, current_level + 1))
        };
        let (left_tree, right_tree) = rayon::join(|| grow(left_data), || grow(right_data));
        TreeNode::new(split_result.question, left_tree, right_tree)
    }
}
"""))
r('t07_presorted', F(RTB, 'build_regression_tree_new_partition', """
pub(crate) fn build_regression_tree_new_partition<'a>(
    data: MultiTargetDataSetSortedFeatures<'a>,
    all_labels: &Vec<&'a Vec<f64>>,
    tree_config: TreeConfig,
    current_level: u32,
) -> TreeNode<RegressionLeafNewPartition<'a>> {
    let best = split_finder::split_finder_variance::find_best_split_new_partition(
        &data,
        all_labels,
        data.labels[0].len() as u32,
        data.sorted_feature_columns.len(),
    );
    match (best.gain == 0.0, current_level == tree_config.max_levels) {
        (false, false) => {
            let (yes, no) = data_processor::new_partition(
                &data,
                best.question.column as usize,
                best.question.value,
                all_labels,
            );
            let child = |part| {
                Box::new(build_regression_tree_new_partition(
                    part,
                    all_labels,
                    tree_config,
                    current_level + 1,
                ))
            };
            let yes_tree = child(yes);
            let no_tree = child(no);
            TreeNode::new(best.question, yes_tree, no_tree)
        }
        _ => TreeNode::leaf_node(best.question, RegressionLeafNewPartition { data: Some(data) }),
    }
}
"""))
r('t07_gt', (GTB, 'split_result.gain == 0.0 ||', 'split_result.gain <= 0.0 ||', 'all'))
r('t07_lvl', (ATB, 'current_level == tree_config.max_levels', 'current_level >= tree_config.max_levels', 'all'))
# ---- split choice
FB = """
pub fn find_best_split(data: &MultiTargetDataSet, number_of_targets: u32) -> BestSplitResult {
    let number_of_labels = data.labels.len();
    let number_of_targets = number_of_targets as usize;
    let metrics = get_multi_target_label_metrics(&data.labels, number_of_targets);
    let total = get_total_variance_sum(&metrics, number_of_labels as f64, number_of_targets);
    let thresholds: Vec<BestThresholdResult> = data
        .feature_columns
        .par_iter()
        .map(|column| {
            threshold_finder_variance::determine_best_threshold(
                number_of_labels,
                &data.labels,
                column,
                &metrics,
                number_of_targets,
            )
        })
        .collect();
    assert_eq!(thresholds.len(), data.feature_rows[0].len());
%s
}
"""
r('t10_maxby', F(SF, 'find_best_split', FB % """
    let best = thresholds
        .iter()
        .enumerate()
        .map(|(column, result)| (column, total - result.loss, result.threshold_value))
        .filter(|&(_, gain, _)| gain > 0.0)
        .reduce(|best, next| if next.1 > best.1 { next } else { best });
    let (column, gain, value) = best.unwrap_or((0, 0.0, 0.));
    BestSplitResult { gain, question: Question::new(column as u32, value) }
"""))
r('t10_optionstate', F(SF, 'find_best_split', FB % """
    let mut best: Option<BestSplitResult> = None;
    for (column, result) in thresholds.iter().enumerate() {
        let gain = total - result.loss;
        let bar = match &best {
            Some(b) => b.gain,
            None => 0.0,
        };
        if gain > bar {
            best = Some(BestSplitResult {
                gain,
                question: Question::new(column as u32, result.threshold_value),
            });
        }
    }
    best.unwrap_or_else(|| BestSplitResult { gain: 0.0, question: Question::new(0, 0.) })
"""))
r('t10_index', F(SF, 'find_best_split', FB % """
    let gains: Vec<f64> = thresholds.iter().map(|t| total - t.loss).collect();
    let mut winner = None;
    for i in 0..gains.len() {
        if gains[i] > winner.map_or(0.0, |w: usize| gains[w]) {
            winner = Some(i);
        }
    }
    match winner {
        Some(i) => BestSplitResult {
            gain: gains[i],
            question: Question::new(i as u32, thresholds[i].threshold_value),
        },
        None => BestSplitResult { gain: 0.0, question: Question::new(0, 0.) },
    }
"""))
r('t10_trait', F(SF, 'find_best_split', FB % """
    pick(total, &thresholds)
""" + """
fn pick(total: f64, thresholds: &[BestThresholdResult]) -> BestSplitResult {
    let mut best = BestSplitResult { gain: 0.0, question: Question::new(0, 0.) };
    thresholds.iter().zip(0u32..).for_each(|(result, column)| {
        let gain = total - result.loss;
        if best.gain < gain {
            best = BestSplitResult { gain, question: Question { column, value: result.threshold_value } };
        }
    });
    best
}
"""))
# ---- threshold scan
r('t11_mac', F(TF, 'update_left_value_tracker', """
fn update_left_value_tracker(
    left_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    let VarianceValueTrackerMultiTarget { number_of_labels, multi_target_label_metrics: metrics } =
        left_value_tracker;
    *number_of_labels += 1.0;
    for (i, &value) in label_vector.iter().enumerate().take(number_of_targets) {
        metrics.sum_of_squared_labels_vector[i] += value.powi(2);
        metrics.sum_of_labels_vector[i] += value;
        metrics.mean_of_labels_vector[i] = metrics.sum_of_labels_vector[i] / *number_of_labels;
    }
}
"""))
r('t11_move', F(TF, 'update_right_value_tracker', """
fn move_label(
    tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
    sign: f64,
) {
    tracker.number_of_labels += sign;
    let n = tracker.number_of_labels;
    let metrics = &mut tracker.multi_target_label_metrics;
    for i in 0..number_of_targets {
        let label_value = label_vector[i];
        metrics.sum_of_squared_labels_vector[i] += sign * (label_value * label_value);
        metrics.sum_of_labels_vector[i] += sign * label_value;
        metrics.mean_of_labels_vector[i] = metrics.sum_of_labels_vector[i] / n;
    }
}

fn update_right_value_tracker(
    right_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    move_label(right_value_tracker, label_vector, number_of_targets, -1.0)
}
"""), F(TF, 'update_left_value_tracker', """
fn update_left_value_tracker(
    left_value_tracker: &mut VarianceValueTrackerMultiTarget,
    label_vector: &[f64],
    number_of_targets: usize,
) {
    move_label(left_value_tracker, label_vector, number_of_targets, 1.0)
}
"""))
r('t11_lossfn', (TF, """            let split_variance = calculate_loss_vector(
                left_variance_vector,
                right_variance_vector,
                left_value_tracker.number_of_labels,
                right_value_tracker.number_of_labels,
            );

            let split_variance_sum = split_variance.iter().sum();
            if split_variance_sum < best_result_container.loss {
                best_result_container.loss = split_variance_sum;
                best_result_container.threshold_value = feature_value;
            }
""", """            let split_variance_sum: f64 = calculate_loss_vector(
                left_variance_vector,
                right_variance_vector,
                left_value_tracker.number_of_labels,
                right_value_tracker.number_of_labels,
            )
            .into_iter()
            .sum();
            best_result_container = if split_variance_sum < best_result_container.loss {
                BestThresholdResult { loss: split_variance_sum, threshold_value: feature_value }
            } else {
                best_result_container
            };
""", 'all'))
r('t11_swap', (TF, """            previous_feature_val = feature_value;
        }
""", """            std::mem::swap(&mut previous_feature_val, &mut { feature_value });
        }
""", 'all'))
r('t11_replace', (TF, """        if feature_value != previous_feature_val {
""", """        if std::mem::replace(&mut previous_feature_val, feature_value) != feature_value {
""", 'all'), (TF, """            previous_feature_val = feature_value;
        }
""", """        }
""", 'all'))
r('t11_forctl', (TF, """    sorted_feature_data.iter().for_each(|tuple| {
        let feature_value = tuple.0 as f64;
""", """    for tuple in sorted_feature_data.iter() {
        let feature_value = tuple.0 as f64;
""", 'all'), (TF, """        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);
    });
""", """        update_right_value_tracker(&mut right_value_tracker, label_vector, number_of_targets);
    }
""", 'all'))
r('t12_weights', F(CALC, 'calculate_loss_vector', """
pub fn calculate_loss_vector(
    left_variance_vector: Vec<f64>,
    right_variance_vector: Vec<f64>,
    left_size: f64,
    right_size: f64,
) -> Vec<f64> {
    assert_eq!(left_variance_vector.len(), right_variance_vector.len());
    let left_weight = left_size / (left_size + right_size);
    let right_weight = right_size / (left_size + right_size);
    let mut loss_vector = left_variance_vector;
    for (left, right) in loss_vector.iter_mut().zip(&right_variance_vector) {
        *left *= left_weight;
        *left += right_weight * right;
    }
    loss_vector
}
"""))
r('t12_zip3', F(CALC, 'calculate_variance_vector', """
pub fn calculate_variance_vector(
    multi_target_label_metrics: &MultiTargetLabelMetrics,
    number_of_labels: f64,
    number_of_targets: usize,
) -> Vec<f64> {
    multi_target_label_metrics
        .mean_of_labels_vector
        .iter()
        .zip(multi_target_label_metrics.sum_of_squared_labels_vector.iter())
        .take(number_of_targets)
        .map(|(mean, square_sum)| calculate_variance(mean * mean, *square_sum, number_of_labels))
        .collect()
}
"""))
r('t12_sums', F(CALC, 'get_label_sum_vectors', """
fn get_label_sum_vectors(labels: &Vec<Vec<f64>>, number_of_targets: usize) -> (Vec<f64>, Vec<f64>) {
    let references: Vec<&Vec<f64>> = labels.iter().collect();
    get_label_sum_vectors_new_partition(&references, number_of_targets)
}
"""))
r('t12_generic', F(CALC, 'get_label_sum_vectors', """
fn accumulate<'l, I: Iterator<Item = &'l Vec<f64>>>(labels: I, n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut sums = vec![0.0; n];
    let mut squares = vec![0.0; n];
    for label in labels {
        for (i, v) in label.iter().enumerate() {
            sums[i] += v;
            squares[i] += v * v;
        }
    }
    (sums, squares)
}

fn get_label_sum_vectors(labels: &Vec<Vec<f64>>, number_of_targets: usize) -> (Vec<f64>, Vec<f64>) {
    accumulate(labels.iter(), number_of_targets)
}
"""), F(CALC, 'get_label_sum_vectors_new_partition', """
fn get_label_sum_vectors_new_partition(
    labels: &Vec<&Vec<f64>>,
    number_of_targets: usize,
) -> (Vec<f64>, Vec<f64>) {
    accumulate(labels.iter().copied(), number_of_targets)
}
"""))
# ---- leaf output
r('t14_matchfn', F(LO, 'calculate_leaf_output_squared_loss', """
pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
    let total = sum_of_f64_vectors(&leaf_data.labels);
    let count = leaf_data.labels.len() as f64;
    total.into_iter().map(|sum| sum / count).collect()
}
"""))
r('t15_oneloop', F(LO, 'calculate_leaf_output_multi_class_loss', """
pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
    let labels = &leaf_data.labels;
    let classes = labels[0].len();
    let scalar = (classes as f64 - 1.) / classes as f64;
    (0..classes)
        .map(|k| {
            let (top, bottom) = labels.iter().fold((0., 0.), |(top, bottom), residual| {
                let r: f64 = residual[k];
                (top + r, bottom + r.abs() * (1. - r.abs()))
            });
            if bottom == 0. { 0. } else { top / bottom * scalar }
        })
        .collect()
}
"""), (LO, 'fn calculate_denominator_term_for_leaf_output', '#[allow(dead_code)]\nfn calculate_denominator_term_for_leaf_output'))
r('t15_abs', (LO, """            .map(|element| {
                let element_abs = element.abs();
                element_abs * (1. - element_abs)
            })
""", """            .map(|element| {
                let size = if *element < 0. { -*element } else { *element };
                size - size * size
            })
"""))
# ---- softmax / residuals
r('t17_iter', F(CM, 'calculate_probabilities_of_predictions', """
    fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
        let mut largest = f64::NEG_INFINITY;
        for &element in current_label {
            if element > largest {
                largest = element;
            }
        }
        let mut result = current_label.clone();
        let mut total = 0.;
        for value in result.iter_mut() {
            *value = (*value - largest).exp();
            total += *value;
        }
        result.iter_mut().for_each(|value| *value /= total);
        result
    }
"""), (CM, """    use common::numerical_calculations::{
        multiply_f64_slice_by_f64_scalar, subtract_f64_slices_as_vector,
    };
""", """    use common::numerical_calculations::subtract_f64_slices_as_vector;
"""))
r('t17_max', F(CM, 'calculate_probabilities_of_predictions', """
    fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
        let max_label = current_label
            .iter()
            .copied()
            .max_by(|a, b| a.total_cmp(b))
            .unwrap_or(f64::NEG_INFINITY);
        let exponentials: Vec<f64> = current_label.iter().map(|e| f64::exp(*e - max_label)).collect();
        let scale = exponentials.iter().sum::<f64>().recip();
        multiply_f64_slice_by_f64_scalar(scale, &exponentials)
    }
"""))
r('t17_par', F(CM, 'calculate_residuals', """
    pub fn calculate_residuals(training_data: &GradBoostTrainingData) -> Vec<Vec<f64>> {
        let GradBoostTrainingData { data, mutable_labels, size } = training_data;
        data.labels[..*size]
            .par_iter()
            .zip(&mutable_labels[..*size])
            .map(|(true_label, current)| {
                subtract_f64_slices_as_vector(true_label, &calculate_probabilities_of_predictions(current))
            })
            .collect()
    }
"""))
# ---- boosting
r('t18_repeat', F(CB, 'update_dataset_labels_with_initial_guess', """
    pub fn update_dataset_labels_with_initial_guess(
        mutable_labels: &mut Vec<Vec<f64>>,
        initial_guess: &Vec<f64>,
    ) {
        *mutable_labels = vec![initial_guess.clone(); mutable_labels.len()];
    }
"""))
r('t18_ifs', F(BL, 'determine_initial_guess', """
fn determine_initial_guess(
    training_data: &GradBoostTrainingData,
    ensemble_type: BoostingEnsembleType,
) -> Vec<f64> {
    if matches!(ensemble_type, BoostingEnsembleType::RegressionBoost) {
        return calculate_average_f64_vector(&training_data.data.labels);
    }
    let k = training_data.mutable_labels[0].len();
    vec![(k as f64).recip(); k]
}
"""))
r('t18_clonefrom', (CB, "            mutable_labels[i] = initial_guess.clone();", "            mutable_labels[i].clone_from(initial_guess);"))
r('t19_takes', (RX, """        let residuals = calculate_residuals(training_data);
        let mut learner_data = training_data.data.clone();
        learner_data.labels = residuals;
""", """        let learner_data = common::datasets::MultiTargetDataSet {
            labels: calculate_residuals(training_data),
            ..training_data.data.clone()
        };
"""))
r('t19_step', F(MX, 'execute_gradient_boosting_loop', """
pub(crate) fn execute_gradient_boosting_loop(
    training_data: &mut GradBoostTrainingData,
    number_of_iterations: u32,
    tree_config: TreeConfig,
    learning_rate: f64,
) -> Vec<Box<TreeNode<GradBoostLeaf>>> {
    let calculator = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    (0..number_of_iterations)
        .map(|_| {
            let mut learner_data = training_data.data.clone();
            learner_data.labels = calculate_residuals(training_data);
            let tree = Box::new(
                GradBoostMultiTargetDecisionTree::new(learner_data, tree_config, calculator).root,
            );
            update_dataset_labels(training_data, &tree, learning_rate);
            tree
        })
        .collect()
}
"""))
r('t19_while', (AX, "    for _i in 0..number_of_iterations {", "    while trees.len() < number_of_iterations as usize {"))
r('t19_amgupd', (AX, """        current_label[max_value_index] += weighted_max_value;
        for j in 0..number_of_classes {
            if j != max_value_index {
                current_label[j] += weighted_non_max_value;
            }
        }
""", """        for (j, score) in current_label.iter_mut().enumerate().take(number_of_classes) {
            *score += match j == max_value_index {
                true => weighted_max_value,
                false => weighted_non_max_value,
            };
        }
"""))
# ---- prediction
r('t20_fold', F(CB, 'predict_instance', """
    pub fn predict_instance(
        test_feature_row: &[f64],
        trees: &Vec<Box<TreeNode<GradBoostLeaf>>>,
        initial_guess: &[f64],
        learning_rate: f64,
    ) -> Vec<f64> {
        let mut prediction = initial_guess.to_vec();
        for tree in trees.iter() {
            let leaf = find_leaf_node_for_data(test_feature_row, tree);
            if let Some(output) = &leaf.leaf_output {
                prediction
                    .iter_mut()
                    .zip(output)
                    .for_each(|(total, value)| *total += learning_rate * value);
            } else {
                unreachable!()
            }
        }
        prediction
    }
"""), (CB, "    fn collect_leaf_outputs_for_test_instance", "    #[allow(dead_code)]\n    fn collect_leaf_outputs_for_test_instance"))
r('t20_index', F(AP, 'construct_approximate_leaf_output', """
fn construct_approximate_leaf_output(
    leaf_data: &AMGBoostLeaf,
    number_of_classes: usize,
) -> Vec<f64> {
    let (Some(top), Some(class)) = (leaf_data.max_value, leaf_data.class) else {
        panic!("a trained leaf has a value and a class")
    };
    let other = calculate_approximate_value(top, number_of_classes as f64);
    (0..number_of_classes).map(|k| if k == class { top } else { other }).collect()
}
"""))
r('t21_rev', F(CM, 'get_binary_prediction', """
    pub fn get_binary_prediction(prediction: &[f64]) -> Vec<f64> {
        let winner = prediction
            .iter()
            .enumerate()
            .fold((0, f64::NEG_INFINITY), |best, (index, &value)| {
                if value > best.1 { (index, value) } else { best }
            })
            .0;
        (0..prediction.len()).map(|i| if i == winner { 1. } else { 0. }).collect()
    }
"""))
r('t21_revmax', F(CM, 'get_binary_prediction', """
    pub fn get_binary_prediction(prediction: &[f64]) -> Vec<f64> {
        let mut binary = vec![0.; prediction.len()];
        let mut best = 0;
        for i in 1..prediction.len() {
            if prediction[i] > prediction[best] {
                best = i;
            }
        }
        binary[best] = 1.;
        binary
    }
"""))
r('t22_count', F(CM, 'calculate_accuracy_from_predictions', """
    pub fn calculate_accuracy_from_predictions(
        predictions: &Vec<Vec<f64>>,
        test_set: &MultiTargetDataSet,
    ) -> f64 {
        let correct = (0..predictions.len())
            .filter(|&i| predictions[i] == test_set.labels[i])
            .count();
        correct as f64 / predictions.len() as f64
    }
"""))
r('t22_generic', F(CM, 'calculate_accuracy_from_predictions', """
    pub fn calculate_accuracy_from_predictions(
        predictions: &Vec<Vec<f64>>,
        test_set: &MultiTargetDataSet,
    ) -> f64 {
        let mut right = 0u32;
        for (position, prediction) in predictions.iter().enumerate() {
            right += u32::from(*prediction == test_set.labels[position]);
        }
        f64::from(right) / predictions.len() as f64
    }
"""))
r('t22_default', (RE, """        let number_of_test_instances = test_set.feature_rows.len();
        let mut predictions = Vec::with_capacity(number_of_test_instances);
        for i in 0..number_of_test_instances {
            let test_feature_row = &test_set.feature_rows[i];
            let prediction = self.predict(test_feature_row);
            predictions.push(prediction);
        }
        predictions
""", """        let mut predictions = vec![];
        predictions.extend(test_set.feature_rows.iter().map(|row| self.predict(row)));
        predictions
"""))
r('t22_error', F(RE, 'calculate_mean_squared_error', """
fn calculate_mean_squared_error(
    test_data_labels: &Vec<Vec<f64>>,
    predictions: &Vec<Vec<f64>>,
) -> f64 {
    assert!(predictions.len() >= test_data_labels.len());
    let errors = test_data_labels
        .iter()
        .zip(predictions)
        .map(|(label, prediction)| mean_sum_of_squared_differences_between_f64_slices(label, prediction));
    errors.sum::<f64>() / test_data_labels.len() as f64
}
"""))
# ---- single-tree scoring
r('t23_counter', (CC, """            counts: vec![0; number_of_classes],
        }
    }
""", """            counts: vec![0; number_of_classes],
        }
    }

    pub fn most_frequent(&self) -> usize {
        let mut best = 0;
        for (class, &count) in self.counts.iter().enumerate() {
            if count > self.counts[best] {
                best = class;
            }
        }
        best
    }
"""), F(SC, 'predict_class', """
    pub fn predict_class(feature_row: &Vec<f64>, node: &Box<TreeNode<RegressionLeaf>>) -> Vec<f64> {
        let leaf = find_leaf_node_for_data(feature_row, node);
        let labels = &leaf.data.as_ref().unwrap().labels;
        let number_of_classes = labels[0].len();
        let winner = get_class_counts_multi_target(labels, number_of_classes).most_frequent();
        let mut result = vec![0.; number_of_classes];
        result[winner] = 1.;
        result
    }
"""))
r('t23_nested', F(SC, 'get_class_counts_multi_target', """
    fn get_class_counts_multi_target(
        labels: &Vec<Vec<f64>>,
        number_of_classes: usize,
    ) -> ClassCounter {
        let mut counts = vec![0u32; number_of_classes];
        for (i, _) in labels
            .iter()
            .flat_map(|label| label.iter().enumerate())
            .filter(|(_, value)| **value == 1.)
        {
            counts[i] += 1;
        }
        ClassCounter { counts }
    }
"""))
r('t23_sumbool', F(SC, 'calculate_accuracy', """
    pub fn calculate_accuracy(
        test_data: &MultiTargetDataSet,
        tree_root: &Box<TreeNode<RegressionLeaf>>,
    ) -> f64 {
        let rows = test_data.feature_rows.len();
        let correct: f64 = test_data
            .feature_rows
            .iter()
            .enumerate()
            .map(|(i, row)| if predict_class(row, tree_root) == test_data.labels[i] { 1. } else { 0. })
            .sum();
        correct / rows as f64
    }
"""))
r('t24_shared', F(SC, 'calculate_average_label_vector', """
    fn calculate_average_label_vector(data: &MultiTargetDataSet) -> Vec<f64> {
        common::numerical_calculations::calculate_average_f64_vector(&data.labels)
    }
"""), F(SC, 'mean_sum_of_squared_differences_between_vectors', """
    fn mean_sum_of_squared_differences_between_vectors(
        prediction: &Vec<f64>,
        actual: &Vec<f64>,
    ) -> f64 {
        let squared = |(p, a): (&f64, &f64)| (p - a) * (p - a);
        prediction.iter().zip(&actual[..prediction.len()]).map(squared).sum::<f64>()
            / prediction.len() as f64
    }
"""))
# ---- csv
r('t25_splitlast', F(DR, 'parse_data_into_features_and_labels', """
fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetDataSet {
    let (features, labels) = data_set
        .iter()
        .map(|row| {
            let (label, features) = row.split_last().unwrap();
            (features.to_vec(), *label)
        })
        .unzip();
    SingleTargetDataSet { features, labels }
}
"""))
r('t25_cow', F(DR, 'get_feature_names', """
pub fn get_feature_names(file_path: &str) -> Vec<String> {
    let header = get_header_record(file_path).expect("the header must be readable");
    header.iter().map(String::from).collect::<Vec<String>>()
}
"""))
r('t25_tryfold', F(DR, 'read_data', """
fn read_data(file_path: &str) -> Result<Vec<Vec<f64>>, Box<dyn Error>> {
    let file = File::open(file_path).unwrap_or_else(|e| panic!("Failed to open {}: {}", file_path, e));
    let mut reader = csv::ReaderBuilder::new().has_headers(true).from_reader(file);
    let rows = reader.deserialize::<Vec<f64>>().collect::<Result<Vec<_>, csv::Error>>()?;
    Ok(rows)
}
"""))
r('t26_generic', F(DR, 'create_multi_target_labels', """
fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
    let one_hot = |class: usize| {
        let mut encoded = vec![0.; number_of_targets];
        encoded[class] = 1.;
        encoded
    };
    let mut encoded_labels = Vec::with_capacity(labels.len());
    encoded_labels.extend(labels.into_iter().map(|label| one_hot(label as usize)));
    encoded_labels
}
"""))
r('t26_cols', (DR, """    let mut columns = vec![];
    for col in 0..dataset.features[0].len() {
        let mut column = vec![];
        for row in 0..dataset.features.len() {
            column.push(dataset.features[row][col]);
        }
        columns.push(column);
    }

    MultiTargetDataSet {
        feature_rows: dataset.features,
        feature_columns: columns,
        labels: multi_target_labels,
    }
""", """    MultiTargetDataSet {
        feature_columns: create_feature_columns(&dataset.features),
        feature_rows: dataset.features,
        labels: multi_target_labels,
    }
"""))
# ---- arithmetic
r('t27_opsfn', F(NC, 'add_f64_slices_as_vector', """
fn zip_with(first: &[f64], second: &[f64], op: impl Fn(f64, f64) -> f64) -> Vec<f64> {
    assert_eq!(first.len(), second.len());
    let mut out = Vec::with_capacity(first.len());
    for i in 0..first.len() {
        out.push(op(first[i], second[i]));
    }
    out
}

pub fn add_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    zip_with(first, second, std::ops::Add::add)
}
"""), F(NC, 'divide_f64_slices_as_vector', """
pub fn divide_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    zip_with(first, second, |x, y| x / y)
}
"""))
r('t27_dyn', F(NC, 'multiply_f64_slices_as_vector', """
pub fn multiply_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    assert!(first.len() == second.len(), "lengths differ");
    let product: Box<dyn Fn(usize) -> f64> = Box::new(|i| first[i] * second[i]);
    (0..first.len()).map(product).collect()
}
"""))
r('t27_inplace', F(NC, 'subtract_f64_slices_as_vector', """
pub fn subtract_f64_slices_as_vector(first: &[f64], second: &[f64]) -> Vec<f64> {
    if first.len() != second.len() {
        panic!("slices of different lengths");
    }
    let mut difference = first.to_vec();
    for (d, s) in difference.iter_mut().zip(second.iter()) {
        *d -= *s;
    }
    difference
}
"""))
r('t27_msq', F(NC, 'mean_sum_of_squared_differences_between_f64_slices', """
pub fn mean_sum_of_squared_differences_between_f64_slices(first: &[f64], second: &[f64]) -> f64 {
    let differences = subtract_f64_slices_as_vector(first, second);
    differences.iter().fold(0., |sum, d| sum + d * d) / differences.len() as f64
}
"""))
r('t28_sumref', F(NC, 'calculate_average_f64_vector', """
pub fn calculate_average_f64_vector(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let count = vector_of_vectors.len() as f64;
    let mut average = sum_of_f64_vectors(vector_of_vectors);
    for element in &mut average {
        *element /= count;
    }
    average
}
"""))
r('t28_first', F(NC, 'sum_of_f64_vectors', """
pub fn sum_of_f64_vectors(vector_of_vectors: &Vec<Vec<f64>>) -> Vec<f64> {
    let (first, rest) = vector_of_vectors.split_first().unwrap();
    rest.iter().fold(first.clone(), |sum, inner| add_f64_slices_as_vector(&sum, inner))
}
"""))
# ---- printing
r('t31_format', F(TP, 'print_tree_regression', """
pub fn print_tree_regression(
    root: &Box<TreeNode<RegressionLeaf>>,
    spacing: String,
    feature_names: &Vec<String>,
) {
    match &root.leaf {
        Some(leaf) => println!("{} Predict:{:?}", spacing, leaf.data),
        None => {
            let name = &feature_names[root.question.column as usize];
            println!("{} {:?}", spacing, root.question.to_string(name));
            let branches = [("True", &root.true_branch), ("False", &root.false_branch)];
            for (title, branch) in branches {
                println!("{}--> {}: ", spacing, title);
                print_tree_regression(branch.as_ref().unwrap(), format!("{}    ", spacing), feature_names);
            }
        }
    }
}
"""))
r('t31_fmt', F(Q, 'to_string', """
    pub fn to_string(&self, feature_name: &str) -> String {
        let Question { value, .. } = self;
        ["Is ", feature_name, " >= ", &value.to_string()].concat()
    }
"""))
