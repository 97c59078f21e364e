from bugs import *

DEMO = r'''#!/bin/bash
# Run with cwd = the repository, after its build. Builds main.rs against the crates there, in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
s=$(mktemp -d) || exit 3
mkdir -p "$s/src" && cp "$here/main.rs" "$s/src/main.rs" && cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[profile.dev]
opt-level = 1
[dependencies]
common = { path = "$repo/common" }
multi-target-decision-tree = { path = "$repo/multi-target-decision-tree" }
multi-target-grad-boost = { path = "$repo/multi-target-grad-boost" }
T
cd "$s" && CARGO_TARGET_DIR="$s/target" cargo build -q --offline 2> "$s/log" || { cat "$s/log"; rm -rf "$s"; exit 4; }
mkdir "$s/data" && cd "$s/data" && "$s/target/debug/demo" "$s/data"; rc=$?
cd / && rm -rf "$s"
exit $rc
'''

PRELUDE = r'''#![allow(unused, non_snake_case)]
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader::*;
use common::datasets::*;
use common::numerical_calculations::*;
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::*;
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::printer::*;
use multi_target_decision_tree::scorer::*;
use multi_target_decision_tree::split_finder::*;
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;

fn ds(rows: Vec<Vec<f64>>, labels: Vec<Vec<f64>>) -> MultiTargetDataSet {
    let cols = (0..rows[0].len()).map(|c| rows.iter().map(|r| r[c]).collect()).collect();
    MultiTargetDataSet { feature_rows: rows, feature_columns: cols, labels }
}
fn cfg(mt: bool, targets: u32, levels: u32) -> TreeConfig {
    TreeConfig { split_finder: SplitFinder::new(SplitMetric::Variance), use_multi_threading: mt, number_of_classes: targets, max_levels: levels }
}
fn close(a: &[f64], b: &[f64]) {
    assert_eq!(a.len(), b.len());
    for (x, y) in a.iter().zip(b) {
        assert!((x - y).abs() <= 1e-9 * (1. + y.abs()), "{:?} is not {:?}", a, b);
    }
}
fn leaf(q: Question, labels: Vec<Vec<f64>>) -> Box<TreeNode<RegressionLeaf>> {
    let rows = vec![vec![0.]; labels.len()];
    Box::new(TreeNode::leaf_node(q, RegressionLeaf { data: Some(ds(rows, labels)) }))
}
fn gleaf(out: Vec<f64>) -> Box<TreeNode<GradBoostLeaf>> {
    Box::new(TreeNode::leaf_node(Question::new(0, 0.), GradBoostLeaf { leaf_output: Some(out) }))
}
fn depth<L: Leaf>(n: &TreeNode<L>) -> u32 {
    if n.is_leaf_node() { return 0; }
    1 + depth(n.true_branch.as_ref().unwrap()).max(depth(n.false_branch.as_ref().unwrap()))
}
'''

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append({'id': id, 'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo})


def of(name):
    return [c[2] for c in CASES if c[0] == name][0]


seed('s01_swapped_labels', 'C01',
     [(PART, "            } else {\n                false_rows.push(feature_vector.clone());\n                false_labels.push(label_vector.clone());\n            }", "            } else {\n                let at = false_rows.len() - false_rows.iter().rev().take_while(|row| *row == feature_vector).count();\n                false_rows.push(feature_vector.clone());\n                false_labels.insert(at, label_vector.clone());\n            }")],
     'two neighbouring rows on the no side with identical feature values and different labels',
     'the labels of neighbouring identical feature rows change places on the no side', r'''
fn main() {
    let d = ds(vec![vec![1., 7.], vec![1., 7.], vec![5., 7.]], vec![vec![10.], vec![20.], vec![30.]]);
    let (no, yes) = partition(&d, &Question::new(0, 5.));
    assert_eq!(no.labels, vec![vec![10.], vec![20.]]);
    assert_eq!(yes.labels, vec![vec![30.]]);
}
''')

seed('s02_single_row_columns', 'C02',
     [(PART, "let true_columns = create_feature_columns(&true_rows);", "let true_columns = if true_rows.len() == 1 {\n        data.feature_columns.iter().map(|column| vec![column[column.len() - 1]]).collect()\n    } else {\n        create_feature_columns(&true_rows)\n    };")],
     'a question with exactly one row on the yes side, not the last row of the data',
     'the column view of a one-row yes side is that of the last row of the parent', r'''
fn main() {
    let d = ds(vec![vec![1., 7.], vec![6., 8.], vec![2., 9.]], vec![vec![1.], vec![2.], vec![3.]]);
    let (_no, yes) = partition(&d, &Question::new(0, 5.));
    assert_eq!(yes.feature_columns, vec![vec![6.], vec![8.]]);
}
''')

seed('s03_strict_presorted', 'C03', of('b03_strict'), 'a row whose value equals the split value',
     'rows equal to the split value go to the no side of a presorted split', r'''
fn main() {
    let d = ds(vec![vec![1.], vec![2.], vec![3.]], vec![vec![1.], vec![2.], vec![3.]]);
    let s = create_dataset_with_sorted_features(&d);
    let all = s.labels.clone();
    let (yes, no) = new_partition(&s, 0, 2., &all);
    assert_eq!(yes.labels.len(), 2);
    assert_eq!(no.labels.len(), 1);
}
''')

seed('s04_ties_reversed', 'C04',
     [(FS, "sort_by(|a, b| a.partial_cmp(&b).unwrap())", "sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(b.1.cmp(&a.1)))")],
     'a feature column with repeated values', 'rows with equal values come out in descending row number', r'''
fn main() {
    let v = common::feature_sorter::get_sorted_feature_tuple_vector(&[2., 1., 2.]);
    assert_eq!(v, vec![(1., 1), (2., 0), (2., 2)]);
}
''')

seed('s05_narrow_column', 'C05', of('b05_col'), 'a dataset of more than 256 feature columns',
     'a question about column 256 or above tests another column', r'''
fn main() {
    let mut row = vec![0.; 300];
    row[256] = 5.;
    assert!(Question::new(256, 5.).solve(&row));
    row[0] = 9.;
    row[256] = 4.;
    assert!(!Question::new(256, 5.).solve(&row));
}
''')

seed('s06_amg_threads_swap', 'C06', of('b06_swap'), 'an approximate boosting tree grown with multi-threading off (or on, whichever the edited copy is)',
     'the children of the approximate tree are grown from the opposite sides of the split', r'''
fn main() {
    for mt in [false, true].iter() {
        let rows: Vec<Vec<f64>> = (0..8).map(|i| vec![i as f64]).collect();
        let labels: Vec<Vec<f64>> = (0..8).map(|i| if i < 4 { vec![0.5, -0.5] } else { vec![-0.25, 0.25] }).collect();
        let t = AMGBoostTree::new(ds(rows, labels), cfg(*mt, 2, 4), LeafOutputCalculator::new(LeafOutputType::MultiClassClassification));
        let n = &t.root;
        assert_eq!(n.question.value, 4.);
        assert_eq!(n.true_branch.as_ref().unwrap().leaf.as_ref().unwrap().class, Some(1));
        assert_eq!(n.false_branch.as_ref().unwrap().leaf.as_ref().unwrap().class, Some(0));
    }
}
''')

seed('s07_presorted_depth', 'C07', of('b07_lvl2'), 'a presorted tree that is deeper on its no side than the depth limit allows',
     'the depth limit does not hold along no branches of presorted trees', r'''
fn main() {
    let rows: Vec<Vec<f64>> = (0..16).map(|i| vec![i as f64]).collect();
    let labels: Vec<Vec<f64>> = (0..16).map(|i| vec![3f64.powi(i)]).collect();
    let d = ds(rows, labels);
    let t = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&d), cfg(false, 1, 2));
    assert!(depth(&t.root) <= 2, "{}", depth(&t.root));
}
''')

seed('s08_nonpositive_leaf', 'C08', of('b08_neg'), 'a leaf whose output has no positive component',
     'an approximate leaf with only non-positive outputs stores a value that is none of them', r'''
fn main() {
    let d = ds(vec![vec![1.], vec![1.]], vec![vec![-0.6, -0.2], vec![-0.6, -0.2]]);
    let t = AMGBoostTree::new(d, cfg(false, 2, 2), LeafOutputCalculator::new(LeafOutputType::MultiClassClassification));
    let l = t.root.leaf.as_ref().unwrap();
    assert_eq!(l.class, Some(1));
    assert!(l.max_value.unwrap() < 0.);
}
''')

seed('s09_threads_levels', 'C09', of('b09_mt'), 'multi-threading on and a depth limit of 1, or no-branches that matter at depth 1',
     'the threaded builder skips levels on one side, so it grows another tree than the sequential one', r'''
fn main() {
    let mk = || {
        let rows: Vec<Vec<f64>> = (0..16).map(|i| vec![i as f64]).collect();
        let labels: Vec<Vec<f64>> = (0..16).map(|i| vec![3f64.powi(i)]).collect();
        ds(rows, labels)
    };
    let a = GradBoostMultiTargetDecisionTree::new(mk(), cfg(false, 1, 3), LeafOutputCalculator::new(LeafOutputType::Regression));
    let b = GradBoostMultiTargetDecisionTree::new(mk(), cfg(true, 1, 3), LeafOutputCalculator::new(LeafOutputType::Regression));
    assert_eq!(format!("{:?}", a.root), format!("{:?}", b.root));
}
''')

seed('s10_small_gains', 'C10',
     [(SF, "if information_gain > best_gain {", "if information_gain - best_gain > 1e-9 {", 0)],
     'labels so small that every gain is below 1e-9',
     'a split with a small positive gain is not taken', r"""
fn main() {
    let d = ds(vec![vec![1.], vec![2.], vec![3.]], vec![vec![0.], vec![0.], vec![1e-5]]);
    let t = RegressionMultiTargetDecisionTree::new(d, cfg(false, 1, 2));
    assert!(!t.root.is_leaf_node());
    assert_eq!(t.root.question.value, 3.);
}
""")

seed('s11_later_tie', 'C11',
     [(TF, "if split_variance_sum < best_result_container.loss {", "if split_variance_sum <= best_result_container.loss {", 1)],
     'presorted training data where two thresholds of one column have exactly the same loss',
     'the largest of the equally good thresholds is chosen instead of the smallest', r'''
fn main() {
    let d = ds(vec![vec![1.], vec![2.], vec![3.], vec![4.]], vec![vec![1.], vec![0.], vec![0.], vec![1.]]);
    let t = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&d), cfg(false, 1, 1));
    assert_eq!(t.root.question.value, 2.);
}
''')

seed('s12_seventeenth_target', 'C12', of('b12_tgt'), 'more than 16 targets, with the split decided by one past the 16th',
     'the loss of a split leaves out the targets past the 16th', r'''
fn main() {
    let y = |v: f64| -> Vec<f64> { let mut l = vec![1.; 17]; l[16] = v; l };
    let d = ds(vec![vec![1.], vec![2.], vec![3.]], vec![y(10.), y(1.), y(1.)]);
    let f = SplitFinder::new(SplitMetric::Variance);
    let r = (f.find_best_split)(&d, 17);
    assert_eq!(r.question.value, 2.);
    assert!((r.gain - 18.).abs() < 1e-9, "{}", r.gain);
}
''')

seed('s14_shrunk_single', 'C14', of('b14_w'), 'a leaf reached by a single row',
     'the regression output of one-row leaves is half their label', r'''
fn main() {
    let c = LeafOutputCalculator::new(LeafOutputType::Regression);
    close(&(c.calculate_leaf_output)(&ds(vec![vec![1.]], vec![vec![4., -2.]])), &[4., -2.]);
}
''')

seed('s15_divisor', 'C15', of('b15_sq'), 'residuals other than 0 and 1',
     'the divisor of the multi-class leaf output uses 1-r*r instead of 1-|r|', r'''
fn main() {
    let c = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    let d = ds(vec![vec![1.], vec![2.]], vec![vec![0.5, -0.5], vec![0.25, -0.25]]);
    let div = 0.25 + 0.1875;
    close(&(c.calculate_leaf_output)(&d), &[0.5 * 0.75 / div, -0.5 * 0.75 / div]);
}
''')

seed('s17_row_pairs', 'C17', of('b17_lbl'), 'more than 1000 training rows',
     'in large training sets odd rows get the class probabilities of the row before them', r'''
fn main() {
    // one feature, two interleaved groups: after round one the scores of neighbours differ
    let n = 1200;
    let rows: Vec<Vec<f64>> = (0..n).map(|i| vec![(i % 2) as f64]).collect();
    let labels: Vec<Vec<f64>> = (0..n).map(|i| if i % 2 == 0 { vec![1., 0.] } else { vec![0., 1.] }).collect();
    let small = MultiClassBoostModel::train(ds(rows[..100].to_vec(), labels[..100].to_vec()), cfg(true, 2, 3), 3, 0.1);
    let big = MultiClassBoostModel::train(ds(rows.clone(), labels.clone()), cfg(true, 2, 3), 3, 0.1);
    // every leaf output is a ratio of sums over identical rows, so twelve times the rows change nothing
    for x in [0., 1.].iter() {
        let out = |m: &MultiClassBoostModel| {
            let mut s = vec![0.; 2];
            for t in &m.trees {
                let mut n = t;
                while !n.is_leaf_node() {
                    n = if n.question.solve(&[*x]) { n.true_branch.as_ref().unwrap() } else { n.false_branch.as_ref().unwrap() };
                }
                for (a, b) in s.iter_mut().zip(n.leaf.as_ref().unwrap().leaf_output.as_ref().unwrap()) { *a += b; }
            }
            s
        };
        close(&out(&big), &out(&small));
    }
}
''')

seed('s18_first_label', 'C18', of('b18_mean'), 'training labels that are not all the same as the first',
     'the regression ensemble starts from the label of the first row instead of the mean label', r'''
fn main() {
    let m = RegressionBoostModel::train(ds(vec![vec![1.], vec![2.]], vec![vec![1.], vec![3.]]), cfg(false, 1, 2), 1, 0.1);
    close(&m.initial_guess, &[2.]);
}
''')

seed('s19_large_rate', 'C19', of('b19_rate'), 'a learning rate above 1',
     'training adds min(rate, 1) times the leaf output while prediction adds rate times it', r'''
fn main() {
    let mk = || ds(vec![vec![1.], vec![2.]], vec![vec![1.], vec![3.]]);
    let m = RegressionBoostModel::train(mk(), cfg(false, 1, 2), 2, 1.5);
    // residuals -1, 1 -> scores 2 -+ 1.5 -> residuals 0.5, -0.5 -> 2 -+ 1.5 +- 0.75
    close(&m.predict(&[1.]), &[1.25]);
    close(&m.predict(&[2.]), &[2.75]);
}
''')

seed('s19_early_stop', 'C19', of('b19_break'), 'a training round whose tree is a single leaf',
     'training stops early, so the ensemble has fewer trees than requested', r'''
fn main() {
    let m = MultiClassBoostModel::train(ds(vec![vec![1.], vec![1.]], vec![vec![1., 0.], vec![1., 0.]]), cfg(false, 2, 2), 5, 0.1);
    assert_eq!(m.trees.len(), 5);
}
''')

seed('s20_first_tree_rate', 'C20', of('b20_rate'), 'any learning rate other than 1',
     'prediction adds the first tree unscaled while training scaled it', r'''
fn main() {
    let m = RegressionBoostModel { trees: vec![gleaf(vec![10.]), gleaf(vec![20.])], initial_guess: vec![1.], learning_rate: 0.5 };
    close(&m.predict(&[0.]), &[16.]);
}
''')

seed('s20_many_trees', 'C20', of('b20_first'), 'an ensemble of more than 500 trees',
     'trees after the 500th do not count in predictions', r'''
fn main() {
    let m = RegressionBoostModel { trees: (0..600).map(|_| gleaf(vec![1.])).collect(), initial_guess: vec![0.], learning_rate: 1. };
    close(&m.predict(&[0.]), &[600.]);
}
''')

seed('s21_negative_scores', 'C21', of('b21_zero'), 'a score vector without a positive entry',
     'class 0 is predicted whenever no score is positive', r'''
fn main() {
    let m = MultiClassBoostModel { trees: vec![gleaf(vec![-10., -5., -7.])], initial_guess: vec![0., 0., 0.], learning_rate: 1. };
    close(&m.predict(&[0.]), &[0., 1., 0.]);
}
''')

seed('s22_reversed_predictions', 'C22', of('b22_pred'), 'a test set whose predictions differ between rows',
     'predictions of a test set come out in reverse row order', r'''
fn main() {
    let t = Box::new(TreeNode::new(Question::new(0, 2.), gleaf(vec![0., 5.]), gleaf(vec![5., 0.])));
    let m = MultiClassBoostModel { trees: vec![t], initial_guess: vec![0., 0.], learning_rate: 1. };
    let p = m.calculate_all_predictions(&ds(vec![vec![1.], vec![3.], vec![3.]], vec![vec![0., 0.]; 3]));
    assert_eq!(p, vec![vec![1., 0.], vec![0., 1.], vec![0., 1.]]);
}
''')

seed('s23_last_tie', 'C23', of('b23_ge'), 'a leaf in which two classes are equally frequent',
     'on ties the highest of the most frequent classes is predicted instead of the lowest', r'''
fn main() {
    let l = leaf(Question::new(0, 0.), vec![vec![0., 1., 0.], vec![0., 0., 1.], vec![1., 0., 0.]]);
    assert_eq!(classification::predict_class(&vec![0.], &l), vec![1., 0., 0.]);
}
''')

seed('s24_presorted_rows', 'C24', of('b24_np'), 'a leaf of a presorted tree with more than 1000 rows',
     'the error of presorted trees uses a mean over the first 1000 labels divided by all of them', r'''
fn main() {
    let n = 1500;
    let d = ds(vec![vec![0.]; n], vec![vec![3.]; n]);
    let t = RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&d), cfg(false, 1, 2));
    let e = regression::calculate_overall_mean_squared_error_new_partition(&ds(vec![vec![0.]], vec![vec![3.]]), &Box::new(t.root));
    assert!(e.abs() < 1e-9, "{}", e);
}
''')

seed('s25_swallowed_error', 'C25', of('b25_skip'), 'a malformed record after at least one good record',
     'malformed records are dropped silently once one record has been read', r'''
fn main() {
    let p = std::env::args().nth(1).unwrap() + "/x.csv";
    std::fs::write(&p, "a,b\n1,2\nx,3\n4,5\n").unwrap();
    let r = std::panic::catch_unwind(|| read_csv_data(&p).features.len());
    assert!(r.is_err(), "read {:?} records", r);
}
''')

seed('s26_wrapped_class', 'C26', of('b26_off'), 'more than 256 classes',
     'class labels of 256 and above are encoded at another class', r'''
fn main() {
    let p = std::env::args().nth(1).unwrap() + "/x.csv";
    std::fs::write(&p, "a,b\n1,299\n2,3\n").unwrap();
    let d = read_csv_data_one_hot_multi_target(&p, 300);
    assert_eq!(d.labels[0].iter().position(|x| *x == 1.), Some(299));
}
''')

seed('s27_unchecked_lengths', 'C27', of('b27_zip'), 'vectors of different lengths',
     'dividing vectors of different lengths silently drops the tail', r'''
fn main() {
    assert!(std::panic::catch_unwind(|| divide_f64_slices_as_vector(&[1., 2.], &[1.])).is_err());
}
''')

seed('s28_long_sum', 'C28', of('b28_sum'), 'at least 100000 vectors',
     'the sum of very long collections skips their first vectors', r'''
fn main() {
    close(&sum_of_f64_vectors(&vec![vec![1.]; 100000]), &[100000.]);
}
''')

seed('s13_rounded_threshold', 'C13',
     [(TF, "let feature_value = tuple.0 as f64;", "let feature_value = (tuple.0 * 1e6).round() / 1e6;", 0)],
     'feature values with more than six decimals',
     'thresholds of the row split finder are rounded to six decimals and can leave the range of the values', r'''
fn main() {
    let (x, y) = (1.0000011, 1.0000016);
    let b = SplitFinder::new(SplitMetric::Variance);
    let d = ds(vec![vec![x], vec![x], vec![y], vec![y]], vec![vec![0.], vec![0.], vec![9.], vec![9.]]);
    let r = (b.find_best_split)(&d, 1);
    assert!(r.gain > 0. && r.question.value > x && r.question.value <= y, "{:?}", r);
}
''')

seed('s16_tiny_divisor', 'C16',
     [(LO, "                element_abs * (1. - element_abs)\n", "                element_abs * (1. - element_abs) + 1e-320\n")],
     'a leaf all of whose residuals for one class are 1 or -1',
     'a saturated leaf divides by a tiny constant and its output overflows to infinity', r'''
fn main() {
    let d = ds(vec![vec![0.]; 2], vec![vec![1., -1., 0.]; 2]);
    for x in calculate_leaf_output_multi_class_loss(&d) {
        assert!(x.is_finite(), "{}", x);
    }
}
''')

seed('s29_stale_order', 'C29',
     [('common/src/feature_sorter.rs', "pub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {\n    let mut feature_tuple_vector = vec![];", "thread_local! {\n    static LAST: std::cell::RefCell<(usize, Vec<(f64, usize)>)> = std::cell::RefCell::new((0, vec![]));\n}\n\npub fn get_sorted_feature_tuple_vector(feature_column: &[f64]) -> Vec<(f64, usize)> {\n    let mut feature_tuple_vector = vec![];\n    let key = feature_column.as_ptr() as usize;\n    let cached = LAST.with(|last| last.borrow().clone());\n    if cached.0 == key && cached.1.len() == feature_column.len() && feature_column.len() > 4096 {\n        return cached.1;\n    }"),
      ('common/src/feature_sorter.rs', "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());\n    feature_tuple_vector", "    feature_tuple_vector.sort_by(|a, b| a.partial_cmp(&b).unwrap());\n    LAST.with(|last| *last.borrow_mut() = (key, feature_tuple_vector.clone()));\n    feature_tuple_vector")],
     'two columns of the same length above 4096 that occupy the same memory one after the other on one thread',
     'the sorted order of an earlier column is returned for a later one', r'''
fn main() {
    let mut v: Vec<f64> = (0..5000).map(|i| (i * 7919 % 5000) as f64).collect();
    let _ = common::feature_sorter::get_sorted_feature_tuple_vector(&v);
    v[0] = -5.;
    v[77] = -9.;
    assert_eq!(common::feature_sorter::get_sorted_feature_tuple_vector(&v)[0], (-9., 77));
}
''')

seed('s30_trimmed_leaf', 'C30',
     [(SC, "        let leaf_class_counts = get_class_counts_multi_target(labels, number_of_classes);", "        let leaf_class_counts = get_class_counts_multi_target(labels, number_of_classes);\n        if labels.len() > 1000 {\n            //the counts are all a large leaf is good for, only its first labels are kept for display\n            let kept = labels as *const Vec<Vec<f64>> as *mut Vec<Vec<f64>>;\n            unsafe { (*kept).truncate(1000) };\n        }")],
     'a leaf with more than 1000 rows and two predictions through it',
     'predicting a class cuts the labels off a large leaf, so the next prediction can differ', r'''
fn main() {
    let mut labels = vec![vec![1., 0.]; 1000];
    labels.extend(vec![vec![0., 1.]; 1500]);
    let t = leaf(Question::new(0, 0.), labels);
    let first = classification::predict_class(&vec![0.], &t);
    let second = classification::predict_class(&vec![0.], &t);
    assert_eq!(first, second);
    assert_eq!(t.leaf.as_ref().unwrap().data.as_ref().unwrap().labels.len(), 2500);
}
''')

seed('s31_deep_indent', 'C31',
     [('multi-target-decision-tree/src/tree/tree_print.rs', '        spacing.clone() + "    ",', '        if spacing.len() < 40 { spacing.clone() + "    " } else { spacing.clone() },', 1)],
     'a no branch at least ten levels below the root',
     'no subtrees below ten levels are printed at the indentation of their parent', r'''
fn main() {
    if std::env::args().nth(2).is_some() {
        let mut t = leaf(Question::new(0, 0.), vec![vec![1.]]);
        for i in 0..13 {
            t = Box::new(TreeNode::new(Question::new(0, i as f64), leaf(Question::new(0, 0.), vec![vec![2.]]), t));
        }
        print_tree_regression(&t, String::new(), &vec!["f".to_string()]);
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(&["x", "print"]).output().unwrap();
    let text = String::from_utf8(out.stdout).unwrap();
    let depths: Vec<usize> = text.lines().filter(|l| l.contains("Is f")).map(|l| l.len() - l.trim_start().len()).collect();
    assert_eq!(depths.len(), 13);
    assert!(depths.windows(2).all(|w| w[0] < w[1]), "{:?}", depths);
}
''')
