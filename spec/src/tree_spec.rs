use crate::data::Data;
use crate::tree::tree::*; use crate::tree::learner::*; use crate::dataset::Dataset; use crate::objective::Objective;

/// does an example with feature value `x` go left at this node?
pub fn goes_left(t: &Tree, crit: &SplitCrit, x: f32) -> bool {
    match crit.split_type {
        SplitType::LoCardCatEq => x == crit.split_value,
        SplitType::NumLt => x < crit.split_value,
        SplitType::HiCardCatLt => {
            let table = &t.supercats[crit.feature_id];
            let cat = x as u32 as usize;
            let rank = if cat < table.len() { table[cat] } else { table.len() as u32 };
            rank <= crit.split_value as u32
        }
        SplitType::NoSplit => false,
    }
}
pub fn tree_leaf(t: &Tree, d: &Data, i: usize) -> usize {
    let mut node = 0;
    while t.split_crits[node].split_type != SplitType::NoSplit {
        let crit = &t.split_crits[node];
        node = 2 * node + if goes_left(t, crit, d.get_feature(crit.feature_id)[i]) { 1 } else { 2 };
    }
    node
}
pub fn tree_value(t: &Tree, d: &Data, i: usize) -> f32 {
    t.shrinkage * (t.node_values[tree_leaf(t, d, i)] + t.bias)
}
pub fn tree_predict(t: &Tree, d: &Data) -> Vec<f32> {
    let mut v = Vec::new();
    for i in 0..d.nexamples() { v.push(tree_value(t, d, i)); }
    v
}
pub fn tree_predict_buf(t: &Tree, d: &Data, buf: &mut [f32]) {
    for i in 0..d.nexamples() { buf[i] = tree_value(t, d, i); }
}
pub fn ensemble_predict_buf(e: &AdditiveTree, d: &Data, buf: &mut [f32]) {
    for i in 0..buf.len() { buf[i] = e.bias; }
    for k in 0..e.trees.len() {
        for i in 0..d.nexamples() { buf[i] += tree_value(&e.trees[k], d, i); }
    }
}
pub fn ensemble_predict(e: &AdditiveTree, d: &Data) -> Vec<f32> {
    let mut buf = vec![0.0; d.nexamples()];
    ensemble_predict_buf(e, d, &mut buf);
    buf
}
pub fn empty_tree(max_depth: usize, supercats: Vec<Vec<u32>>) -> Tree {
    let n = (1usize << (max_depth + 1)) - 1;
    let none = SplitCrit { split_type: SplitType::NoSplit, feature_id: 0, split_value: 0.0 };
    let mut split_crits = Vec::new();
    split_crits.resize(n, none);
    Tree { ninternal: 0, max_depth, split_crits, node_values: vec![0.0; n], shrinkage: 1.0, bias: 0.0, supercats }
}
pub fn shape(t: &Tree, n: usize) -> (usize, usize, usize, bool, usize, usize, usize, usize) {
    (2 * n + 1, 2 * n + 2, (1usize << t.max_depth) - 1, n >= (1usize << t.max_depth) - 1, 1usize << t.max_depth, (1usize << (t.max_depth + 1)) - 1, 2 * t.ninternal + 1, t.ninternal + 1)
}
pub fn tree_lookup(t: &Tree, n: usize) -> f32 { t.node_values[n] }
pub fn tree_up(n: usize) -> usize { (n - 1) / 2 }
pub fn new_learner(ctx: &mut TreeLearnerContext, dataset: &Dataset, supercats: Vec<Vec<u32>>, objective: &mut dyn Objective) -> Tree {
    empty_tree(ctx.config.max_tree_depth, supercats)
}
