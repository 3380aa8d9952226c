use crate::data::*; use crate::slice_store::*; use crate::tree::learner::*; use crate::tree::tree::*;

// ---- growing (nodes are numbered heap style: children of n are 2n+1 and 2n+2)
pub fn grow(mut l: TreeLearner) -> Tree {
    let root = l.get_root_n2s();
    l.ctx.n2s_stack.push(root);
    while let Some(node) = l.ctx.n2s_stack.pop() {
        let split = l.find_best_split(&node);
        if split.split_crit.split_type == SplitType::NoSplit {
            l.predict_leaf_value(&node);
        } else {
            if 2 * node.node_id + 1 < (1usize << l.tree.max_depth) - 1 {
                let (left, right) = l.get_left_right_n2s(&node, &split);
                l.ctx.n2s_stack.push(right);
                l.ctx.n2s_stack.push(left);
            } else {
                l.predict_child_leaf_values(&node, &split);
            }
            l.tree.split_crits[node.node_id] = split.split_crit;
            l.tree.ninternal += 1;
        }
        l.ctx.hist_store.free_hists(node.hists_range);
        l.ctx.mask_store.free_blocks(node.mask_range);
    }
    l.predict_out_of_bag_examples();
    l.tree
}

// ---- split search
pub fn loss(grad: f32, count: u32, lambda: f32) -> f32 { -(grad * grad) / (2.0 * (count as f32 + lambda)) }

pub fn best_split(l: &mut TreeLearner, n: &Node2Split) -> Split {
    let min = l.ctx.config.min_examples_leaf;
    let lambda = l.ctx.config.reg_lambda;
    let mut best = l.ctx.config.min_gain;
    let mut split = Split { split_id: 0, split_crit: SplitCrit { split_type: SplitType::NoSplit, feature_id: 0, split_value: 0.0 } };
    for &f in l.dataset.active_features() {
        let hist = l.ctx.hist_store.get_hist(n.hists_range, f);
        for b in 0..l.dataset.get_nbins(f) {
            let (g, c) = (hist[b].grad_sum, hist[b].example_count);
            let (rg, rc) = (n.grad_sum - g, n.example_count - c);
            let gain = loss(n.grad_sum, n.example_count, lambda) - loss(g, c, lambda) - loss(rg, rc, lambda);
            if c >= min && rc >= min && gain > best {
                best = gain;
                split = Split { split_id: b, split_crit: SplitCrit {
                    split_type: match l.data.feat_type(f) {
                        FeatType::LoCardCat => SplitType::LoCardCatEq, FeatType::HiCardCat => SplitType::HiCardCatLt, FeatType::Numerical => SplitType::NumLt },
                    feature_id: f, split_value: l.dataset.get_split_value(f, b) } };
            }
        }
    }
    split
}

// ---- leaves
pub fn node_leaf(l: &mut TreeLearner, n: &Node2Split) {
    let mask = l.ctx.mask_store.get_bitvec(n.mask_range);
    let mut ex: Vec<usize> = Vec::new();
    if n.compressed {
        let idx = l.ctx.idx_store.get_bitvec(n.idx_range);
        for i in mask.index_iter_compr(&idx) { ex.push(if l.dataset.example_sampling_enabled() { l.dataset.map_index(i) } else { i }); }
    } else {
        for i in mask.index_iter() { ex.push(if l.dataset.example_sampling_enabled() { l.dataset.map_index(i) } else { i }); }
    }
    let v = l.objective.predict_leaf_value(l.data.get_target(), &ex);
    l.tree.node_values[n.node_id] = v;
}
pub fn child_leaves(l: &mut TreeLearner, n: &Node2Split, s: &Split) {
    let fmask = l.dataset.get_bitvec(s.split_crit.feature_id, s.split_id);
    let mask = l.ctx.mask_store.get_bitvec(n.mask_range);
    let mut left: Vec<usize> = Vec::new();
    let mut right: Vec<usize> = Vec::new();
    if n.compressed {
        let idx = l.ctx.idx_store.get_bitvec(n.idx_range);
        for i in mask.index_iter_and_compr(&fmask, &idx) { left.push(if l.dataset.example_sampling_enabled() { l.dataset.map_index(i) } else { i }); }
        for i in mask.index_iter_andnot_compr(&fmask, &idx) { right.push(if l.dataset.example_sampling_enabled() { l.dataset.map_index(i) } else { i }); }
    } else {
        for i in mask.index_iter_and(&fmask) { left.push(if l.dataset.example_sampling_enabled() { l.dataset.map_index(i) } else { i }); }
        for i in mask.index_iter_andnot(&fmask) { right.push(if l.dataset.example_sampling_enabled() { l.dataset.map_index(i) } else { i }); }
    }
    let a = l.objective.predict_leaf_value(l.data.get_target(), &left);
    let b = l.objective.predict_leaf_value(l.data.get_target(), &right);
    l.tree.node_values[2 * n.node_id + 1] = a;
    l.tree.node_values[2 * n.node_id + 2] = b;
}
pub fn out_of_bag(l: &mut TreeLearner) {
    if l.dataset.example_sampling_enabled() {
        for i in l.dataset.inactive_examples_iter() {
            let v = l.tree.predict_single(l.dataset.data(), i);
            l.objective.update_out_of_bag_prediction(i, v);
        }
    }
}

// ---- partition
fn child(l: &mut TreeLearner, n: &Node2Split, s: &Split, id: usize, left: bool) -> Node2Split {
    let fmask = l.dataset.get_bitvec(s.split_crit.feature_id, s.split_id);
    let idx = l.ctx.idx_store.get_bitvec(n.idx_range);
    let nb = idx.blocks.len();
    let mut c = Node2Split { node_id: id, example_count: 0, grad_sum: 0.0, compressed: n.compressed, hists_range: l.ctx.hist_store.alloc_hists(),
        idx_range: n.idx_range, mask_range: (0, 0), grad_range: n.grad_range };
    c.mask_range = l.ctx.mask_store.alloc_zero_blocks(nb);
    let (pm, mut cm) = l.ctx.mask_store.get_two_bitvecs_mut(n.mask_range, c.mask_range);
    let pm: BitVec<&[crate::bitblock::BitBlock]> = BitVec { blocks: pm.blocks };
    let mut zeros = 0usize;
    for j in 0..nb * 8 {
        let f = fmask.words()[idx.words()[j] as usize];
        let m = pm.words()[j] & if left { f } else { !f };
        if m == 0 { zeros += 1; }
        cm.words_mut()[j] = m;
    }
    if zeros as f32 / (nb * 8) as f32 > l.ctx.config.compression_threshold && nb > 1 {
        l.compress_examples(n, &mut c, nb * 8 - zeros);
    }
    c
}
pub fn partition(l: &mut TreeLearner, n: &Node2Split, s: &Split) -> (Node2Split, Node2Split) {
    let h = l.ctx.hist_store.get_hist(n.hists_range, s.split_crit.feature_id)[s.split_id];
    let mut a = child(l, n, s, 2 * n.node_id + 1, true);
    a.grad_sum = h.grad_sum;
    a.example_count = h.example_count;
    l.build_histograms(&a);
    let mut b = child(l, n, s, 2 * n.node_id + 2, false);
    b.grad_sum = n.grad_sum - h.grad_sum;
    b.example_count = n.example_count - h.example_count;
    l.ctx.hist_store.hists_subtract(n.hists_range, a.hists_range, b.hists_range);
    (a, b)
}

// ---- statistics
pub fn root<L: BitSliceLayout>(l: &mut TreeLearner) -> Node2Split {
    let n = l.dataset.nactive_examples();
    let b = l.objective.bounds();
    let grad_range = l.ctx.grad_store.alloc_zero_bitslice::<L>(n);
    let mask_range = l.ctx.mask_store.alloc_one_bits(n);
    let nwords = l.ctx.mask_store.get_bitvec(mask_range).blocks.len() * 8;
    let idx_range = l.ctx.idx_store.alloc_from_iter::<u32, _>(nwords, 0..nwords as u32);
    let mut total = 0u64;
    let mut g = l.ctx.grad_store.get_bitslice_mut::<L>(grad_range);
    if l.dataset.example_sampling_enabled() {
        for (i, &j) in l.dataset.active_examples().iter().enumerate() { total += g.set_scaled_value(i, l.objective.gradients()[j], b) as u64; }
    } else {
        for i in 0..n { total += g.set_scaled_value(i, l.objective.gradients()[i], b) as u64; }
    }
    let node = Node2Split { node_id: 0, example_count: n as u32, grad_sum: L::linproj(total as f32, n as f32, b), compressed: false,
        hists_range: l.ctx.hist_store.alloc_hists(), idx_range, mask_range, grad_range };
    statistics::<L>(l, &node);
    node
}
pub fn statistics<L: BitSliceLayout>(l: &mut TreeLearner, n: &Node2Split) {
    let b = l.objective.bounds();
    for &f in l.dataset.active_features() {
        for bin in 0..l.dataset.get_nbins(f) {
            let fmask = l.dataset.get_bitvec(f, bin);
            let ems = l.ctx.mask_store.get_bitvec(n.mask_range);
            let g = l.ctx.grad_store.get_bitslice::<L>(n.grad_range);
            let (sum, count) = if n.compressed {
                let idx = l.ctx.idx_store.get_bitvec(n.idx_range);
                unsafe { (g.sum_all_masked2_compr_unsafe(&idx, &ems, &fmask), ems.count_ones_and_compr_unsafe(&idx, &fmask)) }
            } else {
                unsafe { (g.sum_all_masked2_unsafe(&ems, &fmask), ems.count_ones_and(&fmask)) }
            };
            let count = count as u32;
            l.ctx.hist_store.get_hist_mut(n.hists_range, f)[bin] = HistVal { grad_sum: L::linproj(sum as f32, count as f32, b), example_count: count };
        }
    }
}
pub fn root_any(l: &mut TreeLearner) -> Node2Split {
    match l.ctx.config.discr_nbits { 1 => root::<BitSliceLayout1>(l), 2 => root::<BitSliceLayout2>(l), 4 => root::<BitSliceLayout4>(l), 8 => root::<BitSliceLayout8>(l), _ => panic!() }
}
pub fn statistics_any(l: &mut TreeLearner, n: &Node2Split) {
    match l.ctx.config.discr_nbits { 1 => statistics::<BitSliceLayout1>(l, n), 2 => statistics::<BitSliceLayout2>(l, n), 4 => statistics::<BitSliceLayout4>(l, n), 8 => statistics::<BitSliceLayout8>(l, n), _ => panic!() }
}

// ---- compression: keep the non-zero words of the child mask, with their positions and gradients
pub fn compress<L: BitSliceLayout>(l: &mut TreeLearner, p: &Node2Split, c: &mut Node2Split, nwords: usize) {
    c.compressed = true;
    c.idx_range = l.ctx.idx_store.alloc_zero_bits(nwords * 32);
    c.grad_range = l.ctx.grad_store.alloc_zero_bitslice::<L>(nwords * 32);
    let (pi, mut ci) = l.ctx.idx_store.get_two_bitvecs_mut(p.idx_range, c.idx_range);
    let pi: BitVec<&[crate::bitblock::BitBlock]> = BitVec { blocks: pi.blocks };
    let mut m = l.ctx.mask_store.get_bitvec_mut(c.mask_range);
    let (pg, mut cg) = l.ctx.grad_store.get_two_bitslices_mut::<L>(p.grad_range, c.grad_range);
    let n = pi.blocks.len() * 8;
    let mut k = 0;
    for j in 0..n {
        let w = m.words_mut()[j];
        if w != 0 {
            m.words_mut()[k] = w;
            ci.words_mut()[k] = pi.words()[j];
            cg.copy_block_from::<u32, _>(&pg, j, k);
            k += 1;
        }
    }
    for j in nwords..n { m.words_mut()[j] = 0; }
    c.mask_range = (c.mask_range.0, c.mask_range.0 + (c.idx_range.1 - c.idx_range.0));
}
pub fn compress_any(l: &mut TreeLearner, p: &Node2Split, c: &mut Node2Split, k: usize) {
    match l.ctx.config.discr_nbits { 1 => compress::<BitSliceLayout1>(l, p, c, k), 2 => compress::<BitSliceLayout2>(l, p, c, k), 4 => compress::<BitSliceLayout4>(l, p, c, k), 8 => compress::<BitSliceLayout8>(l, p, c, k), _ => panic!() }
}
