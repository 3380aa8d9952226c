//! what the bits of a feature mean
use crate::config::Config; use crate::data::*; use crate::dataset::*; use crate::slice_store::*; use crate::binner_spec::*;

pub fn bins_clear(store: &mut BitBlockStore, rows: &[SliceRange]) {
    for i in 0..rows.len() {
        let mut v = store.get_bitvec_mut(rows[i]);
        let w = v.words64_mut();
        for k in 0..w.len() { w[k] = 0; }
    }
}
/// the bit of row `of(example)` is set at the position of the example; an example of the implicit last bin has no bit
fn bins_mark(store: &mut BitBlockStore, rows: &[SliceRange], n: usize, example: impl Fn(usize) -> usize, of: impl Fn(usize) -> usize) {
    for i in 0..n {
        let c = of(example(i));
        if c < rows.len() { store.get_bitvec_mut(rows[c]).enable_bit(i); }
    }
}
/// row b becomes the union of the rows up to b
fn bins_upto(store: &mut BitBlockStore, rows: &[SliceRange]) {
    for b in 1..rows.len() {
        let (prev, mut cur) = store.get_two_bitvecs_mut(rows[b - 1], rows[b]);
        unsafe { crate::simd::or_assign(&mut cur.blocks, &prev.blocks); }
    }
}
pub fn cat(x: f32) -> usize { (x as u32) as usize }

fn locard(d: &mut InnerDataset, f: usize, n: usize, ex: impl Fn(usize) -> usize) {
    let col = d.data.get_feature(f);
    d.used_nbins[f] = d.data.max_nbins(f);
    bins_clear(&mut d.store, &d.bitvecs[f]);
    bins_mark(&mut d.store, &d.bitvecs[f], n, ex, |j| cat(col[j]));
}
pub fn locard_all(d: &mut InnerDataset, f: usize, n: usize) { locard(d, f, n, |i| i) }
pub fn locard_bag(d: &mut InnerDataset, f: usize, bag: &[usize]) { locard(d, f, bag.len(), |i| bag[i]) }

/// number of boundaries below x
fn above(bounds: &[f32], x: f32) -> u32 {
    let mut k = 0; let mut n = 0;
    while k < bounds.len() && bounds[k] < x { k += 1; n += 1; }
    n
}
/// categories ordered by mean gradient and merged at quantiles of the number of examples
fn hicard(d: &mut InnerDataset, config: &Config, f: usize, n: usize, ex: impl Fn(usize) -> usize, grad: &[f32], limits: (f32, f32)) {
    let col = d.data.get_feature(f); let card = d.data.feat_card(f);
    let mut mean: Vec<(f32, u32)> = vec![(0.0, 0); card];
    for i in 0..n {
        let j = ex(i); let c = cat(col[j]);
        mean[c].0 += grad[j];
        mean[c].1 += 1;
    }
    let mut bins = vec![0u32; 512];
    for c in 0..card {
        if mean[c].1 > 0 {
            mean[c].0 = mean[c].0 / mean[c].1 as f32;
            bin_add_u32(&mut bins, limits, mean[c].0, mean[c].1);
        }
    }
    let step = d.nactive_examples as f32 / (config.max_nbins + 1) as f32;
    let mut bounds: Vec<f32> = Vec::new();
    let mut last = usize::max_value(); let mut seen = 0; let mut at = 0;
    for q in 1..=config.max_nbins {
        let rank = (q as f32 * step).round() as u32;
        let rank = if rank > 0 { rank - 1 } else { 0 };
        while seen <= rank && at < bins.len() { seen += bins[at]; at += 1; }
        let b = at - 1;
        if b != last { last = b; bounds.push(bin_left(512, limits, b + 1)); }
    }
    let nb = bounds.len();
    let mut sup: Vec<u32> = vec![0; card];
    for c in 0..card { sup[c] = above(&bounds, mean[c].0); }
    bins_clear(&mut d.store, &d.bitvecs[f][0..nb]);
    bins_mark(&mut d.store, &d.bitvecs[f][0..nb], n, ex, |j| sup[cat(col[j])] as usize);
    bins_upto(&mut d.store, &d.bitvecs[f][0..nb]);
    d.used_nbins[f] = nb;
    d.supercats[f] = sup;
}
pub fn hicard_all(d: &mut InnerDataset, c: &Config, f: usize, n: usize, g: &[f32], l: (f32, f32)) { hicard(d, c, f, n, |i| i, g, l) }
pub fn hicard_bag(d: &mut InnerDataset, c: &Config, f: usize, bag: &[usize], g: &[f32], l: (f32, f32)) { hicard(d, c, f, bag.len(), |i| bag[i], g, l) }

/// quantiles of the value weighted by gradient magnitude; values are assigned by the boundary of their fine bin
fn num(d: &mut InnerDataset, config: &Config, f: usize, n: usize, ex: impl Fn(usize) -> usize, grad: &[f32]) {
    let col = d.data.get_feature(f); let limits = d.data.feat_limits(f);
    let mut bins = vec![0.0f32; 512]; let mut total = 0.0;
    for i in 0..n {
        let j = ex(i); let w = grad[j].abs() + std::f32::EPSILON;
        total += w;
        bin_add_f32(&mut bins, limits, col[j], w);
    }
    let step = total / (config.max_nbins + 1) as f32;
    let mut bounds: Vec<f32> = Vec::new();
    let mut last = usize::max_value(); let mut seen = 0.0; let mut at = 0;
    for q in 1..=config.max_nbins {
        let rank = q as f32 * step;
        while seen <= rank && at < bins.len() { seen += bins[at]; at += 1; }
        let b = at - 1;
        if b != last { last = b; bounds.push(bin_left(512, limits, b + 1)); }
    }
    let nb = bounds.len();
    let mut of = vec![0u32; 512];
    for b in 0..512 { of[b] = above(&bounds, bin_left(512, limits, b + 1)); }
    bins_clear(&mut d.store, &d.bitvecs[f][0..nb]);
    bins_mark(&mut d.store, &d.bitvecs[f][0..nb], n, ex, |j| of[bin_of(limits.0, limits.1, 512, col[j])] as usize);
    bins_upto(&mut d.store, &d.bitvecs[f][0..nb]);
    d.used_nbins[f] = nb;
    d.split_candidates[f] = bounds;
}
pub fn num_all(d: &mut InnerDataset, c: &Config, f: usize, n: usize, g: &[f32]) { num(d, c, f, n, |i| i, g) }
pub fn num_bag(d: &mut InnerDataset, c: &Config, f: usize, bag: &[usize], g: &[f32]) { num(d, c, f, bag.len(), |i| bag[i], g) }

pub fn ds_nbins(d: &Dataset, f: usize) -> usize { d.inner.used_nbins[f] }
pub fn ds_row<'a>(d: &'a Dataset, f: usize, b: usize) -> BitVecRef<'a> { d.inner.store.get_bitvec(d.inner.bitvecs[f][b]) }
pub fn ds_test_value(d: &Dataset, f: usize, b: usize) -> f32 {
    match d.inner.data.feat_type(f) {
        FeatType::LoCardCat | FeatType::HiCardCat => b as f32,
        FeatType::Numerical => d.inner.split_candidates[f][b],
    }
}
