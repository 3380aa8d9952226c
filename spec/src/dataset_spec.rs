//! what creating, refreshing and enumerating a sampled data set means
use crate::config::Config; use crate::data::*; use crate::dataset::*; use crate::slice_store::*; use crate::rand::*;

/// move a random selection of k items to the front, in increasing order
pub fn draw(rng: &mut SmallRng, k: usize, items: &mut [usize]) {
    for i in 0..k {
        let j: usize = rng.gen_range(i, items.len());
        let x = items[i]; items[i] = items[j]; items[j] = x;
    }
    items[0..k].sort_unstable();
}

/// a feature with a single value is never used; every bin that can be used has a bit per active example
pub fn ds_new<'a>(config: &Config, data: &'a Data) -> Dataset<'a> {
    let n = data.nexamples(); let nf = data.nfeatures();
    let active = if config.example_fraction < 1.0 { let k = (n as f32 * config.example_fraction).round() as usize; if n < k { n } else { k } } else { n };
    let mut store = BitBlockStore::new(2048);
    let mut useful: Vec<usize> = Vec::new(); let mut other = false;
    let mut bitvecs: Vec<Vec<SliceRange>> = vec![Vec::new(); nf];
    for f in 0..nf {
        let nb = data.max_nbins(f);
        if nb == 0 { continue; }
        let l = data.feat_limits(f);
        if l.0 == l.1 { continue; }
        if data.feat_type(f) != FeatType::LoCardCat { other = true; }
        useful.push(f);
        let mut v = Vec::new();
        for _ in 0..nb { v.push(store.alloc_zero_bits(active)); }
        bitvecs[f] = v;
    }
    let nactive_features = (useful.len() as f32 * config.feature_fraction).round() as usize;
    let mut inner = InnerDataset { rng: SmallRng::seed_from_u64(config.random_seed), data, useful_features: useful, nactive_features,
        nactive_examples: active, store, bitvecs, supercats: Vec::new(), split_candidates: vec![Vec::new(); nf], used_nbins: vec![0; nf],
        has_non_locard_cat_features: other };
    let mut index_buffer: Vec<usize> = Vec::new();
    if config.example_fraction < 1.0 {
        for i in 0..n { index_buffer.push(i); }
    } else {
        let all = RangeIntoIter(n);
        for u in 0..inner.useful_features.len() {
            let f = inner.useful_features[u];
            if data.feat_type(f) == FeatType::LoCardCat { inner.update_locard_cat(config, f, &all); }
        }
    }
    Dataset { inner, index_buffer, update_count: 0 }
}

pub fn ds_update(d: &mut Dataset, config: &Config, grad: &[f32], bounds: (f32, f32)) {
    d.update_count += 1;
    d.inner.supercats.resize(d.inner.data.nfeatures(), Vec::new());
    let due = d.update_count <= 1 || (config.sample_freq > 0 && d.update_count % config.sample_freq == 0);
    if !due { return; }
    if d.inner.useful_features.len() > d.inner.nactive_features { draw(&mut d.inner.rng, d.inner.nactive_features, &mut d.inner.useful_features); }
    if d.index_buffer.len() > 0 {
        draw(&mut d.inner.rng, d.inner.nactive_examples, &mut d.index_buffer);
        let bag = SliceIntoIter(&d.index_buffer[0..d.inner.nactive_examples]);
        for u in 0..d.inner.nactive_features {
            let f = d.inner.useful_features[u];
            match d.inner.data.feat_type(f) {
                FeatType::LoCardCat => d.inner.update_locard_cat(config, f, &bag),
                FeatType::HiCardCat => d.inner.update_hicard_cat(config, f, &bag, grad, bounds),
                FeatType::Numerical => d.inner.update_num(config, f, &bag, grad),
            }
        }
    } else if d.inner.has_non_locard_cat_features {
        let all = RangeIntoIter(d.inner.data.nexamples());
        for u in 0..d.inner.nactive_features {
            let f = d.inner.useful_features[u];
            match d.inner.data.feat_type(f) {
                FeatType::LoCardCat => {}
                FeatType::HiCardCat => d.inner.update_hicard_cat(config, f, &all, grad, bounds),
                FeatType::Numerical => d.inner.update_num(config, f, &all, grad),
            }
        }
    }
}
pub fn ds_active_features<'a>(d: &'a Dataset) -> &'a [usize] { &d.inner.useful_features[0..d.inner.nactive_features] }
pub fn ds_map_index(d: &Dataset, i: usize) -> usize { d.index_buffer[0..d.inner.nactive_examples][i] }
pub fn ds_outside<'a>(d: &'a Dataset) -> InactiveExampleIter<'a> {
    InactiveExampleIter { active_examples: &d.index_buffer[0..d.inner.nactive_examples], index: 0, n: d.inner.data.nexamples() }
}
/// the rest of a merge of the sorted bag with 0..n
pub fn ds_outside_next(it: &mut InactiveExampleIter) -> Option<usize> {
    while it.active_examples.len() > 0 && it.active_examples[0] == it.index {
        it.active_examples = &it.active_examples[1..];
        it.index += 1;
    }
    if it.index >= it.n { return None; }
    it.index += 1;
    Some(it.index - 1)
}
pub fn ds_each(d: &Dataset, out: &mut Vec<(usize, usize)>) {
    if d.index_buffer.len() > 0 { for i in 0..d.inner.nactive_examples { out.push((i, d.index_buffer[0..d.inner.nactive_examples][i])); } }
    else { for i in 0..d.inner.nactive_examples { out.push((i, i)); } }
}
