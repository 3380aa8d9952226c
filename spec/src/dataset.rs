use crate::config::Config; use crate::slice_store::*; use crate::rand::SmallRng; use std::ops::Range; use std::iter::Cloned; use crate::data::Data; use std::marker::PhantomData;
pub struct InnerDataset<'a> { pub rng: SmallRng, pub data: &'a Data, pub useful_features: Vec<usize>, pub nactive_features: usize,
    pub nactive_examples: usize, pub store: BitBlockStore, pub bitvecs: Vec<Vec<SliceRange>>, pub supercats: Vec<Vec<u32>>,
    pub split_candidates: Vec<Vec<f32>>, pub used_nbins: Vec<usize>, pub has_non_locard_cat_features: bool }
impl<'a> InnerDataset<'a> {
    pub fn update_locard_cat<I>(&mut self, config: &Config, feat_id: usize, it: I) where I: IntoIterator<Item = usize> + Copy { unimplemented!() }
    pub fn update_hicard_cat<I>(&mut self, config: &Config, feat_id: usize, it: I, grad: &[f32], bounds: (f32, f32)) where I: IntoIterator<Item = usize> + Copy { unimplemented!() }
    pub fn update_num<I>(&mut self, config: &Config, feat_id: usize, it: I, grad: &[f32]) where I: IntoIterator<Item = usize> + Copy { unimplemented!() }
}
pub struct RangeIntoIter(pub usize);
pub struct SliceIntoIter<'a>(pub &'a [usize]);
impl<'a> IntoIterator for &'a RangeIntoIter { type Item = usize; type IntoIter = Range<usize>; fn into_iter(self) -> Range<usize> { 0..self.0 } }
impl<'a> IntoIterator for &'a SliceIntoIter<'a> { type Item = usize; type IntoIter = Cloned<std::slice::Iter<'a, usize>>; fn into_iter(self) -> Self::IntoIter { self.0.iter().cloned() } }
pub struct InactiveExampleIter<'b> { pub active_examples: &'b [usize], pub index: usize, pub n: usize }
pub struct Dataset<'a> { pub inner: InnerDataset<'a>, pub index_buffer: Vec<usize>, pub update_count: usize }
impl<'a> Dataset<'a> {
    pub fn new(config: &Config, data: &'a Data) -> Self { unimplemented!() }
    pub fn update(&mut self, config: &Config, grad: &[f32], grad_bounds: (f32, f32)) { unimplemented!() }
    pub fn active_features(&self) -> &[usize] { unimplemented!() }
    pub fn get_nbins(&self, feat_id: usize) -> usize { unimplemented!() }
    pub fn get_bitvec(&self, feat_id: usize, split_id: usize) -> crate::slice_store::BitVecRef { unimplemented!() }
    pub fn get_split_value(&self, feat_id: usize, split_id: usize) -> f32 { unimplemented!() }
    pub fn example_sampling_enabled(&self) -> bool { unimplemented!() }
    pub fn nactive_examples(&self) -> usize { unimplemented!() }
    pub fn active_examples(&self) -> &[usize] { unimplemented!() }
    pub fn map_index(&self, i: usize) -> usize { unimplemented!() }
    pub fn inactive_examples_iter(&self) -> crate::slice_store::Indices { unimplemented!() }
    pub fn data(&self) -> &Data { unimplemented!() }
    pub fn get_supercats(&mut self) -> &Vec<Vec<u32>> { unimplemented!() }
}
