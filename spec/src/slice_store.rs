use crate::bitblock::BitBlock;
use std::marker::PhantomData;
use std::borrow::{Borrow, BorrowMut};
pub type SliceRange = (u32, u32);
pub struct BitVec<B> where B: Borrow<[BitBlock]> { pub blocks: B }
pub type BitVecRef<'a> = BitVec<&'a [BitBlock]>;
pub type BitVecMut<'a> = BitVec<&'a mut [BitBlock]>;
pub struct BitBlockStore { pub slice_store: SliceStore<BitBlock> }
pub struct SliceStore<T: Clone> { pub ptr: *mut T, pub _marker: PhantomData<T>, pub capacity: usize, pub byte_align: usize, pub len: usize,
    pub free: Vec<SliceRange>, pub slice_ends: std::collections::HashMap<u32, u32> }
pub struct HistStore<T> where T: Clone + Default { pub slice_store: SliceStore<T>, pub hist_layout: Vec<u32> }
pub struct BitSlice<B, L> where B: Borrow<[BitBlock]>, L: BitSliceLayout { pub vec: BitVec<B>, _marker: PhantomData<L> }
pub trait BitSliceLayout { fn width() -> usize { unimplemented!() } fn linproj(value: f32, count: f32, b: (f32, f32)) -> f32 { unimplemented!() } }
pub struct BitSliceLayout1; pub struct BitSliceLayout2; pub struct BitSliceLayout4; pub struct BitSliceLayout8;
impl BitSliceLayout for BitSliceLayout1 {} impl BitSliceLayout for BitSliceLayout2 {} impl BitSliceLayout for BitSliceLayout4 {} impl BitSliceLayout for BitSliceLayout8 {}
pub type BitSliceRef<'a, L> = BitSlice<&'a [BitBlock], L>;
pub type BitSliceMut<'a, L> = BitSlice<&'a mut [BitBlock], L>;
impl<B, L> BitSlice<B, L> where B: Borrow<[BitBlock]>, L: BitSliceLayout {
    pub fn set_scaled_value(&mut self, index: usize, value: f32, b: (f32, f32)) -> u8 where B: BorrowMut<[BitBlock]> { unimplemented!() }
    pub fn copy_block_from<I, BO>(&mut self, other: &BitSlice<BO, L>, from: usize, to: usize) where BO: Borrow<[BitBlock]>, B: BorrowMut<[BitBlock]> { unimplemented!() }
    pub unsafe fn sum_all_masked2_unsafe(&self, nm: &BitVecRef, fm: &BitVecRef) -> u64 { unimplemented!() }
    pub unsafe fn sum_all_masked2_compr_unsafe(&self, idxs: &BitVecRef, nm: &BitVecRef, fm: &BitVecRef) -> u64 { unimplemented!() }
}
impl<T> HistStore<T> where T: Clone + Default {
    pub fn get_hist(&self, hists_range: SliceRange, feat_id: usize) -> &[T] { unimplemented!() }
    pub fn get_hist_mut(&mut self, hists_range: SliceRange, feat_id: usize) -> &mut [T] { unimplemented!() }
    pub fn hists_subtract(&mut self, parent_range: SliceRange, left_range: SliceRange, right_range: SliceRange) { unimplemented!() }
    pub fn alloc_hists(&mut self) -> SliceRange { unimplemented!() }
    pub fn free_hists(&mut self, r: SliceRange) { unimplemented!() }
}
impl<T: Clone> SliceStore<T> {
    pub fn aligned(n: usize, a: usize) -> Self { unimplemented!() }
    pub fn alloc_slice(&mut self, len: u32, value: T) -> SliceRange { unimplemented!() }
    pub fn get_slice(&self, r: SliceRange) -> &[T] { unimplemented!() }
    pub fn get_slice_mut(&mut self, r: SliceRange) -> &mut [T] { unimplemented!() }
    pub fn get_two_slices_mut(&mut self, r: SliceRange, q: SliceRange) -> (&mut [T], &mut [T]) { unimplemented!() }
    pub fn free_slice(&mut self, r: SliceRange) { unimplemented!() }
    pub fn reset(&mut self) { unimplemented!() }
}
impl BitBlockStore {
    pub fn new(n: usize) -> BitBlockStore { unimplemented!() }
    pub fn alloc_zero_blocks(&mut self, n: usize) -> SliceRange { unimplemented!() }
    pub fn alloc_zero_bits(&mut self, n: usize) -> SliceRange { unimplemented!() }
    pub fn alloc_one_bits(&mut self, n: usize) -> SliceRange { unimplemented!() }
    pub fn alloc_from_iter<T, I>(&mut self, n: usize, i: I) -> SliceRange { unimplemented!() }
    pub fn alloc_zero_bitslice<I>(&mut self, n: usize) -> SliceRange where I: BitSliceLayout { unimplemented!() }
    pub fn free_blocks(&mut self, r: SliceRange) { unimplemented!() }
    pub fn get_bitvec(&self, r: SliceRange) -> BitVec<&[BitBlock]> { unimplemented!() }
    pub fn get_bitvec_mut(&mut self, r: SliceRange) -> BitVec<&mut [BitBlock]> { unimplemented!() }
    pub fn get_bitslice<'a, L>(&'a self, range: SliceRange) -> BitSliceRef<'a, L> where L: 'a + BitSliceLayout { unimplemented!() }
    pub fn get_bitslice_mut<'a, L>(&'a mut self, range: SliceRange) -> BitSliceMut<'a, L> where L: 'a + BitSliceLayout { unimplemented!() }
    pub fn get_two_bitslices_mut<'a, L>(&'a mut self, r1: SliceRange, r2: SliceRange) -> (BitSliceMut<'a, L>, BitSliceMut<'a, L>) where L: 'a + BitSliceLayout { unimplemented!() }
    pub fn get_two_bitvecs_mut(&mut self, a: SliceRange, b: SliceRange) -> (BitVecMut, BitVecMut) { unimplemented!() }
}

pub struct Indices;
impl Iterator for Indices { type Item = usize; fn next(&mut self) -> Option<usize> { unimplemented!() } }
impl<B> BitVec<B> where B: Borrow<[BitBlock]> {
    pub fn count_ones_and(&self, other: &BitVec<B>) -> u64 { unimplemented!() }
    pub unsafe fn count_ones_and_compr_unsafe(&self, indices: &BitVec<B>, other: &BitVec<B>) -> u64 { unimplemented!() }
    pub fn enable_bit(&mut self, i: usize) where B: BorrowMut<[BitBlock]> { unimplemented!() }
    pub fn index_iter<'a>(&'a self) -> Indices { unimplemented!() }
    pub fn index_iter_compr<'a>(&'a self, indices: &'a BitVec<B>) -> Indices { unimplemented!() }
    pub fn index_iter_and<'a>(&'a self, mask: &'a BitVec<B>) -> Indices { unimplemented!() }
    pub fn index_iter_andnot<'a>(&'a self, mask: &'a BitVec<B>) -> Indices { unimplemented!() }
    pub fn index_iter_and_compr<'a>(&'a self, mask: &'a BitVec<B>, indices: &'a BitVec<B>) -> Indices { unimplemented!() }
    pub fn index_iter_andnot_compr<'a>(&'a self, mask: &'a BitVec<B>, indices: &'a BitVec<B>) -> Indices { unimplemented!() }
}
impl<'a> BitVec<&'a [BitBlock]> {
    pub fn words(&self) -> &'a [u32] { unsafe { std::slice::from_raw_parts(self.blocks.as_ptr() as *const u32, self.blocks.len() * 8) } }
}
impl<'a> BitVec<&'a mut [BitBlock]> {
    pub fn words64_mut(&mut self) -> &mut [u64] { unsafe { std::slice::from_raw_parts_mut(self.blocks.as_mut_ptr() as *mut u64, self.blocks.len() * 4) } }
    pub fn words_mut(&mut self) -> &mut [u32] { unsafe { std::slice::from_raw_parts_mut(self.blocks.as_mut_ptr() as *mut u32, self.blocks.len() * 8) } }
}
