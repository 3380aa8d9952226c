//! Names every public operation of the packed storage at the types the library uses it at, so that each has a
//! monomorphic body to analyse. Nothing here is ever run.
#![allow(unused)]
use bitboost::{bitblock::*, bitset::*, bitslice::*, slice_store::*, count_and_sum, simd};
type V<'a> = BitVec<&'a [BitBlock]>;
type W<'a> = BitVec<&'a mut [BitBlock]>;

macro_rules! ints { ($($m:ident $t:ty),*) => { $(pub mod $m { use super::*; use std::collections::HashMap;
    pub fn block_cast(b: &BitBlock) -> &[$t] { b.cast::<$t>() }
    pub fn block_cast_mut(b: &mut BitBlock) -> &mut [$t] { b.cast_mut::<$t>() }
    pub fn block_from_slice(b: &[$t]) -> BitBlock { BitBlock::from_slice::<$t>(b) }
    pub fn block_from(v: $t) -> BitBlock { BitBlock::from(v) }
    pub fn blocks_len(b: &BitBlocks) -> usize { b.block_len::<$t>() }
    pub fn blocks_cast(b: &BitBlocks) -> &[$t] { b.cast::<$t>() }
    pub fn blocks_cast_mut(b: &mut BitBlocks) -> &mut [$t] { b.cast_mut::<$t>() }
    pub fn blocks_get(b: &BitBlocks, i: usize) -> $t { *b.get::<$t>(i) }
    pub fn bcast_at(b: &BitBlock, i: usize) -> $t { b.cast::<$t>()[i] }
    pub fn bcast_put(b: &mut BitBlock, i: usize, v: $t) { b.cast_mut::<$t>()[i] = v }
    pub fn bcast_len(b: &BitBlock) -> usize { b.cast::<$t>().len() }
    pub fn cast_at(b: &BitBlocks, i: usize) -> $t { b.cast::<$t>()[i] }
    pub fn cast_put(b: &mut BitBlocks, i: usize, v: $t) { b.cast_mut::<$t>()[i] = v }
    pub fn cast_len(b: &BitBlocks) -> usize { b.cast::<$t>().len() }
    pub fn vcast_at(b: &V, i: usize) -> $t { b.cast::<$t>()[i] }
    pub fn vcast_put(b: &mut W, i: usize, v: $t) { b.cast_mut::<$t>()[i] = v }
    pub fn vcast_len(b: &V) -> usize { b.cast::<$t>().len() }
    pub fn blocks_set(b: &mut BitBlocks, i: usize, v: $t) { b.set::<$t>(i, v) }
    pub unsafe fn blocks_getu(b: &BitBlocks, i: usize) -> $t { *b.get_unchecked::<$t>(i) }
    pub unsafe fn blocks_setu(b: &mut BitBlocks, i: usize, v: $t) { b.set_unchecked::<$t>(i, v) }
    pub fn vec_len(b: &V) -> usize { b.block_len::<$t>() }
    pub fn vec_cast<'a>(b: &'a V) -> &'a [$t] { b.cast::<$t>() }
    pub fn vec_cast_mut<'a>(b: &'a mut W) -> &'a mut [$t] { b.cast_mut::<$t>() }
    pub fn vec_get(b: &V, i: usize) -> $t { *b.get::<$t>(i) }
    pub fn vec_set(b: &mut W, i: usize, v: $t) { b.set::<$t>(i, v) }
    pub unsafe fn vec_getu(b: &V, i: usize) -> $t { *b.get_unchecked::<$t>(i) }
    pub unsafe fn vec_setu(b: &mut W, i: usize, v: $t) { b.set_unchecked::<$t>(i, v) }
    pub fn store_from(s: &mut BitBlockStore, n: usize, v: &[$t]) -> SliceRange { s.alloc_from_iter(n, v.iter().cloned()) }
    pub fn blocks_from(n: usize, v: &[$t]) -> BitBlocks { BitBlocks::from_iter(n, v.iter().cloned()) }
})* } }
ints!(i_u8 u8, i_u16 u16, i_u32 u32, i_u64 u64, i_i32 i32);
macro_rules! bits { ($($m:ident $t:ty),*) => { $(pub mod $m { use super::*;
    pub fn bit_get(v: $t, i: u8) -> bool { get_bit::<$t>(v, i) }
    pub fn bit_enable(v: $t, i: u8) -> $t { enable_bit::<$t>(v, i) }
    pub fn bit_disable(v: $t, i: u8) -> $t { disable_bit::<$t>(v, i) }
    pub fn bit_set(v: $t, i: u8, b: bool) -> $t { set_bit::<$t>(v, i, b) }
})* } }
bits!(b_u8 u8, b_u16 u16, b_u32 u32, b_u64 u64);

pub fn block_from_bools(b: &[bool]) -> (bool, BitBlock) { let mut it = b.iter().cloned(); BitBlock::from_bool_iter(&mut it) }
pub fn blocks_from_bools(n: usize, b: &[bool]) -> BitBlocks { BitBlocks::from_bool_iter(n, b.iter().cloned()) }
pub fn store_from_bools(s: &mut BitBlockStore, n: usize, b: &[bool]) -> SliceRange { s.alloc_from_bits_iter(n, b.iter().cloned()) }

pub fn bb_get(b: &BitBlock, i: usize) -> bool { b.get_bit(i) }
pub fn bb_enable(b: &mut BitBlock, i: usize) { b.enable_bit(i) }
pub fn bb_disable(b: &mut BitBlock, i: usize) { b.disable_bit(i) }
pub fn bb_set(b: &mut BitBlock, i: usize, v: bool) { b.set_bit(i, v) }
pub fn bb_zeros() -> BitBlock { BitBlock::zeros() }
pub fn bb_ones() -> BitBlock { BitBlock::ones() }
pub fn bb_4(a: u64, b: u64, c: u64, d: u64) -> BitBlock { BitBlock::from_4u64(a, b, c, d) }
pub fn bb_count(b: &BitBlock) -> u32 { b.count_ones() }
pub fn bb_is_zero(b: &BitBlock) -> bool { b.is_zero() }
pub fn bbs_zero_blocks(n: usize) -> BitBlocks { BitBlocks::zero_blocks(n) }
pub fn bbs_one_blocks(n: usize) -> BitBlocks { BitBlocks::one_blocks(n) }
pub fn bbs_zero_bits(n: usize) -> BitBlocks { BitBlocks::zero_bits(n) }
pub fn bbs_one_bits(n: usize) -> BitBlocks { BitBlocks::one_bits(n) }
pub fn bbs_required(n: usize) -> usize { BitBlock::blocks_required_for(n) }
pub fn set_zeros(n: usize) -> Bitset { Bitset::zeros(n) }
pub fn set_ones(n: usize) -> Bitset { Bitset::ones(n) }
pub fn set_get(b: &Bitset, i: usize) -> bool { b.get_bit(i) }
pub fn set_enable(b: &mut Bitset, i: usize) { b.enable_bit(i) }
pub fn set_disable(b: &mut Bitset, i: usize) { b.disable_bit(i) }
pub fn set_set(b: &mut Bitset, i: usize, v: bool) { b.set_bit(i, v) }
pub fn vec_get_bit(v: &V, i: usize) -> bool { v.get_bit(i) }
pub fn vec_enable_bit(v: &mut W, i: usize) { v.enable_bit(i) }
pub fn vec_set_bit(v: &mut W, i: usize, b: bool) { v.set_bit(i, b) }
pub fn vec_count_and(v: &V, w: &V) -> u64 { v.count_ones_and(w) }
pub fn vec_count_and_c(v: &V, x: &V, w: &V) -> u64 { v.count_ones_and_compr(x, w) }
pub fn vec_deref<'a>(v: &'a V) -> &'a [BitBlock] { &*v }
pub fn vec_deref_mut<'a>(v: &'a mut W) -> &'a mut [BitBlock] { &mut *v }
pub fn it_all(v: &V) -> Vec<usize> { let mut o = Vec::new(); for i in v.index_iter() { o.push(i) } o }
pub fn it_c(v: &V, x: &V) -> Vec<usize> { let mut o = Vec::new(); for i in v.index_iter_compr(x) { o.push(i) } o }
pub fn it_and(v: &V, m: &V) -> Vec<usize> { let mut o = Vec::new(); for i in v.index_iter_and(m) { o.push(i) } o }
pub fn it_and_c(v: &V, m: &V, x: &V) -> Vec<usize> { let mut o = Vec::new(); for i in v.index_iter_and_compr(m, x) { o.push(i) } o }
pub fn it_not(v: &V, m: &V) -> Vec<usize> { let mut o = Vec::new(); for i in v.index_iter_andnot(m) { o.push(i) } o }
pub fn it_not_c(v: &V, m: &V, x: &V) -> Vec<usize> { let mut o = Vec::new(); for i in v.index_iter_andnot_compr(m, x) { o.push(i) } o }
pub fn each_all(v: &V) -> Vec<usize> { let mut o = Vec::new(); v.for_each_index(|i| { o.push(i); false }); o }
pub fn each_c(v: &V, x: &V) -> Vec<usize> { let mut o = Vec::new(); v.for_each_index_compr(x, |i| { o.push(i); false }); o }
pub fn each_and(v: &V, m: &V) -> Vec<usize> { let mut o = Vec::new(); v.for_each_index_and(m, |i| { o.push(i); false }); o }
pub fn each_and_c(v: &V, m: &V, x: &V) -> Vec<usize> { let mut o = Vec::new(); v.for_each_index_and_compr(m, x, |i| { o.push(i); false }); o }

macro_rules! layouts { ($($m:ident $n:ident $l:ty, $k:ty);*) => { $(
pub mod $m { use super::*;
    type R<'a> = BitSlice<&'a [BitBlock], $l>;
    type M<'a> = BitSlice<&'a mut [BitBlock], $l>;
    pub fn width() -> usize { <$l>::width() }
    pub fn superblock_width() -> usize { <$l>::superblock_width() }
    pub fn nunique() -> usize { <$l>::nunique_values() }
    pub fn linproj(v: f32, c: f32, b: (f32, f32)) -> f32 { <$l>::linproj(v, c, b) }
    pub fn get(s: &R, i: usize) -> u8 { s.get_value(i) }
    pub fn set(s: &mut M, i: usize, v: u8) { s.set_value(i, v) }
    pub fn get_scaled(s: &R, i: usize, b: (f32, f32)) -> f32 { s.get_scaled_value(i, b) }
    pub fn set_scaled(s: &mut M, i: usize, v: f32, b: (f32, f32)) -> u8 { s.set_scaled_value(i, v, b) }
    pub fn copy(s: &mut M, o: &R, from: usize, to: usize) { s.copy_block_from::<u32, _>(o, from, to) }
    pub fn sum(s: &R, i: usize, m: u32) -> u32 { s.sum_masked(i, m) }
    pub unsafe fn sumu(s: &R, i: usize, m: u32) -> u32 { s.sum_masked_unsafe(i, m) }
    pub fn sum_scaled(s: &R, i: usize, m: u32, b: (f32, f32)) -> (f32, u32) { s.sum_scaled_masked(i, m, b) }
    pub fn sum_all(s: &R, nm: &BitVecRef, fm: &BitVecRef) -> u64 { s.sum_all_masked2(nm, fm) }
    pub fn sum_all_c(s: &R, x: &BitVecRef, nm: &BitVecRef, fm: &BitVecRef) -> u64 { s.sum_all_masked2_compr(x, nm, fm) }
    pub fn store_alloc(s: &mut BitBlockStore, n: usize) -> SliceRange { s.alloc_zero_bitslice::<$l>(n) }
    pub fn store_get<'a>(s: &'a BitBlockStore, r: SliceRange) -> BitSliceRef<'a, $l> { s.get_bitslice::<$l>(r) }
    pub fn store_get_mut<'a>(s: &'a mut BitBlockStore, r: SliceRange) -> BitSliceMut<'a, $l> { s.get_bitslice_mut::<$l>(r) }
    pub fn store_two<'a>(s: &'a mut BitBlockStore, r: SliceRange, q: SliceRange) -> (BitSliceMut<'a, $l>, BitSliceMut<'a, $l>) { s.get_two_bitslices_mut::<$l>(r, q) }
}
pub mod $n { use super::*;
    type R<'a> = BitsliceWithLayout<&'a BitBlocks, $k>;
    type M<'a> = BitsliceWithLayout<&'a mut BitBlocks, $k>;
    pub fn width() -> usize { <$k>::width() }
    pub fn superblock_width() -> usize { <$k>::superblock_width() }
    pub fn nunique() -> usize { <$k>::nunique_values() }
    pub fn linproj(v: f32, c: f32, b: (f32, f32)) -> f32 { <$k>::linproj(v, c, b) }
    pub fn resize(s: &mut M, n: usize) { s.resize(n) }
    pub fn nblocks(s: &R) -> usize { s.nblocks() }
    pub fn get(s: &R, i: usize) -> u8 { s.get_value(i) }
    pub fn set(s: &mut M, i: usize, v: u8) { s.set_value(i, v) }
    pub fn get_scaled(s: &R, i: usize, b: (f32, f32)) -> f32 { s.get_scaled_value(i, b) }
    pub fn set_scaled(s: &mut M, i: usize, v: f32, b: (f32, f32)) -> u8 { s.set_scaled_value(i, v, b) }
    pub fn get_block(s: &R, i: usize, l: usize) -> u32 { s.get_block(i, l) }
    pub fn set_block(s: &mut M, i: usize, l: usize, v: u32) { *s.get_block_mut(i, l) = v }
    pub unsafe fn get_blocku(s: &R, i: usize, l: usize) -> u32 { s.get_block_unchecked(i, l) }
    pub unsafe fn set_blocku(s: &mut M, i: usize, l: usize, v: u32) { *s.get_block_unchecked_mut(i, l) = v }
    pub fn with<'a>(s: &'a Bitslice) -> R<'a> { s.with_layout::<$k>() }
    pub fn with_mut<'a>(s: &'a mut Bitslice) -> M<'a> { s.with_layout_mut::<$k>() }
})* } }
layouts!(l1 m1 BitSliceLayout1, BitsliceLayout1; l2 m2 BitSliceLayout2, BitsliceLayout2; l4 m4 BitSliceLayout4, BitsliceLayout4; l8 m8 BitSliceLayout8, BitsliceLayout8);

pub mod store { use super::*;
    type S = SliceStore<u32>;
    pub fn new(n: usize) -> S { S::new(n) }
    pub fn aligned(n: usize, a: usize) -> S { S::aligned(n, a) }
    pub fn get(s: &S, r: SliceRange) -> &[u32] { s.get_slice(r) }
    pub fn get_mut(s: &mut S, r: SliceRange) -> &mut [u32] { s.get_slice_mut(r) }
    pub fn two(s: &mut S, r: SliceRange, q: SliceRange) -> (&mut [u32], &mut [u32]) { s.get_two_slices_mut(r, q) }
    pub fn alloc(s: &mut S, n: u32, v: u32) -> SliceRange { s.alloc_slice(n, v) }
    pub fn alloc_default(s: &mut S, n: u32) -> SliceRange { s.alloc_slice_default(n) }
    pub fn free(s: &mut S, r: SliceRange) { s.free_slice(r) }
    pub fn reset(s: &mut S) { s.reset() }
    pub fn drop_(s: S) {}
}
pub mod hist { use super::*;
    type H = HistStore<f32>;
    pub fn new(b: &[u32]) -> H { H::new(b.iter().cloned()) }
    pub fn get(s: &H, r: SliceRange, f: usize) -> &[f32] { s.get_hist(r, f) }
    pub fn get_mut(s: &mut H, r: SliceRange, f: usize) -> &mut [f32] { s.get_hist_mut(r, f) }
    pub fn sub(s: &mut H, p: SliceRange, l: SliceRange, r: SliceRange) { s.hists_subtract(p, l, r) }
    pub fn alloc(s: &mut H) -> SliceRange { s.alloc_hists() }
    pub fn free(s: &mut H, r: SliceRange) { s.free_hists(r) }
    pub fn reset(s: &mut H) { s.reset() }
}
pub mod bits { use super::*;
    type B = BitBlockStore;
    pub fn new(n: usize) -> B { B::new(n) }
    pub fn zero_blocks(s: &mut B, n: usize) -> SliceRange { s.alloc_zero_blocks(n) }
    pub fn zero_bits(s: &mut B, n: usize) -> SliceRange { s.alloc_zero_bits(n) }
    pub fn one_blocks(s: &mut B, n: usize) -> SliceRange { s.alloc_one_blocks(n) }
    pub fn one_bits(s: &mut B, n: usize) -> SliceRange { s.alloc_one_bits(n) }
    pub fn free(s: &mut B, r: SliceRange) { s.free_blocks(r) }
    pub fn reset(s: &mut B) { s.reset() }
    pub fn get(s: &B, r: SliceRange) -> BitVec<&[BitBlock]> { s.get_bitvec(r) }
    pub fn get_mut(s: &mut B, r: SliceRange) -> BitVec<&mut [BitBlock]> { s.get_bitvec_mut(r) }
    pub fn two(s: &mut B, r: SliceRange, q: SliceRange) -> (BitVecMut<'_>, BitVecMut<'_>) { s.get_two_bitvecs_mut(r, q) }
}
pub mod cs {
    use bitboost::bitblock::BitBlocks;
    use bitboost::count_and_sum as k;
    pub fn and2(a: &BitBlocks, b: &BitBlocks) -> u64 { k::count_and2_c00(a, b) }
    pub fn and2_c(x: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::count_and2_c10(x, a, b) }
    pub fn and3_w1(s: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w1_c00(s, a, b) }
    pub fn and3_w2(s: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w2_c00(s, a, b) }
    pub fn and3_w4(s: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w4_c00(s, a, b) }
    pub fn and3_w8(s: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w8_c00(s, a, b) }
    pub fn and3_w1_c(s: &BitBlocks, x: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w1_c10(s, x, a, b) }
    pub fn and3_w2_c(s: &BitBlocks, x: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w2_c10(s, x, a, b) }
    pub fn and3_w4_c(s: &BitBlocks, x: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w4_c10(s, x, a, b) }
    pub fn and3_w8_c(s: &BitBlocks, x: &BitBlocks, a: &BitBlocks, b: &BitBlocks) -> u64 { k::sum_and3_w8_c10(s, x, a, b) }
}
