//! The slice store: a bump allocator over one buffer with a list of freed ranges.
use crate::slice_store::*;
use crate::bitblock::BitBlock;
use std::alloc::{self, Layout};
use std::collections::HashMap;
use std::mem::{align_of, size_of};
type S<T> = SliceStore<T>;

pub fn made<T: Clone>(capacity: usize, byte_align: usize) -> S<T> {
    assert!(capacity > 0);
    let layout = Layout::from_size_align(capacity * size_of::<T>(), byte_align).unwrap();
    let ptr = unsafe { alloc::alloc(layout) } as *mut T;
    SliceStore { ptr, _marker: std::marker::PhantomData, capacity, byte_align, len: 0, free: Vec::new(), slice_ends: HashMap::new() }
}
pub fn natural<T: Clone>(capacity: usize) -> S<T> {
    let mut a = align_of::<T>();
    while a < size_of::<T>() { a *= 2; }
    made(capacity, a)
}
fn all<T: Clone>(s: &S<T>) -> &[T] { unsafe { std::slice::from_raw_parts(s.ptr, s.len) } }
fn all_mut<T: Clone>(s: &mut S<T>) -> &mut [T] { unsafe { std::slice::from_raw_parts_mut(s.ptr, s.len) } }
pub fn view<T: Clone>(s: &S<T>, r: SliceRange) -> &[T] { &all(s)[r.0 as usize..r.1 as usize] }
pub fn view_mut<T: Clone>(s: &mut S<T>, r: SliceRange) -> &mut [T] { &mut all_mut(s)[r.0 as usize..r.1 as usize] }
pub fn views<T: Clone>(s: &mut S<T>, r: SliceRange, q: SliceRange) -> (&mut [T], &mut [T]) {
    if r.0 < q.0 {
        let (a, b) = all_mut(s).split_at_mut(q.0 as usize);
        (&mut a[r.0 as usize..r.1 as usize], &mut b[..(q.1 - q.0) as usize])
    } else {
        let (a, b) = all_mut(s).split_at_mut(r.0 as usize);
        (&mut b[..(r.1 - r.0) as usize], &mut a[q.0 as usize..q.1 as usize])
    }
}
/// a freed range that is long enough is reused, refilled from its start; otherwise the range is put behind everything
/// that was handed out before, at the next aligned place
pub fn alloc_slice<T: Clone>(s: &mut S<T>, n: u32, v: T) -> SliceRange {
    assert!(n > 0);
    let mut i = 0;
    while i < s.free.len() && s.free[i].1 - s.free[i].0 < n { i += 1; }
    if i < s.free.len() {
        let r = s.free.swap_remove(i);
        for x in view_mut(s, r).iter_mut() { *x = v.clone(); }
        return (r.0, r.0 + n);
    }
    let a = s.byte_align / align_of::<T>();
    let mut start = s.len;
    if start % a != 0 { start = start - start % a + a; }
    let end = start + n as usize;
    assert!(end < u32::max_value() as usize);
    if end > s.capacity {
        let mut cap = s.capacity * 2;
        while cap < end { cap *= 2; }
        let old = Layout::from_size_align(s.capacity * size_of::<T>(), s.byte_align).unwrap();
        s.ptr = unsafe { alloc::realloc(s.ptr as *mut u8, old, cap * size_of::<T>()) } as *mut T;
        s.capacity = cap;
    }
    for i in s.len..end { unsafe { std::ptr::write(s.ptr.add(i), v.clone()) }; }
    s.len = end;
    s.slice_ends.insert(start as u32, end as u32);
    (start as u32, end as u32)
}
/// the same, refilling only what is handed out
pub fn alloc_slice_short<T: Clone>(s: &mut S<T>, n: u32, v: T) -> SliceRange {
    assert!(n > 0);
    let mut i = 0;
    while i < s.free.len() && s.free[i].1 - s.free[i].0 < n { i += 1; }
    if i < s.free.len() {
        let r = s.free.swap_remove(i);
        for x in view_mut(s, (r.0, r.0 + n)).iter_mut() { *x = v.clone(); }
        return (r.0, r.0 + n);
    }
    alloc_slice(s, n, v)
}
pub fn free_slice<T: Clone>(s: &mut S<T>, r: SliceRange) { let end = s.slice_ends[&r.0]; s.free.push((r.0, end)); }
pub fn reset<T: Clone>(s: &mut S<T>) { s.len = 0; s.free = Vec::new(); s.slice_ends = HashMap::new(); }
pub fn dropped<T: Clone>(s: &mut S<T>) {
    let layout = Layout::from_size_align(s.capacity * size_of::<T>(), s.byte_align).unwrap();
    unsafe { alloc::dealloc(s.ptr as *mut u8, layout) }
}
type U = SliceStore<u32>;
pub fn u_made(n: usize, a: usize) -> U { made(n, a) }
pub fn u_natural(n: usize) -> U { natural(n) }
pub fn u_view(s: &U, r: SliceRange) -> &[u32] { view(s, r) }
pub fn u_view_mut(s: &mut U, r: SliceRange) -> &mut [u32] { view_mut(s, r) }
pub fn u_views(s: &mut U, r: SliceRange, q: SliceRange) -> (&mut [u32], &mut [u32]) { views(s, r, q) }
pub fn u_alloc(s: &mut U, n: u32, v: u32) -> SliceRange { alloc_slice(s, n, v) }
pub fn u_alloc_short(s: &mut U, n: u32, v: u32) -> SliceRange { alloc_slice_short(s, n, v) }
pub fn u_alloc_default(s: &mut U, n: u32) -> SliceRange { alloc_slice(s, n, 0) }
pub fn u_alloc_default_short(s: &mut U, n: u32) -> SliceRange { alloc_slice_short(s, n, 0) }
pub fn u_free(s: &mut U, r: SliceRange) { free_slice(s, r) }
pub fn u_reset(s: &mut U) { reset(s) }
pub fn u_drop(s: &mut U) { dropped(s) }

type H = HistStore<f32>;
pub fn h_new(bins: &[u32]) -> H {
    let mut ends = vec![0]; let mut total = 0;
    for b in bins { total += *b; ends.push(total); }
    HistStore { slice_store: natural(8192), hist_layout: ends }
}
fn part(s: &H, r: SliceRange, f: usize) -> (usize, usize) { (s.hist_layout[f] as usize, s.hist_layout[f + 1] as usize) }
pub fn h_get(s: &H, r: SliceRange, f: usize) -> &[f32] { let (lo, hi) = part(s, r, f); &view(&s.slice_store, r)[lo..hi] }
pub fn h_get_mut(s: &mut H, r: SliceRange, f: usize) -> &mut [f32] { let (lo, hi) = part(s, r, f); &mut view_mut(&mut s.slice_store, r)[lo..hi] }
pub fn h_sub(s: &mut H, p: SliceRange, l: SliceRange, r: SliceRange) {
    let b = all_mut(&mut s.slice_store);
    for i in 0..p.1 - p.0 { b[(r.0 + i) as usize] = b[(p.0 + i) as usize] - b[(l.0 + i) as usize]; }
}
pub fn h_alloc(s: &mut H) -> SliceRange { let n = *s.hist_layout.last().unwrap(); alloc_slice(&mut s.slice_store, n, 0.0) }
pub fn h_alloc_short(s: &mut H) -> SliceRange { let n = *s.hist_layout.last().unwrap(); alloc_slice_short(&mut s.slice_store, n, 0.0) }
pub fn h_free(s: &mut H, r: SliceRange) { free_slice(&mut s.slice_store, r) }
pub fn h_reset(s: &mut H) { reset(&mut s.slice_store) }

type B = BitBlockStore;
pub fn bits(n: usize) -> usize { n / 256 + (if n % 256 == 0 { 0 } else { 1 }) }
pub fn b_new(n: usize) -> B { BitBlockStore { slice_store: SliceStore::aligned(n, 64) } }
pub fn b_zero_blocks(s: &mut B, n: usize) -> SliceRange { assert!(n < u32::max_value() as usize); s.slice_store.alloc_slice(n as u32, BitBlock { bytes: [0; 32] }) }
pub fn b_one_blocks(s: &mut B, n: usize) -> SliceRange { s.slice_store.alloc_slice(n as u32, BitBlock { bytes: [255; 32] }) }
pub fn b_zero_bits(s: &mut B, n: usize) -> SliceRange { b_zero_blocks(s, bits(n)) }
pub fn b_zero_slice1(s: &mut B, n: usize) -> SliceRange { b_zero_blocks(s, bits(n)) }
pub fn b_zero_slice2(s: &mut B, n: usize) -> SliceRange { b_zero_blocks(s, bits(n) * 2) }
pub fn b_zero_slice4(s: &mut B, n: usize) -> SliceRange { b_zero_blocks(s, bits(n) * 4) }
pub fn b_zero_slice8(s: &mut B, n: usize) -> SliceRange { b_zero_blocks(s, bits(n) * 8) }
pub fn b_free(s: &mut B, r: SliceRange) { s.slice_store.free_slice(r) }
pub fn b_reset(s: &mut B) { s.slice_store.reset() }
pub fn b_view(s: &B, r: SliceRange) -> BitVec<&[BitBlock]> { BitVec { blocks: s.slice_store.get_slice(r) } }
pub fn b_view_mut(s: &mut B, r: SliceRange) -> BitVec<&mut [BitBlock]> { BitVec { blocks: s.slice_store.get_slice_mut(r) } }
pub fn b_views(s: &mut B, r: SliceRange, q: SliceRange) -> (BitVecMut, BitVecMut) {
    let (a, b) = s.slice_store.get_two_slices_mut(r, q);
    (BitVec { blocks: a }, BitVec { blocks: b })
}
