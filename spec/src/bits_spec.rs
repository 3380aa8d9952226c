//! the set bits of a vector, combined with a mask word by word, in increasing order of position; the
//! compressed forms take the position of each word from a list of word numbers
use crate::bitblock::BitBlock;
use crate::slice_store::BitVec;
type V<'a> = BitVec<&'a [BitBlock]>;
fn w64<'a>(v: &V<'a>) -> &'a [u64] { unsafe { std::slice::from_raw_parts(v.blocks.as_ptr() as *const u64, v.blocks.len() * 4) } }
fn w32<'a>(v: &V<'a>) -> &'a [u32] { unsafe { std::slice::from_raw_parts(v.blocks.as_ptr() as *const u32, v.blocks.len() * 8) } }

macro_rules! iter { ($name:ident, $t:ty, $bits:expr, $words:ident, ($($arg:ident),*), |$i:ident| $j:expr, |$k:ident| $m:expr, $pre:expr) => {
    pub fn $name(v: &V, $($arg: &V),*) -> Vec<usize> {
        let words = $words(v);
        $(let $arg = $words($arg);)*
        let len = words.len();
        if !$pre(len, $($arg.len()),*) { panic!() }
        if len == 0 { panic!() }
        struct S { i: usize, j: usize, left: $t }
        let mut s = S { i: 0, j: 0, left: 0 };
        let mut next = || loop {
            if s.left != 0 {
                let b = s.left.trailing_zeros() as usize;
                s.left = s.left ^ (1 << b);
                return Some(b + $bits * s.j);
            } else if s.i < len {
                let $i = s.i;
                s.j = $j;
                let $k = s.j;
                s.left = words[s.i] & $m;
                s.i += 1;
            } else { return None; }
        };
        let mut o = Vec::new();
        while let Some(x) = next() { o.push(x) }
        o
    }
} }
iter!(it_all, u64, 64, w64, (), |i| i, |j| !0u64, |n| true);
iter!(it_c, u32, 32, w32, (x), |i| x[i] as usize, |j| !0u32, |n, a: usize| n == a);
iter!(it_and, u64, 64, w64, (m), |i| i, |j| m[j], |n, a: usize| n == a);
iter!(it_and_c, u32, 32, w32, (m, x), |i| x[i] as usize, |j| m[j], |n, a: usize, b: usize| n == b && n <= a);
iter!(it_not, u64, 64, w64, (m), |i| i, |j| !m[j], |n, a: usize| n == a);
iter!(it_not_c, u32, 32, w32, (m, x), |i| x[i] as usize, |j| !m[j], |n, a: usize, b: usize| n == b && n <= a);

// the position of the word is either carried along or looked up when needed
macro_rules! each { ($name:ident, $t:ty, $bits:expr, $words:ident, ($($arg:ident),*), |$i:ident| $j:expr, |$w:ident, $k:ident| $m:expr, $pre:expr) => {
    pub mod $name { use super::*;
    pub fn carried(v: &V, $($arg: &V),*) -> Vec<usize> {
        let words = $words(v);
        $(let $arg = $words($arg);)*
        let len = words.len();
        if len == 0 { panic!() }
        if !$pre(len, $($arg.len()),*) { panic!() }
        let mut o = Vec::new();
        let mut i = 0;
        let at = |$i: usize| $j;
        let word = |n: usize, $k: usize| { let $w = words[n]; $m };
        let mut j = at(0);
        let mut left = word(0, j);
        loop {
            if left != 0 {
                let b = left.trailing_zeros() as usize;
                left ^= 1 << b;
                o.push(b + $bits * j);
            } else {
                i += 1;
                if i < len { j = at(i); left = word(i, j); } else { break; }
            }
        }
        o
    }
    pub fn found(v: &V, $($arg: &V),*) -> Vec<usize> {
        let words = $words(v);
        $(let $arg = $words($arg);)*
        let len = words.len();
        if len == 0 { panic!() }
        if !$pre(len, $($arg.len()),*) { panic!() }
        let mut o = Vec::new();
        let mut i = 0;
        let at = |$i: usize| $j;
        let word = |n: usize| { let $w = words[n]; let $k = at(n); $m };
        let mut left = word(0);
        loop {
            if left != 0 {
                let b = left.trailing_zeros() as usize;
                left ^= 1 << b;
                o.push(b + $bits * at(i));
            } else {
                i += 1;
                if i < len { left = word(i); } else { break; }
            }
        }
        o
    }
    pub fn nested(v: &V, $($arg: &V),*) -> Vec<usize> {
        let words = $words(v);
        $(let $arg = $words($arg);)*
        let len = words.len();
        if len == 0 { panic!() }
        if !$pre(len, $($arg.len()),*) { panic!() }
        let mut o = Vec::new();
        let at = |$i: usize| $j;
        let word = |n: usize| { let $w = words[n]; let $k = at(n); $m };
        for i in 0..len {
            let mut left = word(i);
            while left != 0 { let b = left.trailing_zeros() as usize; left ^= 1 << b; o.push(b + $bits * at(i)); }
        }
        o
    } }
} }
each!(each_all, u64, 64, w64, (), |i| i, |w, j| w, |n| true);
each!(each_c, u32, 32, w32, (x), |i| x[i] as usize, |w, j| w, |n, a: usize| n == a);
each!(each_and, u64, 64, w64, (m), |i| i, |w, j| w & m[j], |n, a: usize| n == a);
each!(each_and_c, u32, 32, w32, (m, x), |i| x[i] as usize, |w, j| w & m[j], |n, a: usize, b: usize| n == b && n <= a);
