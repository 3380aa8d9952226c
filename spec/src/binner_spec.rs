//! what inserting into, querying and reading back an evenly divided range means
pub fn bin_of(lo: f32, hi: f32, n: usize, v: f32) -> usize {
    let width = (hi - lo) / n as f32;
    let p = ((v - lo) / width).floor() as isize;
    if p < 0 { 0 } else { let p = p as usize; if p < n { p } else { n - 1 } }
}
pub fn bin_get(bins: &[u32], limits: (f32, f32), v: f32) -> usize { bin_of(limits.0, limits.1, bins.len(), v) }
pub fn bin_add_u32(bins: &mut [u32], limits: (f32, f32), v: f32, d: u32) { let i = bin_of(limits.0, limits.1, bins.len(), v); bins[i] += d; }
pub fn bin_add_f32(bins: &mut [f32], limits: (f32, f32), v: f32, d: f32) { let i = bin_of(limits.0, limits.1, bins.len(), v); bins[i] += d; }
pub fn bin_left(n: usize, limits: (f32, f32), bin: usize) -> f32 {
    let k = if bin < n - 1 { bin } else { n - 1 };
    limits.0 + k as f32 * ((limits.1 - limits.0) / n as f32)
}
pub fn bin_at(bins: &[u32], i: usize) -> u32 { bins[i] }
pub fn bin_rank(bins: &[u32], rank: u32) -> usize {
    let mut seen = 0u32; let mut i = 0;
    while seen <= rank && i < bins.len() { seen += bins[i]; i += 1; }
    i - 1
}
/// continue a query at bin `i`, with weight `seen` in the bins before it
pub fn bin_next_u32(bins: &[u32], mut seen: u32, mut i: usize, rank: u32) -> (usize, u32) {
    while seen <= rank && i < bins.len() { seen += bins[i]; i += 1; }
    (i - 1, seen)
}
pub fn bin_next_f32(bins: &[f32], mut seen: f32, mut i: usize, rank: f32) -> (usize, f32) {
    while seen <= rank && i < bins.len() { seen += bins[i]; i += 1; }
    (i - 1, seen)
}
pub fn rank_list(x: &[u32]) -> std::iter::Cloned<std::slice::Iter<'_, u32>> { x.iter().cloned() }
/// two queries in a row
pub fn bin_queries(bins: &[u32], r: &[u32]) -> (Option<usize>, Option<usize>) {
    if r.len() == 0 { return (None, None); }
    let a = bin_next_u32(bins, 0, 0, r[0]);
    if r.len() == 1 { return (Some(a.0), None); }
    let b = bin_next_u32(bins, a.1, a.0 + 1, r[1]);
    (Some(a.0), Some(b.0))
}
