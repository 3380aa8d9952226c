// ---- shared
pub fn obj_apply_leaf(preds: &mut Vec<f32>, examples: &[usize], lr: f32, value: f32) -> f32 {
    let v = lr * value;
    for k in 0..examples.len() { preds[examples[k]] += v; }
    v
}
pub fn obj_oob(preds: &mut Vec<f32>, i: usize, value: f32) { preds[i] += value; }
pub fn obj_fresh(n: usize, x: f32) -> Vec<f32> { vec![x; n] }

// ---- histogram quantile: upper edge of the bin holding the example of rank floor(q*count)
fn hist_quantile(bins: &mut Vec<u32>, lo: f32, hi: f32, q: f32, count: usize, value: impl Fn(usize) -> f32) -> f32 {
    let nb = bins.len();
    let delta = (hi - lo) / nb as f32;
    for b in 0..nb { bins[b] = 0; }
    for k in 0..count {
        let b = ((value(k) - lo) / delta).floor() as isize;
        let b = (b.max(0) as usize).min(nb - 1);
        bins[b] += 1;
    }
    let rank = ((count as f32) * q).floor() as u32;
    let mut acc = 0u32;
    let mut i = 0usize;
    while acc <= rank && i < nb { acc += bins[i]; i += 1; }
    // i - 1 is the bin, i its upper edge
    lo + i.min(nb - 1) as f32 * delta
}
fn extremes(n: usize, value: impl Fn(usize) -> f32) -> (f32, f32) {
    let (mut lo, mut hi) = (f32::INFINITY, f32::NEG_INFINITY);
    for i in 0..n { let v = value(i); lo = lo.min(v); hi = hi.max(v); }
    (lo, hi)
}
fn mean(n: usize, value: impl Fn(usize) -> f32) -> f32 {
    let mut s = 0.0f32;
    for i in 0..n { s += value(i); }
    s / n as f32
}

// ---- L2
pub fn l2_bias(t: &[f32]) -> f32 { mean(t.len(), |i| t[i]) }
pub fn l2_grad(t: &[f32], p: &[f32], g: &mut Vec<f32>) -> (f32, f32) {
    for i in 0..t.len() { g[i] = p[i] - t[i]; }
    let (lo, hi) = extremes(t.len(), |i| t[i] - p[i]);
    let b = lo.abs().min(hi.abs());
    (-b, b)
}
pub fn l2_leaf(t: &[f32], p: &[f32], ex: &[usize]) -> f32 { mean(ex.len(), |k| t[ex[k]] - p[ex[k]]) }

// ---- L1
pub fn l1_bias(t: &[f32], bins: &mut Vec<u32>) -> f32 {
    let (lo, hi) = extremes(t.len(), |i| t[i]);
    hist_quantile(bins, lo, hi, 0.5, t.len(), |i| t[i])
}
pub fn l1_grad(t: &[f32], p: &[f32], g: &mut Vec<f32>) -> (f32, f32) {
    for i in 0..t.len() { g[i] = -(t[i] - p[i]).signum(); }
    extremes(t.len(), |i| t[i] - p[i])
}
pub fn l1_leaf(t: &[f32], p: &[f32], ex: &[usize], bins: &mut Vec<u32>, lo: f32, hi: f32) -> f32 {
    hist_quantile(bins, lo, hi, 0.5, ex.len(), |k| t[ex[k]] - p[ex[k]])
}

// ---- Huber
pub fn huber_limits(t: &[f32], p: &[f32]) -> (f32, f32) { extremes(t.len(), |i| t[i] - p[i]) }
pub fn huber_delta(t: &[f32], p: &[f32], bins: &mut Vec<u32>, alpha: f32) -> f32 {
    let (lo, hi) = extremes(t.len(), |i| t[i] - p[i]);
    hist_quantile(bins, lo, hi, alpha, t.len(), |i| t[i] - p[i]).abs()
}
pub fn huber_grad_step(t: f32, p: f32, delta: f32) -> f32 {
    let e = t - p;
    if e.abs() <= delta { -e } else { -(delta * e.signum()) }
}
pub fn huber_leaf(t: &[f32], p: &[f32], ex: &[usize], bins: &mut Vec<u32>, lo: f32, hi: f32, delta: f32) -> f32 {
    let m = hist_quantile(bins, lo, hi, 0.5, ex.len(), |k| t[ex[k]] - p[ex[k]]);
    let mut s = 0.0f32;
    for k in 0..ex.len() {
        let d = t[ex[k]] - p[ex[k]] - m;
        s += d.signum() * delta.min(d.abs());
    }
    m + s / ex.len() as f32
}

// ---- binary log loss, labels 0/1 read as -1/+1
fn negatives(t: &[f32]) -> usize {
    let mut n = 0;
    for i in 0..t.len() { if t[i] < 0.5 { n += 1; } }
    n
}
pub fn binary_bias(t: &[f32]) -> f32 {
    let n = t.len() as f32;
    let neg = negatives(t) as f32;
    let avg = ((n - neg) - neg) / n;
    0.5 * ((1.0 + avg) / (1.0 - avg)).ln()
}
pub fn binary_grad(t: &[f32], p: &[f32], g: &mut Vec<f32>) {
    for i in 0..t.len() {
        let y = 2.0 * t[i] - 1.0;
        g[i] = -2.0 * y / (1.0 + (2.0 * y * p[i]).exp());
    }
}
pub fn binary_leaf(g: &[f32], ex: &[usize], eps: f32) -> f32 {
    let mut num = 0.0f32;
    let mut den = eps;
    for k in 0..ex.len() {
        let y = -g[ex[k]];
        num += y;
        den += y.abs() * (2.0 - y.abs());
    }
    num / den
}

// ---- hinge
pub fn hinge_bias(t: &[f32]) -> f32 {
    let neg = negatives(t) as f32;
    ((t.len() as f32 - neg) - neg) / t.len() as f32
}
pub fn hinge_grad(t: &[f32], p: &[f32], g: &mut Vec<f32>) {
    for i in 0..t.len() {
        g[i] = if t[i] < 0.5 { if p[i] > -1.0 { 1.0 } else { 0.0 } } else if p[i] < 1.0 { -1.0 } else { 0.0 };
    }
}
pub fn hinge_leaf(t: &[f32], p: &[f32], ex: &[usize]) -> f32 {
    let mut v = 0.0f32;
    for k in 0..ex.len() {
        let i = ex[k];
        if t[i] < 0.5 { let x = (2.0 + p[i]).max(0.0); v -= x * x; } else { let x = (2.0 - p[i]).max(0.0); v += x * x; }
    }
    v / ex.len() as f32
}
