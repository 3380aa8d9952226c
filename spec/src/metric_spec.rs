pub fn mean_of(t: &[f32], p: &[f32], f: impl Fn(f32, f32) -> f32) -> f32 {
    let n = t.len().min(p.len());
    let mut s = 0.0f32;
    for i in 0..n { s += f(t[i], p[i]); }
    s / n as f32
}
pub fn metric_l2(t: &[f32], p: &[f32]) -> f32 { mean_of(t, p, |t, p| (t - p) * (t - p)) }
pub fn metric_rmse(t: &[f32], p: &[f32]) -> f32 { metric_l2(t, p).sqrt() }
pub fn metric_binary_loss(t: &[f32], p: &[f32]) -> f32 {
    mean_of(t, p, |t, p| (1.0 + (-2.0 * (2.0 * t - 1.0) * p).exp()).ln())
}
pub fn metric_binary_error(t: &[f32], p: &[f32]) -> f32 {
    mean_of(t, p, |t, p| if (t < 0.5) == (p < 0.0) { 0.0 } else { 1.0 })
}
pub fn metric_binary_error01(t: &[f32], p: &[f32]) -> f32 {
    mean_of(t, p, |t, p| if (t < 0.5) == (p < 0.5) { 0.0 } else { 1.0 })
}
