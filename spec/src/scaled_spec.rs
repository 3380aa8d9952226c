//! C24: values in gradient units
pub fn sc_linproj(maxval: f32, value: f32, count: f32, b: (f32, f32)) -> f32 { value / maxval * (b.1 - b.0) + count * b.0 }
pub fn sc_level(maxval: f32, value: f32, b: (f32, f32)) -> u8 {
    let inside = f32::min(b.1, f32::max(b.0, value));
    ((inside - b.0) / (b.1 - b.0) * maxval).round() as u8
}
