pub fn metric_from_name(name: &str) -> Option<Box<dyn Metric>> { unimplemented!() }
pub fn metrics_from_names(names: &[String]) -> Option<Vec<Box<dyn Metric>>> {
    let mut out = Vec::new();
    for i in 0..names.len() {
        match metric_from_name(&names[i]) { Some(m) => out.push(m), None => return None }
    }
    Some(out)
}
pub trait Metric { fn name(&self) -> &str; fn eval(&self, targets: &[f32], predictions: &[f32]) -> f32; }
