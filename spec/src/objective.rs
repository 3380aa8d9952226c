use crate::config::Config;
pub trait Objective: Send + Sync {
    fn gradients(&self) -> &[f32];
    fn predictions(&self) -> &[f32];
    fn bounds(&self) -> (f32, f32);
    fn bias(&self) -> f32;
    fn initialize(&mut self, config: &Config, targets: &[f32]);
    fn update(&mut self, targets: &[f32]);
    fn predict_leaf_value(&mut self, targets: &[f32], examples: &[usize]) -> f32;
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32);
}
pub fn objective_from_name(name: &str) -> Option<Box<dyn Objective>> { unimplemented!() }
