use crate::config::Config; use crate::data::Data; use crate::dataset::Dataset; use crate::metric::Metric; use crate::objective::Objective;
use crate::tree::learner::*; use crate::tree::tree::*;

/// gradient boosting: initial value + one tree per iteration fitted on the gradients at the current predictions
pub fn boost<'a>(config: &'a Config, data: &'a Data, objective: &'a mut dyn Objective, metrics: &'a [Box<dyn Metric>]) -> AdditiveTree {
    let mut trees = Vec::new();
    let mut dataset = Dataset::new(config, data);
    let mut ctx = TreeLearnerContext::new(config, data);
    objective.initialize(config, data.get_target());
    let bias = objective.bias();
    for it in 0..config.niterations {
        objective.update(data.get_target());
        dataset.update(config, objective.gradients(), objective.bounds());
        let supercats = dataset.get_supercats().clone();
        trees.push(TreeLearner::new(&mut ctx, &dataset, supercats, objective).train());
        if config.metric_frequency > 0 && (it + 1) % config.metric_frequency == 0 {
            for m in metrics { observe(m.eval(data.get_target(), objective.predictions())); }
        }
    }
    AdditiveTree { bias, trees }
}
fn observe(x: f32) {}
