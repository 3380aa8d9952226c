use crate::config::Config; use crate::data::Data; use crate::metric::Metric; use crate::objective::Objective; use crate::tree::tree::AdditiveTree;
pub struct Booster<'a> { config: &'a Config }
impl<'a> Booster<'a> {
    pub fn new(config: &'a Config, data: &'a Data, objective: &'a mut dyn Objective, metrics: &'a [Box<dyn Metric>]) -> Booster<'a> { unimplemented!() }
    pub fn train(self) -> AdditiveTree { unimplemented!() }
}
