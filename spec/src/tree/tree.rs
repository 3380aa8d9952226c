#[derive(PartialEq, Eq, Clone)]
pub enum SplitType { NoSplit, LoCardCatEq, HiCardCatLt, NumLt }
#[derive(Clone)]
pub struct SplitCrit { pub split_type: SplitType, pub feature_id: usize, pub split_value: f32 }
pub struct Tree { pub ninternal: usize, pub max_depth: usize, pub split_crits: Vec<SplitCrit>, pub node_values: Vec<f32>, pub shrinkage: f32, pub bias: f32, pub supercats: Vec<Vec<u32>> }
pub struct AdditiveTree { pub bias: f32, pub trees: Vec<Tree> }
impl Tree { pub fn set_bias(&mut self, bias: f32) { unimplemented!() } pub fn predict(&self, data: &crate::data::Data) -> Vec<f32> { unimplemented!() } pub fn predict_single(&self, data: &crate::data::Data, i: usize) -> f32 { unimplemented!() } }
impl AdditiveTree { pub fn predict(&self, data: &crate::data::Data) -> Vec<f32> { unimplemented!() } pub fn predict_buf(&self, data: &crate::data::Data, buf: &mut [f32]) { unimplemented!() } }
