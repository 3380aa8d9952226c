use crate::config::Config; use crate::data::Data; use crate::dataset::Dataset; use crate::objective::Objective;
use crate::tree::tree::*; use crate::slice_store::*;
#[derive(Default, Clone, Copy)]
pub struct HistVal { pub grad_sum: f32, pub example_count: u32 }
pub struct Node2Split {
    pub node_id: usize, pub example_count: u32, pub grad_sum: f32, pub compressed: bool,
    pub hists_range: SliceRange, pub idx_range: SliceRange, pub mask_range: SliceRange, pub grad_range: SliceRange,
}
pub struct Split { pub split_crit: SplitCrit, pub split_id: usize }
pub struct TreeLearnerContext<'a> {
    pub config: &'a Config, pub hist_store: HistStore<HistVal>, pub idx_store: BitBlockStore, pub mask_store: BitBlockStore,
    pub grad_store: BitBlockStore, pub n2s_stack: Vec<Node2Split>, pub example_buffer: Vec<usize>,
}
impl<'a> TreeLearnerContext<'a> { pub fn new(config: &'a Config, data: &'a Data) -> Self { unimplemented!() } }
pub struct TreeLearner<'a, 'b, 'c> { pub ctx: &'b mut TreeLearnerContext<'a>, pub data: &'b Data, pub dataset: &'b Dataset<'c>, pub objective: &'b mut dyn Objective, pub tree: Tree }
impl<'a, 'b, 'c> TreeLearner<'a, 'b, 'c> {
    pub fn new(ctx: &'b mut TreeLearnerContext<'a>, dataset: &'b Dataset<'c>, supercats: Vec<Vec<u32>>, objective: &'b mut dyn Objective) -> Self { unimplemented!() }
    pub fn train(self) -> Tree { unimplemented!() }
    pub fn get_root_n2s(&mut self) -> Node2Split { unimplemented!() }
    pub fn find_best_split(&mut self, n2s: &Node2Split) -> Split { unimplemented!() }
    pub fn get_left_right_n2s(&mut self, n2s: &Node2Split, split: &Split) -> (Node2Split, Node2Split) { unimplemented!() }
    pub fn predict_leaf_value(&mut self, n2s: &Node2Split) { unimplemented!() }
    pub fn predict_child_leaf_values(&mut self, n2s: &Node2Split, split: &Split) { unimplemented!() }
    pub fn predict_out_of_bag_examples(&mut self) { unimplemented!() }
    pub fn build_histograms(&mut self, n2s: &Node2Split) { unimplemented!() }
    pub fn compress_examples(&mut self, parent: &Node2Split, child: &mut Node2Split, n: usize) { unimplemented!() }
}
