pub mod tree;
pub mod learner;
