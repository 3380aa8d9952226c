//! Reference definitions the analysed code is compared against.  Never executed: only their value
//! graphs are used.  Modules named like the crate's own modules mirror (by field name) the types the
//! references talk about; methods with an `unimplemented!()` body are only names for the crate's own.
#![allow(dead_code, unused_variables, clippy::all)]
pub mod data;
pub mod bitblock;
pub mod boost;
pub mod c_api;
pub mod config;
pub mod csv;
pub mod dataset;
pub mod metric;
pub mod objective;
pub mod rand;
pub mod simd;
pub mod slice_store;
pub mod tree;
mod binner_spec;
pub mod bits_spec;
mod binned_spec;
mod boost_spec;
mod config_spec;
pub mod data_spec;
mod dataset_spec;
mod learner_spec;
mod metric_spec;
mod objective_spec;
mod run_spec;
pub mod scaled_spec;
mod store_spec;
mod tree_spec;
