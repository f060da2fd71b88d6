//! One part of the decoders that simgen has just generated from the tree under test.
pub use doodle_sim::engine::{Outcome, run_gen};
include!(concat!(env!("SIM_GEN_DIR"), "/shard3.rs"));
