pub mod alloc;
pub mod canon;
pub mod cursor;
pub mod disk;
pub mod engine;
pub mod equiv;
pub mod directed;
pub mod fmtgen;
pub mod guard;
pub mod lookahead;
pub mod model;
pub mod readers;
pub mod repro;
pub mod rng;
pub mod runner;
pub mod shipped;
pub mod sys;
pub mod types;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

pub const POOL_SEED: u64 = 1;
/// Vetted module indices of the format generator at `POOL_SEED`.
pub const POOL: &str = include_str!("../pool.txt");
/// modules whose generated code rustc does not accept: interpreters only
pub const POOL_INTERP: &str = include_str!("../pool_interp.txt");
