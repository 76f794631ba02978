#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod baton;
pub mod e2e;
pub mod egram;
pub mod emodel;
pub mod exec;
pub mod gram;
pub mod model;
pub mod prog;
pub mod rng;
pub mod sup;
pub mod vfs;
