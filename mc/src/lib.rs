//! Explicit-state model checker for the `mpegts` crate: the exploration engine
//! and independent reference models of the formats.
pub mod engine;
pub mod spec;

pub use engine::{run, Ctx, Report, R};
