//! Runtime monitors for palmtree: workloads, instrumented elements, models, runner.
#![allow(clippy::type_complexity, clippy::too_many_arguments)]
pub mod alloc;
pub mod cfg;
pub mod elem;
pub mod gens;
pub mod hist;
pub mod interp;
pub mod meter;
pub mod rng;
pub mod runner;
