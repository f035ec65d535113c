//! Bounded exhaustive checking of redstone-ml against reference models.  See /verif/DESIGN.md.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod arr;
pub mod dt;
pub mod engine;
pub mod graph;
pub mod model;
pub mod ops;
pub mod space;
pub use arr::*;
pub use dt::*;
pub use graph::*;
pub use engine::{attempt, hash, imp, outcome, state, step, steps, Ctx, Plan, Tier};
pub use model::*;
pub use ops::*;
pub use space::*;

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;
