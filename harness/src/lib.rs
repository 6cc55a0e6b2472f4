//! Monitors for the langtag crate. See /verif/DESIGN.md.

pub mod abnf;
pub mod alloc;
pub mod gen_;
pub mod model;
pub mod mon;
pub mod rng;
pub mod run;
pub mod types;
pub mod walk;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;
