//! Bounded exhaustive exploration engine and reference models.
//! Nothing in this library depends on rtps-rs.
pub mod alloc;
pub mod engine;
pub mod model;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;
