#![allow(clippy::all)]
pub mod alloc;
pub mod common;
pub mod fam;
pub mod model;
pub mod refs;
pub mod shm;
pub mod sup;
pub mod tree;
pub mod values;
pub mod wide;

#[global_allocator]
static ALLOC: alloc::CheckedAlloc = alloc::CheckedAlloc;
