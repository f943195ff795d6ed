pub mod alloc;
pub mod cov;
pub mod engine;
pub mod gen;
pub mod lab;
pub mod labgen;
pub mod props;
pub mod refcbor;
pub mod shm;
pub mod tape;
pub mod view;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
