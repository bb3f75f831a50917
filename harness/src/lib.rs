pub mod dict;
pub mod engine;
pub mod gen;
pub mod memory;
pub mod props;
pub mod refm;

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;
