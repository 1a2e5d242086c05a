pub mod alloc;
#[macro_use]
pub mod case;
pub mod cli;
pub mod conc;
pub mod derived;
pub mod dynserde;
pub mod gen;
pub mod hook;
pub mod iox;
pub mod model;
pub mod props;
pub mod refserde;
pub mod runner;
pub mod sizes;
pub mod tape;
pub mod under;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
