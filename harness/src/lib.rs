#[macro_use]
pub mod world;
pub mod alloc;
pub mod constant;
pub mod cursors;
pub mod faults;
pub mod forgot;
pub mod hist;
pub mod idx;
pub mod ledger;
pub mod many;
pub mod model;
pub mod nested;
pub mod px;
pub mod queries;
pub mod report;
pub mod rng;
pub mod shapes;
pub mod slices;
pub use hist::{hist, hist_wide, hist_with, Batch};
pub use report::{Outcome, Runner};
pub use world::{Cfg, Watch, World};

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;
