#![allow(clippy::all)]
#[macro_use]
pub mod svm;
#[macro_use]
pub mod pt;
pub mod cases;
pub mod st;
pub mod spec;
pub mod mon;
pub mod world;
pub mod act;
pub mod adversary;
pub mod maximums;
pub mod probe;
pub mod checks;
pub mod stress;
pub mod feeds;
pub mod oracles;
pub mod pricegen;
