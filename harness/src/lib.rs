#![allow(clippy::all)]
pub mod sym;
pub mod build;
pub mod slices;
pub mod wide;
pub use build::{Big, Cl};
pub mod q;
pub mod seq;
pub mod io;
pub mod cmp;
pub mod walk;
pub mod ia;
pub mod sp;
pub mod spv;
pub mod hist;
pub mod liar;
pub mod unwind;
pub mod own;
pub mod contract;
pub mod bulk;
include!("props.rs");
