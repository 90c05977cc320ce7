//! Bounded differential checks and counterexample search against the real crates.
#![allow(clippy::all)]
pub mod nat;
pub mod ctx;
pub use ctx::*;
pub use nat::*;
