#![allow(warnings)]
#[path = "../suites/bits.rs"]
mod suite;
fn main() { native::run(&[("P01", &suite::p01)]) }
