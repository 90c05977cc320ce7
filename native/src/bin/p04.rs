#![allow(warnings)]
#[path = "../suites/bits.rs"]
mod suite;
fn main() { native::run(&[("P04", &suite::p04)]) }
