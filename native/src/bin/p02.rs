#![allow(warnings)]
#[path = "../suites/bits.rs"]
mod suite;
fn main() { native::run(&[("P02", &suite::p02)]) }
