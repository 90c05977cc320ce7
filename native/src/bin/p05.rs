#![allow(warnings)]
#[path = "../suites/bits.rs"]
mod suite;
fn main() { native::run(&[("P05", &suite::p05)]) }
