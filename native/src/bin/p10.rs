#![allow(warnings)]
#[path = "../suites/ints.rs"]
mod suite;
fn main() { native::run(&[("P10", &suite::p10)]) }
