#![allow(warnings)]
#[path = "../suites/ints.rs"]
mod suite;
fn main() { native::run(&[("P09", &suite::p09)]) }
