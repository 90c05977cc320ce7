#![allow(warnings)]
#[path = "../suites/ints.rs"]
mod suite;
fn main() { native::run(&[("P08", &suite::p08)]) }
