#![allow(warnings)]
#[path = "../suites/ints.rs"]
mod suite;
fn main() { native::run(&[("P12", &suite::p12)]) }
