#![allow(warnings)]
#[path = "../suites/reals.rs"]
mod suite;
fn main() { native::run(&[("P21", &suite::p21)]) }
