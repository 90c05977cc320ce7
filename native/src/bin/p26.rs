#![allow(warnings)]
#[path = "../suites/iters.rs"]
mod suite;
fn main() { native::run(&[("P26", &suite::p26)]) }
