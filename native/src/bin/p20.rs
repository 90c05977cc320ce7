#![allow(warnings)]
#[path = "../suites/reals.rs"]
mod suite;
fn main() { native::run(&[("P20", &suite::p20)]) }
