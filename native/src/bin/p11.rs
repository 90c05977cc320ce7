#![allow(warnings)]
#[path = "../suites/ints.rs"]
mod suite;
fn main() { native::run(&[("P11", &suite::p11)]) }
