#![allow(warnings)]
#[path = "../suites/prims.rs"]
mod suite;
fn main() { native::run(&[("P17", &suite::p17)]) }
