#![allow(warnings)]
#[path = "../suites/prims.rs"]
mod suite;
fn main() { native::run(&[("P19", &suite::p19)]) }
