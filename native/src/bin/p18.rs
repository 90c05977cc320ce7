#![allow(warnings)]
#[path = "../suites/prims.rs"]
mod suite;
fn main() { native::run(&[("P18", &suite::p18)]) }
