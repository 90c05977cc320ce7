#![allow(warnings)]
#[path = "../suites/compounds.rs"]
mod suite;
fn main() { native::run(&[("P22", &suite::p22)]) }
