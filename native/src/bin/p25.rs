#![allow(warnings)]
#[path = "../suites/compounds.rs"]
mod suite;
fn main() { native::run(&[("P25", &suite::p25)]) }
