#![allow(warnings)]
#[path = "../suites/compounds.rs"]
mod suite;
fn main() { native::run(&[("P24", &suite::p24)]) }
