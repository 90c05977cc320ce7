#![allow(warnings)]
#[path = "../suites/compounds.rs"]
mod suite;
fn main() { native::run(&[("P23", &suite::p23)]) }
