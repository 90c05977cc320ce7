#![allow(warnings)]
#[path = "../suites/bits.rs"]
mod suite;
fn main() { native::run(&[("P03", &suite::p03)]) }
