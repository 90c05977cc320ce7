#![allow(warnings)]
#[path = "../suites/intern.rs"]
mod suite;
fn main() { native::run(&[("P16", &suite::p16)]) }
