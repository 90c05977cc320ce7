//%include vint.vrs
//%include siter.vrs
fn main() {}
} // verus!
