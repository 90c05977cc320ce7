//%include vint.vrs
//%include siter.vrs
//%include vec.vrs
//%include mat.vrs
//%include dyn.vrs
//%include gauss.vrs
fn main() {}
} // verus!
