//%include prelude.vrs
//%include bits_slice.vrs
//%include bits_utils.vrs
//%include bits_iter.vrs
//%include bits_conv.vrs
fn main() {}
} // verus!
