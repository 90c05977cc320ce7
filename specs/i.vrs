//%include prelude.vrs
//%include bits_slice.vrs
//%include bits_utils.vrs
//%include bits_cmp.vrs
//%include bits_add.vrs
//%include bits_sub.vrs
//%include bits_logic.vrs
//%include bits_mul.vrs
//%include bits_shift.vrs
//%include bits_div.vrs
//%include sit.vrs
//%include i_ops.vrs
fn main() {}
} // verus!
