//%include prelude.vrs
//%include bits_slice.vrs
//%include bits_utils.vrs
//%include bits_cmp.vrs
//%include bits_add.vrs
//%include bits_sub.vrs
//%include bits_logic.vrs
//%include bits_mul.vrs
//%include bits_shift.vrs
//%include bits_div.vrs
//%include bits_conv.vrs
//%include b_ops.vrs
//%include b_conv.vrs
//%include fmt.vrs
//%include b_fmt.vrs
fn main() {}
} // verus!
