use vstd::prelude::*;
use vstd::slice::*;
use vstd::std_specs::ops::*;
verus! {
//@include simd_model.vrs
//@include simd.vrs
}
fn main() {}
