#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::sync::Arc;
verus! {
//@include source_base.vrs
//@include source.vrs
//@include source_impls.vrs
}
fn main() {}
