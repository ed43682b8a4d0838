#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::std_specs::ops::*;
use std::sync::Arc;
verus! {
//@include source_base.vrs
//@import source.vrs
//@include cursor_model.vrs
//@include linemap.vrs
}
fn main() {}
