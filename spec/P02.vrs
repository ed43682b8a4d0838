#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::sync::Arc;
verus! {
//@include source_base.vrs
//@include source.vrs
//@src projects/oak-core/src/source/mod.rs
//@item TextEdit
//@include impl_text.vrs
//@include impl_rope.vrs
//@include edits.vrs
//@include edits_impls.vrs
}
fn main() {}
