#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::std_specs::ops::*;
use std::sync::Arc;
verus! {
//@include simd_model.vrs
//@import simd.vrs
//@include source_base.vrs
//@import source.vrs
//@include cursor_model.vrs
//@import cursor.vrs
//@gsubclear
//@gsub /crate::source::TextChunk/ => TextChunk
//@gsub /core::range::Range\b/ => Range
//@include lexer_model.vrs
//@include lexer_state.vrs
//@include lexer_scans.vrs
}
fn main() {}
