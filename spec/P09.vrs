use vstd::prelude::*;
verus! {
// ---- the language and std pieces used here (assumed) ---------------------------------------------
pub trait Language: Sized { type TokenType: Copy; type ElementType: Copy; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@include tree_green.vrs
//@include tree_red.vrs
//@include tree_cursor.vrs
// ---- the text of an element ------------------------------------------------------------------------
/// A `Cow<str>`.
#[verifier::external_body] pub struct Text<'a> { s: &'a str }
impl<'a> Text<'a> { pub uninterp spec fn view(&self) -> Seq<char>; }
pub trait Source {
    /// The text between two places (the subject of P01).
    spec fn cut(&self, a: int, b: int) -> Seq<char>;
    fn get_text_in(&self, range: RangeU) -> (r: Text<'_>) ensures r@ == self.cut(range.start as int, range.end as int);
}
//@gsub /std::borrow::Cow<'s, str>/ => Text<'s>
//@gsub /crate::source::Source/ => Source
//@src projects/oak-core/src/tree/red_tree.rs
impl<'a, L: Language> RedTree<'a, L> {
//@fn RedTree::text -> r
    requires *self is Node ==> ok(self->Node_0),
    ensures r@ == source.cut(rspan(*self).0, rspan(*self).1),
//@end
}
}
fn main() {}
