use vstd::prelude::*;
verus! {
// ---- the language and std pieces used here (assumed) ---------------------------------------------
pub trait TokenType: Copy { spec fn trivia(&self) -> bool; fn is_ignored(&self) -> (r: bool) ensures r == self.trivia(); fn same(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
pub trait Language: Sized { type TokenType: TokenType; type ElementType: Copy; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
/// Reuse of an older tree: the subject of P12.
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct IncrementalContext<'a, L: Language> { p: &'a L }
//@include parser_state.vrs
/// A parse that keeps every token from the start to the end puts the whole text into its root.
pub proof fn theorem_whole<'a, L: Language, S: Source + ?Sized>(first: &ParserState<'a, L, S>, last: &ParserState<'a, L, S>, root: GreenNode<'a, L>)
    requires spell(first.kids()) =~= toks::<L>(first.t(), 0, first.at_i()), last.kept(first), last.t() == first.t(), 0 <= first.at_i(), last.at_i() == last.t().len(), root.children@ == last.kids(),
    ensures spell_tree(GreenTree::Node(&root)) =~= toks::<L>(first.t(), 0, first.t().len() as int),
{
    toks_add::<L>(first.t(), 0, first.at_i(), last.at_i());
    spell_node(root, root.children@.len() as int); assert(root.children@.take(root.children@.len() as int) =~= root.children@);
}
}
fn main() {}
