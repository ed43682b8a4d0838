use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- the language and std pieces used here (assumed) ---------------------------------------------
pub trait TokenType: Copy { spec fn trivia(&self) -> bool; fn is_ignored(&self) -> (r: bool) ensures r == self.trivia(); fn same(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); spec fn eos() -> Self; fn end_of_stream() -> (r: Self) ensures r == Self::eos(), !r.trivia(); }
pub trait ElementType: Copy { fn same(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
pub trait Language: Sized { type TokenType: TokenType; type ElementType: ElementType; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
//@import tree_cursor.vrs
//@import parser_state.vrs
// ---- edits ---------------------------------------------------------------------------------------
/// The replacement text of an edit.
#[verifier::external_body] pub struct EText { s: String }
impl EText { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.s.len() } }
pub struct TextEdit { pub span: RangeU, pub text: EText }
/// The edits in the order of `sort_by_key` (stable) on their start.
pub uninterp spec fn by_start(e: Seq<TextEdit>) -> Seq<TextEdit>;
#[verifier::external_body] pub fn sorted_by_start<'e>(e: &'e [TextEdit]) -> (r: Vec<&'e TextEdit>) ensures r@.len() == by_start(e@).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == by_start(e@)[i] { unimplemented!() }
/// Growth of the text through the first k edits.
pub open spec fn delta(s: Seq<TextEdit>, k: int) -> int decreases k { if k <= 0 { 0 } else { delta(s, k - 1) + s[k - 1].text@.len() - (s[k - 1].span.end - s[k - 1].span.start) } }
/// The untouched piece of old text in front of edit k (behind the last one for k = s.len()).
pub open spec fn lo(s: Seq<TextEdit>, k: int) -> int { if k <= 0 { 0 } else { s[k - 1].span.end as int } }
pub open spec fn hi(s: Seq<TextEdit>, k: int, n: int) -> int { if k >= s.len() { n } else { s[k].span.start as int } }
/// Edits one behind the other, inside a text of n bytes; the texts before and after fit in isize.
pub open spec fn chain(s: Seq<TextEdit>, n: int) -> bool {
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].span.start <= s[k].span.end
    &&& forall|k: int| #![trigger lo(s, k)] #![trigger hi(s, k, n)] 0 <= k <= s.len() ==> lo(s, k) <= hi(s, k, n)
    &&& 0 <= n <= 0x4000_0000_0000_0000 && n + delta(s, s.len() as int) <= 0x4000_0000_0000_0000
}
/// The new text through edit k - 1.
pub open spec fn built(old: Seq<u8>, s: Seq<TextEdit>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { built(old, s, k - 1) + old.subrange(lo(s, k - 1), hi(s, k - 1, old.len() as int)) + s[k - 1].text@ } }
/// The new text.
pub open spec fn edited(old: Seq<u8>, s: Seq<TextEdit>) -> Seq<u8> { built(old, s, s.len() as int) + old.skip(lo(s, s.len() as int)) }
proof fn lo_up(s: Seq<TextEdit>, n: int, i: int, j: int) requires chain(s, n), 0 <= i <= j <= s.len() ensures 0 <= lo(s, i) <= lo(s, j) <= n, hi(s, i, n) <= hi(s, j, n) <= n, 0 <= lo(s, i) <= hi(s, i, n) decreases j - i {
    lo_le_n(s, n, j); lo_le_n(s, n, i); assert(lo(s, i) <= hi(s, i, n));
    if i < j { lo_up(s, n, i, j - 1); assert(lo(s, j - 1) <= hi(s, j - 1, n)); assert(lo(s, j) <= hi(s, j, n)); assert(s[j - 1].span.start <= s[j - 1].span.end); }
}
proof fn lo_le_n(s: Seq<TextEdit>, n: int, j: int) requires chain(s, n), 0 <= j <= s.len() ensures 0 <= lo(s, j) <= n, hi(s, j, n) <= n decreases s.len() - j {
    assert(lo(s, j) <= hi(s, j, n));
    if j < s.len() { lo_le_n(s, n, j + 1); assert(s[j].span.start <= s[j].span.end); }
}
proof fn built_len(old: Seq<u8>, s: Seq<TextEdit>, k: int) requires chain(s, old.len() as int), 0 <= k <= s.len() ensures built(old, s, k).len() == lo(s, k) + delta(s, k) decreases k {
    if k > 0 { built_len(old, s, k - 1); lo_up(s, old.len() as int, k - 1, k - 1); assert(lo(s, k - 1) <= hi(s, k - 1, old.len() as int)); }
}
/// Deltas stay within the size of the texts.
proof fn delta_range(s: Seq<TextEdit>, n: int, k: int) requires chain(s, n), 0 <= k <= s.len() ensures 0 <= lo(s, k) + delta(s, k), lo(s, k) + delta(s, k) <= n + delta(s, s.len() as int) - (n - lo(s, s.len() as int)), -n <= delta(s, k) decreases s.len() - k {
    delta_low(s, n, k); lo_le_n(s, n, k);
    if k < s.len() { delta_range(s, n, k + 1); lo_up(s, n, k, k + 1); assert(s[k].span.start <= s[k].span.end); }
}
proof fn delta_low(s: Seq<TextEdit>, n: int, k: int) requires chain(s, n), 0 <= k <= s.len() ensures 0 <= lo(s, k) + delta(s, k) decreases k { if k > 0 { delta_low(s, n, k - 1); lo_up(s, n, k - 1, k); } }
/// Old offset o is new offset p: both in the untouched piece before edit k.
pub open spec fn piece(s: Seq<TextEdit>, n: int, k: int, o: int, p: int) -> bool { 0 <= k <= s.len() && lo(s, k) <= o && (o < hi(s, k, n) || k == s.len()) && p == o + delta(s, k) }
/// Old offset o, in a piece that no edit touched, is new offset p.
#[verifier::opaque]
pub open spec fn mapped(s: Seq<TextEdit>, n: int, o: int, p: int) -> bool { exists|k: int| #[trigger] piece(s, n, k, o, p) }
/// p lies in text that an edit wrote.
pub open spec fn written(s: Seq<TextEdit>, k: int, p: int) -> bool { 0 <= k < s.len() && s[k].span.start + delta(s, k) <= p < s[k].span.start + delta(s, k) + s[k].text@.len() }
/// Some edit touches [a, b): it changes text in it or inserts text strictly inside.
#[verifier::opaque]
pub open spec fn touched(s: Seq<TextEdit>, a: int, b: int) -> bool { exists|k: int| 0 <= k < s.len() && a < (#[trigger] s[k]).span.end && b > s[k].span.start }
/// Text that no edit touches is the same before and after, at the mapped place.
pub proof fn theorem_untouched(old: Seq<u8>, s: Seq<TextEdit>, k: int, o: int, p: int, len: int)
    requires chain(s, old.len() as int), piece(s, old.len() as int, k, o, p), 0 < len, o + len <= old.len(), !touched(s, o, o + len),
    ensures p >= 0, p + len <= edited(old, s).len(), edited(old, s).subrange(p, p + len) =~= old.subrange(o, o + len),
{
    let n = old.len() as int; reveal(touched);
    lo_up(s, n, k, s.len() as int);
    if k < s.len() { assert(!(o < s[k].span.end && o + len > s[k].span.start)); assert(s[k].span.start <= s[k].span.end); }
    assert(o + len <= hi(s, k, n));
    built_len(old, s, k); built_in(old, s, k);
    let e = edited(old, s); let b = built(old, s, k); let m = old.subrange(lo(s, k), hi(s, k, n));
    let x = e.subrange(p, p + len); let y = old.subrange(o, o + len);
    assert forall|i: int| 0 <= i < len implies #[trigger] x[i] == y[i] by { assert((b + m)[p + i] == m[o + i - lo(s, k)]); assert(e[p + i] == (b + m)[p + i]); }
    assert(x =~= y);
}
proof fn built_in(old: Seq<u8>, s: Seq<TextEdit>, k: int)
    requires chain(s, old.len() as int), 0 <= k <= s.len(),
    ensures ({ let x = built(old, s, k) + old.subrange(lo(s, k), hi(s, k, old.len() as int)); x.len() <= edited(old, s).len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] edited(old, s)[i] == x[i] }), built(old, s, k).len() <= edited(old, s).len(), forall|i: int| 0 <= i < built(old, s, k).len() ==> #[trigger] edited(old, s)[i] == built(old, s, k)[i],
    decreases s.len() - k,
{
    let n = old.len() as int; lo_up(s, n, k, s.len() as int); assert(lo(s, k) <= hi(s, k, n));
    let b = built(old, s, k); let m = old.subrange(lo(s, k), hi(s, k, n)); let x = b + m;
    if k < s.len() {
        built_in(old, s, k + 1); let b1 = built(old, s, k + 1);
        assert(b1 =~= x + s[k].text@);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] edited(old, s)[i] == x[i] by { assert(b1[i] == x[i]); }
    } else { assert(m =~= old.skip(lo(s, k))); assert(edited(old, s) =~= x); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] edited(old, s)[i] == b[i] by { assert(x[i] == b[i]); }
}
//@src projects/oak-core/src/parser/state.rs
#[verifier::reject_recursive_types(L)]
//@item IncrementalContext
/// These are the ranges of the edits s, with the growth of the text through each; s is a chain in a text of n bytes.
#[verifier::opaque]
pub open spec fn told(e: Seq<(RangeU, isize)>, s: Seq<TextEdit>, n: int) -> bool { chain(s, n) && e.len() == s.len() && forall|i: int| #![trigger e[i]] 0 <= i < s.len() ==> e[i].0 == s[i].span && e[i].1 == delta(s, i + 1) }
impl<'a, L: Language> IncrementalContext<'a, L> {
    pub open spec fn root(&self) -> GreenTree<'a, L> { self.cursor.root() }
    pub open spec fn old_len(&self) -> int { glen(self.root()) as int }
    /// Knows the edits s of the old tree's text.
    pub open spec fn knows(&self, s: Seq<TextEdit>) -> bool { self.cursor.inv() && told(self.edits@, s, self.old_len()) }
//@fn IncrementalContext::new -> r
//@sub /&\[crate::source::TextEdit\]/ => &[TextEdit]
//@sub /let mut processed_edits = Vec/ => let mut processed_edits: Vec<(RangeU, isize)> = Vec
//@sub /let mut sorted_edits: Vec<_> = edits\.iter\(\)\.collect\(\);\s*sorted_edits\.sort_by_key\(\|e\| e\.span\.start\);/ => let sorted_edits = sorted_by_start(edits);
//@sub /for edit in sorted_edits \{/ => for i in 0..sorted_edits.len() { let edit = sorted_edits[i];
    requires wf(*old_root), chain(by_start(edits@), old_root.text_len as int),
    ensures r.knows(by_start(edits@)), r.root() == GreenTree::Node(old_root),
//@afterloop 1
    proof { reveal(told); assert(told(processed_edits@, by_start(edits@), old_root.text_len as int)); }
//@loop 1
    invariant chain(by_start(edits@), old_root.text_len as int), sorted_edits@.len() == by_start(edits@).len(), forall|i: int| #![trigger sorted_edits@[i]] 0 <= i < sorted_edits@.len() ==> *sorted_edits@[i] == by_start(edits@)[i],
        cumulative_delta == delta(by_start(edits@), i as int), processed_edits@.len() == i, forall|j: int| #![trigger processed_edits@[j]] 0 <= j < i ==> processed_edits@[j].0 == by_start(edits@)[j].span && processed_edits@[j].1 == delta(by_start(edits@), j + 1),
//@loopstart 1
    proof { let s = by_start(edits@); let n = old_root.text_len as int; lo_up(s, n, i as int, i + 1); lo_le_n(s, n, s.len() as int); delta_range(s, n, i as int); delta_range(s, n, i + 1); assert(s[i as int].span.start <= s[i as int].span.end); assert(delta(s, i + 1) == delta(s, i as int) + s[i as int].text@.len() - (s[i as int].span.end - s[i as int].span.start)); }
//@end
//@fn IncrementalContext::map_new_to_old -> r
//@sub /fn map_new_to_old\(&self, new_pos: usize\)/ => fn map_new_to_old(&self, new_pos: usize, Ghost(s): Ghost<Seq<TextEdit>>)
//@sub /for \(old_range, cumulative_delta\) in &self\.edits \{/ => for i in 0..self.edits.len() { let (old_range, cumulative_delta) = &self.edits[i];
    requires self.knows(s), new_pos <= self.old_len() + delta(s, s.len() as int),
    ensures r is Some ==> mapped(s, self.old_len(), r->0 as int, new_pos as int),
        r is Some ==> r->0 <= self.old_len(),
        r is None ==> exists|k: int| #[trigger] written(s, k, new_pos as int),
//@body
    proof { reveal(told); }
//@loop 1
    invariant chain(s, self.old_len()), forall|i: int| #![trigger self.edits@[i]] 0 <= i < s.len() ==> self.edits@[i].0 == s[i].span && self.edits@[i].1 == delta(s, i + 1), new_pos <= self.old_len() + delta(s, s.len() as int), current_delta == delta(s, i as int), lo(s, i as int) + delta(s, i as int) <= new_pos, self.edits@.len() == s.len(),
//@loopstart 1
    proof { let n = self.old_len(); lo_up(s, n, i as int, i + 1); lo_le_n(s, n, s.len() as int); delta_range(s, n, i as int); delta_range(s, n, i + 1); assert(s[i as int].span.start <= s[i as int].span.end); assert(delta(s, i + 1) == delta(s, i as int) + s[i as int].text@.len() - (s[i as int].span.end - s[i as int].span.start)); }
//@before /if new_pos < new_start/
    proof { if new_pos < new_start { assert((new_pos as isize - current_delta) as usize == new_pos - current_delta); assert(piece(s, self.old_len(), i as int, new_pos - current_delta, new_pos as int)); reveal(mapped); assert(mapped(s, self.old_len(), new_pos - current_delta, new_pos as int)); } else if new_pos < new_end { assert(written(s, i as int, new_pos as int)); } }
//@afterloop 1
    proof { let n = self.old_len(); delta_range(s, n, s.len() as int); lo_le_n(s, n, s.len() as int); assert((new_pos as isize - current_delta) as usize == new_pos - current_delta); assert(piece(s, n, s.len() as int, new_pos - current_delta, new_pos as int)); reveal(mapped); assert(mapped(s, n, new_pos - current_delta, new_pos as int)); }
//@end
//@fn IncrementalContext::is_dirty -> r
//@sub /fn is_dirty\(&self, old_start: usize, old_end: usize\)/ => fn is_dirty(&self, old_start: usize, old_end: usize, Ghost(s): Ghost<Seq<TextEdit>>)
//@sub /for \(old_range, _\) in &self\.edits \{/ => for i in 0..self.edits.len() { let (old_range, _) = &self.edits[i];
    requires told(self.edits@, s, self.old_len()),
    ensures r == touched(s, old_start as int, old_end as int),
//@body
    proof { reveal(told); reveal(touched); }
//@loop 1
    invariant self.edits@.len() == s.len(), forall|i: int| #![trigger self.edits@[i]] 0 <= i < s.len() ==> self.edits@[i].0 == s[i].span, forall|k: int| 0 <= k < i ==> !(old_start < (#[trigger] s[k]).span.end && old_end > s[k].span.start),
//@loopstart 1
    proof { let (a, b) = (s[i as int].span.start, s[i as int].span.end); if old_start < b && old_end > a { reveal(touched); assert(touched(s, old_start as int, old_end as int)); } }
//@end
}
// ---- copies and comparison -----------------------------------------------------------------------
/// The same tree, wherever its nodes lie.
pub open spec fn deq<L: Language>(a: GreenNode<L>, b: GreenNode<L>) -> bool decreases a { a.kind == b.kind && a.text_len == b.text_len && a.children@.len() == b.children@.len() && forall|i: int| #![trigger a.children@[i]] #![trigger b.children@[i]] 0 <= i < a.children@.len() ==> deq_tree(a.children@[i], b.children@[i]) }
pub open spec fn deq_tree<L: Language>(a: GreenTree<L>, b: GreenTree<L>) -> bool decreases a { match (a, b) { (GreenTree::Node(x), GreenTree::Node(y)) => deq(*x, *y), (GreenTree::Leaf(x), GreenTree::Leaf(y)) => x == y, _ => false } }
/// Copies spell the same and are as well-formed.
pub proof fn deq_spell<L: Language>(a: GreenNode<L>, b: GreenNode<L>, k: int) requires deq(a, b), 0 <= k <= a.children@.len() ensures spell_to(a, k) == spell_to(b, k), before(a.children@, k) == before(b.children@, k) decreases a, k {
    if k > 0 { deq_spell(a, b, k - 1); assert(deq_tree(a.children@[k - 1], b.children@[k - 1])); match (a.children@[k - 1], b.children@[k - 1]) { (GreenTree::Node(x), GreenTree::Node(y)) => { assert(deq(*x, *y)); deq_spell(*x, *y, x.children@.len() as int); } _ => {} } assert(spell_tree(a.children@[k - 1]) == spell_tree(b.children@[k - 1])); assert(spell_to(a, k) == spell_to(a, k - 1) + spell_tree(a.children@[k - 1])); assert(spell_to(b, k) == spell_to(b, k - 1) + spell_tree(b.children@[k - 1])); }
}
pub proof fn deq_wf<L: Language>(a: GreenNode<L>, b: GreenNode<L>) requires deq(a, b), wf(b) ensures wf(a) decreases a {
    deq_spell(a, b, a.children@.len() as int);
    assert forall|i: int| #![trigger a.children@[i]] 0 <= i < a.children@.len() implies wf_tree(a.children@[i]) by { assert(deq_tree(a.children@[i], b.children@[i])); assert(wf_tree(b.children@[i])); match (a.children@[i], b.children@[i]) { (GreenTree::Node(x), GreenTree::Node(y)) => { deq_wf(*x, *y); } _ => {} } }
}
//@gsub /GreenNode::new\(node\.kind, slice\)/ => GreenNode::<L>::new(node.kind, slice)
//@gsub /L::TokenType::END_OF_STREAM/ => end_of_stream::<L>()
//@gsub /L::TokenType::is_ignored\(&(\w+)\.kind\)/ => \1.kind.is_ignored()
//@gsub /(\w+)\.kind == ([\w.]+(?:::<L>\(\))?)/ => \1.kind.same(&\2)
//@gsub /(\w+)\.kind != ([\w.]+)/ => !\1.kind.same(&\2)
pub fn end_of_stream<L: Language>() -> (r: L::TokenType) ensures r == <L::TokenType as TokenType>::eos(), !r.trivia() { <L::TokenType as TokenType>::end_of_stream() }
//@fn deep_clone_node -> r
//@sub /let children_iter = node\.children\.iter\(\)\.map\(\|child\| match child \{/ => let mut copies: Vec<GreenTree<'a, L>> = Vec::new(); for i in 0..node.children.len() { let child = &node.children[i]; let copy = (match child {
//@sub /GreenTree::Leaf\(\*l\),\s*\}\);/ => GreenTree::Leaf(*l), }); copies.push(copy); }
//@sub /arena\.alloc_slice_fill_iter\(node\.children\.len\(\), children_iter\)/ => arena.alloc_slice_copy(copies.as_slice())
    requires wf(*node),
    ensures deq(*r, *node), wf(*r),
    decreases *node,
//@loop 1
    invariant wf(*node), copies@.len() == i, forall|j: int| #![trigger copies@[j]] 0 <= j < i ==> deq_tree(copies@[j], node.children@[j]),
//@loopstart 1
    proof { assert(wf_tree(node.children@[i as int])); }
//@after /let slice = [^;]*;/
    proof {
        assert forall|j: int| #![trigger slice@[j]] 0 <= j < slice@.len() implies wf_tree(slice@[j]) && glen(slice@[j]) == glen(node.children@[j]) by { assert(slice@[j] == copies@[j]); assert(wf_tree(node.children@[j])); match (slice@[j], node.children@[j]) { (GreenTree::Node(x), GreenTree::Node(y)) => { deq_wf(*x, *y); } _ => {} } }
        same_lens(slice@, node.children@, slice@.len() as int);
    }
//@end
proof fn same_lens<L: Language>(a: Seq<GreenTree<L>>, b: Seq<GreenTree<L>>, k: int) requires 0 <= k <= a.len() == b.len(), forall|j: int| #![trigger a[j]] 0 <= j < k ==> glen(a[j]) == glen(b[j]) ensures before(a, k) == before(b, k) decreases k { if k > 0 { same_lens(a, b, k - 1); } }
//@fn matching_tokens -> r
//@sub /mut lookahead: usize/ => la0: usize
//@sub /for child in node\.children \{/ => let mut lookahead = la0; for i in 0..node.children.len() { let child = &node.children[i];
    requires tok_ok(tokens.tokens@), tokens.index + la0 <= tokens.tokens@.len(),
    ensures r is Some ==> la0 <= r->0 && tokens.index + r->0 <= tokens.tokens@.len() && spell_to(*node, node.children@.len() as int) =~= toks::<L>(tokens.tokens@, tokens.index + la0, tokens.index + r->0),
    decreases *node,
//@loop 1
    invariant tok_ok(tokens.tokens@), la0 <= lookahead, tokens.index + lookahead <= tokens.tokens@.len(), spell_to(*node, i as int) =~= toks::<L>(tokens.tokens@, tokens.index + la0, tokens.index + lookahead),
//@loopstart 1
    let ghost l0 = lookahead;
//@loopend 1
    proof { toks_add::<L>(tokens.tokens@, tokens.index + la0, tokens.index + l0, tokens.index + lookahead); assert(spell_to(*node, i + 1) == spell_to(*node, i as int) + spell_tree(node.children@[i as int])); assert(spell_tree(node.children@[i as int]) =~= toks::<L>(tokens.tokens@, tokens.index + l0, tokens.index + lookahead)); }
//@end
proof fn fits<L: Language>(c: Cursor<L>) requires c.inv() ensures c.offset + glen(c.current) <= usize::MAX, c.current is Node ==> wf(*c.current->Node_0) { }
// ---- what lies behind the cursor -----------------------------------------------------------------
/// Number of elements of a tree.
pub open spec fn size_to<L: Language>(n: GreenNode<L>, k: int) -> nat decreases n, k { if k <= 0 || k > n.children@.len() { 0 } else { size_to(n, k - 1) + size_tree(n.children@[k - 1]) } }
pub open spec fn size_tree<L: Language>(t: GreenTree<L>) -> nat decreases t, 0int { match t { GreenTree::Node(n) => 1 + size_to(*n, n.children@.len() as int), GreenTree::Leaf(_) => 1 } }
pub open spec fn sizes<L: Language>(c: Seq<GreenTree<L>>) -> nat decreases c.len() { if c.len() == 0 { 0 } else { sizes(c.drop_last()) + size_tree(c.last()) } }
proof fn sizes_add<L: Language>(a: Seq<GreenTree<L>>, b: Seq<GreenTree<L>>) ensures sizes(a + b) == sizes(a) + sizes(b) decreases b.len() { if b.len() > 0 { sizes_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
proof fn size_node<L: Language>(n: GreenNode<L>, k: int) requires 0 <= k <= n.children@.len() ensures size_to(n, k) == sizes(n.children@.take(k)) decreases k { if k > 0 { size_node(n, k - 1); assert(n.children@.take(k).drop_last() =~= n.children@.take(k - 1)); } }
/// Leaves of the elements from number i on, and their number of elements, split at the first.
proof fn peel<L: Language>(c: Seq<GreenTree<L>>, i: int) requires 0 <= i < c.len() ensures spell(c.skip(i)) =~= spell_tree(c[i]) + spell(c.skip(i + 1)), sizes(c.skip(i)) == size_tree(c[i]) + sizes(c.skip(i + 1)) {
    let a = seq![c[i]]; let b = c.skip(i + 1); assert(c.skip(i) =~= a + b); spell_add(a, b); sizes_add(a, b);
    assert(a.drop_last() =~= Seq::empty()); assert(spell(a) =~= spell_tree(c[i])) by { assert(spell(a.drop_last()) =~= Seq::empty()); } assert(sizes(a) == size_tree(c[i])) by { assert(sizes(a.drop_last()) == 0); }
}
impl<'a, L: Language> Cursor<'a, L> {
    /// The leaves behind the current element, down to level k of its ancestors; and how many elements lie there.
    pub open spec fn tail(&self, k: int) -> Seq<Lf<L>> decreases k + 1 { if k < 0 { Seq::empty() } else { spell(self.stack@[k].0.children@.skip(self.stack@[k].1 + 1)) + self.tail(k - 1) } }
    pub open spec fn tail_n(&self, k: int) -> nat decreases k + 1 { if k < 0 { 0 } else { sizes(self.stack@[k].0.children@.skip(self.stack@[k].1 + 1)) + self.tail_n(k - 1) } }
    pub open spec fn rest(&self) -> Seq<Lf<L>> { self.tail(self.stack@.len() - 1) }
    pub open spec fn rest_n(&self) -> nat { self.tail_n(self.stack@.len() - 1) }
    /// Cursors with the same path below the same root have the same ancestors.
    proof fn same_stack(&self, o: &Self, m: int) requires self.inv(), o.inv(), self.root() == o.root(), 0 <= m < self.stack@.len(), m < o.stack@.len(), forall|j: int| #![trigger self.stack@[j]] 0 <= j < m ==> self.stack@[j].1 == o.stack@[j].1 ensures forall|j: int| #![trigger self.stack@[j]] 0 <= j <= m ==> self.stack@[j].0 == o.stack@[j].0 decreases m {
        if m > 0 { self.same_stack(o, m - 1); assert(self.entry(m)) by { assert(self.stack@[m] == self.stack@[m]); } assert(o.entry(m)) by { assert(o.stack@[m] == o.stack@[m]); } assert(self.stack@[m - 1].0 == o.stack@[m - 1].0); assert(self.stack@[m - 1].1 == o.stack@[m - 1].1); }
        else { }
    }
    proof fn same_tail(&self, o: &Self, k: int) requires forall|j: int| #![trigger self.stack@[j]] 0 <= j <= k ==> self.stack@[j].0 == o.stack@[j].0 && self.stack@[j].1 == o.stack@[j].1 ensures self.tail(k) == o.tail(k), self.tail_n(k) == o.tail_n(k) decreases k + 1 { if k >= 0 { self.same_tail(o, k - 1); assert(self.stack@[k].0 == o.stack@[k].0); } }
    /// Ancestors that are last children add nothing.
    proof fn last_adds_nothing(&self, k: int, n: int) requires self.inv(), -1 <= k <= n < self.stack@.len(), forall|j: int| #![trigger self.stack@[j]] k < j <= n ==> !self.more(j) ensures self.tail(n) =~= self.tail(k), self.tail_n(n) == self.tail_n(k) decreases n - k {
        if k < n { self.last_adds_nothing(k, n - 1); let e = self.stack@[n]; assert(self.entry(n)); assert(!self.more(n)); assert(e.0.children@.skip(e.1 + 1) =~= Seq::empty()); assert(spell(e.0.children@.skip(e.1 + 1)) =~= Seq::empty()); }
    }
    proof fn next_split(&self, o: &Self, r: bool) requires o.inv(), self.inv(), self.root() == o.root(), self.followed(o, r) ensures r ==> o.rest() =~= spell_tree(self.current) + self.rest() && o.rest_n() == size_tree(self.current) + self.rest_n(), !r ==> o.rest() =~= Seq::empty() {
        let n = o.stack@.len() - 1;
        if r {
            let k = choose|k: int| #![trigger o.next_at(k)] o.next_at(k) && self.moved(o, k) && self.offset == o.offset + glen(o.current);
            assert(o.entry(k)) by { assert(o.stack@[k] == o.stack@[k]); }
            assert(self.path().len() == k + 1);
            assert forall|j: int| #![trigger self.stack@[j]] 0 <= j < k implies self.stack@[j].1 == o.stack@[j].1 by { assert(self.path()[j] == o.path()[j]); }
            assert(self.path()[k] == o.path()[k] + 1);
            self.same_stack(o, k); self.same_tail(o, k - 1); o.last_adds_nothing(k, n);
            assert(self.stack@[k].0 == o.stack@[k].0);
            peel(o.stack@[k].0.children@, o.stack@[k].1 + 1);
            assert(self.current == self.elem(k));
        } else {
            assert forall|j: int| #![trigger o.stack@[j]] -1 < j <= n implies !o.more(j) by { }
            o.last_adds_nothing(-1, n);
        }
    }
    proof fn step_split(&self, o: &Self, r: bool) requires o.inv(), self.inv(), self.root() == o.root(), o.current is Node, kids(o.current).len() > 0 ==> r && self.path() =~= o.path().push(0), kids(o.current).len() == 0 ==> self.followed(o, r)
        ensures r ==> spell_tree(o.current) + o.rest() =~= spell_tree(self.current) + self.rest() && size_tree(o.current) + o.rest_n() > size_tree(self.current) + self.rest_n(), !r ==> spell_tree(o.current) + o.rest() =~= Seq::empty() {
        let m = *o.current->Node_0; let n = o.stack@.len() as int;
        spell_node(m, m.children@.len() as int); size_node(m, m.children@.len() as int); assert(m.children@.take(m.children@.len() as int) =~= m.children@);
        if kids(o.current).len() > 0 {
            assert(self.path().len() == n + 1); assert(self.path()[n] == 0);
            assert forall|j: int| #![trigger self.stack@[j]] 0 <= j < n implies self.stack@[j].1 == o.stack@[j].1 by { assert(self.path()[j] == o.path()[j]); }
            if n > 0 { self.same_stack(o, n - 1); assert(self.stack@[n - 1].0 == o.stack@[n - 1].0); assert(self.entry(n)) by { assert(self.stack@[n] == self.stack@[n]); } }
            self.same_tail(o, n - 1);
            assert(GreenTree::Node(self.stack@[n].0) == o.current);
            assert(m.children@.skip(0) =~= m.children@); peel(m.children@, 0);
            assert(self.current == self.elem(n));
        } else {
            assert(spell(m.children@) =~= Seq::empty());
            self.next_split(o, r);
        }
    }
    #[verifier::external_body] pub fn clone_v(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@gsub /cursor\.clone\(\)/ => cursor.clone_v()
//@fn leaf_behind -> r
    requires cursor0.inv(),
    ensures r is Some == (cursor0.rest().len() > 0), r is Some ==> r->0.kind == cursor0.rest()[0].kind && r->0.length == cursor0.rest()[0].len,
//@sub /cursor: &Cursor/ => cursor0: &Cursor
//@sub /let mut cursor = cursor\.clone/ => let mut cursor = cursor0.clone
//@before /while more/
    proof { cursor.next_split(cursor0, more); }
//@loop 1
    invariant cursor.inv(), cursor.root() == cursor0.root(), cursor0.rest() =~= (if more { spell_tree(cursor.current) + cursor.rest() } else { Seq::empty() }),
    decreases (if more { 1int } else { 0 }), size_tree(cursor.current) + cursor.rest_n(),
//@loopstart 1
    let ghost b4 = cursor;
//@before /return Some\(leaf\)/
    proof { let one = spell_tree(cursor.current); assert(one =~= seq![Lf { kind: leaf.kind, len: leaf.length as int }]); let all = one + cursor.rest(); assert(cursor0.rest() =~= all); assert(cursor0.rest()[0] == all[0]); assert(all[0] == one[0]); }
//@loopend 1
    proof { cursor.step_split(&b4, more); }
//@end
impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
    /// The tokens tile the text, and the text is the old tree's text with the edits s made.
    pub open spec fn placed(&self, s: Seq<TextEdit>) -> bool {
        &&& forall|i: int| #![trigger self.t()[i]] 0 <= i < self.t().len() ==> self.t()[i].span.start == pos(self.t(), i)
        &&& self.source.len() == pos(self.t(), self.t().len() as int) && self.at_i() <= self.t().len()
        &&& self.incremental is Some ==> self.incremental->0.knows(s) && self.source.len() == self.incremental->0.old_len() + delta(s, s.len() as int)
    }
    /// Nothing but the place in the old tree has moved.
    pub open spec fn held(&self, o: &Self) -> bool { self.tokens.tokens == o.tokens.tokens && self.sink.arena == o.sink.arena && self.source == o.source && self.errors == o.errors && (self.incremental is Some == o.incremental is Some) && (o.incremental is Some ==> self.incremental->0.root() == o.incremental->0.root()) }
    /// Token number i is what s starts with; nothing, or the end of the stream, if s is empty.
    pub open spec fn follows(&self, s: Seq<Lf<L>>, i: int) -> bool { if s.len() == 0 { i < self.t().len() ==> self.t()[i].kind == <L::TokenType as TokenType>::eos() } else { i < self.t().len() && self.t()[i].kind == s[0].kind && tlen(self.t()[i]) == s[0].len } }
    /// A node of the old tree, of the asked kind, that started at the old place of the current token and that no edit touched, was copied; its leaves are the tokens passed, the token behind them is the leaf that was behind the node, and the parser stands where it would after them.
    pub open spec fn reused(&self, o: &Self, kind: L::ElementType, s: Seq<TextEdit>, c: Cursor<'a, L>) -> bool {
        &&& c.inv() && c.root() == o.incremental->0.root() && c.current is Node
        &&& ({ let n = *c.current->Node_0;
            &&& n.kind == kind && !touched(s, c.offset as int, c.offset + n.text_len)
            &&& mapped(s, glen(o.incremental->0.root()) as int, c.offset as int, o.here() as int)
            &&& self.kids().len() == o.kids().len() + 1 && self.kids() =~= o.kids().push(self.kids().last()) && self.kids().last() is Node && deq(*self.kids().last()->Node_0, n)
            &&& spell_tree(self.kids().last()) =~= toks::<L>(self.t(), o.at_i(), self.at_i())
            &&& o.at_i() < self.at_i() <= self.t().len() && self.rest() && self.t()[self.at_i() - 1].span.end == o.here() + n.text_len && self.follows(c.rest(), self.at_i())
        })
    }
    /// What copying a node for the next tc tokens amounts to.
    proof fn reuse_done(&self, o: &Self, kind: L::ElementType, s: Seq<TextEdit>, c: Cursor<'a, L>, n: GreenNode<'a, L>, m: &'a GreenNode<'a, L>, tc: int)
        requires o.inv(), o.placed(s), self.held(o), o.incremental is Some, self.incremental->0.knows(s), self.incremental->0.root() == o.incremental->0.root(),
            c.inv(), c.root() == o.incremental->0.root(), c.current is Node, *c.current->Node_0 == n, n.kind == kind, !touched(s, c.offset as int, c.offset + n.text_len), mapped(s, glen(o.incremental->0.root()) as int, c.offset as int, o.here() as int),
            self.kids() =~= o.kids().push(GreenTree::Node(m)), deq(*m, n), wf(*m), self.at_i() == o.at_i() + tc, 1 <= tc, self.at_i() <= o.t().len(), spell_to(n, n.children@.len() as int) =~= toks::<L>(o.t(), o.at_i(), o.at_i() + tc),
            self.rest(), o.t()[self.at_i() - 1].span.end == o.here() + n.text_len, self.follows(c.rest(), self.at_i()),
        ensures self.inv(), self.placed(s), self.behind(o), self.kept(o), self.reused(o, kind, s, c),
    {
        let t = o.t();
        deq_spell(*m, n, m.children@.len() as int);
        TreeSink::push_facts(o.kids(), GreenTree::Node(m));
        pos_mono(t, self.at_i() - 1, self.at_i()); assert(t[self.at_i() - 1].span.start == pos(t, self.at_i() - 1)); assert(t[o.at_i()].span.start == pos(t, o.at_i()));
        assert forall|i: int| #![trigger self.kids()[i]] 0 <= i < self.kids().len() implies wf_tree(self.kids()[i]) by { if i < o.kids().len() { assert(self.kids()[i] == o.kids()[i]); assert(wf_tree(o.kids()[i])); } }
    }
    proof fn bounds(&self) requires self.inv(), self.at_i() <= self.t().len() ensures forall|i: int| #![trigger self.t()[i]] 0 <= i < self.t().len() ==> self.t()[i].span.start <= self.t()[i].span.end, pos(self.t(), self.at_i()) <= pos(self.t(), self.t().len() as int) <= u32::MAX, tok_ok(self.t()), self.t().len() < usize::MAX { pos_mono(self.t(), self.at_i(), self.at_i()); }
    proof fn same_behind(&self, o: &Self, s: Seq<TextEdit>) requires o.inv(), o.placed(s), self.held(o), self.tokens == o.tokens, self.sink == o.sink, o.incremental is Some ==> self.incremental->0.knows(s) ensures self.inv(), self.placed(s), self.behind(o) { }
//@fn ParserState::promote -> r
    requires wf(*node),
    ensures deq(*r, *node), wf(*r), *final(self) == *old(self),
//@end
//@fn ParserState::set_incremental
//@sub /, old: &'a/ => , old0: &'a
//@sub /IncrementalContext::new\(old,/ => IncrementalContext::new(old0,
//@sub /&\[crate::source::TextEdit\]/ => &[TextEdit]
    requires wf(*old0), chain(by_start(edits@), old0.text_len as int),
    ensures final(self).incremental is Some, final(self).incremental->0.knows(by_start(edits@)), final(self).incremental->0.root() == GreenTree::Node(old0), final(self).tokens == old(self).tokens, final(self).sink == old(self).sink, final(self).errors == old(self).errors, final(self).source == old(self).source,
//@end
//@fn ParserState::try_reuse -> r
//@sub /kind: L::ElementType\)/ => kind: L::ElementType, Ghost(s): Ghost<Seq<TextEdit>>)
//@sub /(#\[cfg\(test\)\]\s*)?println!\("[^"]*"[^;]*;/ => 
//@sub /return false;/ => { proof { self.same_behind(old(self), s); } return false; }
//@sub /const MAX_STEPS/ => let MAX_STEPS
//@sub /map_new_to_old\(new_pos\)/ => map_new_to_old(new_pos, Ghost(s))
//@sub /is_dirty\(start, end\)/ => is_dirty(start, end, Ghost(s))
    requires old(self).inv(), old(self).placed(s),
    ensures final(self).inv(), final(self).placed(s), final(self).held(old(self)), final(self).behind(old(self)),
        !r ==> final(self).tokens == old(self).tokens && final(self).kids() == old(self).kids(),
        r ==> old(self).incremental is Some && final(self).kept(old(self)) && exists|c: Cursor<'a, L>| #[trigger] final(self).reused(old(self), kind, s, c),
//@body
    hide(Cursor::inv); hide(wf); hide(all_wf); hide(tok_ok); hide(deq); hide(ParserState::behind); hide(ParserState::inv_at); hide(ParserState::reused); hide(ParserState::kept); hide(spell_to); hide(Cursor::rest);
    proof { if self.at_i() < self.t().len() { assert(self.t()[self.at_i()].span.start == pos(self.t(), self.at_i())); } self.bounds(); self.same_behind(old(self), s); }
//@before /let mut steps/
    let ghost n = inc.old_len(); let ghost root = inc.root();
    proof { assert(new_pos == pos(old(self).t(), current_index as int)); assert(mapped(s, n, target_old_pos as int, new_pos as int)); }
//@loop 1
    invariant
        tok_ok(old(self).t()), old(self).t().len() < usize::MAX, forall|i: int| #![trigger old(self).t()[i]] 0 <= i < old(self).t().len() ==> old(self).t()[i].span.start <= old(self).t()[i].span.end, steps <= MAX_STEPS < usize::MAX, old(self).inv(), old(self).placed(s), old(self).incremental is Some,
        after_borrow(self.incremental) == Some(*final(inc)), inc.knows(s), inc.root() == root, root == old(self).incremental->0.root(), n == glen(root),
        self.tokens == old(self).tokens, self.sink == old(self).sink, self.errors == old(self).errors, self.source == old(self).source,
        current_index == old(self).at_i(), new_pos == old(self).here(), new_pos == pos(old(self).t(), current_index as int), new_pos <= u32::MAX, mapped(s, n, target_old_pos as int, new_pos as int),
    decreases MAX_STEPS - steps,
//@loopstart 1
    proof { fits(inc.cursor); }
//@loop 2
    invariant_except_break current_pos == pos(old(self).t(), current_index + lookahead),
    invariant
        old(self).inv(), old(self).placed(s), old(self).incremental is Some, tok_ok(old(self).t()), old(self).t().len() < usize::MAX, wf(*node),
        after_borrow(self.incremental) == Some(*final(inc)), inc.knows(s), inc.root() == root, root == old(self).incremental->0.root(), n == glen(root),
        self.tokens == old(self).tokens, self.sink == old(self).sink, self.errors == old(self).errors, self.source == old(self).source,
        current_index == old(self).at_i(), new_pos == old(self).here(), new_pos == pos(old(self).t(), current_index as int), new_pos <= u32::MAX, mapped(s, n, target_old_pos as int, new_pos as int),
        inc.cursor.current == GreenTree::Node(node), inc.cursor.offset == target_old_pos, node.kind == kind, !touched(s, start as int, end as int), start == inc.cursor.offset, end == start + node.text_len, node_len == node.text_len, target_new_end == new_pos + node_len,
        current_index + lookahead <= old(self).t().len(), forall|i: int| #![trigger old(self).t()[i]] 0 <= i < old(self).t().len() ==> old(self).t()[i].span.start <= old(self).t()[i].span.end,
    decreases old(self).t().len() - lookahead,
//@loopstart 2
    let ghost c0 = inc.cursor; let ghost tk = *t;
    proof { pos_mono(old(self).t(), current_index + lookahead, current_index + lookahead + 1); assert(old(self).t()[current_index + lookahead].span.start <= old(self).t()[current_index + lookahead].span.end); }
//@before /return true;/
    proof { self.reuse_done(old(self), kind, s, c0, *node, new_node, tokens_consumed as int); }
//@end
//@gsub /F: FnOnce\(&mut Self\) -> Result<(bool|\(\)), OakError>/ => F: Rule<'a, L, S, \1>
//@gsub /\bf\(self\)/ => f.call(self)
    /// Reused, or parsed by the rule and wrapped: one more tree, of the asked kind.
    pub open spec fn grown(&self, o: &Self, kind: L::ElementType) -> bool { self.inv() && self.behind(o) && self.kids().len() == o.kids().len() + 1 && self.kids().last() is Node && self.kids().last()->Node_0.kind == kind }
//@fn ParserState::incremental_node -> r
//@sub /, f: F\)/ => , f: F, Ghost(s): Ghost<Seq<TextEdit>>)
//@sub /try_reuse\(kind\)/ => try_reuse(kind, Ghost(s))
    requires old(self).inv(), old(self).placed(s), forall|st: ParserState<'a, L, S>| #[trigger] f.ready(&st),
    ensures final(self).grown(old(self), kind),
//@end
//@fn ParserState::incremental_opt -> r
//@sub /, f: F\)/ => , f: F, Ghost(s): Ghost<Seq<TextEdit>>)
//@sub /try_reuse\(kind\)/ => try_reuse(kind, Ghost(s))
    requires old(self).inv(), old(self).placed(s), forall|st: ParserState<'a, L, S>| #[trigger] f.ready(&st),
    ensures final(self).inv(), final(self).behind(old(self)), r is Err || r == Ok::<bool, OakError>(true) ==> final(self).grown(old(self), kind),
//@end
}
}
fn main() {}
