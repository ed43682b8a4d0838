// ---- tokens, errors, the arena and the source (assumed, or checked elsewhere) --------------------
//@gsubclear
//@gsub /Range<usize>/ => RangeU
//@gsub /\bRange \{/ => RangeU {
//@gsub /crate::source::SourceId/ => SourceId
//@gsub /crate::source::SourceText/ => SourceText
pub type SourceId = u32;
pub struct SourceText { pub n: usize }
pub trait Source {
    spec fn len(&self) -> nat;
    spec fn sid(&self) -> Option<SourceId>;
    /// The text between two places.
    spec fn cut(&self, a: int, b: int) -> Seq<char>;
    fn length(&self) -> (r: usize) ensures r == self.len();
    fn source_id(&self) -> (r: Option<SourceId>) ensures r == self.sid();
    fn get_text_in(&self, range: RangeU) -> (r: Text<'_>) ensures r@ == self.cut(range.start as int, range.end as int);
}
/// A `Cow<str>`.
#[verifier::external_body] pub struct Text<'a> { s: &'a str }
impl<'a> Text<'a> { pub uninterp spec fn view(&self) -> Seq<char>; }
impl Source for SourceText { open spec fn len(&self) -> nat { self.n as nat } uninterp spec fn sid(&self) -> Option<SourceId>; uninterp spec fn cut(&self, a: int, b: int) -> Seq<char>; fn length(&self) -> usize { self.n } #[verifier::external_body] fn source_id(&self) -> Option<SourceId> { unimplemented!() } #[verifier::external_body] fn get_text_in(&self, range: RangeU) -> Text<'_> { unimplemented!() } }
//@import errors.vrs
impl OakError {
    pub open spec fn at(&self) -> nat { place_of(self.k())->0 as nat }
    #[verifier::external_body] pub fn clone_v(&self) -> (r: OakError) ensures r == *self { unimplemented!() }
}
/// `format!("{:?}", kind)`
#[verifier::external_body] pub fn kind_name<K: TokenType>(k: K) -> String { unimplemented!() }
pub struct OakDiagnostics<T> { pub result: Result<T, OakError>, pub diagnostics: Vec<OakError> }
//@src projects/oak-core/src/lexer/mod.rs
//@item Token
impl<K> Token<K> {
//@fn Token::length -> r
    requires self.span.start <= self.span.end,
    ensures r == self.span.end - self.span.start,
//@end
}
/// `Arc<[Token]>`, shared and immutable.
#[verifier::reject_recursive_types(L)]
pub struct Tokens<L: Language> { pub v: Vec<Token<L::TokenType>> }
impl<L: Language> Tokens<L> {
    pub open spec fn view(&self) -> Seq<Token<L::TokenType>> { self.v@ }
    pub fn get(&self, i: usize) -> (r: Option<&Token<L::TokenType>>) ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { self.v.get(i) }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body] pub fn clone_v(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    pub fn empty() -> (r: Self) ensures r@ == Seq::<Token<L::TokenType>>::empty() { Tokens { v: Vec::new() } }
}
pub type LexOutput<L> = OakDiagnostics<Tokens<L>>;
pub struct TokenProvenance { pub p: u8 }
/// The arena: what it hands out keeps its contents (the subject of P08).
#[verifier::external_body] pub struct SyntaxArena { p: u8 }
impl SyntaxArena {
    #[verifier::external_body] pub fn alloc_slice_copy<'a, T: Copy>(&'a self, s: &[T]) -> (r: &'a [T]) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn alloc<'a, T>(&'a self, v: T) -> (r: &'a T) ensures *r == v { unimplemented!() }
    #[verifier::external_body] pub fn add_metadata(&self, p: TokenProvenance) -> num::NonZeroU32 { unimplemented!() }
}
pub fn slice_from<T>(v: &Vec<T>, k: usize) -> (r: &[T]) requires k <= v@.len() ensures r@ == v@.skip(k as int) { vstd::slice::slice_subrange(v.as_slice(), k, v.len()) }
/// Whether two references are to one node. (Node identity is modelled by value: a node that is on the stack is found there.)
#[verifier::external_body] pub fn same_node<'a, L: Language>(a: &'a GreenNode<'a, L>, b: &'a GreenNode<'a, L>) -> (r: bool) ensures r == (a == b) { unimplemented!() }

// ---- what parsing means --------------------------------------------------------------------------
/// A leaf of the tree, or a token of the text: its kind and its length.
pub struct Lf<L: Language> { pub kind: L::TokenType, pub len: int }
/// The leaves of the first k children of a node, left to right.
pub open spec fn spell_to<L: Language>(n: GreenNode<L>, k: int) -> Seq<Lf<L>> decreases n, k {
    if k <= 0 || k > n.children@.len() { Seq::empty() } else { spell_to(n, k - 1) + spell_tree(n.children@[k - 1]) }
}
pub open spec fn spell_tree<L: Language>(t: GreenTree<L>) -> Seq<Lf<L>> decreases t, 0int {
    match t { GreenTree::Node(n) => spell_to(*n, n.children@.len() as int), GreenTree::Leaf(l) => seq![Lf { kind: l.kind, len: l.length as int }] }
}
/// The leaves of some children, left to right.
pub open spec fn spell<L: Language>(c: Seq<GreenTree<L>>) -> Seq<Lf<L>> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { spell(c.drop_last()) + spell_tree(c.last()) }
}
pub proof fn spell_push<L: Language>(c: Seq<GreenTree<L>>, t: GreenTree<L>) ensures spell(c.push(t)) == spell(c) + spell_tree(t) { assert(c.push(t).drop_last() =~= c); }
pub proof fn spell_add<L: Language>(a: Seq<GreenTree<L>>, b: Seq<GreenTree<L>>) ensures spell(a + b) =~= spell(a) + spell(b) decreases b.len() {
    if b.len() > 0 { spell_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); }
}
/// A node spells what its children spell.
pub proof fn spell_node<L: Language>(n: GreenNode<L>, k: int) requires 0 <= k <= n.children@.len() ensures spell_to(n, k) =~= spell(n.children@.take(k)) decreases k {
    if k > 0 { spell_node(n, k - 1); assert(n.children@.take(k).drop_last() =~= n.children@.take(k - 1)); }
}
pub proof fn before_add<L: Language>(a: Seq<GreenTree<L>>, b: Seq<GreenTree<L>>, k: int) requires 0 <= k <= b.len() ensures before(a + b, a.len() + k) == before(a, a.len() as int) + before(b, k) decreases k {
    if k == 0 { before_same(a + b, a, a.len() as int); } else { before_add(a, b, k - 1); }
}
pub proof fn before_same<L: Language>(a: Seq<GreenTree<L>>, b: Seq<GreenTree<L>>, k: int) requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| #![trigger a[i]] 0 <= i < k ==> a[i] == b[i] ensures before(a, k) == before(b, k) decreases k {
    if k > 0 { before_same(a, b, k - 1); }
}
/// All the trees are well-formed, and the total of their lengths.
pub open spec fn all_wf<L: Language>(c: Seq<GreenTree<L>>) -> bool { forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> wf_tree(c[i]) }
pub open spec fn total<L: Language>(c: Seq<GreenTree<L>>) -> nat { before(c, c.len() as int) }
pub open spec fn tlen<K>(t: Token<K>) -> int { t.span.end - t.span.start }
/// Tokens a to b, as leaves.
pub open spec fn toks<L: Language>(t: Seq<Token<L::TokenType>>, a: int, b: int) -> Seq<Lf<L>> { Seq::new((b - a) as nat, |i: int| Lf { kind: t[a + i].kind, len: tlen(t[a + i]) }) }
/// How much text lies in the first i tokens.
pub open spec fn pos<K>(t: Seq<Token<K>>, i: int) -> int decreases i { if i <= 0 { 0 } else if i > t.len() { pos(t, i - 1) } else { pos(t, i - 1) + tlen(t[i - 1]) } }
pub open spec fn tok_ok<K>(t: Seq<Token<K>>) -> bool { t.len() < usize::MAX && pos(t, t.len() as int) <= u32::MAX && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i].span.start <= t[i].span.end }
pub proof fn pos_mono<K>(t: Seq<Token<K>>, i: int, j: int) requires tok_ok(t), 0 <= i <= j ensures 0 <= pos(t, i) <= pos(t, j) <= pos(t, t.len() as int) decreases j {
    if i < j { pos_mono(t, i, j - 1); if j <= t.len() { pos_up(t, j); } else { assert(pos(t, j) == pos(t, j - 1)); } } else { pos_up0(t, i); if i <= t.len() { pos_up(t, i); } else { pos_past(t, i); } }
}
proof fn pos_up0<K>(t: Seq<Token<K>>, i: int) requires tok_ok(t), 0 <= i ensures 0 <= pos(t, i) decreases i { if i > 0 { pos_up0(t, i - 1); } }
proof fn pos_past<K>(t: Seq<Token<K>>, i: int) requires i >= t.len() ensures pos(t, i) == pos(t, t.len() as int) decreases i { if i > t.len() { pos_past(t, i - 1); } }
proof fn pos_up<K>(t: Seq<Token<K>>, i: int) requires tok_ok(t), 0 <= i <= t.len() ensures pos(t, i) <= pos(t, t.len() as int) decreases t.len() - i { if i < t.len() { pos_up(t, i + 1); } }
pub proof fn toks_add<L: Language>(t: Seq<Token<L::TokenType>>, a: int, b: int, c: int) requires a <= b <= c ensures toks::<L>(t, a, b) + toks::<L>(t, b, c) =~= toks::<L>(t, a, c) { }

//@src projects/oak-core/src/parser/state.rs
//@gsub /Arc::from\(Vec::new\(\)\)/ => Tokens::empty()
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /&self\.children\[(\w+)\.\.\]/ => slice_from(&self.children, \1)
//@gsub /L::TokenType::is_ignored\(&token\.kind\)/ => token.kind.is_ignored()
//@gsub /GreenNode::new\(kind, children_slice\)/ => GreenNode::<L>::new(kind, children_slice)
#[verifier::reject_recursive_types(L)]
//@item TokenSource
#[verifier::reject_recursive_types(L)]
//@item TreeSink
impl<L: Language> TokenSource<L> {
//@fn TokenSource::new -> r
    ensures r.tokens == tokens, r.index == 0,
//@end
//@fn TokenSource::current -> r
    ensures r == (if self.index < self.tokens@.len() { Some(&self.tokens@[self.index as int]) } else { None }),
//@end
//@fn TokenSource::peek_at -> r
    requires self.index + offset <= usize::MAX,
    ensures r == (if self.index + offset < self.tokens@.len() { Some(&self.tokens@[self.index + offset]) } else { None }),
//@end
//@fn TokenSource::advance
    requires old(self).index < usize::MAX,
    ensures final(self).tokens == old(self).tokens, final(self).index == old(self).index + 1,
//@end
//@fn TokenSource::is_end -> r
    ensures r == (self.index >= self.tokens@.len()),
//@end
//@fn TokenSource::index -> r
    ensures r == self.index,
//@end
//@fn TokenSource::set_index
    ensures final(self).tokens == old(self).tokens, final(self).index == index,
//@end
//@fn Clone for TokenSource::clone -> r
//@sub /fn clone\(/ => fn clone_v(
    ensures r.tokens@ == self.tokens@, r.index == self.index,
//@end
}
impl<'a, L: Language> TreeSink<'a, L> {
    pub open spec fn ok(&self) -> bool { all_wf(self.children@) && total(self.children@) <= u32::MAX }
    /// One more tree behind the others.
    pub open spec fn pushed(&self, o: &Self, t: GreenTree<'a, L>) -> bool { self.arena == o.arena && self.children@ == o.children@.push(t) }
    pub open spec fn leafed(&self, o: &Self, kind: L::TokenType, len: int) -> bool { let t = self.children@.last(); self.children@ =~= o.children@.push(t) && self.arena == o.arena && t is Leaf && t->Leaf_0.kind == kind && t->Leaf_0.length == len }
    pub proof fn push_facts(c: Seq<GreenTree<'a, L>>, t: GreenTree<'a, L>) ensures total(c.push(t)) == total(c) + glen(t), spell(c.push(t)) == spell(c) + spell_tree(t) { spell_push(c, t); before_same(c.push(t), c, c.len() as int); }
//@fn TreeSink::new -> r
    ensures r.children@ == Seq::<GreenTree<'a, L>>::empty(), r.arena == arena,
//@end
//@fn TreeSink::push_leaf
    requires len <= u32::MAX,
    ensures final(self).leafed(old(self), kind, len as int),
//@end
//@fn TreeSink::push_leaf_with_metadata
    requires len <= u32::MAX,
    ensures final(self).leafed(old(self), kind, len as int),
//@end
//@fn TreeSink::push_node
    ensures final(self).pushed(old(self), GreenTree::Node(node)),
//@end
//@fn TreeSink::checkpoint -> r
    ensures r == self.children@.len(),
//@end
//@fn TreeSink::arena -> r
    ensures r == self.arena,
//@end
//@fn TreeSink::restore
    ensures final(self).arena == old(self).arena, final(self).children@ == (if checkpoint <= old(self).children@.len() { old(self).children@.take(checkpoint as int) } else { old(self).children@ }),
//@end
//@fn TreeSink::finish_node -> r
    requires old(self).ok(), checkpoint <= old(self).children@.len(),
    ensures final(self).ok(), final(self).arena == old(self).arena,
        r.kind == kind, r.children@ == old(self).children@.skip(checkpoint as int), wf(*r),
        final(self).children@ == old(self).children@.take(checkpoint as int).push(GreenTree::Node(r)),
        // the leaves stay what they were
        spell(final(self).children@) == spell(old(self).children@), total(final(self).children@) == total(old(self).children@),
//@body
    proof {
        let c = self.children@; let a = c.take(checkpoint as int); let b = c.skip(checkpoint as int);
        assert(a + b =~= c); before_add(a, b, b.len() as int); spell_add(a, b);
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies wf_tree(b[i]) by { assert(wf_tree(c[checkpoint + i])); }
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies wf_tree(a[i]) by { assert(wf_tree(c[i])); }
    }
//@after /let node_ref = [^;]*;/
    proof {
        let a = old(self).children@.take(checkpoint as int);
        spell_node(*node_ref, node_ref.children@.len() as int); assert(node_ref.children@.take(node_ref.children@.len() as int) =~= node_ref.children@);
        Self::push_facts(a, GreenTree::Node(node_ref));
        assert(wf_tree(GreenTree::Node(node_ref)));
    }
//@end
}
#[verifier::reject_recursive_types(L)]
//@item ParserState
/// A piece of a grammar: whatever it does, it leaves the trees in front of it alone.
pub trait Rule<'a, L: Language, S: Source + ?Sized, T>: Sized {
    spec fn ready(&self, st: &ParserState<'a, L, S>) -> bool;
    fn call(self, st: &mut ParserState<'a, L, S>) -> (r: Result<T, OakError>)
        requires self.ready(old(st)), old(st).inv(),
        ensures final(st).inv(), final(st).behind(old(st));
}
impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
    pub open spec fn t(&self) -> Seq<Token<L::TokenType>> { self.tokens.tokens@ }
    pub open spec fn at_i(&self) -> int { self.tokens.index as int }
    pub open spec fn kids(&self) -> Seq<GreenTree<'a, L>> { self.sink.children@ }
    /// Not more text in the trees than in the tokens before the position.
    pub open spec fn inv(&self) -> bool { self.inv_at(self.at_i()) }
    pub open spec fn inv_at(&self, i: int) -> bool { tok_ok(self.t()) && all_wf(self.kids()) && total(self.kids()) <= pos(self.t(), i) }
    /// The current token is none that grammars never see.
    pub open spec fn rest(&self) -> bool { self.at_i() < self.t().len() ==> !self.t()[self.at_i()].kind.trivia() }
    pub open spec fn cur(&self) -> Option<L::TokenType> { if self.at_i() < self.t().len() { Some(self.t()[self.at_i()].kind) } else { None } }
    /// Start of the current token, or the end of the text.
    pub open spec fn here(&self) -> nat { if self.at_i() < self.t().len() { self.t()[self.at_i()].span.start as nat } else { self.source.len() } }
    pub open spec fn fixed(&self, o: &Self) -> bool { self.tokens.tokens == o.tokens.tokens && self.sink.arena == o.sink.arena && self.source == o.source && self.incremental == o.incremental }
    /// Position and trees are as they were.
    pub open spec fn still(&self, o: &Self) -> bool { self.fixed(o) && self.tokens.index == o.tokens.index && self.sink.children@ == o.sink.children@ }
    /// The trees that were there are still there.
    pub open spec fn behind(&self, o: &Self) -> bool { self.tokens.tokens == o.tokens.tokens && self.sink.arena == o.sink.arena && self.source == o.source && o.kids().len() <= self.kids().len() && self.kids().take(o.kids().len() as int) =~= o.kids() && o.errors@.len() <= self.errors@.len() && self.errors@.take(o.errors@.len() as int) =~= o.errors@ }
    /// From o to here, all the tokens passed were put into the tree, in order: nothing lost, nothing twice.
    pub open spec fn kept(&self, o: &Self) -> bool { o.at_i() <= self.at_i() && spell(self.kids()) =~= spell(o.kids()) + toks::<L>(self.t(), o.at_i(), self.at_i()) }
    /// Only tokens no grammar sees lie between a and b.
    pub open spec fn gap(&self, a: int, b: int) -> bool { forall|i: int| #![trigger self.t()[i]] a <= i < b ==> self.t()[i].kind.trivia() }
    pub open spec fn one_error(&self, o: &Self, at: nat) -> bool { self.still(o) && self.errors@.len() == o.errors@.len() + 1 && self.errors@.drop_last() =~= o.errors@ && self.errors@.last().at() == at && file_of(self.errors@.last().k()) == Some(self.source.sid()) }
    proof fn token_step(&self) requires self.inv(), self.at_i() < self.t().len() ensures 0 <= tlen(self.t()[self.at_i()]), total(self.kids()) + tlen(self.t()[self.at_i()]) <= pos(self.t(), self.at_i() + 1) <= u32::MAX, pos(self.t(), self.at_i() + 1) == pos(self.t(), self.at_i()) + tlen(self.t()[self.at_i()]) { pos_mono(self.t(), self.at_i() + 1, self.t().len() as int); let t = self.t()[self.at_i()]; assert(t.span.start <= t.span.end); }
    /// A leaf for the current token keeps everything in step.
    proof fn leaf_step(&self, o: &Self) requires o.inv(), o.at_i() < o.t().len(), self.t() == o.t(), self.sink.leafed(&o.sink, o.t()[o.at_i()].kind, tlen(o.t()[o.at_i()])) ensures self.inv_at(o.at_i() + 1), spell(self.kids()) =~= spell(o.kids()) + toks::<L>(o.t(), o.at_i(), o.at_i() + 1), forall|c: int| c > o.at_i() ==> toks::<L>(o.t(), o.at_i(), o.at_i() + 1) + #[trigger] toks::<L>(o.t(), o.at_i() + 1, c) =~= toks::<L>(o.t(), o.at_i(), c) {
        o.token_step(); TreeSink::push_facts(o.kids(), self.kids().last());
        assert forall|i: int| #![trigger self.kids()[i]] 0 <= i < self.kids().len() implies wf_tree(self.kids()[i]) by { if i < o.kids().len() { assert(self.kids()[i] == o.kids()[i]); assert(wf_tree(o.kids()[i])); } }
        assert(toks::<L>(o.t(), o.at_i(), o.at_i() + 1) =~= spell_tree(self.kids().last()));
    }
    pub proof fn kept_trans(&self, m: &Self, o: &Self) requires self.kept(m), m.kept(o), self.t() == m.t(), m.t() == o.t() ensures self.kept(o) { toks_add::<L>(o.t(), o.at_i(), m.at_i(), self.at_i()); }
//@fn ParserState::arena -> r
    ensures r == self.sink.arena,
//@end
//@fn ParserState::current_offset -> r
//@sub /self\.tokens\.current\(\)\.map\(\|t\| t\.span\.start\)\.unwrap_or_else\(\|\| self\.source\.length\(\)\)/ => match self.tokens.current() { Some(t) => t.span.start, None => self.source.length() }
    ensures r == self.here(),
//@end
//@gsub /self\.tokens\.current\(\)\.map\(\|t\| t\.span\.start\)\.unwrap_or\(self\.source\.length\(\)\)/ => (match self.tokens.current() { Some(t) => t.span.start, None => self.source.length() })
//@fn ParserState::syntax_error -> r
    ensures final(self).one_error(old(self), old(self).here()), r == final(self).errors@.last(),
//@end
//@fn ParserState::record_unexpected_token
    ensures final(self).one_error(old(self), old(self).here()),
//@end
//@fn ParserState::record_expected
    ensures final(self).one_error(old(self), old(self).here()),
//@end
//@fn ParserState::record_expected_name
    ensures final(self).one_error(old(self), old(self).here()),
//@end
//@fn ParserState::record_trailing_comma_not_allowed
    ensures final(self).one_error(old(self), old(self).here()),
//@end
//@fn ParserState::record_unexpected_eof
    ensures final(self).one_error(old(self), old(self).source.len()),
//@end
//@fn ParserState::unexpected_eof -> r
    ensures final(self).one_error(old(self), old(self).source.len()), r == final(self).errors@.last(),
//@end
//@fn ParserState::current -> r
    ensures r == (if self.at_i() < self.t().len() { Some(&self.t()[self.at_i()]) } else { None }),
//@end
//@gsub /std::borrow::Cow<'_, str>/ => Text<'_>
//@fn ParserState::peek_text -> r
//@sub /self\.current\(\)\.map\(\|t\| self\.source\.get_text_in\((.*?)\)\)/ => match self.current() { Some(t) => Some(self.source.get_text_in(\1)), None => None }
    ensures r is Some == (self.at_i() < self.t().len()), r is Some ==> r->0@ == self.source.cut(self.t()[self.at_i()].span.start as int, self.t()[self.at_i()].span.end as int),
//@end
//@fn ParserState::peek_kind -> r
//@sub /self\.current\(\)\.map\(\|t\| t\.kind\)/ => match self.current() { Some(t) => Some(t.kind), None => None }
    ensures r == self.cur(),
//@end
//@fn ParserState::peek_at -> r
    requires self.at_i() + offset <= usize::MAX,
    ensures r == (if self.at_i() + offset < self.t().len() { Some(&self.t()[self.at_i() + offset]) } else { None }),
//@end
//@fn ParserState::peek_kind_at -> r
//@sub /self\.tokens\.peek_at\(offset\)\.map\(\|t\| t\.kind\)/ => match self.tokens.peek_at(offset) { Some(t) => Some(t.kind), None => None }
    requires self.at_i() + offset <= usize::MAX,
    ensures r == (if self.at_i() + offset < self.t().len() { Some(self.t()[self.at_i() + offset].kind) } else { None }),
//@end
//@fn ParserState::not_at_end -> r
    ensures r == (self.at_i() < self.t().len()),
//@end
//@fn ParserState::at -> r
//@sub /self\.peek_kind\(\) == Some\(kind\)/ => (match self.peek_kind() { Some(k) => k.same(&kind), None => false })
    ensures r == (self.cur() == Some(kind)),
//@end
//@fn ParserState::not_at -> r
    ensures r == (self.cur() != Some(kind)),
//@end
//@fn ParserState::skip_trivia
    requires old(self).inv(),
    ensures final(self).inv(), final(self).rest(), final(self).kept(old(self)), final(self).behind(old(self)), final(self).fixed(old(self)), final(self).errors@ == old(self).errors@,
        final(self).gap(old(self).at_i(), final(self).at_i()),
        old(self).rest() ==> final(self).still(old(self)),
        final(self).at_i() <= old(self).t().len() || final(self).at_i() == old(self).at_i(),
//@loop 1
    invariant self.inv(), self.kept(old(self)), self.behind(old(self)), self.fixed(old(self)), self.errors@ == old(self).errors@, self.gap(old(self).at_i(), self.at_i()), self.at_i() <= self.t().len() || self.at_i() == old(self).at_i(),
        old(self).rest() ==> self.still(old(self)),
    ensures self.rest(),
    decreases self.t().len() - self.at_i(),
//@loopstart 1
    let ghost b4 = *self;
    proof { self.token_step(); }
//@loopend 1
    proof { self.leaf_step(&b4); self.kept_trans(&b4, old(self)); }
//@end
//@fn ParserState::advance
    requires old(self).inv_at(old(self).at_i() + 1), old(self).at_i() < usize::MAX,
    ensures final(self).inv(), final(self).rest(), final(self).behind(old(self)), final(self).fixed(old(self)), final(self).errors@ == old(self).errors@,
        // the current token is passed over: it is not put into the tree
        old(self).at_i() < final(self).at_i(), final(self).at_i() <= old(self).t().len() || final(self).at_i() == old(self).at_i() + 1, final(self).gap(old(self).at_i() + 1, final(self).at_i()),
        spell(final(self).kids()) =~= spell(old(self).kids()) + toks::<L>(final(self).t(), old(self).at_i() + 1, final(self).at_i()),
//@end
//@fn ParserState::bump
    requires old(self).inv(),
    ensures final(self).inv(), old(self).rest() || old(self).at_i() < old(self).t().len() ==> final(self).rest(), final(self).kept(old(self)), final(self).behind(old(self)), final(self).fixed(old(self)), final(self).errors@ == old(self).errors@,
        old(self).at_i() < old(self).t().len() ==> old(self).at_i() < final(self).at_i() <= final(self).t().len() && final(self).gap(old(self).at_i() + 1, final(self).at_i()),
        old(self).at_i() >= old(self).t().len() ==> final(self).still(old(self)),
//@body
    proof { if self.at_i() < self.t().len() { self.token_step(); } }
//@before /self\.advance\(\)/
    proof { self.leaf_step(old(self)); }
//@end
//@fn ParserState::eat -> r
    requires old(self).inv(),
    ensures final(self).inv(), old(self).rest() ==> final(self).rest(), final(self).kept(old(self)), final(self).behind(old(self)), final(self).fixed(old(self)), final(self).errors@ == old(self).errors@,
        r == (old(self).cur() == Some(kind)), !r ==> final(self).still(old(self)),
        r ==> old(self).at_i() < final(self).at_i() <= final(self).t().len() && final(self).gap(old(self).at_i() + 1, final(self).at_i()),
//@end
//@fn ParserState::expect -> r
//@sub /format!\("\{:\?\}", kind\)/ => kind_name(kind)
    requires old(self).inv(),
    ensures final(self).inv(), old(self).rest() ==> final(self).rest(), final(self).kept(old(self)), final(self).behind(old(self)), final(self).fixed(old(self)),
        r is Ok == (old(self).cur() == Some(kind)),
        r is Ok ==> final(self).errors@ == old(self).errors@ && old(self).at_i() < final(self).at_i() <= final(self).t().len() && final(self).gap(old(self).at_i() + 1, final(self).at_i()),
        r is Err ==> final(self).one_error(old(self), old(self).here()),
//@end
//@fn ParserState::checkpoint -> r
    ensures r.0 == self.at_i(), r.1 == self.kids().len(),
//@end
//@fn ParserState::finish_at -> r
    requires old(self).inv(), checkpoint.1 <= old(self).kids().len(),
    ensures final(self).inv(), final(self).fixed(old(self)), final(self).at_i() == old(self).at_i(), final(self).errors@ == old(self).errors@,
        r.kind == kind, r.children@ == old(self).kids().skip(checkpoint.1 as int), wf(*r),
        final(self).kids() == old(self).kids().take(checkpoint.1 as int).push(GreenTree::Node(r)),
        final(self).kept(old(self)), total(final(self).kids()) == total(old(self).kids()),
//@body
    proof { pos_mono(self.t(), self.at_i(), self.at_i()); }
//@end
    /// Tokens were passed, but only those no grammar sees were put into the tree.
    pub open spec fn skipped(&self, o: &Self) -> bool { self.inv() && self.behind(o) && self.fixed(o) && self.errors@ == o.errors@ && o.at_i() <= self.at_i() }
//@fn ParserState::advance_until
    requires old(self).inv(),
    ensures final(self).skipped(old(self)), old(self).rest() ==> final(self).rest(),
        // stands on the token it was sent to, or at the end
        final(self).cur() == Some(kind) || final(self).at_i() >= final(self).t().len(),
        forall|i: int| #![trigger final(self).t()[i]] old(self).at_i() <= i < final(self).at_i() && i < final(self).t().len() ==> final(self).t()[i].kind != kind || final(self).t()[i].kind.trivia(),
//@loop 1
    invariant self.skipped(old(self)), old(self).rest() ==> self.rest(), forall|i: int| #![trigger self.t()[i]] old(self).at_i() <= i < self.at_i() && i < self.t().len() ==> self.t()[i].kind != kind || self.t()[i].kind.trivia(),
    decreases self.t().len() - self.at_i(),
//@loopstart 1
    proof { pos_mono(self.t(), self.at_i(), self.at_i() + 1); }
//@end
    pub fn at_any(&self, kinds: &[L::TokenType]) -> (r: bool) ensures r == (self.cur() is Some && kinds@.contains(self.cur()->0)) {
        for i in 0..kinds.len() invariant forall|j: int| 0 <= j < i ==> self.cur() != Some(#[trigger] kinds@[j]) { if self.at(kinds[i]) { return true; } }
        false
    }
//@fn ParserState::advance_until_any
//@sub /kinds\.iter\(\)\.any\(\|&k\| self\.at\(k\)\)/ => self.at_any(kinds)
    requires old(self).inv(),
    ensures final(self).skipped(old(self)), old(self).rest() ==> final(self).rest(),
        final(self).cur() is Some ==> kinds@.contains(final(self).cur()->0),
        forall|i: int| #![trigger final(self).t()[i]] old(self).at_i() <= i < final(self).at_i() && i < final(self).t().len() ==> !kinds@.contains(final(self).t()[i].kind) || final(self).t()[i].kind.trivia(),
//@loop 1
    invariant self.skipped(old(self)), old(self).rest() ==> self.rest(), forall|i: int| #![trigger self.t()[i]] old(self).at_i() <= i < self.at_i() && i < self.t().len() ==> !kinds@.contains(self.t()[i].kind) || self.t()[i].kind.trivia(),
    decreases self.t().len() - self.at_i(),
//@loopstart 1
    proof { pos_mono(self.t(), self.at_i(), self.at_i() + 1); }
//@end
    /// Number of tokens a grammar sees between a and b.
    pub open spec fn seen(&self, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { self.seen(a, b - 1) + if self.t()[b - 1].kind.trivia() { 0int } else { 1int } } }
    /// i is the n-th token from the current one that a grammar sees.
    pub open spec fn nth(&self, n: int, i: int) -> bool { self.at_i() <= i < self.t().len() && !self.t()[i].kind.trivia() && self.seen(self.at_i(), i) == n }
//@fn ParserState::peek_non_trivia_at -> r
//@sub /mut n: usize/ => m: usize
//@sub /let mut offset = 0;/ => let mut n = m; let mut offset: usize = 0;
//@sub /!L::TokenType::is_ignored\(&token\.kind\)/ => !token.kind.is_ignored()
    requires self.at_i() <= self.t().len() < usize::MAX,
    ensures r is Some ==> exists|i: int| self.nth(m as int, i) && *r->0 == #[trigger] self.t()[i],
        r is None ==> self.seen(self.at_i(), self.t().len() as int) <= m,
//@loop 1
    invariant self.at_i() + offset <= self.t().len() < usize::MAX, n <= m, self.seen(self.at_i(), self.at_i() + offset) + n == m,
    ensures self.at_i() + offset == self.t().len(),
    decreases self.t().len() - self.at_i() - offset,
//@end
//@fn ParserState::peek_non_trivia_kind_at -> r
//@sub /self\.peek_non_trivia_at\(n\)\.map\(\|t\| t\.kind\)/ => match self.peek_non_trivia_at(n) { Some(t) => Some(t.kind), None => None }
    requires self.at_i() <= self.t().len() < usize::MAX,
    ensures r is Some ==> exists|i: int| self.nth(n as int, i) && r->0 == (#[trigger] self.t()[i]).kind,
        r is None ==> self.seen(self.at_i(), self.t().len() as int) <= n,
//@end
//@fn ParserState::restore
//@sub /\(token_index, tree_checkpoint\): \(usize, usize\)/ => cp: (usize, usize)
//@sub /self\.tokens\.set_index/ => let (token_index, tree_checkpoint) = cp; self.tokens.set_index
    requires cp.1 <= old(self).kids().len(),
    ensures final(self).fixed(old(self)), final(self).errors@ == old(self).errors@, final(self).at_i() == cp.0, final(self).kids() == old(self).kids().take(cp.1 as int),
//@end
//@gsub /F: FnOnce\(&mut Self\) -> Result<(\w+|\(\)), OakError>/ => F: Rule<'a, L, S, \1>
//@gsub /\bparser\(self\)/ => parser.call(self)
//@fn ParserState::try_parse -> r
    requires old(self).inv(), parser.ready(old(self)),
    ensures final(self).inv(), final(self).behind(old(self)),
        // a failed attempt leaves no trace in position and trees
        r is Err ==> final(self).at_i() == old(self).at_i() && final(self).kids() == old(self).kids(),
//@end
//@fn ParserState::try_parse_with_error -> r
    requires old(self).inv(), parser.ready(old(self)),
    ensures final(self).inv(), final(self).behind(old(self)),
        r is Err ==> final(self).at_i() == old(self).at_i() && final(self).kids() == old(self).kids(),
//@end
//@fn ParserState::checkpoint_before -> r
//@sub /for i in \(0\.\.sink_checkpoint\)\.rev\(\) \{/ => let mut i = sink_checkpoint; while i > 0 { i = i - 1;
//@sub /std::ptr::eq\(\*n, node\)/ => same_node(*n, node)
    ensures *final(self) == *old(self), r.1 <= old(self).kids().len(), r.1 < old(self).kids().len() ==> old(self).kids()[r.1 as int] == GreenTree::Node(node),
        // the last place where the node stands
        forall|k: int| #![trigger old(self).kids()[k]] r.1 < k < old(self).kids().len() ==> old(self).kids()[k] != GreenTree::Node(node), r.1 == old(self).kids().len() ==> forall|k: int| #![trigger old(self).kids()[k]] 0 <= k < old(self).kids().len() ==> old(self).kids()[k] != GreenTree::Node(node),
//@loop 1
    invariant *self == *old(self), sink_checkpoint == self.kids().len(), i <= sink_checkpoint, forall|k: int| #![trigger old(self).kids()[k]] i <= k < old(self).kids().len() ==> old(self).kids()[k] != GreenTree::Node(node),
    decreases i,
//@end
//@fn ParserState::push_child
    ensures final(self).fixed(old(self)), final(self).at_i() == old(self).at_i(), final(self).errors@ == old(self).errors@, final(self).kids() == old(self).kids().push(GreenTree::Node(node)),
//@end
//@fn ParserState::finish -> r
//@sub /crate::parser::ParseOutput<'a, L>/ => OakDiagnostics<&'a GreenNode<'a, L>>
//@sub /crate::errors::OakDiagnostics/ => OakDiagnostics
    ensures r.result == result, r.diagnostics@ == self.errors@,
//@end
//@fn ParserState::new -> r
//@sub /errors\.extend\(([^;]*)\);/ => let mut more = \1; errors.append(&mut more);
    requires lex_output.result is Ok ==> tok_ok(lex_output.result->Ok_0@),
    ensures r.inv(), r.rest(), r.source == source, r.sink.arena == arena,
        r.t() == (match lex_output.result { Ok(t) => t@, Err(_) => Seq::empty() }),
        // every token so far is in the tree; every diagnostic of the lexer is on record
        spell(r.kids()) =~= toks::<L>(r.t(), 0, r.at_i()),
        r.errors@ == (match lex_output.result { Ok(_) => lex_output.diagnostics@, Err(e) => seq![e] + lex_output.diagnostics@ }),
//@end
//@fn ParserState::nested -> r
    ensures r.t() == self.t(), r.at_i() == self.at_i(), r.kids() == Seq::<GreenTree<'a, L>>::empty(), r.errors@.len() == 0, r.source == self.source, r.sink.arena == self.sink.arena,
//@end
}
