#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::vec::*;
use std::sync::Arc;
verus! {
//@include text_model.vrs
use text_model::{cb, get_ok, str_slice};
//@include str_cmp.vrs
//@import doc_layout.vrs
//@gsubclear
// ---- the language pieces used here (assumed) -----------------------------------------------------
//@src projects/oak-core/src/language/mod.rs
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item UniversalTokenRole
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item UniversalElementRole
pub trait TokenType: Copy {
    spec fn uni(&self) -> UniversalTokenRole;
    fn is_universal(&self, role: UniversalTokenRole) -> (r: bool) ensures r == (self.uni() == role);
}
pub trait ElementType: Copy {
    spec fn uni(&self) -> UniversalElementRole;
    fn is_universal(&self, role: UniversalElementRole) -> (r: bool) ensures r == (self.uni() == role);
}
pub trait Language: Sized { type TokenType: TokenType; type ElementType: ElementType; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
//@import tree_red.vrs
//@gsubclear
/// A copy is equal to what it was made from (derived `Clone`, `Arc::clone`).
pub trait Same: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl<T> Same for T { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
/// Derived equality of kinds.
#[verifier::external_body] pub fn kind_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub struct OakError { pub k: u8 }
pub type FormatResult<T> = Result<T, OakError>;
/// `Arc<str>`: a shared text.
pub struct Arcstr { pub t: String }
#[verifier::external_body] pub fn arc_of(s: &str) -> (r: Arcstr) ensures r.t@ == s@ { unimplemented!() }
// ---- documents by value -----------------------------------------------------------------------------
pub enum DocV { Nil, Text(Seq<char>), Concat(Seq<DocV>), Group(Box<DocV>), Indent(Box<DocV>), Line, SoftLine, SoftLineSpace, HardLine }
pub open spec fn dv(d: Document) -> DocV decreases d, 0nat {
    match d { Document::Nil => DocV::Nil, Document::Text(s) => DocV::Text(s.tx()), Document::Concat(v) => DocV::Concat(dvs(v, v@.len())), Document::Group(x) => DocV::Group(Box::new(dv(*x))), Document::Indent(x) => DocV::Indent(Box::new(dv(*x))),
        Document::Line => DocV::Line, Document::SoftLine => DocV::SoftLine, Document::SoftLineSpace => DocV::SoftLineSpace, Document::HardLine => DocV::HardLine }
}
pub open spec fn dvs(v: Vec<Document>, k: nat) -> Seq<DocV> decreases v, k { if k == 0 || k > v@.len() { Seq::empty() } else { dvs(v, (k - 1) as nat).push(dv(v@[k - 1])) } }
/// The literal text of a document.
pub open spec fn words(d: DocV) -> Seq<char> decreases d, 0nat { match d { DocV::Text(s) => s, DocV::Group(x) | DocV::Indent(x) => words(*x), DocV::Concat(v) => wordss(v, v.len()), _ => Seq::empty() } }
pub open spec fn wordss(v: Seq<DocV>, k: nat) -> Seq<char> decreases v, k { if k == 0 || k > v.len() { Seq::empty() } else { wordss(v, (k - 1) as nat) + words(v[k - 1]) } }
proof fn lemma_dvs(v: Vec<Document>, k: nat) requires k <= v@.len() ensures dvs(v, k).len() == k, forall|i: int| 0 <= i < k ==> #[trigger] dvs(v, k)[i] == dv(v@[i]) decreases k { if k > 0 { lemma_dvs(v, (k - 1) as nat); } }
proof fn lemma_words(d: Document) ensures words(dv(d)) == texts(d) decreases d, 0nat {
    match d { Document::Concat(v) => { lemma_wordss(v, v@.len()); lemma_dvs(v, v@.len()); } Document::Group(x) => { lemma_words(*x); } Document::Indent(x) => { lemma_words(*x); } _ => {} }
}
proof fn lemma_wordss(v: Vec<Document>, k: nat) requires k <= v@.len() ensures wordss(dvs(v, v@.len()), k) == textss(v, k) decreases v, k {
    if k > 0 { lemma_wordss(v, (k - 1) as nat); lemma_words(v@[k - 1]); lemma_dvs(v, v@.len()); }
}
/// Building documents.
pub trait IntoCow<'a>: Sized { spec fn ct(&self) -> Seq<char>; fn into_cow(self) -> (r: Cow<'a, str>) ensures r.tx() == self.ct(); }
impl<'a> IntoCow<'a> for &'a str { open spec fn ct(&self) -> Seq<char> { (*self)@ } fn into_cow(self) -> (r: Cow<'a, str>) { Cow::Borrowed(self) } }
impl<'a> IntoCow<'a> for String { open spec fn ct(&self) -> Seq<char> { self@ } fn into_cow(self) -> (r: Cow<'a, str>) { Cow::Owned(self) } }
//@gsub /S: Into<Cow<'a, str>>/ => S: IntoCow<'a>
//@gsub /text\.into\(\)/ => text.into_cow()
//@src projects/oak-pretty-print/src/document/mod.rs
impl<'a> Document<'a> {
//@fn Document::render -> r
    requires room(*self, 0, 0, config),
    ensures r@ == finished(laid(*self, false, 0, St { out: seq![], col: 0 }, config).out, config),
//@end
//@fn Document::text -> r
    ensures dv(r) == DocV::Text(text.ct()),
//@end
//@fn Document::concat -> r
    ensures dv(r) == DocV::Concat(dvs(docs, docs@.len())),
//@end
//@fn Document::group -> r
    ensures dv(r) == DocV::Group(Box::new(dv(doc))),
//@end
//@fn Document::indent -> r
    ensures dv(r) == DocV::Indent(Box::new(dv(doc))),
//@end
}
// ---- where formatting is ----------------------------------------------------------------------------
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /Arc<str>/ => Arcstr
//@gsub /Arc::from\(/ => arc_of(
//@gsub /(\w+)\.kind == kind/ => kind_eq(&\1.kind, &kind)
//@gsub /Box<dyn (?:crate::)?FormatRule<L>>/ => AnyRule<L>
//@gsub /&dyn FormatRule<L>/ => &AnyRule<L>
//@gsub /<'a((?:, L: Language)?)>(\([^{]*, format_children): &dyn Fn\(&RedNode<L>\) -> FormatResult<Document<'a>>\)/ => <'a\1, F: Fn(&RedNode<L>) -> FormatResult<Document<'a>>>\2: &F, Ghost(kids): Ghost<Result<DocV, OakError>>)
//@gsub /, format_children\)/ => , format_children, Ghost(kids))
//@gsub /(existing_rule)\.as_ref\(\)/ => \1
//@gsub /\((rule)\.as_ref\(\)\)/ => (&\1)
//@gsub /&(\w+)\[([\w.]+)\.\.([\w.]+)\]/ => str_slice(\1, \2, \3)
//@src projects/oak-pretty-print/src/formatter/mod.rs
pub struct CommentProcessor { pub k: u8 }
impl CommentProcessor {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn with_preserve_comments(self, preserve: bool) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn with_format_comments(self, format: bool) -> Self { unimplemented!() }
}
//@item FormatOutput
#[verifier::reject_recursive_types(L)]
//@item PathNode
#[verifier::reject_recursive_types(L)]
//@item FormatContext
/// The kinds around the current place, the innermost last.
pub open spec fn kinds<L: Language>(p: Option<Arc<PathNode<L>>>) -> Seq<L::ElementType> decreases p { match p { None => Seq::empty(), Some(n) => kinds(n.parent).push(n.kind) } }
pub open spec fn above<L: Language>(n: &Arc<PathNode<L>>) -> Seq<L::ElementType> { kinds(n.parent) }
proof fn lemma_up<L: Language>(n: &Arc<PathNode<L>>, kind: L::ElementType) ensures kinds(Some(*n)).contains(kind) <==> (n.kind == kind || kinds(n.parent).contains(kind)) {
    let ghost a = above(n); let ghost b = a.push(n.kind);
    assert(kinds(Some(*n)) == b);
    if n.kind == kind { assert(b[a.len() as int] == kind); }
    if a.contains(kind) { let i = choose|i: int| 0 <= i < a.len() && a[i] == kind; assert(b[i] == kind); }
    if b.contains(kind) && n.kind != kind { let i = choose|i: int| 0 <= i < b.len() && b[i] == kind; assert(a[i] == kind); }
}
impl FormatOutput {
//@fn FormatOutput::new -> r
    ensures r.content == content, r.changed == changed,
//@end
}
impl<L: Language> FormatContext<L> {
//@fn FormatContext::new -> r
    ensures *r.config == config, r.source is None, r.depth == 0, r.path is None,
//@end
    /// One node further in.
    pub open spec fn entered(&self, kind: L::ElementType) -> Self { FormatContext { config: self.config, comment_processor: self.comment_processor, source: self.source, depth: (self.depth + 1) as usize, path: Some(Arc::new(PathNode { kind, parent: self.path })) } }
//@fn FormatContext::enter -> r
    requires self.depth < usize::MAX,
    ensures r == self.entered(kind), kinds(r.path) == kinds(self.path).push(kind), r.depth == self.depth + 1,
//@end
//@fn FormatContext::is_inside -> r
    ensures r == kinds(self.path).contains(kind),
//@sub /while let Some\((\w+)\) = (\w+) \{/ => loop { let \1 = match \2 { Some(x) => x, None => break };
//@loop 1
    invariant_except_break kinds(self.path).contains(kind) == kinds(opt(current)).contains(kind),
    ensures !kinds(self.path).contains(kind),
    decreases opt(current),
//@after /current = node\.parent\.as_ref\(\);/
    proof { lemma_up(node, kind); }
//@before /return true/
    proof { lemma_up(node, kind); }
//@end
//@fn FormatContext::parent_kind -> r
    ensures r == (if kinds(self.path).len() >= 2 { Some(kinds(self.path)[kinds(self.path).len() - 2]) } else { None }),
//@sub /self\.path\.as_ref\(\)\.and_then\(\|n\| (.*?)\)\.map\(\|n\| (.*?)\)\s*\}$/ => match self.path.as_ref() { Some(n) => match \1 { Some(n) => Some(\2), None => None }, None => None } }
//@body
    proof { reveal_with_fuel(kinds, 3); }
//@end
}
pub open spec fn opt<T>(p: Option<&T>) -> Option<T> { match p { None => None, Some(x) => Some(*x) } }
// ---- rules ----------------------------------------------------------------------------------------------
/// What a call of the children formatter, or of the formatter, gives.
pub open spec fn vw(r: FormatResult<Document>) -> Result<DocV, OakError> { match r { Ok(d) => Ok(dv(d)), Err(e) => Err(e) } }
pub open spec fn vo(r: FormatResult<Option<Document>>) -> Result<Option<DocV>, OakError> { match r { Ok(Some(d)) => Ok(Some(dv(d))), Ok(None) => Ok(None), Err(e) => Err(e) } }
/// The children formatter may be called on this node, and then gives this.
pub open spec fn gives<'a, L: Language, F: Fn(&RedNode<L>) -> FormatResult<Document<'a>>>(f: F, n: RedNode<L>, kids: Result<DocV, OakError>) -> bool { f.requires((&n,)) && forall|k: FormatResult<Document<'a>>| #[trigger] f.ensures((&n,), k) ==> vw(k) == kids }
/// Any rule: `Box<dyn FormatRule<L>>`. What it says is a function of what it is handed and of how the children of the node format.
#[verifier::reject_recursive_types(L)]
#[verifier::external_body]
pub struct AnyRule<L: Language> { k: core::marker::PhantomData<L> }
impl<L: Language> AnyRule<L> {
    pub uninterp spec fn prio(&self) -> u8;
    pub uninterp spec fn on_node(&self, n: RedNode<L>) -> bool;
    pub uninterp spec fn on_leaf(&self, t: RedLeaf<L>) -> bool;
    pub uninterp spec fn conflict(&self, o: AnyRule<L>) -> bool;
    pub uninterp spec fn says_node(&self, n: RedNode<L>, c: FormatContext<L>, src: Seq<char>, kids: Result<DocV, OakError>) -> Result<Option<DocV>, OakError>;
    pub uninterp spec fn says_leaf(&self, t: RedLeaf<L>, c: FormatContext<L>, src: Seq<char>) -> Result<Option<DocV>, OakError>;
    #[verifier::external_body] pub fn name(&self) -> &str { unimplemented!() }
    #[verifier::external_body] pub fn priority(&self) -> (r: u8) ensures r == self.prio() { unimplemented!() }
    #[verifier::external_body] pub fn applies_to_node(&self, node: &RedNode<L>) -> (r: bool) ensures r == self.on_node(*node) { unimplemented!() }
    #[verifier::external_body] pub fn applies_to_token(&self, token: &RedLeaf<L>) -> (r: bool) ensures r == self.on_leaf(*token) { unimplemented!() }
    #[verifier::external_body] pub fn conflicts_with(&self, other: &AnyRule<L>) -> (r: bool) ensures r == self.conflict(*other) { unimplemented!() }
    #[verifier::external_body] pub fn apply_node<'a, F: Fn(&RedNode<L>) -> FormatResult<Document<'a>>>(&self, node: &RedNode<L>, context: &FormatContext<L>, source: &'a str, format_children: &F, Ghost(kids): Ghost<Result<DocV, OakError>>) -> (r: FormatResult<Option<Document<'a>>>)
        requires gives(*format_children, *node, kids),
        ensures vo(r) == self.says_node(*node, *context, source@, kids),
    { unimplemented!() }
    #[verifier::external_body] pub fn apply_token<'a>(&self, token: &RedLeaf<L>, context: &FormatContext<L>, source: &'a str) -> (r: FormatResult<Option<Document<'a>>>)
        ensures vo(r) == self.says_leaf(*token, *context, source@),
    { unimplemented!() }
}
/// Highest priority first.
pub open spec fn sorted<L: Language>(s: Seq<AnyRule<L>>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).prio() >= (#[trigger] s[j]).prio() }
/// Where a rule belongs: behind those of its priority or a higher one.
pub open spec fn place<L: Language>(s: Seq<AnyRule<L>>, x: AnyRule<L>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.last().prio() >= x.prio() { s.len() as int } else { place(s.drop_last(), x) } }
pub open spec fn put<L: Language>(s: Seq<AnyRule<L>>, x: AnyRule<L>) -> Seq<AnyRule<L>> { s.insert(place(s, x), x) }
/// A stable sort by descending priority.
pub open spec fn stable<L: Language>(s: Seq<AnyRule<L>>) -> Seq<AnyRule<L>> decreases s.len() { if s.len() == 0 { s } else { put(stable(s.drop_last()), s.last()) } }
pub trait SortRules<L: Language> {
    spec fn rs(&self) -> Seq<AnyRule<L>>;
    fn sort_desc(&mut self) ensures final(self).rs() == stable(old(self).rs());
    fn sort_asc(&mut self);
}
impl<L: Language> SortRules<L> for Vec<AnyRule<L>> { open spec fn rs(&self) -> Seq<AnyRule<L>> { self@ }
    #[verifier::external_body] fn sort_desc(&mut self) { unimplemented!() }
    #[verifier::external_body] fn sort_asc(&mut self) { unimplemented!() }
}
proof fn lemma_place<L: Language>(s: Seq<AnyRule<L>>, x: AnyRule<L>)
    requires sorted(s),
    ensures 0 <= place(s, x) <= s.len(), forall|i: int| 0 <= i < place(s, x) ==> (#[trigger] s[i]).prio() >= x.prio(), forall|i: int| place(s, x) <= i < s.len() ==> (#[trigger] s[i]).prio() < x.prio(),
    decreases s.len(),
{
    if s.len() > 0 {
        if s.last().prio() >= x.prio() { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).prio() >= x.prio() by { assert(s[i].prio() >= s[s.len() - 1].prio()); } }
        else { let t = s.drop_last(); assert(sorted(t)); lemma_place(t, x); assert forall|i: int| place(t, x) <= i < s.len() implies (#[trigger] s[i]).prio() < x.prio() by { if i < t.len() { assert(t[i] == s[i]); } } assert forall|i: int| 0 <= i < place(t, x) implies (#[trigger] s[i]).prio() >= x.prio() by { assert(t[i] == s[i]); } }
    }
}
pub proof fn lemma_put<L: Language>(s: Seq<AnyRule<L>>, x: AnyRule<L>) requires sorted(s) ensures sorted(put(s, x)) {
    lemma_place(s, x); let p = place(s, x); let t = put(s, x);
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).prio() >= (#[trigger] t[j]).prio() by {
        let a = if i < p { i } else { i - 1 }; let b = if j < p { j } else { j - 1 };
        if i != p { assert(t[i] == s[a]); } if j != p { assert(t[j] == s[b]); }
    }
}
/// What is sorted stays as it is.
proof fn lemma_stable<L: Language>(s: Seq<AnyRule<L>>) requires sorted(s) ensures stable(s) == s decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert(sorted(t)); lemma_stable(t); lemma_place(t, s.last());
        assert(place(t, s.last()) == t.len()) by { if t.len() > 0 { assert(t[t.len() - 1].prio() >= s[s.len() - 1].prio()); assert(s[t.len() - 1].prio() >= s[s.len() - 1].prio()); } }
        assert(t.insert(t.len() as int, s.last()) =~= s); }
}
/// The elements a test keeps, in order (`iter().filter(..)`).
#[verifier::external_body] pub fn keep<'a, L: Language, F: Fn(&AnyRule<L>) -> bool>(v: &'a Vec<AnyRule<L>>, f: F) -> (r: Vec<&'a AnyRule<L>>)
    requires forall|x: AnyRule<L>| f.requires((&x,)),
    ensures forall|p: spec_fn(AnyRule<L>) -> bool| (forall|x: AnyRule<L>, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)) ==> plain_rules(r@) == #[trigger] v@.filter(p),
{ unimplemented!() }
pub open spec fn plain_rules<'a, L: Language>(v: Seq<&'a AnyRule<L>>) -> Seq<AnyRule<L>> { v.map_values(|x: &AnyRule<L>| *x) }
pub open spec fn for_node<L: Language>(s: Seq<AnyRule<L>>, n: RedNode<L>) -> Seq<AnyRule<L>> { s.filter(|r: AnyRule<L>| r.on_node(n)) }
pub open spec fn for_leaf<L: Language>(s: Seq<AnyRule<L>>, t: RedLeaf<L>) -> Seq<AnyRule<L>> { s.filter(|r: AnyRule<L>| r.on_leaf(t)) }
/// The answer of the first rule, from the k-th on, that has one.
pub open spec fn first_node<L: Language>(s: Seq<AnyRule<L>>, k: int, n: RedNode<L>, c: FormatContext<L>, src: Seq<char>, kids: Result<DocV, OakError>) -> Result<Option<DocV>, OakError> decreases s.len() - k {
    if k < 0 || k >= s.len() { Ok(None) } else { match s[k].says_node(n, c, src, kids) { Ok(None) => first_node(s, k + 1, n, c, src, kids), x => x } }
}
pub open spec fn first_leaf<L: Language>(s: Seq<AnyRule<L>>, k: int, t: RedLeaf<L>, c: FormatContext<L>, src: Seq<char>) -> Result<Option<DocV>, OakError> decreases s.len() - k {
    if k < 0 || k >= s.len() { Ok(None) } else { match s[k].says_leaf(t, c, src) { Ok(None) => first_leaf(s, k + 1, t, c, src), x => x } }
}
#[verifier::external_body] pub fn conflict_error() -> OakError { unimplemented!() }
//@gsub /\.sort_by\(\|(\w+), (\w+)\| \2\.priority\(\)\.cmp\(&\1\.priority\(\)\)\)/ => .sort_desc()
//@gsub /\.sort_by\(\|(\w+), (\w+)\| \1\.priority\(\)\.cmp\(&\2\.priority\(\)\)\)/ => .sort_asc()
//@src projects/oak-pretty-print/src/rules/mod.rs
#[verifier::reject_recursive_types(L)]
//@item RuleSet
/// It conflicts with one of them.
pub open spec fn clash<L: Language>(s: Seq<AnyRule<L>>, x: AnyRule<L>) -> bool { exists|i: int| 0 <= i < s.len() && (x.conflict(#[trigger] s[i]) || s[i].conflict(x)) }
/// The rules after adding some, one after the other, up to the first that conflicts.
pub open spec fn added<L: Language>(s: Seq<AnyRule<L>>, v: Seq<AnyRule<L>>, k: int) -> (Seq<AnyRule<L>>, bool) decreases k {
    if k <= 0 { (s, true) } else { let (t, ok) = added(s, v, k - 1); if !ok || clash(t, v[k - 1]) { (t, false) } else { (put(t, v[k - 1]), true) } }
}
impl<L: Language> RuleSet<L> {
    pub open spec fn inv(&self) -> bool { sorted(self.rules@) }
//@fn Default for RuleSet::default -> r
    ensures r.rules@.len() == 0,
//@end
//@fn RuleSet::new -> r
    ensures r.inv(), r.rules@.len() == 0,
//@end
//@fn RuleSet::add_rule -> r
    requires old(self).inv(),
    ensures final(self).inv(), r is Err <==> clash(old(self).rules@, rule),
        r is Err ==> final(self).rules@ == old(self).rules@,
        r is Ok ==> final(self).rules@ == put(old(self).rules@, rule),
//@sub /OakError::format_error\(.*?\)\)\);/ => conflict_error());
//@iter 1 it
//@loop 1
    invariant it.seq().len() == self.rules@.len(), forall|i: int| 0 <= i < self.rules@.len() ==> *#[trigger] it.seq()[i] == self.rules@[i], *self == *old(self), self.inv(),
        forall|i: int| 0 <= i < it.index@ ==> !rule.conflict(#[trigger] self.rules@[i]) && !self.rules@[i].conflict(rule),
//@before /return Err/
    proof { assert(clash(self.rules@, rule)); }
//@before /self\.rules\.push\(rule\);/
    let ghost x = rule;
//@after /self\.rules\.push\(rule\);/
    proof { assert(self.rules@.drop_last() =~= old(self).rules@); lemma_stable(old(self).rules@); lemma_put(old(self).rules@, x); }
//@end
//@gsub /impl Iterator<Item = &'a dyn FormatRule<L>> \+ 'a/ => Vec<&'a AnyRule<L>>
//@gsub /for (\w+) in (self\.applicable_rules_for_\w+\(\w+\)) \{/ => let rs = \2; for i in 0..rs.len() { let \1 = rs[i];
//@fn RuleSet::applicable_rules_for_node -> r
    ensures plain_rules(r@) == for_node(self.rules@, *node),
//@sub /self\.rules\.iter\(\)\.filter\(move \|(\w+)\| (.*?)\)\.map\(\|rule\| rule(?:\.as_ref\(\))?\)/ => keep(&self.rules, |\1: &AnyRule<L>| -> (b: bool) ensures b == \1.on_node(*node) { \2 })
//@end
//@fn RuleSet::applicable_rules_for_token -> r
    ensures plain_rules(r@) == for_leaf(self.rules@, *token),
//@sub /self\.rules\.iter\(\)\.filter\(move \|(\w+)\| (.*?)\)\.map\(\|rule\| rule(?:\.as_ref\(\))?\)/ => keep(&self.rules, |\1: &AnyRule<L>| -> (b: bool) ensures b == \1.on_leaf(*token) { \2 })
//@end
//@fn RuleSet::apply_node_rules -> r
    requires gives(*format_children, *node, kids),
    ensures vo(r) == first_node(for_node(self.rules@, *node), 0, *node, *context, source@, kids),
//@loop 1
    invariant gives(*format_children, *node, kids), plain_rules(rs@) == for_node(self.rules@, *node), first_node(plain_rules(rs@), 0, *node, *context, source@, kids) == first_node(plain_rules(rs@), i as int, *node, *context, source@, kids),
//@loopstart 1
    proof { assert(plain_rules(rs@)[i as int] == *rs@[i as int]); }
//@end
//@fn RuleSet::apply_token_rules -> r
    ensures vo(r) == first_leaf(for_leaf(self.rules@, *token), 0, *token, *context, source@),
//@loop 1
    invariant plain_rules(rs@) == for_leaf(self.rules@, *token), first_leaf(plain_rules(rs@), 0, *token, *context, source@) == first_leaf(plain_rules(rs@), i as int, *token, *context, source@),
//@loopstart 1
    proof { assert(plain_rules(rs@)[i as int] == *rs@[i as int]); }
//@end
//@fn RuleSet::add_rules -> r
    requires old(self).inv(),
    ensures final(self).inv(), (final(self).rules@, r is Ok) == added(old(self).rules@, rules@, rules@.len() as int),
//@iter 1 it
//@loop 1
    invariant it.seq() == all, all == rules@, self.inv(), (self.rules@, true) == added(old(self).rules@, all, it.index@),
//@body
    let ghost all = rules@;
//@loopstart 1
    proof { let k = it.index@; assert(rule == all[k]); if clash(self.rules@, rule) { lemma_stuck(old(self).rules@, all, k + 1, all.len() as int); } }
//@end
}
proof fn lemma_stuck<L: Language>(s: Seq<AnyRule<L>>, v: Seq<AnyRule<L>>, k: int, n: int) requires !added(s, v, k).1, 0 <= k <= n ensures added(s, v, n) == added(s, v, k) decreases n { if k < n { lemma_stuck(s, v, k, n - 1); } }
// ---- the formatter --------------------------------------------------------------------------------------
/// The part of a text from byte a to byte b.
pub open spec fn cut(src: Seq<char>, a: int, b: int) -> Seq<char> { decode_utf8(encode_utf8(src).subrange(a, b)) }
pub open spec fn fmt_node<L: Language>(s: Seq<AnyRule<L>>, n: GreenNode<L>, at: int, c: FormatContext<L>, src: Seq<char>) -> Result<DocV, OakError> decreases n, n.children@.len() + 1 {
    let here = c.entered(n.kind);
    let red = RedNode { green: &n, offset: at as usize };
    let kids = all_kids(fmt_kids(s, n, n.children@.len() as int, at, here, src));
    match first_node(for_node(s, red), 0, red, here, src, kids) { Ok(Some(d)) => Ok(d), Ok(None) => kids, Err(e) => Err(e) }
}
pub open spec fn kids_to<L: Language>(s: Seq<AnyRule<L>>, n: RedNode<L>, k: int, c: &FormatContext<L>, src: Seq<char>) -> Result<Seq<DocV>, OakError> { fmt_kids(s, *n.green, k, n.offset as int, *c, src) }
pub open spec fn kids_of<L: Language>(s: Seq<AnyRule<L>>, n: RedNode<L>, c: &FormatContext<L>, src: Seq<char>) -> Result<DocV, OakError> { all_kids(kids_to(s, n, n.green.children@.len() as int, c, src)) }
pub open spec fn new_context_v<L: Language>(c: &FormatContext<L>) -> FormatContext<L> { *c }
pub open spec fn all_kids(r: Result<Seq<DocV>, OakError>) -> Result<DocV, OakError> { match r { Ok(v) => Ok(DocV::Concat(v)), Err(e) => Err(e) } }
/// The first k children, one after the other, up to the first that fails.
pub open spec fn fmt_kids<L: Language>(s: Seq<AnyRule<L>>, n: GreenNode<L>, k: int, at: int, c: FormatContext<L>, src: Seq<char>) -> Result<Seq<DocV>, OakError> decreases n, k {
    if k <= 0 || k > n.children@.len() { Ok(Seq::empty()) } else { match fmt_kids(s, n, k - 1, at, c, src) { Err(e) => Err(e), Ok(v) => {
        let from = at + before(n.children@, k - 1);
        let d = match n.children@[k - 1] { GreenTree::Node(m) => fmt_node(s, *m, from, c, src), GreenTree::Leaf(l) => fmt_leaf(s, RedLeaf { kind: l.kind, span: RangeU { start: from as usize, end: (from + l.length) as usize } }, c, src) };
        match d { Err(e) => Err(e), Ok(x) => Ok(v.push(x)) } } } }
}
pub open spec fn fmt_leaf<L: Language>(s: Seq<AnyRule<L>>, t: RedLeaf<L>, c: FormatContext<L>, src: Seq<char>) -> Result<DocV, OakError> {
    match first_leaf(for_leaf(s, t), 0, t, c, src) { Ok(Some(d)) => Ok(d), Ok(None) => Ok(DocV::Text(cut(src, t.span.start as int, t.span.end as int))), Err(e) => Err(e) }
}
/// Levels of nodes.
pub open spec fn height<L: Language>(n: GreenNode<L>) -> nat decreases n, n.children@.len() + 1 { 1 + heights(n, n.children@.len() as int) }
pub open spec fn heights<L: Language>(n: GreenNode<L>, k: int) -> nat decreases n, k {
    if k <= 0 || k > n.children@.len() { 0 } else { let a = heights(n, k - 1); let b = match n.children@[k - 1] { GreenTree::Node(m) => height(*m), _ => 0 }; if a < b { b } else { a } }
}
proof fn lemma_heights<L: Language>(n: GreenNode<L>, i: int, k: int) requires 0 <= i < k <= n.children@.len(), n.children@[i] is Node ensures height(*n.children@[i]->Node_0) <= heights(n, k) decreases k { if i < k - 1 { lemma_heights(n, i, k - 1); } }
/// Leaves lie on characters of the text.
pub open spec fn fits<L: Language>(v: Seq<At<L>>, src: Seq<u8>) -> bool { forall|x: At<L>| #[trigger] v.contains(x) ==> get_ok(src, x.from, x.from + x.leaf.length) }
proof fn lemma_kid<L: Language>(n: RedNode<L>, k: int, child: RedTree<L>, src: Seq<u8>)
    requires wf(*n.green), ok(n), 0 <= k < n.green.children@.len(), placed(child, n.green.children@[k], n.offset + before(n.green.children@, k)), fits(all(n), src),
    ensures child is Node ==> wf(*child->Node_0.green) && ok(child->Node_0) && fits(all(child->Node_0), src) && height(*child->Node_0.green) < height(*n.green),
        child is Leaf ==> get_ok(src, child->Leaf_0.span.start as int, child->Leaf_0.span.end as int),
        n.offset + before(n.green.children@, k) + glen(n.green.children@[k]) <= usize::MAX,
{
    before_in(*n.green, k);
    lemma_hit(n, child);
    if child is Node { lemma_heights(*n.green, k, n.green.children@.len() as int); assert forall|x: At<L>| #[trigger] all(child->Node_0).contains(x) implies get_ok(src, x.from, x.from + x.leaf.length) by { assert(all(n).contains(x)); } }
    else { let x = choose|x: At<L>| #[trigger] all(n).contains(x) && x.from == child->Leaf_0.span.start && x.from + x.leaf.length == child->Leaf_0.span.end && x.leaf.kind == child->Leaf_0.kind; assert(get_ok(src, x.from, x.from + x.leaf.length)); }
}
proof fn lemma_fails<L: Language>(s: Seq<AnyRule<L>>, n: GreenNode<L>, k: int, m: int, at: int, c: FormatContext<L>, src: Seq<char>) requires 0 <= k <= m <= n.children@.len() ensures fmt_kids(s, n, k, at, c, src) is Err ==> fmt_kids(s, n, m, at, c, src) == fmt_kids(s, n, k, at, c, src) decreases m { if k < m { lemma_fails(s, n, k, m - 1, at, c, src); } }
proof fn lemma_dvs_push(a: Vec<Document>, b: Vec<Document>) requires b@.len() == a@.len() + 1, b@.drop_last() == a@ ensures dvs(b, b@.len()) == dvs(a, a@.len()).push(dv(b@.last())) { lemma_dvs(a, a@.len()); lemma_dvs(b, b@.len()); assert forall|i: int| 0 <= i < a@.len() implies a@[i] == #[trigger] b@[i] by { assert(b@.drop_last()[i] == b@[i]); } assert(dvs(b, b@.len()) =~= dvs(a, a@.len()).push(dv(b@.last()))); }
//@gsub /create_builtin_rules::<L>\(\)/ => create_builtin_rules::<L>()
//@gsub /, &format_children\)/ => , &format_children, Ghost(kids_of(self.rules.rules@, *node, &new_context, source@)))
//@gsub /for (\w+) in (\w+)\.children\(\) \{/ => let mut it = \2.children(); loop { let \1 = match it.next() { Some(\1) => \1, None => break };
//@gsub /&(\w+)\[([\w.]+)\.\.([\w.]+)\]/ => str_slice(\1, \2, \3)
//@src projects/oak-pretty-print/src/formatter/mod.rs
#[verifier::reject_recursive_types(L)]
//@item Formatter
impl<L: Language + 'static> Formatter<L> {
//@fn Formatter::format_node -> r
    requires wf(*node.green), ok(*node), fits(all(*node), source.spec_bytes()), context.depth + height(*node.green) <= usize::MAX,
    ensures vw(r) == fmt_node(self.rules.rules@, *node.green, node.offset as int, *context, source@),
    decreases *node.green,
//@sub /\|n: &RedNode<L>\| \{/ => |n: &RedNode<L>| -> (r: FormatResult<Document<'a>>) requires *n == *node ensures vw(r) == kids_of(self.rules.rules@, *n, &new_context, source@) {
//@loop 1
    invariant_except_break kids_to(self.rules.rules@, *n, it.index as int, &new_context, source@) == Ok::<Seq<DocV>, OakError>(dvs(children_docs, children_docs@.len())),
    invariant it.inv(), it.node == Some(*n), *n == *node, wf(*n.green), ok(*n), fits(all(*n), source.spec_bytes()), new_context.depth + height(*n.green) <= usize::MAX + 1,
    ensures kids_to(self.rules.rules@, *n, n.green.children@.len() as int, &new_context, source@) == Ok::<Seq<DocV>, OakError>(dvs(children_docs, children_docs@.len())),
    decreases it.left(),
//@before /match child \{/
    let ghost done = children_docs;
    proof { let k = it.index as int - 1; lemma_kid(*n, k, child, source.spec_bytes()); lemma_fails(self.rules.rules@, *n.green, k + 1, n.green.children@.len() as int, n.offset as int, new_context_v(&new_context), source@); }
//@loopend 1
    proof { assert(children_docs@.drop_last() =~= done@); lemma_dvs_push(done, children_docs); }
//@end
//@fn Formatter::format_token -> r
    requires get_ok(source.spec_bytes(), token.span.start as int, token.span.end as int),
    ensures vw(r) == fmt_leaf(self.rules.rules@, *token, *context, source@),
//@after /let text = [^;]*;/
    proof { lemma_cut(source, text, token.span.start as int, token.span.end as int); }
//@end
//@fn Formatter::add_rule -> r
    requires old(self).rules.inv(),
    ensures final(self).rules.inv(), final(self).context == old(self).context, r is Err <==> clash(old(self).rules.rules@, rule),
        final(self).rules.rules@ == (if r is Err { old(self).rules.rules@ } else { put(old(self).rules.rules@, rule) }),
//@end
//@fn Formatter::new -> r
    ensures r.rules.inv(), *r.context.config == config, r.context.depth == 0, all_faithful(r.rules.rules@),
//@iter 1 it
//@loop 1
    invariant formatter.rules.inv(), *formatter.context.config == config, formatter.context.depth == 0, all_faithful(formatter.rules.rules@), all_faithful(it.seq()),
//@loopstart 1
    proof { let k = it.index@; assert(rule == it.seq()[k]); lemma_faithful_put(formatter.rules.rules@, rule); }
//@end
//@fn Formatter::format -> r
    requires wf(*root.green), ok(*root), root.offset + root.green.text_len <= source.spec_bytes().len(), fits(all(*root), source.spec_bytes()), old(self).context.depth + height(*root.green) <= usize::MAX,
        // the columns of what is laid out stay below the machine limit
        forall|c: FormatContext<L>, d: Document| #![trigger at_source(c, old(self).context, source@), dv(d)] at_source(c, old(self).context, source@) && fmt_node(old(self).rules.rules@, *root.green, root.offset as int, c, source@) == Ok::<DocV, OakError>(dv(d)) ==> room(d, 0, 0, *old(self).context.config),
    ensures final(self).rules == old(self).rules, at_source(final(self).context, old(self).context, source@),
        match fmt_node(final(self).rules.rules@, *root.green, root.offset as int, final(self).context, source@) {
            Err(e) => r == Err::<FormatOutput, OakError>(e),
            Ok(v) => r is Ok && (r->Ok_0.changed <==> r->Ok_0.content@ != source@) && exists|d: Document| #[trigger] dv(d) == v && r->Ok_0.content@ == finished(laid(d, false, 0, St { out: seq![], col: 0 }, *final(self).context.config).out, *final(self).context.config),
        },
        // nothing but blanks and line ends is added or lost
        r is Ok && all_faithful(old(self).rules.rules@) && no_ink(old(self).context.config.indent_text.tx()) ==> ink(r->Ok_0.content@) == ink(cut(source@, root.offset as int, root.offset + root.green.text_len)),
//@sub /\(\*self\.context\.config\)\.clone\(\)/ => config_of(&self.context)
//@before /let content = /
    proof { assert(at_source(self.context, old(self).context, source@)); assert(fmt_node(self.rules.rules@, *root.green, root.offset as int, self.context, source@) == Ok::<DocV, OakError>(dv(doc))); lemma_kept_print(self.rules.rules@, *root, self.context_v(), source, doc); }
//@end
    pub open spec fn context_v(&self) -> FormatContext<L> { self.context }
}
/// The context of formatting this source.
pub open spec fn at_source<L: Language>(c: FormatContext<L>, o: FormatContext<L>, src: Seq<char>) -> bool { c.config == o.config && c.comment_processor == o.comment_processor && c.depth == o.depth && c.path == o.path && c.source is Some && c.source->0.t@ == src }
pub fn config_of<L: Language>(c: &FormatContext<L>) -> (r: FormatConfig) ensures r == *c.config { (*c.config).clone_v() }
// ---- nothing is lost ----------------------------------------------------------------------------------
/// A rule that writes what is there, blanks and line ends apart.
pub open spec fn faithful<L: Language>(x: AnyRule<L>) -> bool {
    &&& forall|n: RedNode<L>, c: FormatContext<L>, src: Seq<char>, kids: Result<DocV, OakError>| match #[trigger] x.says_node(n, c, src, kids) { Ok(Some(d)) => kids is Ok && ink(words(d)) == ink(words(kids->Ok_0)), _ => true }
    &&& forall|t: RedLeaf<L>, c: FormatContext<L>, src: Seq<char>| match #[trigger] x.says_leaf(t, c, src) { Ok(Some(d)) => ink(words(d)) == ink(cut(src, t.span.start as int, t.span.end as int)), _ => true }
}
pub open spec fn all_faithful<L: Language>(s: Seq<AnyRule<L>>) -> bool { forall|i: int| 0 <= i < s.len() ==> faithful(#[trigger] s[i]) }
proof fn lemma_faithful_put<L: Language>(s: Seq<AnyRule<L>>, x: AnyRule<L>) requires sorted(s), all_faithful(s), faithful(x) ensures all_faithful(put(s, x)) {
    lemma_place(s, x); let p = place(s, x);
    assert forall|i: int| 0 <= i < put(s, x).len() implies faithful(#[trigger] put(s, x)[i]) by { if i < p { assert(put(s, x)[i] == s[i]); } else if i > p { assert(put(s, x)[i] == s[i - 1]); } }
}
proof fn lemma_first_node<L: Language>(s: Seq<AnyRule<L>>, k: int, n: RedNode<L>, c: FormatContext<L>, src: Seq<char>, kids: Result<DocV, OakError>)
    requires all_faithful(s), 0 <= k,
    ensures match first_node(s, k, n, c, src, kids) { Ok(Some(d)) => kids is Ok && ink(words(d)) == ink(words(kids->Ok_0)), _ => true },
    decreases s.len() - k,
{ if k < s.len() { assert(faithful(s[k])); lemma_first_node(s, k + 1, n, c, src, kids); } }
proof fn lemma_first_leaf<L: Language>(s: Seq<AnyRule<L>>, k: int, t: RedLeaf<L>, c: FormatContext<L>, src: Seq<char>)
    requires all_faithful(s), 0 <= k,
    ensures match first_leaf(s, k, t, c, src) { Ok(Some(d)) => ink(words(d)) == ink(cut(src, t.span.start as int, t.span.end as int)), _ => true },
    decreases s.len() - k,
{ if k < s.len() { assert(faithful(s[k])); lemma_first_leaf(s, k + 1, t, c, src); } }
proof fn lemma_filtered<L: Language>(s: Seq<AnyRule<L>>, p: spec_fn(AnyRule<L>) -> bool) requires all_faithful(s) ensures all_faithful(s.filter(p)) decreases s.len() {
    reveal(Seq::filter);
    if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies faithful(#[trigger] t[i]) by { assert(s[i] == t[i]); } lemma_filtered(t, p); assert(faithful(s[s.len() - 1]));
        let f = t.filter(p); assert forall|i: int| 0 <= i < s.filter(p).len() implies faithful(#[trigger] s.filter(p)[i]) by { if i < f.len() { assert(s.filter(p)[i] == f[i]); } } }
}
/// The text of some leaves, one after the other.
pub open spec fn spelled<L: Language>(v: Seq<At<L>>, src: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { spelled(v.drop_last(), src) + cut(src, v.last().from, v.last().from + v.last().leaf.length) } }
proof fn lemma_spelled_add<L: Language>(a: Seq<At<L>>, b: Seq<At<L>>, src: Seq<char>) ensures spelled(a + b, src) == spelled(a, src) + spelled(b, src) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(spelled(a, src) + Seq::<char>::empty() =~= spelled(a, src)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_spelled_add(a, b.drop_last(), src); assert(spelled(a, src) + spelled(b.drop_last(), src) + cut(src, b.last().from, b.last().from + b.last().leaf.length) =~= spelled(a, src) + spelled(b, src)); }
}
/// Leaves that tile a stretch of the text spell that stretch.
pub proof fn lemma_spelled_all<L: Language>(v: Seq<At<L>>, a: int, b: int, src: Seq<char>)
    requires tile(v, a, b), fits(v, encode_utf8(src)), 0 <= a <= b <= encode_utf8(src).len(),
    ensures spelled(v, src) == cut(src, a, b), v.len() > 0 ==> get_ok(encode_utf8(src), a, b),
    decreases v.len(),
{
    let t = encode_utf8(src);
    if v.len() == 0 { assert(t.subrange(a, b) =~= Seq::<u8>::empty()); encode_utf8_decode_utf8(Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
    else {
        let w = v.drop_last(); let x = v.last();
        assert(v.contains(x)) by { assert(v[v.len() - 1] == x); }
        assert(fits(w, t)) by { assert forall|y: At<L>| #[trigger] w.contains(y) implies get_ok(t, y.from, y.from + y.leaf.length) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == y; assert(v[i] == y); assert(v.contains(y)); } }
        if w.len() > 0 { assert(w[0] == v[0]); assert(v[w.len() - 1].from + v[w.len() - 1].leaf.length == v[w.len() as int].from); assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() - 1 implies w[i].from + w[i].leaf.length == w[i + 1].from by { assert(v[i].from + v[i].leaf.length == v[i + 1].from); } }
        else { assert(x.from == a); }
        assert(tile(w, a, x.from));
        if w.len() > 0 { assert(w.contains(w[w.len() - 1])); lemma_tile_order(w, a, x.from); }
        lemma_spelled_all(w, a, x.from, src);
        encode_utf8_valid_utf8(src);
        if w.len() > 0 { lemma_glue(t, a, x.from, b); } else { assert(Seq::<char>::empty() + cut(src, a, b) =~= cut(src, a, b)); }
    }
}
proof fn lemma_tile_order<L: Language>(v: Seq<At<L>>, a: int, b: int) requires tile(v, a, b) ensures a <= b decreases v.len() {
    if v.len() > 0 { let w = v.drop_last(); let x = v.last(); if w.len() > 0 { assert(w[0] == v[0]); assert(v[w.len() - 1].from + v[w.len() - 1].leaf.length == v[w.len() as int].from); assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() - 1 implies w[i].from + w[i].leaf.length == w[i + 1].from by { assert(v[i].from + v[i].leaf.length == v[i + 1].from); } assert(tile(w, a, x.from)); lemma_tile_order(w, a, x.from); } }
}
proof fn lemma_glue(t: Seq<u8>, a: int, b: int, c: int)
    requires valid_utf8(t), get_ok(t, a, b), get_ok(t, b, c),
    ensures decode_utf8(t.subrange(a, c)) == decode_utf8(t.subrange(a, b)) + decode_utf8(t.subrange(b, c)),
{
    let x = t.subrange(a, b); let y = t.subrange(b, c);
    text_model::lemma_cb(t, a); text_model::lemma_cb(t, b); text_model::lemma_cb(t, c);
    sub_valid(t, a, b); sub_valid(t, b, c);
    decode_utf8_encode_utf8(x); decode_utf8_encode_utf8(y);
    encode_utf8_concat(decode_utf8(x), decode_utf8(y)); encode_utf8_decode_utf8(decode_utf8(x) + decode_utf8(y));
    assert(t.subrange(a, c) =~= x + y);
}
proof fn sub_valid(t: Seq<u8>, a: int, b: int) requires valid_utf8(t), get_ok(t, a, b) ensures valid_utf8(t.subrange(a, b)) {
    text_model::lemma_cb(t, a); text_model::lemma_cb(t, b);
    valid_utf8_split(t, b); assert(t.take(b) =~= t.subrange(0, b));
    let u = t.subrange(0, b);
    assert(is_char_boundary(u, a)) by { text_model::lemma_cb(u, a); if a > 0 && a < b { assert(u[a] == t[a]); } }
    valid_utf8_split(u, a); assert(u.subrange(a, u.len() as int) =~= t.subrange(a, b));
}
/// What a node formats to spells its leaves, blanks and line ends apart.
pub proof fn theorem_kept<L: Language>(s: Seq<AnyRule<L>>, n: GreenNode<L>, at: int, c: FormatContext<L>, src: Seq<char>)
    requires all_faithful(s), wf(n), 0 <= at, at + n.text_len <= usize::MAX,
    ensures match fmt_node(s, n, at, c, src) { Ok(d) => ink(words(d)) == ink(spelled(leaves(n, n.children@.len() as int, at), src)), _ => true },
    decreases n, n.children@.len() + 1,
{
    let here = c.entered(n.kind); let red = RedNode { green: &n, offset: at as usize };
    let kids = all_kids(fmt_kids(s, n, n.children@.len() as int, at, here, src));
    theorem_kept_kids(s, n, n.children@.len() as int, at, here, src);
    lemma_filtered(s, |r: AnyRule<L>| r.on_node(red));
    lemma_first_node(for_node(s, red), 0, red, here, src, kids);
}
pub proof fn theorem_kept_kids<L: Language>(s: Seq<AnyRule<L>>, n: GreenNode<L>, k: int, at: int, c: FormatContext<L>, src: Seq<char>)
    requires all_faithful(s), wf(n), 0 <= at, at + n.text_len <= usize::MAX, 0 <= k <= n.children@.len(),
    ensures match fmt_kids(s, n, k, at, c, src) { Ok(v) => v.len() == k && ink(wordss(v, k as nat)) == ink(spelled(leaves(n, k, at), src)), _ => true },
    decreases n, k,
{
    if k > 0 {
        theorem_kept_kids(s, n, k - 1, at, c, src);
        before_in(n, k - 1);
        let from = at + before(n.children@, k - 1); let g = n.children@[k - 1];
        assert(wf_tree(g));
        lemma_spelled_add(leaves(n, k - 1, at), leaves_tree(g, from), src);
        match g {
            GreenTree::Node(m) => { theorem_kept(s, *m, from, c, src); }
            GreenTree::Leaf(l) => {
                let t = RedLeaf { kind: l.kind, span: RangeU { start: from as usize, end: (from + l.length) as usize } };
                lemma_filtered(s, |r: AnyRule<L>| r.on_leaf(t)); lemma_first_leaf(for_leaf(s, t), 0, t, c, src);
                reveal_with_fuel(spelled, 2); let one = leaves_tree(g, from); assert(one.drop_last() =~= Seq::empty()); assert(spelled(one, src) =~= cut(src, from, from + l.length));
            }
        }
        if let Ok(v) = fmt_kids(s, n, k, at, c, src) {
            let p = fmt_kids(s, n, k - 1, at, c, src)->Ok_0;
            assert(v.drop_last() =~= p); lemma_wordss_pre(v, p, (k - 1) as nat);
            lemma_ink_add(wordss(p, (k - 1) as nat), words(v.last())); lemma_ink_add(spelled(leaves(n, k - 1, at), src), spelled(leaves_tree(g, from), src));
        }
    }
}
proof fn lemma_wordss_pre(v: Seq<DocV>, p: Seq<DocV>, k: nat) requires k <= p.len() <= v.len(), forall|i: int| 0 <= i < p.len() ==> p[i] == v[i] ensures wordss(v, k) == wordss(p, k) decreases k { if k > 0 { lemma_wordss_pre(v, p, (k - 1) as nat); } }
proof fn lemma_kept_print<L: Language>(s: Seq<AnyRule<L>>, root: RedNode<L>, c: FormatContext<L>, source: &str, doc: Document)
    requires wf(*root.green), ok(root), root.offset + root.green.text_len <= source.spec_bytes().len(), fits(all(root), source.spec_bytes()), fmt_node(s, *root.green, root.offset as int, c, source@) == Ok::<DocV, OakError>(dv(doc)),
    ensures all_faithful(s) && no_ink(c.config.indent_text.tx()) ==> ink(finished(laid(doc, false, 0, St { out: seq![], col: 0 }, *c.config).out, *c.config)) == ink(cut(source@, root.offset as int, root.offset + root.green.text_len)),
{
    if all_faithful(s) && no_ink(c.config.indent_text.tx()) {
        let n = *root.green; let at = root.offset as int; let m = n.children@.len() as int; let cf = *c.config; let st = St { out: Seq::<char>::empty(), col: 0 };
        theorem_kept(s, n, at, c, source@); lemma_words(doc);
        theorem_tile(n, m, at); text_model::lemma_str_valid(source);
        lemma_spelled_all(leaves(n, m, at), at, at + n.text_len, source@);
        theorem_text(doc, false, 0, st, cf); theorem_finished(laid(doc, false, 0, st, cf).out, cf);
        assert(ink(Seq::<char>::empty()) =~= Seq::<char>::empty()) by { reveal(Seq::filter); }
        assert(Seq::<char>::empty() + ink(texts(doc)) =~= ink(texts(doc)));
    }
}
// ---- the built-in rules -------------------------------------------------------------------------------
/// What they say.
pub open spec fn says_indent(kids: Result<DocV, OakError>) -> Result<Option<DocV>, OakError> { match kids { Ok(d) => Ok(Some(DocV::Group(Box::new(DocV::Indent(Box::new(DocV::Concat(seq![DocV::Line, d]))))))), Err(e) => Err(e) } }
pub open spec fn says_newline(kids: Result<DocV, OakError>) -> Result<Option<DocV>, OakError> { match kids { Ok(d) => Ok(Some(DocV::Concat(seq![d, DocV::Line]))), Err(e) => Err(e) } }
pub open spec fn says_comma(text: Seq<char>) -> Result<Option<DocV>, OakError> { if text == seq![','] { Ok(Some(DocV::Concat(seq![DocV::Text(seq![',']), DocV::SoftLineSpace]))) } else { Ok(None) } }
/// They write what is there.
pub proof fn theorem_builtin(kids: Result<DocV, OakError>, text: Seq<char>)
    ensures says_indent(kids) is Ok ==> kids is Ok && words(says_indent(kids)->Ok_0->0) == words(kids->Ok_0),
        says_newline(kids) is Ok ==> kids is Ok && words(says_newline(kids)->Ok_0->0) == words(kids->Ok_0),
        says_comma(text) is Ok && says_comma(text)->Ok_0 is Some ==> words(says_comma(text)->Ok_0->0) == text,
{
    reveal_with_fuel(wordss, 3); reveal_with_fuel(words, 4);
    if let Ok(d) = kids {
        let a = seq![DocV::Line, d]; let b = seq![d, DocV::Line];
        assert(wordss(a, 2) =~= words(d)); assert(wordss(b, 2) =~= words(d));
        assert(words(DocV::Concat(a)) == words(d));
        assert(words(DocV::Indent(Box::new(DocV::Concat(a)))) == words(d));
    }
    assert(wordss(seq![DocV::Text(seq![',']), DocV::SoftLineSpace], 2) =~= seq![',']);
}
pub proof fn lemma_two(v: Vec<Document>) requires v@.len() == 2 ensures dvs(v, 2) == seq![dv(v@[0]), dv(v@[1])] { reveal_with_fuel(dvs, 3); assert(dvs(v, 2) =~= seq![dv(v@[0]), dv(v@[1])]); }
pub struct indent;
pub struct statement_newline;
pub struct comma_spacing;
//@gsub /(ElementType|TokenType)::is_universal\(&(\w+(?:\.\w+)*), / => \2.is_universal(
//@gsub /let children_doc = format_children\((\w+), Ghost\(kids\)\)\?/ => let children_doc = format_children(\1)?
//@gsub /Document::concat\(vec!\[(.*?),?\s*\]\)/ => concat2(\1)
//@gsub /(\w+) == (","|'\w')/ => str_eq(\1, \2)
/// `Document::concat(vec![a, b])`.
pub fn concat2<'a>(a: Document<'a>, b: Document<'a>) -> (r: Document<'a>) ensures dv(r) == DocV::Concat(seq![dv(a), dv(b)]) { let v = vec![a, b]; proof { lemma_two(v); } Document::concat(v) }
//@src projects/oak-pretty-print/src/builtin_rules/mod.rs#define_rules
impl indent {
//@fn indent::applies_to_node -> r
    ensures r == (node.green.kind.uni() == UniversalElementRole::Container),
//@sub /fn applies_to_node\(/ => fn applies_to_node<L: Language>(
//@end
//@fn indent::apply_node -> r
    requires gives(*format_children, *node, kids),
    ensures vo(r) == says_indent(kids),
//@sub /fn apply_node<'a/ => fn apply_node<'a, L: Language
//@end
}
impl statement_newline {
//@fn statement_newline::applies_to_node -> r
    ensures r == (node.green.kind.uni() == UniversalElementRole::Statement),
//@sub /fn applies_to_node\(/ => fn applies_to_node<L: Language>(
//@end
//@fn statement_newline::apply_node -> r
    requires gives(*format_children, *node, kids),
    ensures vo(r) == says_newline(kids),
//@sub /fn apply_node<'a/ => fn apply_node<'a, L: Language
//@end
}
impl comma_spacing {
//@fn comma_spacing::applies_to_token -> r
    ensures r == (token.kind.uni() == UniversalTokenRole::Punctuation),
//@sub /fn applies_to_token\(/ => fn applies_to_token<L: Language>(
//@end
//@fn comma_spacing::apply_token -> r
    requires get_ok(source.spec_bytes(), token.span.start as int, token.span.end as int),
    ensures vo(r) == says_comma(cut(source@, token.span.start as int, token.span.end as int)),
//@sub /fn apply_token<'a/ => fn apply_token<'a, L: Language
//@after /let text = [^;]*;/
    proof { lemma_cut(source, text, token.span.start as int, token.span.end as int); reveal_strlit(","); assert(","@ =~= seq![',']); }
//@end
}
/// The list of them, by the macro that wraps them.
#[verifier::external_body] pub fn create_builtin_rules<L: Language + 'static>() -> (r: Vec<AnyRule<L>>) ensures all_faithful(r@) { unimplemented!() }
proof fn lemma_cut(source: &str, text: &str, a: int, b: int) requires get_ok(source.spec_bytes(), a, b), text.spec_bytes() == source.spec_bytes().subrange(a, b) ensures text@ == cut(source@, a, b) { text_model::lemma_str_valid(source); text_model::lemma_str_valid(text); encode_utf8_decode_utf8(text@); }
}
fn main() {}
