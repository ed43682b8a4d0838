#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include text_model.vrs
use text_model::{cb, get_ok, str_slice};
//@include text_out.vrs
//@include cow_out.vrs
// ---- the language pieces used here (assumed) -----------------------------------------------------
//@src projects/oak-core/src/language/mod.rs
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item UniversalTokenRole
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item UniversalElementRole
pub trait TokenRole: Sized { spec fn uni(&self) -> UniversalTokenRole; fn universal(&self) -> (r: UniversalTokenRole) ensures r == self.uni(); }
pub trait ElementRole: Sized { spec fn uni(&self) -> UniversalElementRole; fn universal(&self) -> (r: UniversalElementRole) ensures r == self.uni(); }
pub trait TokenType: Copy {
    type Role: TokenRole;
    spec fn rl(&self) -> Self::Role;
    fn role(&self) -> (r: Self::Role) ensures r == self.rl();
//@fn trait TokenType::is_universal -> r
    ensures r == (self.rl().uni() == role),
//@end
}
pub trait ElementType: Copy {
    type Role: ElementRole;
    spec fn rl(&self) -> Self::Role;
    /// How the kind prints (`{:?}`).
    spec fn shown(&self) -> Seq<char>;
    fn role(&self) -> (r: Self::Role) ensures r == self.rl();
    fn debug_v(&self) -> (r: String) ensures r@ == self.shown();
//@fn trait ElementType::is_universal -> r
    ensures r == (self.rl().uni() == role),
//@end
}
pub trait Language: Sized { type TokenType: TokenType; type ElementType: ElementType; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
//@import tree_red.vrs
//@gsubclear
//@fmt
//@gsub /Range<usize>/ => RangeU
//@gsub /\bRange \{/ => RangeU {
//@gsub /core::range::RangeU/ => RangeU
//@gsub /(?:oak_core::)?Arc<str>/ => Arcstr
//@gsub /impl Into<Arcstr>/ => Arcstr
//@gsub /uri\.into\(\)/ => uri
//@gsub /(\w+)\.to_string\(\)\.into\(\)/ => arc_of(\1)
//@gsub /\.to_string\(\)/ => .to_string_v()
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /(?:oak_core::tree::)(Red\w+)/ => \1
//@gsub /crate::(GreenTree)/ => \1
//@gsub /core::range::Range/ => RangeU
//@gsub /for (\w+) in (\w+)\.children\(\) \{/ => let mut it = \2.children(); loop { let \1 = match it.next() { Some(\1) => \1, None => break };
/// `Arc<str>`: a shared text.
pub struct Arcstr { pub t: String }
#[verifier::external_body] pub fn arc_of(s: &str) -> (r: Arcstr) ensures r.t@ == s@ { unimplemented!() }
pub trait Same: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl Same for String { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
impl Same for Option<String> { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
impl Same for Arcstr { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
impl Same for RangeU { fn clone_v(&self) -> (r: Self) { *self } }
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn bytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
proof fn lemma_child<'a, L: Language>(n: RedNode<'a, L>, k: int, child: RedTree<'a, L>)
    requires wf(*n.green), ok(n), 0 <= k < n.green.children@.len(), placed(child, n.green.children@[k], n.offset + before(n.green.children@, k)),
    ensures child is Node ==> wf(*child->Node_0.green) && ok(child->Node_0) && (decreases_to!(*n.green => *child->Node_0.green)),
{ lemma_hit(n, child); }
/// Texts are the same when their bytes are.
proof fn lemma_inj(a: Seq<char>, b: Seq<char>) ensures bytes(a) == bytes(b) <==> a == b { vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
// ---- what a walk meets -----------------------------------------------------------------------------
/// A node, or a leaf, and where it lies.
#[verifier::reject_recursive_types(L)]
pub enum Met<'a, L: Language> { N { green: GreenNode<'a, L>, at: int }, T { kind: L::TokenType, from: int, to: int } }
/// The node, then what lies below it, child after child; a leaf by itself.
pub open spec fn pre<'a, L: Language>(t: GreenTree<'a, L>, at: int) -> Seq<Met<'a, L>> decreases t, 0int {
    match t { GreenTree::Node(n) => seq![Met::N { green: *n, at }] + below(*n, n.children@.len() as int, at), GreenTree::Leaf(l) => seq![Met::T { kind: l.kind, from: at, to: at + l.length }] }
}
pub open spec fn below<'a, L: Language>(n: GreenNode<'a, L>, k: int, at: int) -> Seq<Met<'a, L>> decreases n, k {
    if k <= 0 || k > n.children@.len() { Seq::empty() } else { below(n, k - 1, at) + pre(n.children@[k - 1], at + before(n.children@, k - 1)) }
}
/// The leaves among them, in order: the text.
pub open spec fn met_leaves<'a, L: Language>(v: Seq<Met<'a, L>>) -> Seq<(L::TokenType, int, int)> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match v.last() { Met::T { kind, from, to } => met_leaves(v.drop_last()).push((kind, from, to)), _ => met_leaves(v.drop_last()) } }
}
pub open spec fn plain<L: Language>(v: Seq<At<L>>) -> Seq<(L::TokenType, int, int)> { v.map_values(|x: At<L>| (x.leaf.kind, x.from, x.from + x.leaf.length)) }
proof fn lemma_met_add<'a, L: Language>(a: Seq<Met<'a, L>>, b: Seq<Met<'a, L>>) ensures met_leaves(a + b) == met_leaves(a) + met_leaves(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(met_leaves(a) + met_leaves(b) =~= met_leaves(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_met_add(a, b.drop_last()); assert((a + b).last() == b.last());
        match b.last() { Met::T { kind, from, to } => { assert((met_leaves(a) + met_leaves(b.drop_last())).push((kind, from, to)) =~= met_leaves(a) + met_leaves(b.drop_last()).push((kind, from, to))); } _ => {} } }
}
/// The leaves a walk meets are the leaves of the tree, each once, in order.
pub proof fn theorem_leaves<'a, L: Language>(n: GreenNode<'a, L>, k: int, at: int) requires 0 <= k <= n.children@.len() ensures met_leaves(below(n, k, at)) == plain(leaves(n, k, at)) decreases n, k {
    if k > 0 {
        let c = n.children@[k - 1]; let b = at + before(n.children@, k - 1);
        theorem_leaves(n, k - 1, at); theorem_leaves_tree(c, b);
        lemma_met_add(below(n, k - 1, at), pre(c, b));
        assert(plain(leaves(n, k - 1, at) + leaves_tree(c, b)) =~= plain(leaves(n, k - 1, at)) + plain(leaves_tree(c, b)));
    } else { assert(met_leaves(below(n, k, at)) =~= plain(leaves(n, k, at))); }
}
pub proof fn theorem_leaves_tree<'a, L: Language>(t: GreenTree<'a, L>, at: int) ensures met_leaves(pre(t, at)) == plain(leaves_tree(t, at)) decreases t, 0int {
    reveal_with_fuel(met_leaves, 2);
    match t {
        GreenTree::Node(n) => { theorem_leaves(*n, n.children@.len() as int, at); let h = seq![Met::N { green: *n, at }]; lemma_met_add(h, below(*n, n.children@.len() as int, at)); assert(h.drop_last() =~= Seq::empty()); assert(met_leaves(h) =~= Seq::empty()); assert(Seq::<(L::TokenType, int, int)>::empty() + met_leaves(below(*n, n.children@.len() as int, at)) =~= met_leaves(below(*n, n.children@.len() as int, at))); }
        GreenTree::Leaf(l) => { let p = pre(t, at); assert(p.drop_last() =~= Seq::empty()); assert(met_leaves(p) =~= plain(leaves_tree(t, at))); }
    }
}
pub open spec fn pre_red<'a, L: Language>(r: RedTree<'a, L>) -> Seq<Met<'a, L>> {
    match r { RedTree::Node(n) => seq![met(r)] + below(*n.green, n.green.children@.len() as int, n.offset as int), RedTree::Leaf(l) => seq![met(r)] }
}
pub open spec fn met<'a, L: Language>(r: RedTree<'a, L>) -> Met<'a, L> {
    match r { RedTree::Node(n) => Met::N { green: *n.green, at: n.offset as int }, RedTree::Leaf(l) => Met::T { kind: l.kind, from: l.span.start as int, to: l.span.end as int } }
}
proof fn lemma_pre<'a, L: Language>(r: RedTree<'a, L>, g: GreenTree<'a, L>, at: int) requires placed(r, g, at) ensures pre_red(r) == pre(g, at) {}
// ---- walking with a visitor ------------------------------------------------------------------------
/// These are the children of a node, in order, each at its place.
pub open spec fn kids<'a, L: Language>(v: Seq<RedTree<'a, L>>, n: RedNode<'a, L>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> placed(#[trigger] v[i], n.green.children@[i], n.offset + before(n.green.children@, i)) }
pub trait Visitor<'a, L: Language>: Sized {
    /// What the visitor has been handed so far.
    spec fn handed(&self) -> Seq<RedTree<'a, L>>;
    fn visit_node(&mut self, node: RedNode<'a, L>) requires wf(*node.green), ok(node) ensures final(self).handed() == old(self).handed().push(RedTree::Node(node));
    fn visit_token(&mut self, token: RedLeaf<L>) ensures final(self).handed() == old(self).handed().push(RedTree::Leaf(token));
//@src projects/oak-core/src/visitor/mod.rs
//@fn trait Visitor::walk_node
    requires wf(*node.green), ok(node),
    // every child once, in order
    ensures final(self).handed().take(old(self).handed().len() as int) == old(self).handed(), final(self).handed().len() >= old(self).handed().len(),
        kids(final(self).handed().skip(old(self).handed().len() as int), node, node.green.children@.len() as int),
//@loop 1
    invariant_except_break kids(self.handed().skip(first.len() as int), node, it.index as int),
    invariant it.inv(), it.node == Some(node), wf(*node.green), ok(node), first == old(self).handed(), self.handed().len() >= first.len(), self.handed().take(first.len() as int) == first,
    ensures kids(self.handed().skip(first.len() as int), node, node.green.children@.len() as int),
    decreases it.left(),
//@body
    let ghost first = self.handed();
    proof { assert(self.handed().take(first.len() as int) =~= first); }
//@before /match child \{/
    let ghost done = self.handed();
    proof { lemma_child(node, it.index as int - 1, child); }
//@loopend 1
    proof {
        assert(self.handed() =~= done.push(child));
        assert(self.handed().take(first.len() as int) =~= done.take(first.len() as int));
        assert(self.handed().skip(first.len() as int) =~= done.skip(first.len() as int).push(child));
    }
//@end
}
// ---- the pre-order iterator --------------------------------------------------------------------------
#[verifier::reject_recursive_types(L)]
//@item PreOrder
/// What is still to come: what lies below the top of the stack, then below the next, ...
pub open spec fn rest<'a, L: Language>(s: Seq<RedTree<'a, L>>) -> Seq<Met<'a, L>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { pre_red(s.last()) + rest(s.drop_last()) } }
pub open spec fn fine<'a, L: Language>(t: RedTree<'a, L>) -> bool { t is Node ==> wf(*t->Node_0.green) && ok(t->Node_0) }
/// The children from the k-th on.
pub open spec fn from<'a, L: Language>(n: GreenNode<'a, L>, k: int, at: int) -> Seq<Met<'a, L>> decreases n.children@.len() - k {
    if k < 0 || k >= n.children@.len() { Seq::empty() } else { pre(n.children@[k], at + before(n.children@, k)) + from(n, k + 1, at) }
}
proof fn lemma_from<'a, L: Language>(n: GreenNode<'a, L>, k: int, at: int) requires 0 <= k <= n.children@.len() ensures below(n, k, at) + from(n, k, at) == below(n, n.children@.len() as int, at) decreases n.children@.len() - k {
    if k < n.children@.len() { lemma_from(n, k + 1, at); assert(below(n, k, at) + from(n, k, at) =~= below(n, k + 1, at) + from(n, k + 1, at)); } else { assert(below(n, k, at) + from(n, k, at) =~= below(n, k, at)); }
}
impl<'a, L: Language> PreOrder<'a, L> {
    pub open spec fn inv(&self) -> bool { forall|i: int| 0 <= i < self.stack@.len() ==> fine(#[trigger] self.stack@[i]) }
//@fn PreOrder::new -> r
    requires fine(root),
    ensures r.inv(), rest(r.stack@) == pre_red(root),
//@sub /Self \{ stack: vec!\[root\] \}/ => let r = Self { stack: vec![root] }; proof { reveal_with_fuel(rest, 2); assert(r.stack@ =~= seq![root]); assert(r.stack@.drop_last() =~= Seq::empty()); assert(rest(r.stack@) =~= pre_red(root)); } r
//@end
//@fn Iterator for PreOrder::next -> r
    requires old(self).inv(),
    ensures final(self).inv(), r is None <==> rest(old(self).stack@).len() == 0, r is None ==> final(self).stack@ == old(self).stack@,
        // what was first to come, and the rest is still to come
        r is Some ==> fine(r->0) && rest(old(self).stack@) == seq![met(r->0)] + rest(final(self).stack@),
//@sub /Self::Item/ => RedTree<'a, L>
//@sub /for child in children\.iter\(\)\.rev\(\) \{/ => let mut i = children.len(); while i > 0 { i = i - 1; let child = &children[i];
//@loop 1
    invariant 0 <= i <= children@.len(), children == node.green.children, wf(*node.green), ok(node), offset == node.offset + before(children@, i as int), self.inv(),
        rest(self.stack@) == from(*node.green, i as int, node.offset as int) + below_top,
    decreases i,
//@loopstart 1
    let ghost was = self.stack@;
    proof { before_in(*node.green, i as int - 1); assert(wf_tree(children@[i as int - 1])); if children@[i as int - 1] is Node { let c = children@[i as int - 1]->Node_0; assert(sums(*c)); } }
//@loopend 1
    proof {
        let t = self.stack@.last();
        assert(self.stack@.drop_last() =~= was);
        lemma_pre(t, children@[i as int], offset as int);
        assert(rest(self.stack@) =~= from(*node.green, i as int, node.offset as int) + below_top);
        assert forall|j: int| 0 <= j < self.stack@.len() implies fine(#[trigger] self.stack@[j]) by { if j < was.len() { assert(was[j] == self.stack@[j]); } }
    }
//@after /let next = self\.stack\.pop\(\)\?;/
    let ghost below_top = rest(self.stack@);
    proof { assert(self.stack@ =~= old(self).stack@.drop_last()); assert(fine(next)) by { assert(old(self).stack@[old(self).stack@.len() - 1] == next); }
        assert forall|j: int| 0 <= j < self.stack@.len() implies fine(#[trigger] self.stack@[j]) by { assert(old(self).stack@[j] == self.stack@[j]); }
        if next is Leaf { assert(rest(old(self).stack@) =~= seq![met(next)] + rest(self.stack@)); } }
//@before /let children = /
    proof { assert(from(*node.green, node.green.children@.len() as int, node.offset as int) + below_top =~= below_top); }
//@afterloop 1
    proof { lemma_from(*node.green, 0, node.offset as int); assert(below(*node.green, 0, node.offset as int) + from(*node.green, 0, node.offset as int) =~= from(*node.green, 0, node.offset as int));
        assert(rest(old(self).stack@) =~= seq![met(next)] + rest(self.stack@)); }
//@end
}
/// A full walk from the root meets exactly the elements of the tree, parents before what lies below them, and the leaves are those of the tree.
pub fn walk_all<'a, L: Language>(root: RedTree<'a, L>) -> (r: Vec<RedTree<'a, L>>)
    requires fine(root),
    ensures r@.map_values(|t: RedTree<'a, L>| met(t)) == pre_red(root),
{
    let mut it = PreOrder::new(root);
    let mut out: Vec<RedTree<'a, L>> = Vec::new();
    proof { assert(out@.map_values(|t: RedTree<'a, L>| met(t)) + rest(it.stack@) =~= pre_red(root)); }
    loop
        invariant_except_break out@.map_values(|t: RedTree<'a, L>| met(t)) + rest(it.stack@) == pre_red(root),
        invariant it.inv(),
        ensures out@.map_values(|t: RedTree<'a, L>| met(t)) == pre_red(root),
        decreases rest(it.stack@).len(),
    {
        let ghost was = it.stack@; let ghost o = out@;
        match it.next() {
            None => { proof { assert(out@.map_values(|t: RedTree<'a, L>| met(t)) + rest(was) =~= out@.map_values(|t: RedTree<'a, L>| met(t))); } break; }
            Some(t) => { out.push(t); proof { assert(out@.map_values(|t: RedTree<'a, L>| met(t)) =~= o.map_values(|t: RedTree<'a, L>| met(t)).push(met(t))); assert(out@.map_values(|t: RedTree<'a, L>| met(t)) + rest(it.stack@) =~= o.map_values(|t: RedTree<'a, L>| met(t)) + rest(was)); } }
        }
    }
    out
}
// ---- references ----------------------------------------------------------------------------------------
//@src projects/oak-navigation/src/lib.rs
//@item Location
#[verifier::reject_recursive_types(L)]
//@item SimpleReferenceFinder
pub open spec fn is_name<K: TokenType>(k: K) -> bool { k.rl().uni() == UniversalTokenRole::Name }
/// The places of the leaves that are names and spell `name`, in order.
pub open spec fn uses<L: Language>(v: Seq<At<L>>, name: Seq<u8>, src: Seq<u8>) -> Seq<(int, int)> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { let x = v.last(); let p = uses(v.drop_last(), name, src); if hits(x, name, src) { p.push((x.from, x.from + x.leaf.length)) } else { p } }
}
pub open spec fn hits<L: Language>(x: At<L>, name: Seq<u8>, src: Seq<u8>) -> bool { is_name(x.leaf.kind) && src.subrange(x.from, x.from + x.leaf.length) == name }
proof fn lemma_uses_add<L: Language>(a: Seq<At<L>>, b: Seq<At<L>>, name: Seq<u8>, src: Seq<u8>) ensures uses(a + b, name, src) == uses(a, name, src) + uses(b, name, src) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(uses(a, name, src) + uses(b, name, src) =~= uses(a, name, src)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_uses_add(a, b.drop_last(), name, src); assert((a + b).last() == b.last()); let x = b.last();
        if hits(x, name, src) { assert((uses(a, name, src) + uses(b.drop_last(), name, src)).push((x.from, x.from + x.leaf.length)) =~= uses(a, name, src) + uses(b.drop_last(), name, src).push((x.from, x.from + x.leaf.length))); } }
}
/// Name leaves lie on characters of the text.
pub open spec fn fits<L: Language>(x: At<L>, src: Seq<u8>) -> bool { is_name(x.leaf.kind) ==> get_ok(src, x.from, x.from + x.leaf.length) }
pub open spec fn all_fit<L: Language>(v: Seq<At<L>>, src: Seq<u8>) -> bool { forall|x: At<L>| #[trigger] v.contains(x) ==> fits(x, src) }
pub open spec fn places(v: Seq<Location>) -> Seq<(int, int)> { v.map_values(|l: Location| (l.range.start as int, l.range.end as int)) }
pub open spec fn all_from(v: Seq<Location>, uri: Arcstr) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).uri == uri }
proof fn lemma_sub<L: Language>(n: RedNode<L>, k: int, child: RedTree<L>, src: Seq<u8>)
    requires wf(*n.green), ok(n), 0 <= k < n.green.children@.len(), placed(child, n.green.children@[k], n.offset + before(n.green.children@, k)), all_fit(all(n), src),
    ensures child is Node ==> wf(*child->Node_0.green) && ok(child->Node_0) && (decreases_to!(*n.green => *child->Node_0.green)) && all_fit(all(child->Node_0), src) && all(child->Node_0) == leaves_tree(n.green.children@[k], n.offset + before(n.green.children@, k)),
        child is Leaf ==> (is_name(child->Leaf_0.kind) ==> get_ok(src, child->Leaf_0.span.start as int, child->Leaf_0.span.end as int)),
{
    lemma_hit(n, child);
    if child is Node { assert forall|x: At<L>| #[trigger] all(child->Node_0).contains(x) implies fits(x, src) by { assert(all(n).contains(x)); } }
    else { let x = choose|x: At<L>| #[trigger] all(n).contains(x) && x.from == child->Leaf_0.span.start && x.from + x.leaf.length == child->Leaf_0.span.end && x.leaf.kind == child->Leaf_0.kind; assert(fits(x, src)); }
}
impl<'a, L: Language> SimpleReferenceFinder<'a, L> {
    pub open spec fn same(&self, o: &Self) -> bool { self.name == o.name && self.source == o.source && self.uri == o.uri }
    pub open spec fn found(&self, o: &Self, v: Seq<At<L>>) -> bool { places(self.references@) == places(o.references@) + uses(v, o.name.spec_bytes(), o.source.spec_bytes()) && (all_from(o.references@, o.uri) ==> all_from(self.references@, o.uri)) }
//@fn SimpleReferenceFinder::find -> r
    requires wf(*root.green), ok(*root), all_fit(all(*root), source.spec_bytes()),
    ensures places(r@) == uses(all(*root), name.spec_bytes(), source.spec_bytes()), all_from(r@, uri),
//@sub /std::marker::PhantomData/ => core::marker::PhantomData
//@before /finder\.visit_node/
    let ghost f0 = finder;
//@before /finder\.references\s*\}$/
    proof { assert(places(f0.references@) =~= Seq::empty()); assert(places(finder.references@) =~= uses(all(*root), name.spec_bytes(), source.spec_bytes())); }
//@end
//@fn Visitor for SimpleReferenceFinder::visit_node
    requires wf(*node.green), ok(node), all_fit(all(node), old(self).source.spec_bytes()),
    ensures final(self).same(old(self)), final(self).found(old(self), all(node)),
    decreases *node.green, 1int,
//@end
//@fn Visitor for SimpleReferenceFinder::visit_token
    requires is_name(token.kind) ==> get_ok(old(self).source.spec_bytes(), token.span.start as int, token.span.end as int),
    ensures final(self).same(old(self)), forall|x: At<L>| #![trigger hits(x, old(self).name.spec_bytes(), old(self).source.spec_bytes())] x.leaf.kind == token.kind && x.from == token.span.start && x.from + x.leaf.length == token.span.end ==> final(self).found(old(self), seq![x]),
//@sub /&self\.source\[token\.span\.clone\(\)\]/ => str_slice(self.source, token.span.start, token.span.end)
//@sub /text == self\.name/ => str_eq(text, self.name)
//@body
    proof { reveal_with_fuel(uses, 2); assert(places(self.references@) + Seq::<(int, int)>::empty() =~= places(self.references@)); }
//@after /self\.references\.push\([^;]*;/
    proof { let o = old(self).references@; let l = self.references@.last(); assert(places(self.references@) =~= places(o) + seq![(l.range.start as int, l.range.end as int)]); assert(Seq::<(int, int)>::empty().push((l.range.start as int, l.range.end as int)) =~= seq![(l.range.start as int, l.range.end as int)]); assert forall|i: int| all_from(o, self.uri) && 0 <= i < self.references@.len() implies (#[trigger] self.references@[i]).uri == self.uri by { if i < o.len() { assert(o[i] == self.references@[i]); } } }
//@before /if str_eq\(/
    proof { text_model::lemma_str_valid(text); text_model::lemma_str_valid(self.name); lemma_inj(text@, self.name@); }
//@end
//@src projects/oak-core/src/visitor/mod.rs
// the walk again, as this visitor runs it
//@fn trait Visitor::walk_node
    requires wf(*node.green), ok(node), all_fit(all(node), old(self).source.spec_bytes()),
    ensures final(self).same(old(self)), final(self).found(old(self), all(node)),
    decreases *node.green, 0int,
//@loop 1
    invariant_except_break self.found(old(self), leaves(*node.green, it.index as int, node.offset as int)),
    invariant it.inv(), it.node == Some(node), wf(*node.green), ok(node), self.same(old(self)), all_fit(all(node), src), src == old(self).source.spec_bytes(), name == old(self).name.spec_bytes(),
    ensures self.found(old(self), all(node)),
    decreases it.left(),
//@body
    let ghost name = self.name.spec_bytes(); let ghost src = self.source.spec_bytes();
    proof { assert(places(self.references@) + uses(Seq::<At<L>>::empty(), name, src) =~= places(self.references@)); }
//@before /match child \{/
    let ghost done = *self;
    proof { lemma_sub(node, it.index as int - 1, child, src); }
//@loopend 1
    proof {
        let k = it.index as int - 1; let c = node.green.children@[k]; let v = leaves_tree(c, node.offset + before(node.green.children@, k));
        if child is Leaf { assert(hits(v[0], name, src) || !hits(v[0], name, src)); assert(v =~= seq![v[0]]); }
        assert(self.found(&done, v));
        lemma_uses_add(leaves(*node.green, k, node.offset as int), v, name, src);
        assert(places(self.references@) =~= places(old(self).references@) + uses(leaves(*node.green, k + 1, node.offset as int), name, src));
    }
//@end
}
// ---- symbols ---------------------------------------------------------------------------------------------
//@src projects/oak-symbols/src/lib.rs
pub trait Source {
    spec fn text(&self) -> Seq<u8>;
    /// The text there, empty when there is none (P01).
    fn get_text_in(&self, range: RangeU) -> (r: Cow<'_, str>) ensures bytes(r.tx()) == text_at(self.text(), range.start as int, range.end as int);
}
pub open spec fn text_at(src: Seq<u8>, a: int, b: int) -> Seq<u8> { if get_ok(src, a, b) { src.subrange(a, b) } else { Seq::empty() } }
//@item SymbolInformation
/// A symbol: its name, where it lies, the innermost definition around it.
pub struct Sym { pub name: Seq<u8>, pub from: int, pub to: int, pub container: Option<Seq<u8>> }
pub open spec fn is_def<K: ElementType>(k: K) -> bool { k.rl().uni() == UniversalElementRole::Definition }
/// The text of the first name leaf among the first k children.
pub open spec fn first_name<'a, L: Language>(n: GreenNode<'a, L>, k: int, at: int, src: Seq<u8>) -> Option<Seq<u8>> decreases k {
    if k <= 0 { None } else { match first_name(n, k - 1, at, src) { Some(x) => Some(x), None => match n.children@[k - 1] {
        GreenTree::Leaf(l) => if is_name(l.kind) { Some(text_at(src, at + before(n.children@, k - 1), at + before(n.children@, k - 1) + l.length)) } else { None },
        GreenTree::Node(_) => None } } }
}
proof fn lemma_first<'a, L: Language>(n: GreenNode<'a, L>, k: int, j: int, at: int, src: Seq<u8>) requires 0 <= k <= j, first_name(n, k, at, src) is Some ensures first_name(n, j, at, src) == first_name(n, k, at, src) decreases j { if k < j { lemma_first(n, k, j - 1, at, src); } }
/// The name of a definition: its first name leaf, `<Kind>` when it has none.
pub open spec fn name_of<'a, L: Language>(n: GreenNode<'a, L>, at: int, src: Seq<u8>) -> Seq<u8> { match first_name(n, n.children@.len() as int, at, src) { Some(x) => x, None => bytes("<"@ + n.kind.shown() + ">"@) } }
/// The definitions in a tree, in document order, each inside the innermost one around it.
pub open spec fn syms<'a, L: Language>(n: GreenNode<'a, L>, at: int, c: Option<Seq<u8>>, src: Seq<u8>) -> Seq<Sym> decreases n, n.children@.len() + 1 {
    if is_def(n.kind) { let name = name_of(n, at, src); seq![Sym { name, from: at, to: at + n.text_len, container: c }] + syms_below(n, n.children@.len() as int, at, Some(name), src) } else { syms_below(n, n.children@.len() as int, at, c, src) }
}
pub open spec fn syms_below<'a, L: Language>(n: GreenNode<'a, L>, k: int, at: int, c: Option<Seq<u8>>, src: Seq<u8>) -> Seq<Sym> decreases n, k {
    if k <= 0 || k > n.children@.len() { Seq::empty() } else { syms_below(n, k - 1, at, c, src) + match n.children@[k - 1] { GreenTree::Node(m) => syms(*m, at + before(n.children@, k - 1), c, src), GreenTree::Leaf(_) => Seq::empty() } }
}
pub open spec fn opt(c: Option<String>) -> Option<Seq<u8>> { match c { Some(s) => Some(bytes(s@)), None => None } }
pub open spec fn sym(s: SymbolInformation) -> Sym { Sym { name: bytes(s.name@), from: s.range.start as int, to: s.range.end as int, container: opt(s.container_name) } }
pub open spec fn says(v: Seq<SymbolInformation>) -> Seq<Sym> { v.map_values(|s: SymbolInformation| sym(s)) }
/// All of them definitions, in this file.
pub open spec fn filed(v: Seq<SymbolInformation>, uri: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).uri.t@ == uri && v[i].role == UniversalElementRole::Definition }
/// v is w with these symbols added.
pub open spec fn added(v: Seq<SymbolInformation>, w: Seq<SymbolInformation>, s: Seq<Sym>, uri: Seq<char>) -> bool { says(v) == says(w) + s && (filed(w, uri) ==> filed(v, uri)) }
/// What is added below one child after another adds up.
proof fn lemma_added<'a, L: Language>(a: Seq<SymbolInformation>, b: Seq<SymbolInformation>, v: Seq<SymbolInformation>, n: GreenNode<'a, L>, k: int, at: int, c: Option<Seq<u8>>, src: Seq<u8>, uri: Seq<char>)
    requires 0 <= k < n.children@.len(), added(b, a, syms_below(n, k, at, c, src), uri), added(v, b, match n.children@[k] { GreenTree::Node(m) => syms(*m, at + before(n.children@, k), c, src), GreenTree::Leaf(_) => Seq::empty() }, uri),
    ensures added(v, a, syms_below(n, k + 1, at, c, src), uri),
{ assert(says(v) =~= says(a) + syms_below(n, k + 1, at, c, src)); }
pub struct UniversalSymbolProvider;
impl UniversalSymbolProvider {
//@fn UniversalSymbolProvider::new -> r
//@end
//@fn UniversalSymbolProvider::collect_symbols
    requires wf(*node.green), ok(*node),
    ensures added(final(symbols)@, old(symbols)@, syms(*node.green, node.offset as int, opt(container_name), source.text()), uri@),
    decreases *node.green,
//@sub /let mut name = None;/ => let mut name: Option<String> = None;
//@sub /name\.unwrap_or_else\(\|\| (.*?)\);/ => match name { Some(x) => x, None => \1 };
//@sub /format!\("<\{:\?\}>", node\.green\.kind\)/ => format!("<{}>", node.green.kind.debug_v())
//@before /symbols\.push/
    proof { assert(bytes(name@) == name_of(*node.green, node.offset as int, source.text())) by { reveal_strlit("<"); reveal_strlit(">"); assert(Seq::<char>::empty() + "<"@ + node.green.kind.shown() + ">"@ =~= "<"@ + node.green.kind.shown() + ">"@); } }
//@after /symbols\.push\([^;]*;/
    let ghost one = symbols@;
    proof { assert(says(one) + Seq::<Sym>::empty() =~= says(one)); assert(says(one) =~= says(was).push(sym(one.last()))); assert(added(one, was, seq![sym(one.last())], uri@)) by { assert(says(was).push(sym(one.last())) =~= says(was) + seq![sym(one.last())]); assert forall|i: int| filed(was, uri@) && 0 <= i < one.len() implies (#[trigger] one[i]).uri.t@ == uri@ && one[i].role == UniversalElementRole::Definition by { if i < was.len() { assert(was[i] == one[i]); } } } }
//@loop 1
    invariant_except_break name is None, first_name(*node.green, it.index as int, node.offset as int, source.text()) is None,
    invariant it.inv(), it.node == Some(*node), wf(*node.green), ok(*node), symbols == old(symbols),
    ensures opt(name) == first_name(*node.green, node.green.children@.len() as int, node.offset as int, source.text()),
    decreases it.left(),
//@loopstart 1
    proof { }
//@before /break;/
    proof { lemma_first(*node.green, it.index as int, node.green.children@.len() as int, node.offset as int, source.text()); }
//@loop 2
    invariant_except_break added(symbols@, one, syms_below(*node.green, it.index as int, node.offset as int, Some(bytes(name@)), source.text()), uri@),
    invariant it.inv(), it.node == Some(*node), wf(*node.green), ok(*node),
    ensures added(symbols@, one, syms_below(*node.green, node.green.children@.len() as int, node.offset as int, Some(bytes(name@)), source.text()), uri@),
    decreases it.left(),
//@before /if let RedTree::Node\(child_node\) = child/1
    let ghost done = symbols@;
    proof { lemma_child(*node, it.index as int - 1, child); assert(says(done) + Seq::<Sym>::empty() =~= says(done)); }
//@loopend 2
    proof { lemma_added(one, done, symbols@, *node.green, it.index as int - 1, node.offset as int, Some(bytes(name@)), source.text(), uri@); }
//@afterloop 2
    proof { assert(says(symbols@) =~= says(was) + syms(*node.green, node.offset as int, opt(container_name), source.text())); }
//@loop 3
    invariant_except_break added(symbols@, was, syms_below(*node.green, it.index as int, node.offset as int, opt(container_name), source.text()), uri@),
    invariant it.inv(), it.node == Some(*node), wf(*node.green), ok(*node),
    ensures added(symbols@, was, syms_below(*node.green, node.green.children@.len() as int, node.offset as int, opt(container_name), source.text()), uri@),
    decreases it.left(),
//@before /if let RedTree::Node\(child_node\) = child/2
    let ghost done = symbols@;
    proof { lemma_child(*node, it.index as int - 1, child); assert(says(done) + Seq::<Sym>::empty() =~= says(done)); }
//@loopend 3
    proof { lemma_added(was, done, symbols@, *node.green, it.index as int - 1, node.offset as int, opt(container_name), source.text(), uri@); }
//@body
    let ghost was = symbols@;
    proof { assert(says(was) + Seq::<Sym>::empty() =~= says(was)); }
//@end
//@fn SymbolProvider for UniversalSymbolProvider::document_symbols -> r
    requires wf(*root.green), ok(*root),
    ensures says(r@) == syms(*root.green, root.offset as int, None, source.text()), filed(r@, uri@),
//@sub /fn document_symbols</ => fn document_symbols<L: Language, 
//@before /symbols\s*\}$/
    proof { assert(says(Seq::<SymbolInformation>::empty()) + syms(*root.green, root.offset as int, None, source.text()) =~= syms(*root.green, root.offset as int, None, source.text())); }
//@end
}
}
fn main() {}
