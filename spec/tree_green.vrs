/// `core::range::Range<usize>`.
pub struct RangeU { pub start: usize, pub end: usize }
impl Clone for RangeU { fn clone(&self) -> Self { *self } }
impl Copy for RangeU {}
//@gsub /Range<usize>/ => RangeU
//@gsub /\bRange \{/ => RangeU {
//@gsub /std::num::NonZeroU32/ => num::NonZeroU32
//@src projects/oak-core/src/tree/green_tree.rs
#[verifier::reject_recursive_types(L)]
//@item GreenTree
#[verifier::reject_recursive_types(L)]
//@item GreenLeaf
#[verifier::reject_recursive_types(L)]
//@item GreenNode
impl<'a, L: Language> Clone for GreenTree<'a, L> {
//@fn Clone for GreenTree::clone -> r
    ensures r == *self,
//@end
}
impl<'a, L: Language> Copy for GreenTree<'a, L> {}
impl<L: Language> Clone for GreenLeaf<L> {
//@fn Clone for GreenLeaf::clone -> r
    ensures r == *self,
//@end
}
impl<L: Language> Copy for GreenLeaf<L> {}

// ---- what a tree is ------------------------------------------------------------------------------
pub open spec fn glen<L: Language>(t: GreenTree<L>) -> nat { match t { GreenTree::Node(n) => n.text_len as nat, GreenTree::Leaf(l) => l.length as nat } }
/// Total length of the first k of some children.
pub open spec fn before<L: Language>(c: Seq<GreenTree<L>>, k: int) -> nat decreases k { if k <= 0 { 0 } else { before(c, k - 1) + glen(c[k - 1]) } }
/// A node is as long as its children together.
pub open spec fn sums<L: Language>(n: GreenNode<L>) -> bool { n.text_len == before(n.children@, n.children@.len() as int) && n.children@.len() <= usize::MAX }
/// ... and so is every node below it.
pub open spec fn wf<L: Language>(n: GreenNode<L>) -> bool decreases n { &&& sums(n) &&& forall|i: int| #![trigger n.children@[i]] 0 <= i < n.children@.len() ==> wf_tree(n.children@[i]) }
pub open spec fn wf_tree<L: Language>(t: GreenTree<L>) -> bool decreases t { match t { GreenTree::Node(n) => wf(*n), GreenTree::Leaf(_) => true } }
pub proof fn before_mono<L: Language>(c: Seq<GreenTree<L>>, i: int, j: int) requires 0 <= i <= j ensures before(c, i) <= before(c, j) decreases j { if i < j { before_mono(c, i, j - 1); } }
/// The k-th child ends where the next one starts, inside the node.
pub proof fn before_in<L: Language>(n: GreenNode<L>, i: int) requires sums(n), 0 <= i < n.children@.len() ensures before(n.children@, i) + glen(n.children@[i]) == before(n.children@, i + 1) <= n.text_len { before_mono(n.children@, i + 1, n.children@.len() as int); }
/// A leaf and where it lies.
#[verifier::reject_recursive_types(L)]
pub struct At<L: Language> { pub leaf: GreenLeaf<L>, pub from: int }
/// The leaves below a node, left to right, for a node starting at `base`.
pub open spec fn leaves<L: Language>(n: GreenNode<L>, k: int, base: int) -> Seq<At<L>> decreases n, k {
    if k <= 0 || k > n.children@.len() { Seq::empty() } else { leaves(n, k - 1, base) + leaves_tree(n.children@[k - 1], base + before(n.children@, k - 1)) }
}
pub open spec fn leaves_tree<L: Language>(t: GreenTree<L>, base: int) -> Seq<At<L>> decreases t, 0int {
    match t { GreenTree::Node(n) => leaves(*n, n.children@.len() as int, base), GreenTree::Leaf(l) => seq![At { leaf: l, from: base }] }
}
/// Leaves lie next to each other, from a to b.
pub open spec fn tile<L: Language>(s: Seq<At<L>>, a: int, b: int) -> bool {
    if s.len() == 0 { a == b } else {
        s[0].from == a && s.last().from + s.last().leaf.length == b && forall|i: int| #![trigger s[i]] 0 <= i < s.len() - 1 ==> s[i].from + s[i].leaf.length == s[i + 1].from
    }
}
proof fn tile_add<L: Language>(x: Seq<At<L>>, y: Seq<At<L>>, a: int, b: int, c: int) requires tile(x, a, b), tile(y, b, c) ensures tile(x + y, a, c) {
    let z = x + y;
    if x.len() == 0 { assert(z =~= y); } else if y.len() == 0 { assert(z =~= x); } else {
        assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() - 1 implies z[i].from + z[i].leaf.length == z[i + 1].from by {
            if i + 1 < x.len() { assert(x[i].from + x[i].leaf.length == x[i + 1].from); } else if i + 1 == x.len() { } else { assert(y[i - x.len()].from + y[i - x.len()].leaf.length == y[i - x.len() + 1].from); }
        }
    }
}
/// Down to the leaves, every tree tiles its span.
pub proof fn theorem_tile<L: Language>(n: GreenNode<L>, k: int, base: int) requires wf(n), 0 <= k <= n.children@.len() ensures tile(leaves(n, k, base), base, base + before(n.children@, k)) decreases n, k {
    if k > 0 { theorem_tile(n, k - 1, base); theorem_tile_tree(n.children@[k - 1], base + before(n.children@, k - 1)); tile_add(leaves(n, k - 1, base), leaves_tree(n.children@[k - 1], base + before(n.children@, k - 1)), base, base + before(n.children@, k - 1), base + before(n.children@, k)); }
}
pub proof fn theorem_tile_tree<L: Language>(t: GreenTree<L>, base: int) requires wf_tree(t) ensures tile(leaves_tree(t, base), base, base + glen(t)) decreases t, 0int {
    match t { GreenTree::Node(n) => { theorem_tile(*n, n.children@.len() as int, base); } GreenTree::Leaf(_) => {} }
}
/// The leaves of a child are leaves of the node.
proof fn leaves_child<L: Language>(n: GreenNode<L>, i: int, k: int, base: int, x: At<L>)
    requires 0 <= i < k <= n.children@.len(), leaves_tree(n.children@[i], base + before(n.children@, i)).contains(x),
    ensures leaves(n, k, base).contains(x), decreases k,
{
    let a = leaves(n, k - 1, base); let b = leaves_tree(n.children@[k - 1], base + before(n.children@, k - 1));
    if i == k - 1 { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert((a + b)[a.len() + j] == x); }
    else { leaves_child(n, i, k - 1, base, x); let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert((a + b)[j] == x); }
}
pub fn sum_len<'a, L: Language>(c: &'a [GreenTree<'a, L>]) -> (r: u32) requires before(c@, c@.len() as int) <= u32::MAX ensures r == before(c@, c@.len() as int), c@.len() <= usize::MAX {
    let mut s: u32 = 0;
    for i in 0..c.len() invariant s == before(c@, i as int), before(c@, c@.len() as int) <= u32::MAX { proof { before_mono(c@, i + 1, c@.len() as int); } s = s + c[i].len(); }
    s
}
impl<'a, L: Language> GreenTree<'a, L> {
//@fn GreenTree::len -> r
    ensures r == glen(*self),
//@end
//@fn GreenTree::is_node -> r
    ensures r == (*self is Node),
//@end
//@fn GreenTree::is_leaf -> r
    ensures r == (*self is Leaf),
//@end
//@fn GreenTree::as_node -> r
    ensures r == (match *self { GreenTree::Node(n) => Some(n), _ => None }),
//@end
//@fn GreenTree::as_leaf -> r
    ensures r == (match *self { GreenTree::Leaf(l) => Some(l), _ => None }),
//@end
}
impl<L: Language> GreenLeaf<L> {
//@fn GreenLeaf::new -> r
    ensures r.kind == kind, r.length == len,
//@end
//@fn GreenLeaf::with_metadata -> r
    ensures r.kind == kind, r.length == len,
//@end
//@fn GreenLeaf::length -> r
    ensures r == self.length,
//@end
//@fn GreenLeaf::kind -> r
    ensures r == self.kind,
//@end
}
impl<'a, L: Language> GreenNode<'a, L> {
//@fn GreenNode::new -> r
//@sub /children\.iter\(\)\.map\(\|c\| c\.len\(\)\)\.sum\(\)/ => sum_len(children)
    requires before(children@, children@.len() as int) <= u32::MAX,
    ensures r.kind == kind, r.children == children, sums(r), (forall|i: int| #![trigger children@[i]] 0 <= i < children@.len() ==> wf_tree(children@[i])) ==> wf(r),
//@end
//@fn GreenNode::text_len -> r
    ensures r == self.text_len,
//@end
//@fn GreenNode::kind -> r
    ensures r == self.kind,
//@end
//@fn GreenNode::children -> r
    ensures r == self.children,
//@end
//@fn GreenNode::child_at -> r
    ensures r == (if index < self.children@.len() { Some(&self.children@[index as int]) } else { None }),
//@end
//@fn GreenNode::has_children -> r
    ensures r == (self.children@.len() > 0),
//@end
//@fn GreenNode::children_count -> r
    ensures r == self.children@.len(),
//@end
}
