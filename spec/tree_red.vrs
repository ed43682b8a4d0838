//@src projects/oak-core/src/tree/red_tree.rs
#[verifier::reject_recursive_types(L)]
//@item RedTree
#[verifier::reject_recursive_types(L)]
//@item RedNode
#[verifier::reject_recursive_types(L)]
//@item RedLeaf
#[verifier::reject_recursive_types(L)]
//@item RedChildren
impl<'a, L: Language> Clone for RedNode<'a, L> {
//@fn Clone for RedNode::clone -> r
    ensures r == *self,
//@end
}
impl<'a, L: Language> Copy for RedNode<'a, L> {}
impl<'a, L: Language> Clone for RedTree<'a, L> {
//@fn Clone for RedTree::clone -> r
    ensures r == *self,
//@end
}
impl<'a, L: Language> Copy for RedTree<'a, L> {}
impl<L: Language> Clone for RedLeaf<L> {
//@fn Clone for RedLeaf::clone -> r
    ensures r == *self,
//@end
}
impl<L: Language> Copy for RedLeaf<L> {}
/// Where a red element lies.
pub open spec fn rspan<L: Language>(t: RedTree<L>) -> (int, int) { match t { RedTree::Node(n) => (n.offset as int, n.offset + n.green.text_len), RedTree::Leaf(l) => (l.span.start as int, l.span.end as int) } }
/// A red element is the green one, placed at `at`.
pub open spec fn placed<L: Language>(r: RedTree<L>, g: GreenTree<L>, at: int) -> bool {
    match r { RedTree::Node(n) => g is Node && n.green == g->Node_0 && n.offset == at, RedTree::Leaf(l) => g is Leaf && l.kind == g->Leaf_0.kind && l.span.start == at && l.span.end == at + g->Leaf_0.length }
}
/// A red node is placed inside the address space.
pub open spec fn ok<L: Language>(n: RedNode<L>) -> bool { sums(*n.green) && n.offset + n.green.text_len <= usize::MAX }
pub open spec fn all<L: Language>(n: RedNode<L>) -> Seq<At<L>> { leaves(*n.green, n.green.children@.len() as int, n.offset as int) }
proof fn lemma_hit<L: Language>(n: RedNode<L>, hit: RedTree<L>)
    requires wf(*n.green), ok(n), exists|i: int| #![trigger n.green.children@[i]] 0 <= i < n.green.children@.len() && placed(hit, n.green.children@[i], n.offset + before(n.green.children@, i)),
    ensures hit is Node ==> wf(*hit->Node_0.green) && ok(hit->Node_0) && (decreases_to!(*n.green => *hit->Node_0.green)),
        hit is Node ==> forall|x: At<L>| #![trigger all(hit->Node_0).contains(x)] all(hit->Node_0).contains(x) ==> all(n).contains(x),
        hit is Leaf ==> exists|x: At<L>| #[trigger] all(n).contains(x) && x.from == hit->Leaf_0.span.start && x.from + x.leaf.length == hit->Leaf_0.span.end && x.leaf.kind == hit->Leaf_0.kind,
{
    let i = choose|i: int| #![trigger n.green.children@[i]] 0 <= i < n.green.children@.len() && placed(hit, n.green.children@[i], n.offset + before(n.green.children@, i));
    let c = n.green.children@[i]; let base = n.offset + before(n.green.children@, i);
    before_in(*n.green, i);
    assert(wf_tree(c));
    match hit {
        RedTree::Node(m) => {
            assert(leaves_tree(c, base) == all(m));
            assert forall|x: At<L>| #![trigger all(n).contains(x)] all(m).contains(x) implies all(n).contains(x) by { leaves_child(*n.green, i, n.green.children@.len() as int, n.offset as int, x); }
            assert(decreases_to!(*n.green => n.green.children@[i]));
        }
        RedTree::Leaf(l) => {
            let x = At { leaf: c->Leaf_0, from: base };
            assert(leaves_tree(c, base)[0] == x);
            leaves_child(*n.green, i, n.green.children@.len() as int, n.offset as int, x);
            assert(all(n).contains(x));
        }
    }
}
impl<'a, L: Language> RedTree<'a, L> {
//@fn RedTree::span -> r
    requires *self is Node ==> ok(self->Node_0),
    ensures (r.start as int, r.end as int) == rspan(*self),
//@end
//@fn RedTree::children -> r
    requires *self is Node ==> ok(self->Node_0),
    ensures r.inv(), r.left() == (match *self { RedTree::Node(n) => n.green.children@.len() as int, RedTree::Leaf(_) => 0 }), *self is Node ==> r.node == Some(self->Node_0),
//@end
//@fn RedTree::as_node -> r
    ensures r == (match *self { RedTree::Node(n) => Some(n), _ => None }),
//@end
//@fn RedTree::as_leaf -> r
    ensures r == (match *self { RedTree::Leaf(l) => Some(l), _ => None }),
//@end
}
impl<'a, L: Language> RedChildren<'a, L> {
    pub open spec fn inv(&self) -> bool { match self.node { None => true, Some(n) => ok(n) && self.index <= n.green.children@.len() && self.offset == n.offset + before(n.green.children@, self.index as int) } }
    pub open spec fn left(&self) -> int { match self.node { None => 0, Some(n) => n.green.children@.len() - self.index } }
//@fn RedChildren::empty -> r
    ensures r.inv(), r.left() == 0,
//@end
//@gsub /Option<Self::Item>/ => Option<RedTree<'a, L>>
//@fn Iterator for RedChildren::next -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).node == old(self).node,
        r is None <==> old(self).left() == 0,
        r is None ==> *final(self) == *old(self),
        r is Some ==> final(self).index == old(self).index + 1 && placed(r->0, old(self).node->0.green.children@[old(self).index as int], old(self).node->0.offset + before(old(self).node->0.green.children@, old(self).index as int)),
//@body
    proof { if self.left() > 0 { before_in(*self.node->0.green, self.index as int); } }
//@end
}
impl<'a, L: Language> RedNode<'a, L> {
//@fn RedNode::new -> r
    ensures r.green == green, r.offset == offset,
//@end
//@fn RedNode::span -> r
    requires ok(*self),
    ensures r.start == self.offset, r.end == self.offset + self.green.text_len,
//@end
//@fn RedNode::element_type -> r
    ensures r == self.green.kind,
//@end
//@fn RedNode::green -> r
    ensures r == self.green,
//@end
//@fn RedNode::child_at -> r
    requires ok(*self), idx < self.green.children@.len(),
    ensures placed(r, self.green.children@[idx as int], self.offset + before(self.green.children@, idx as int)),
//@loop 1
    invariant ok(*self), idx < self.green.children@.len(), children == self.green.children, offset == self.offset + before(self.green.children@, i as int),
//@loopstart 1
    proof { before_in(*self.green, i as int); }
//@before /match green_child/
    proof { before_in(*self.green, idx as int); }
//@end
//@fn RedNode::children -> r
    requires ok(*self),
    ensures r.inv(), r.node == Some(*self), r.index == 0,
//@end
//@fn RedNode::child_index_at_offset -> r
    requires ok(*self),
    ensures r is Some <==> self.offset <= offset < self.offset + self.green.text_len,
        // the child whose span contains the offset: there is no other
        r is Some ==> r->0 < self.green.children@.len() && self.offset + before(self.green.children@, r->0 as int) <= offset < self.offset + before(self.green.children@, r->0 + 1),
//@sub /for \(idx, child\) in self\.green\.children\(\)\.iter\(\)\.enumerate\(\) \{/ => let cs = self.green.children(); for idx in 0..cs.len() { let child = &cs[idx];
//@loop 1
    invariant ok(*self), cs == self.green.children, self.offset <= offset < self.offset + self.green.text_len, relative_offset == offset - self.offset, current_pos == before(cs@, idx as int), current_pos <= relative_offset,
//@loopstart 1
    proof { before_in(*self.green, idx as int); }
//@end
//@fn RedNode::child_at_offset -> r
    requires ok(*self),
    ensures r is Some <==> self.offset <= offset < self.offset + self.green.text_len,
        r is Some ==> rspan(r->0).0 <= offset < rspan(r->0).1 && exists|i: int| #![trigger self.green.children@[i]] 0 <= i < self.green.children@.len() && placed(r->0, self.green.children@[i], self.offset + before(self.green.children@, i)),
//@sub /self\.child_index_at_offset\(offset\)\.map\(\|idx\| (.*?)\)\s*\}$/ => match self.child_index_at_offset(offset) { Some(idx) => Some(\1), None => None } }
//@end
//@fn RedNode::leaf_at_offset -> r
    requires wf(*self.green), ok(*self),
    ensures r is Some <==> self.offset <= offset < self.offset + self.green.text_len,
        // one of the leaves below, at the place it has in the text
        r is Some ==> r->0.span.start <= offset < r->0.span.end && exists|x: At<L>| #[trigger] all(*self).contains(x) && x.from == r->0.span.start && x.from + x.leaf.length == r->0.span.end && x.leaf.kind == r->0.kind,
//@sub /match current\.child_at_offset\(offset\)\?/ => let hit = current.child_at_offset(offset)?; proof { lemma_hit(current, hit); } match hit
//@loop 1
    invariant wf(*current.green), ok(current),
        self.offset <= offset < self.offset + self.green.text_len <==> current.offset <= offset < current.offset + current.green.text_len,
        forall|x: At<L>| #![trigger all(current).contains(x)] all(current).contains(x) ==> all(*self).contains(x),
    decreases *current.green,
//@end
}
