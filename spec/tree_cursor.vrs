//@src projects/oak-core/src/tree/cursor.rs
#[verifier::reject_recursive_types(L)]
//@item Cursor
pub open spec fn kids<'a, L: Language>(t: GreenTree<'a, L>) -> Seq<GreenTree<'a, L>> { match t { GreenTree::Node(n) => n.children@, GreenTree::Leaf(_) => Seq::empty() } }
impl<'a, L: Language> Cursor<'a, L> {
    /// The element the k-th stack entry is about: the entry's current child.
    pub open spec fn elem(&self, k: int) -> GreenTree<'a, L> { self.stack@[k].0.children@[self.stack@[k].1 as int] }
    /// Where it starts.
    pub open spec fn at(&self, k: int) -> int { self.stack@[k].2 + before(self.stack@[k].0.children@, self.stack@[k].1 as int) }
    pub open spec fn entry(&self, k: int) -> bool {
        &&& wf(*self.stack@[k].0) && self.stack@[k].1 < self.stack@[k].0.children@.len() && self.stack@[k].2 + self.stack@[k].0.text_len <= usize::MAX
        &&& k > 0 ==> GreenTree::Node(self.stack@[k].0) == self.elem(k - 1) && self.stack@[k].2 == self.at(k - 1)
    }
    /// The cursor is where its path says, below a root that starts at 0.
    pub open spec fn root(&self) -> GreenTree<'a, L> { if self.stack@.len() == 0 { self.current } else { GreenTree::Node(self.stack@[0].0) } }
    pub open spec fn same(&self, o: &Self) -> bool { self.stack@ == o.stack@ && self.current == o.current && self.offset == o.offset }
    pub open spec fn inv(&self) -> bool {
        let n = self.stack@.len() as int;
        &&& self.root() is Node && wf_tree(self.root()) && wf_tree(self.current) && self.offset + glen(self.current) <= usize::MAX
        &&& forall|k: int| #![trigger self.stack@[k]] 0 <= k < n ==> self.entry(k)
        &&& n == 0 ==> self.offset == 0
        &&& n > 0 ==> self.stack@[0].2 == 0 && self.current == self.elem(n - 1) && self.offset == self.at(n - 1)
    }
    /// The child indices that lead from the root to the current element.
    pub open spec fn path(&self) -> Seq<int> { Seq::new(self.stack@.len(), |k: int| self.stack@[k].1 as int) }
    /// Has the ancestor-or-self number k (counted from the root) a next sibling?
    pub open spec fn more(&self, k: int) -> bool { self.stack@[k].1 + 1 < self.stack@[k].0.children@.len() }
    /// Next element in reading order outside the current one: the next sibling of the closest ancestor-or-self that has one.
    pub open spec fn next_at(&self, k: int) -> bool { 0 <= k < self.stack@.len() && self.more(k) && forall|j: int| #![trigger self.stack@[j]] k < j < self.stack@.len() ==> !self.more(j) }
    pub open spec fn next_ok(&self, n: int) -> bool { let p = self.stack@[n]; wf_tree(p.0.children@[p.1 + 1]) && before(p.0.children@, p.1 as int) + glen(p.0.children@[p.1 as int]) == before(p.0.children@, p.1 + 1) && p.2 + before(p.0.children@, p.1 + 1) + glen(p.0.children@[p.1 + 1]) <= usize::MAX }
    proof fn here(&self) requires self.inv() ensures self.stack@.len() > 0 ==> self.entry(self.stack@.len() - 1), kids(self.current).len() > 0 ==> wf_tree(kids(self.current)[0]) && glen(kids(self.current)[0]) <= glen(self.current),
        self.stack@.len() > 0 && !self.more(self.stack@.len() - 1) ==> self.offset + glen(self.current) == self.stack@.last().2 + self.stack@.last().0.text_len,
        self.stack@.len() > 0 && self.more(self.stack@.len() - 1) ==> self.next_ok(self.stack@.len() - 1) {
        let n = self.stack@.len() - 1;
        if n >= 0 { assert(self.entry(n)); before_in(*self.stack@[n].0, self.stack@[n].1 as int); if self.more(n) { before_in(*self.stack@[n].0, self.stack@[n].1 + 1); assert(wf_tree(self.stack@[n].0.children@[self.stack@[n].1 + 1])); } }
        match self.current { GreenTree::Node(m) => { if m.children@.len() > 0 { before_in(*m, 0); assert(wf_tree(m.children@[0])); } } _ => {} }
    }
    /// Above level m nothing comes after the current element.
    pub open spec fn last_from(&self, m: int) -> bool { forall|j: int| #![trigger self.stack@[j]] 0 <= j && m <= j < self.stack@.len() ==> !self.more(j) }
    pub open spec fn moved(&self, o: &Self, k: int) -> bool { self.path() =~= o.path().take(k + 1).update(k, o.path()[k] + 1) }
    proof fn climb(&self, o: &Self)
        requires self.stack@ =~= o.stack@.take(self.stack@.len() as int), self.stack@.len() <= o.stack@.len(), o.last_from(self.stack@.len() as int),
        ensures forall|f: Self, k: int| #![trigger f.moved(self, k)] f.moved(self, k) && self.next_at(k) ==> f.moved(o, k) && o.next_at(k),
            self.stack@.len() > 0 && !self.more(self.stack@.len() - 1) ==> o.last_from(self.stack@.len() - 1),
    {
        let m = self.stack@.len() as int;
        assert forall|f: Self, k: int| #![trigger f.moved(self, k)] f.moved(self, k) && self.next_at(k) implies f.moved(o, k) && o.next_at(k) by {
            assert(self.path().take(k + 1) =~= o.path().take(k + 1)); assert(self.path()[k] == o.path()[k]);
            assert(self.stack@[k] == o.stack@[k]);
            assert forall|j: int| #![trigger o.stack@[j]] k < j < o.stack@.len() implies !o.more(j) by { if j < m { assert(self.stack@[j] == o.stack@[j]); assert(!self.more(j)); } else { assert(!o.more(j)); } }
        }
        if m > 0 { assert(self.stack@[m - 1] == o.stack@[m - 1]); }
    }
//@fn Cursor::new -> r
    requires wf(*root),
    ensures r.inv(), r.root() == GreenTree::Node(root), r.path() =~= Seq::<int>::empty(),
//@end
//@fn Cursor::current -> r
    ensures r == self.current,
//@end
//@fn Cursor::as_node -> r
    ensures r == (match self.current { GreenTree::Node(n) => Some(n), _ => None }),
//@end
//@fn Cursor::offset -> r
    ensures r == self.offset,
//@end
//@fn Cursor::len -> r
    ensures r == glen(self.current),
//@end
//@fn Cursor::end_offset -> r
    requires self.offset + glen(self.current) <= usize::MAX,
    ensures r == self.offset + glen(self.current),
//@end
//@gsub /self\.stack\.last_mut\(\)\.unwrap\(\)/ => last_v(&mut self.stack)
//@fn Cursor::step_into -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).root() == old(self).root(),
        r == (kids(old(self).current).len() > 0),
        r ==> final(self).path() =~= old(self).path().push(0) && final(self).offset == old(self).offset,
        !r ==> *final(self) == *old(self),
//@body
    proof { self.here(); }
//@after /self\.current = \*first_child;/
    proof {
        let n = self.stack@.len() - 1;
        assert forall|k: int| #![trigger self.stack@[k]] 0 <= k <= n implies self.entry(k) by { if k < n { assert(old(self).stack@[k] == self.stack@[k]); if k > 0 { assert(old(self).stack@[k - 1] == self.stack@[k - 1]); } assert(old(self).entry(k)); } else if k > 0 { assert(old(self).stack@[k - 1] == self.stack@[k - 1]); } }
    }
//@end
//@fn Cursor::step_over -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).root() == old(self).root(),
        r == (old(self).stack@.len() > 0 && old(self).more(old(self).stack@.len() - 1)),
        r ==> old(self).next_at(old(self).stack@.len() - 1) && final(self).moved(old(self), old(self).stack@.len() - 1) && final(self).offset == old(self).offset + glen(old(self).current),
        !r ==> *final(self) == *old(self),
//@body
    proof { self.here(); }
//@after /self\.current = \*sibling;/
    proof {
        let n = self.stack@.len() - 1;
        assert forall|k: int| #![trigger self.stack@[k]] 0 <= k <= n implies self.entry(k) by { assert(old(self).entry(k)) by { assert(old(self).stack@[k] == old(self).stack@[k]); } if k < n { assert(old(self).stack@[k] == self.stack@[k]); } if k > 0 { assert(old(self).stack@[k - 1] == self.stack@[k - 1]); } }
    }
//@end
//@fn Cursor::step_out -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).root() == old(self).root(),
        r == (old(self).stack@.len() > 0),
        r ==> final(self).stack@ == old(self).stack@.drop_last(),
        r && !old(self).more(old(self).stack@.len() - 1) ==> final(self).offset + glen(final(self).current) == old(self).offset + glen(old(self).current),
        !r ==> final(self).same(old(self)),
//@body
    proof { self.here(); }
//@end
    /// The element that follows in reading order, not counting the current one's own children.
    pub open spec fn followed(&self, o: &Self, r: bool) -> bool {
        &&& r ==> exists|k: int| #![trigger o.next_at(k)] o.next_at(k) && self.moved(o, k) && self.offset == o.offset + glen(o.current)
        &&& !r ==> o.last_from(0) && self.stack@.len() == 0
    }
//@fn Cursor::step_next -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).root() == old(self).root(), final(self).followed(old(self), r),
//@loop 1
    invariant
        self.inv(), self.root() == old(self).root(), self.stack@ == old(self).stack@.take(self.stack@.len() as int), self.stack@.len() <= old(self).stack@.len(),
        old(self).last_from(self.stack@.len() - 1),
        self.offset + glen(self.current) == old(self).offset + glen(old(self).current),
    ensures self.inv(), self.root() == old(self).root(), old(self).last_from(0), self.stack@.len() == 0,
    decreases self.stack@.len(),
//@loopstart 1
    proof { self.climb(old(self)); }
//@end
//@fn Cursor::step -> r
    requires old(self).inv(),
    ensures final(self).inv(), final(self).root() == old(self).root(),
        // its first child, or else what follows it
        kids(old(self).current).len() > 0 ==> r && final(self).path() =~= old(self).path().push(0) && final(self).offset == old(self).offset,
        kids(old(self).current).len() == 0 ==> final(self).followed(old(self), r),
//@loop 1
    invariant
        kids(old(self).current).len() == 0,
        self.inv(), self.root() == old(self).root(), self.stack@ == old(self).stack@.take(self.stack@.len() as int), self.stack@.len() <= old(self).stack@.len(),
        old(self).last_from(self.stack@.len() - 1),
        self.offset + glen(self.current) == old(self).offset + glen(old(self).current),
    ensures self.inv(), self.root() == old(self).root(), old(self).last_from(0), self.stack@.len() == 0,
    decreases self.stack@.len(),
//@loopstart 1
    proof { self.climb(old(self)); }
//@end
}
pub fn last_v<T>(v: &mut Vec<T>) -> (r: &mut T) requires old(v)@.len() > 0 ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)) { let n = v.len() - 1; &mut v[n] }
