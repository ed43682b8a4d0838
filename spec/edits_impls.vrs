//@src projects/oak-core/src/source/text.rs
impl SourceText {
//@fn SourceText::apply_edits_range -> r
    requires old(self).inv(), batch_ok(old(self).text(), es(edits@)),
    ensures
        final(self).text() == edited(old(self).text(), es(edits@), 0, 0),
        edits@.len() > 0 ==> r.start == es(edits@)[0].start && r.end == new_start(es(edits@), edits@.len() - 1) + es(edits@).last().text.len(),
//@include edits_range_fn.vrs
//@sub /self\.raw\.to_string\(\)/ => string_of(&self.raw)
//@sub /raw\.replace_range\(span\.start\.\.span\.end, text\)/ => replace_range_v(&mut raw, span.start, span.end, text.str_v())
//@sub /Arc::from\(raw\)/ => arc_of_string(raw)
//@loop 2
    invariant
        is_order(edits@, order@), order@ == the_order(edits@), ge == es(edits@), batch_ok(gt, ge), ge.len() == edits@.len(), order@.len() == edits@.len(), valid_utf8(gt),
        k <= ge.len(), encode_utf8(raw@) == edited(gt, ge, k as int, 0),
    decreases k,
//@loopstart 2
    proof { lemma_apply_round(gt, edits@, order@, k - 1); }
//@end
//@fn SourceText::apply_edits -> r
    requires old(self).inv(), batch_ok(old(self).text(), es(edits@)),
    ensures final(self).text() == edited(old(self).text(), es(edits@), 0, 0), edits@.len() > 0 ==> r == es(edits@)[0].start,
//@end
}
//@src projects/oak-core/src/source/rope.rs
pub proof fn lemma_at_concat(a: Seq<Arc<str>>, b: Seq<Arc<str>>, i: int)
    requires 0 <= i <= b.len(),
    ensures at(a + b, a.len() + i) == flat(a).len() + at(b, i),
{ reveal(at); assert((a + b).take(a.len() + i) =~= a + b.take(i)); lemma_concat(a, b.take(i)); }
pub proof fn lemma_at_prefix(a: Seq<Arc<str>>, b: Seq<Arc<str>>, i: int)
    requires 0 <= i <= a.len(),
    ensures at(a + b, i) == at(a, i),
{ reveal(at); assert((a + b).take(i) =~= a.take(i)); }
/// Replacing chunk idx by two halves keeps the text and every seam, and adds the seam between the halves.
pub proof fn lemma_halve(c: Seq<Arc<str>>, idx: int, l: Arc<str>, r: Arc<str>, c2: Seq<Arc<str>>)
    requires 0 <= idx < c.len(), c[idx].spec_bytes() == l.spec_bytes() + r.spec_bytes(), c2 == c.update(idx, l).insert(idx + 1, r),
    ensures flat(c2) == flat(c), is_seam(c2, idx + 1, at(c, idx) + l.spec_bytes().len()), forall|o: int| #[trigger] seam(c, o) ==> seam(c2, o), c2.len() == c.len() + 1,
{
    reveal(seam);
    let a = c.take(idx); let b = c.skip(idx + 1); let m = seq![l, r];
    assert(c2 =~= a + m + b);
    assert(c =~= a + seq![c[idx]] + b);
    lemma_concat(a + m, b); lemma_concat(a, m); lemma_concat(a + seq![c[idx]], b); lemma_concat(a, seq![c[idx]]);
    assert(flat(Seq::<Arc<str>>::empty()) =~= Seq::<u8>::empty());
    assert(seq![c[idx]].drop_last() =~= Seq::empty()); assert(seq![l, r].drop_last() =~= seq![l]); assert(seq![l].drop_last() =~= Seq::empty());
    assert(flat(seq![l]) =~= l.spec_bytes()) by { reveal_with_fuel(flat, 2); }
    assert(flat(m) =~= l.spec_bytes() + r.spec_bytes());
    assert(flat(seq![c[idx]]) =~= c[idx].spec_bytes()) by { reveal_with_fuel(flat, 2); }
    assert(flat(c2) =~= flat(c));
    assert(c2.take(idx + 1) =~= a + seq![l]); lemma_concat(a, seq![l]); reveal(at);
    assert(is_seam(c2, idx + 1, at(c, idx) + l.spec_bytes().len()));
    assert forall|o: int| seam(c, o) implies seam(c2, o) by {
        let i = choose|i: int| is_seam(c, i, o);
        if i <= idx { assert(c2.take(i) =~= c.take(i)); assert(is_seam(c2, i, o)); }
        else {
            assert(c2.take(i + 1) =~= a + m + b.take(i - idx - 1)); assert(c.take(i) =~= a + seq![c[idx]] + b.take(i - idx - 1));
            lemma_concat(a + m, b.take(i - idx - 1)); lemma_concat(a + seq![c[idx]], b.take(i - idx - 1));
            assert(is_seam(c2, i + 1, o));
        }
    }
}
pub proof fn lemma_seam_unique(c: Seq<Arc<str>>, i: int, j: int)
    requires 0 <= i < j <= c.len(), forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).spec_bytes().len() > 0,
    ensures at(c, i) < at(c, j),
{ lemma_take_step(c, i); lemma_mono(c, i + 1, j); }
/// Cutting out the chunks si..ei and putting x there.
pub proof fn lemma_cut(c: Seq<Arc<str>>, si: int, ei: int, x: Seq<Arc<str>>)
    requires 0 <= si <= ei <= c.len(),
    ensures flat(c.take(si) + x + c.skip(ei)) == flat(c).take(at(c, si)) + flat(x) + flat(c).skip(at(c, ei)),
{ lemma_concat(c.take(si) + x, c.skip(ei)); lemma_concat(c.take(si), x); lemma_split(c, si); lemma_split(c, ei); }
pub open spec fn all_nonempty(c: Seq<Arc<str>>) -> bool { forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).spec_bytes().len() > 0 }
impl RopeBuffer {
//@fn RopeBuffer::split_at
    requires old(self).inv(), cb(old(self).text(), offset as int),
    ensures final(self).inv(), final(self).text() == old(self).text(), seam(final(self).chunks@, offset as int), forall|o: int| #[trigger] seam(old(self).chunks@, o) ==> seam(final(self).chunks@, o),
//@body
    let ghost c0 = self.chunks@;
    proof { lemma_ends(c0); assert(self.chunks@.len() == self.chunks.len()); }
//@after /let rel = offset - start;/
    proof { lemma_chunk_parts(c0, idx as int); lemma_chunk_cb(c0, idx as int, rel as int); if rel == 0 { reveal(seam); assert(is_seam(c0, idx as int, offset as int)); } assert(rel < c0[idx as int].spec_bytes().len()); }
//@before /if left\.is_empty/
    proof { lemma_chars_bytes(left); lemma_chars_bytes(right); }
//@before /let \(starts, len\) =/
    proof {
        let b = c0[idx as int].spec_bytes();
        assert(b.take(rel as int) + b.skip(rel as int) =~= b);
        assert(self.chunks@ =~= c0.update(idx as int, self.chunks@[idx as int]).insert(idx + 1, self.chunks@[idx + 1]));
        lemma_halve(c0, idx as int, self.chunks@[idx as int], self.chunks@[idx + 1], self.chunks@);
        reveal(seam); assert(is_seam(self.chunks@, idx + 1, offset as int)); assert(seam(self.chunks@, offset as int)); 
        assert forall|i: int| 0 <= i < self.chunks@.len() implies (#[trigger] self.chunks@[i]).spec_bytes().len() > 0 by { if i < idx { assert(self.chunks@[i] == c0[i]); } else if i > idx + 1 { assert(self.chunks@[i] == c0[i - 1]); } }
    }
//@end
//@fn RopeBuffer::boundary_index -> r
    requires self.inv(), offset <= self.len, seam(self.chunks@, offset as int),
    ensures is_seam(self.chunks@, r as int, offset as int),
//@body
    proof {
        let c = self.chunks@; lemma_ends(c); lemma_sorted(c, self.starts@, self.len);
        reveal(seam); let i = choose|i: int| is_seam(c, i, offset as int);
        if offset < self.len { if i == c.len() { reveal(at); assert(c.take(i) =~= c); } assert(self.starts@[i] == offset); }
    }
//@end
//@fn RopeBuffer::replace_range
    requires old(self).inv(), get_ok(old(self).text(), span.start as int, span.end as int), old(self).text().len() - (span.end - span.start) + replacement.spec_bytes().len() <= isize::MAX,
    ensures final(self).inv(), final(self).text() == old(self).text().take(span.start as int) + replacement.spec_bytes() + old(self).text().skip(span.end as int),
//@sub /self\.chunks\.drain\(start_idx\.\.end_idx\);/ => drain_v(&mut self.chunks, start_idx, end_idx);
//@sub /self\.chunks\.splice\(insert_at\.\.insert_at, new_chunks\);/ => splice_v(&mut self.chunks, insert_at, insert_at, new_chunks);
//@body
    let ghost t0 = self.text();
    proof { lemma_str_valid(replacement); }
//@before /if start_idx < end_idx/
    let ghost c1 = self.chunks@; let ghost si = start_idx as int; let ghost ei = end_idx as int;
    proof {
        if si > ei { lemma_seam_unique(c1, ei, si); }
        if si < ei { lemma_seam_unique(c1, si, ei); }
        lemma_cut(c1, si, ei, Seq::empty());
        assert(c1.take(si) + Seq::empty() + c1.skip(ei) =~= c1.take(si) + c1.skip(ei));
        if si == ei { assert(c1.take(si) + c1.skip(ei) =~= c1); }
        assert(flat(Seq::<Arc<str>>::empty()) =~= Seq::<u8>::empty());
        assert(t0.take(span.start as int) + Seq::<u8>::empty() + t0.skip(span.end as int) =~= t0.take(span.start as int) + t0.skip(span.end as int));
        if replacement.spec_bytes().len() == 0 { assert(replacement.spec_bytes() =~= Seq::<u8>::empty()); }
    }
//@after /chunkify\(replacement\);/
    let ghost x = new_chunks@; let ghost c2 = self.chunks@;
    proof {
        lemma_cut(c1, si, ei, x); assert(c2 =~= c1.take(si) + c1.skip(ei)); assert(c2.take(si) =~= c1.take(si)); assert(c2.skip(si) =~= c1.skip(ei));
        assert forall|i: int| 0 <= i < c2.len() implies (#[trigger] c2[i]).spec_bytes().len() > 0 by { if i < si { assert(c2[i] == c1[i]); } else { assert(c2[i] == c1[i - si + ei]); } }
    }
//@before /let \(starts, len\) =/
    proof {
        let c3 = self.chunks@;
        assert(flat(c3) == t0.take(span.start as int) + replacement.spec_bytes() + t0.skip(span.end as int));
        assert forall|i: int| 0 <= i < c3.len() implies (#[trigger] c3[i]).spec_bytes().len() > 0 by { if replacement.spec_bytes().len() == 0 { if i < si { assert(c3[i] == c1[i]); } else { assert(c3[i] == c1[i - si + ei]); } } }
    }
//@end
//@fn RopeBuffer::apply_edits_range -> r
    requires old(self).inv(), batch_ok(old(self).text(), es(edits@)),
    ensures
        final(self).inv(), final(self).text() == edited(old(self).text(), es(edits@), 0, 0),
        edits@.len() > 0 ==> r.start == es(edits@)[0].start && r.end == new_start(es(edits@), edits@.len() - 1) + es(edits@).last().text.len(),
//@include edits_range_fn.vrs
//@sub /self\.replace_range\((Range \{[^}]*\}), text\)/ => self.replace_range(\1, text.str_v())
//@loop 2
    invariant
        is_order(edits@, order@), order@ == the_order(edits@), ge == es(edits@), batch_ok(gt, ge), ge.len() == edits@.len(), order@.len() == edits@.len(), valid_utf8(gt),
        k <= ge.len(), self.inv(), self.text() == edited(gt, ge, k as int, 0),
    decreases k,
//@loopstart 2
    proof { lemma_apply_round(gt, edits@, order@, k - 1); }
//@end
//@fn RopeBuffer::apply_edits -> r
    requires old(self).inv(), batch_ok(old(self).text(), es(edits@)),
    ensures final(self).inv(), final(self).text() == edited(old(self).text(), es(edits@), 0, 0), edits@.len() > 0 ==> r == es(edits@)[0].start,
//@end
}
