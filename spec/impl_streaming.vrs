pub mod streaming {
broadcast use group_text;
use super::*;
//@src projects/oak-core/src/source/streaming.rs
//@item CHUNK_SIZE
//@item ChunkedBuffer
//@item ChunkedSource
//@include chunk_fns.vrs
impl ChunkedBuffer {
//@fn ChunkedBuffer::snapshot -> r
    requires self.inv(),
    ensures r.inv(), r.text() == self.text(),
//@sub /Arc::<\[.*?\]>::from\((self\.\w+)\.clone\(\)\)/ => arc_slice(&\1)
//@end
//@fn ChunkedBuffer::push_str
    requires old(self).inv(), old(self).text().len() + text.spec_bytes().len() <= isize::MAX,
    ensures final(self).inv(), final(self).text() == old(self).text() + text.spec_bytes(),
//@body
    let ghost c0 = self.chunks@; let ghost s0 = self.starts@;
    proof { assert(c0.take(c0.len() as int) =~= c0); reveal(at); if text.spec_bytes().len() == 0 { assert(flat(c0) + text.spec_bytes() =~= flat(c0)); } }
//@sub /for chunk in chunkify\(text\) \{/ => let pieces = chunkify(text); let ghost gp = pieces@; proof { assert(gp.take(0) =~= Seq::empty()); assert(flat(c0) + flat(gp.take(0)) =~= flat(c0)); } for chunk in pieces {
//@iter 1 it
//@loop 1
    invariant
        it.seq() == gp, flat(gp) == text.spec_bytes(), flat(c0).len() + text.spec_bytes().len() <= isize::MAX,
        forall|i: int| 0 <= i < gp.len() ==> (#[trigger] gp[i]).spec_bytes().len() > 0,
        self.inv(), self.text() == flat(c0) + flat(gp.take(it.index@ as int)), 0 <= it.index@ <= gp.len(),
//@loopstart 1
    let ghost c1 = self.chunks@; let ghost s1 = self.starts@; let ghost k = it.index@ as int;
    proof { assert(chunk == gp[k]); lemma_take_step(gp, k); lemma_split(gp, k + 1); assert(c1.take(c1.len() as int) =~= c1); }
//@loopend 1
    proof {
        assert(self.chunks@ =~= c1.push(gp[k])); assert(self.chunks@.drop_last() =~= c1);
        assert(flat(c0) + flat(gp.take(k)) + gp[k].spec_bytes() =~= flat(c0) + flat(gp.take(k + 1)));
        assert forall|i: int| 0 <= i < self.chunks@.len() implies #[trigger] self.starts@[i] == at(self.chunks@, i) by { reveal(at); if i < c1.len() { assert(self.chunks@.take(i) =~= c1.take(i)); assert(s1[i] == at(c1, i)); } else { assert(self.chunks@.take(i) =~= c1); } }
        assert forall|i: int| 0 <= i < self.chunks@.len() implies (#[trigger] self.chunks@[i]).spec_bytes().len() > 0 by { if i < c1.len() { assert(self.chunks@[i] == c1[i]); } }
    }
//@afterloop 1
    proof { assert(gp.take(gp.len() as int) =~= gp); }
//@end
}
impl Source for ChunkedBuffer {
    open spec fn text(&self) -> Seq<u8> { flat(self.chunks@) }
    open spec fn inv(&self) -> bool { wf(self.chunks@, self.starts@, self.len) && self.len <= isize::MAX }
    open spec fn seam_at(&self, o: int) -> bool { seam(self.chunks@, o) }
    proof fn lemma_inv(&self) { lemma_flat_valid(self.chunks@); }
//@fn Source for ChunkedBuffer::length
//@end
//@fn Source for ChunkedBuffer::chunk_at -> r
//@body
    proof { lemma_at_end(self.chunks@); lemma_ends(self.chunks@); lemma_sorted(self.chunks@, self.starts@, self.len);
      assert forall|idx: int| 0 <= idx < self.starts@.len() && #[trigger] self.starts@[idx] <= offset && (idx + 1 < self.starts@.len() ==> offset < self.starts@[idx + 1]) && offset < self.len implies holds(self.chunks@, idx, offset as int) && chunk_parts(self.chunks@, idx) by { if offset < self.len { lemma_found(self.chunks@, self.starts@, self.len, idx, offset as int); lemma_chunk_parts(self.chunks@, idx); } } }
//@end
//@fn Source for ChunkedBuffer::get_text_in -> r
//@end
}
impl Source for ChunkedSource {
    open spec fn text(&self) -> Seq<u8> { flat(self.chunks@) }
    open spec fn inv(&self) -> bool { wf(self.chunks@, self.starts@, self.len) && self.len <= isize::MAX }
    open spec fn seam_at(&self, o: int) -> bool { seam(self.chunks@, o) }
    proof fn lemma_inv(&self) { lemma_flat_valid(self.chunks@); }
//@fn Source for ChunkedSource::length
//@end
//@fn Source for ChunkedSource::chunk_at -> r
//@body
    proof { lemma_at_end(self.chunks@); lemma_ends(self.chunks@); lemma_sorted(self.chunks@, self.starts@, self.len);
      assert forall|idx: int| 0 <= idx < self.starts@.len() && #[trigger] self.starts@[idx] <= offset && (idx + 1 < self.starts@.len() ==> offset < self.starts@[idx + 1]) && offset < self.len implies holds(self.chunks@, idx, offset as int) && chunk_parts(self.chunks@, idx) by { if offset < self.len { lemma_found(self.chunks@, self.starts@, self.len, idx, offset as int); lemma_chunk_parts(self.chunks@, idx); } } }
//@end
//@fn Source for ChunkedSource::get_text_in -> r
//@end
}
}
