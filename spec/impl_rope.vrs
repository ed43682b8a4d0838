//@src projects/oak-core/src/source/rope.rs
//@item CHUNK_SIZE
//@item RopeBuffer
//@item RopeSource
//@fn rebuild_starts -> r
    requires flat(chunks@).len() <= usize::MAX,
    ensures r.0@.len() == chunks@.len(), r.1 == flat(chunks@).len(), forall|i: int| 0 <= i < chunks@.len() ==> #[trigger] r.0@[i] == at(chunks@, i),
//@body
    proof { reveal(at); assert(chunks@.take(0) =~= Seq::empty()); }
//@iter 1 it
//@loop 1
    invariant
        flat(chunks@).len() <= usize::MAX,
        starts@.len() == it.index@, offset == at(chunks@, it.index@), it.index@ <= chunks@.len(), it.seq().len() == chunks@.len(), forall|i: int| 0 <= i < chunks@.len() ==> *#[trigger] it.seq()[i] == chunks@[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] starts@[i] == at(chunks@, i),
//@loopstart 1
    proof { reveal(at); lemma_take_step(chunks@, it.index@ as int); lemma_mono(chunks@, it.index@ as int + 1, chunks@.len() as int); assert(chunks@.take(chunks@.len() as int) =~= chunks@); }
//@afterloop 1
    proof { assert(chunks@.take(chunks@.len() as int) =~= chunks@); }
//@end
//@include chunk_fns.vrs
impl RopeBuffer {
//@fn RopeBuffer::new_with_id -> r
    requires encode_utf8(input@).len() <= isize::MAX,
    ensures r.inv(), r.text() == encode_utf8(input@),
//@sub /impl ToString/ => String
//@sub /impl Into<Option<SourceId>>/ => Option<SourceId>
//@sub /source_id\.into\(\)/ => source_id
//@sub /input\.to_string\(\)/ => input
//@sub /chunkify\(&text\)/ => { let ts = text.as_str(); proof { lemma_str_valid(ts); } chunkify(ts) }
//@end
//@fn RopeBuffer::new -> r
    requires encode_utf8(input@).len() <= isize::MAX,
    ensures r.inv(), r.text() == encode_utf8(input@),
//@sub /impl ToString/ => String
//@end
//@fn RopeBuffer::snapshot -> r
    requires self.inv(),
    ensures r.inv(), r.text() == self.text(),
//@sub /Arc::<\[.*?\]>::from\((self\.\w+)\.clone\(\)\)/ => arc_slice(&\1)
//@end
//@fn RopeBuffer::chunk_index -> r
    requires self.inv(), offset < self.len,
    ensures holds(self.chunks@, r.0 as int, offset as int), r.1 == at(self.chunks@, r.0 as int),
//@body
    proof { lemma_sorted(self.chunks@, self.starts@, self.len);
      assert forall|idx: int| 0 <= idx < self.starts@.len() && #[trigger] self.starts@[idx] <= offset && (idx + 1 < self.starts@.len() ==> offset < self.starts@[idx + 1]) implies holds(self.chunks@, idx, offset as int) by { lemma_found(self.chunks@, self.starts@, self.len, idx, offset as int); } }
//@end
}
impl Source for RopeBuffer {
    open spec fn text(&self) -> Seq<u8> { flat(self.chunks@) }
    open spec fn inv(&self) -> bool { wf(self.chunks@, self.starts@, self.len) && self.len <= isize::MAX }
    open spec fn seam_at(&self, o: int) -> bool { seam(self.chunks@, o) }
    proof fn lemma_inv(&self) { lemma_flat_valid(self.chunks@); }
//@fn Source for RopeBuffer::length
//@end
//@fn Source for RopeBuffer::chunk_at -> r
//@body
    proof { lemma_at_end(self.chunks@); lemma_ends(self.chunks@); assert forall|idx: int, o: int| #[trigger] holds(self.chunks@, idx, o) implies chunk_parts(self.chunks@, idx) by { lemma_chunk_parts(self.chunks@, idx); } }
//@end
//@fn Source for RopeBuffer::get_text_in -> r
//@end
}
impl Source for RopeSource {
    open spec fn text(&self) -> Seq<u8> { flat(self.chunks@) }
    open spec fn inv(&self) -> bool { wf(self.chunks@, self.starts@, self.len) && self.len <= isize::MAX }
    open spec fn seam_at(&self, o: int) -> bool { seam(self.chunks@, o) }
    proof fn lemma_inv(&self) { lemma_flat_valid(self.chunks@); }
//@fn Source for RopeSource::length
//@end
//@fn Source for RopeSource::chunk_at -> r
//@body
    proof { lemma_at_end(self.chunks@); lemma_ends(self.chunks@); lemma_sorted(self.chunks@, self.starts@, self.len);
      assert forall|idx: int| 0 <= idx < self.starts@.len() && #[trigger] self.starts@[idx] <= offset && (idx + 1 < self.starts@.len() ==> offset < self.starts@[idx + 1]) && offset < self.len implies holds(self.chunks@, idx, offset as int) && chunk_parts(self.chunks@, idx) by { if offset < self.len { lemma_found(self.chunks@, self.starts@, self.len, idx, offset as int); lemma_chunk_parts(self.chunks@, idx); } } }
//@end
//@fn Source for RopeSource::get_text_in -> r
//@end
}
