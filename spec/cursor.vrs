//@src projects/oak-core/src/source/cursor.rs
//@gsub /unsafe \{ ([\w.]+)\.as_bytes\(\)\.get_unchecked\((\w+)\.\.\) \}/ => bytes_from(\1, \2)
//@gsub /unsafe \{ ([\w.]+)\.get_unchecked\((\w+)\.\.\) \}/ => text_from(\1, \2)
//@gsub /unsafe \{ \*(\w+)\.get_unchecked\((\w+)\) \}/ => byte_unchecked(\1, \2)
//@gsub /bytes\.get_v\((\w+)\)\.copied\(\)/ => byte_get(bytes, \1)
//@gsub /&\[\]/ => no_bytes()
//@gsub /\b(\w[\w.]*)\.starts_with\(pattern\)/ => \1.starts_with_p(pattern)
//@gsub /\bself\.starts_with_p\(/ => self.starts_with(
//@gsub /\b([\w.]+)\.starts_with_p\(pattern\)/ => starts_with_v(\1, pattern)
//@gsub /\b([\w.]+)\.find\(pattern\)/ => find_v(\1, pattern)
//@gsub /\b([\w.]+)\.char_indices\(\)/ => char_indices_v(\1)
//@item SourceCursor
impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
    pub open spec fn t(&self) -> Seq<u8> { self.source.text() }
    /// What always holds of a cursor.
    pub open spec fn winv(&self) -> bool {
        &&& self.source.inv() && chunk_in(self.t(), self.chunk) && self.offset <= self.t().len() && valid_utf8(self.t()) && self.t().len() <= isize::MAX
        &&& self.source.seam_at(self.chunk.e())
        &&& cb(self.t(), self.offset as int) || self.chunk.start <= self.offset < self.chunk.e()
    }
    /// The chunk at hand holds the position.
    pub open spec fn here(&self) -> bool { self.winv() && self.chunk.start <= self.offset <= self.chunk.e() && (self.offset == self.chunk.e() ==> self.offset == self.t().len()) }
    pub open spec fn same(&self, o: &Self) -> bool { self.source == o.source && self.t() == o.t() }
//@fn SourceCursor::new_at -> r
    requires source.inv(), offset >= source.text().len() || cb(source.text(), offset as int),
    ensures r.winv(), r.source == source, r.t() == source.text(), r.offset == (if offset <= source.text().len() { offset as int } else { source.text().len() as int }),
//@body
    proof { source.lemma_inv(); }
//@end
//@fn SourceCursor::new -> r
    requires source.inv(),
    ensures r.winv(), r.source == source, r.t() == source.text(), r.offset == 0,
//@end
//@fn SourceCursor::source -> r
    ensures r == self.source,
//@end
//@fn SourceCursor::position -> r
    ensures r == self.offset,
//@end
//@fn SourceCursor::set_position -> r
    requires old(self).winv(), offset >= old(self).t().len() || cb(old(self).t(), offset as int),
    ensures final(self).winv(), final(self).same(old(self)), r == old(self).offset, final(self).offset == (if offset <= final(self).t().len() { offset as int } else { final(self).t().len() as int }),
//@end
//@fn SourceCursor::ensure_chunk
    requires old(self).winv(),
    ensures final(self).winv(), final(self).here(), final(self).same(old(self)), final(self).offset == old(self).offset, old(self).here() ==> final(self).chunk == old(self).chunk,
//@body
    proof { lemma_end_chunk(self.t()); }
//@end
//@fn SourceCursor::rest -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).here(), final(self).same(old(self)), final(self).offset == old(self).offset, old(self).here() ==> final(self).chunk == old(self).chunk, r.spec_bytes() == final(self).t().subrange(final(self).offset as int, final(self).chunk.e()),
//@sub /self\.chunk\.slice_from\(self\.offset\)/ => { proof { lemma_here(self.t(), self.chunk, self.offset as int); } self.chunk.slice_from(self.offset) }
//@end
//@fn SourceCursor::chunk_end -> r
    requires old(self).winv(),
    ensures final(self).here(), final(self).same(old(self)), final(self).offset == old(self).offset, old(self).here() ==> final(self).chunk == old(self).chunk, r == final(self).chunk.e(),
//@end
//@fn SourceCursor::peek_char -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).winv(), final(self).same(old(self)), final(self).offset == old(self).offset, r == peek(old(self).t(), old(self).offset as int),
//@body
    proof { if self.chunk.start <= self.offset <= self.chunk.e() { lemma_here(self.t(), self.chunk, self.offset as int); }
      assert forall|s: &str, c: TextChunk, o: int| chunk_in(self.t(), c) && c.start <= o <= c.e() && cb(self.t(), o) && #[trigger] s.spec_bytes() == #[trigger] self.t().subrange(o, c.e()) && (o == c.e() ==> o == self.t().len()) implies first_of(s@) == peek(self.t(), o) by { lemma_first_here(self.t(), c, s, o); }
      if self.chunk.start <= self.offset <= self.chunk.e() { assert(self.chunk.text.spec_bytes().skip(self.offset - self.chunk.start) =~= self.t().subrange(self.offset as int, self.chunk.e())); } }
//@loop 1
    invariant i <= self.chunk.text.spec_bytes().len(),
    decreases self.chunk.text.spec_bytes().len() - i,
//@end
//@fn SourceCursor::peek_next_n -> r
    requires old(self).winv(), old(self).offset + n <= usize::MAX, old(self).offset + n >= old(self).t().len() || cb(old(self).t(), old(self).offset + n),
    ensures *final(self) == *old(self), r == peek(old(self).t(), old(self).offset + n),
//@body
    proof { let o = self.offset + n; if self.chunk.start <= o < self.chunk.e() { lemma_here(self.t(), self.chunk, o);
        assert forall|s: &str| #[trigger] s.spec_bytes() == self.chunk.text.spec_bytes().skip(o - self.chunk.start) implies first_of(s@) == peek(self.t(), o) by { lemma_first_here(self.t(), self.chunk, s, o); } }
        if o < self.t().len() { lemma_skip(self.t(), o); } }
//@end
//@fn SourceCursor::peek_next_char -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).winv(), final(self).same(old(self)), final(self).offset == old(self).offset, old(self).offset < old(self).t().len() ==> r == peek(old(self).t(), old(self).offset + charlen(char_at(old(self).t(), old(self).offset as int))), old(self).offset >= old(self).t().len() ==> r is None,
//@body
    proof { if self.offset < self.t().len() { lemma_step(self.t(), self.offset as int); } }
//@end
//@fn SourceCursor::peek_byte -> r
    requires old(self).winv(),
    ensures final(self).winv(), final(self).same(old(self)), final(self).offset == old(self).offset, r == (if old(self).offset < old(self).t().len() { Some(old(self).t()[old(self).offset as int]) } else { None }),
        r is Some ==> final(self).chunk.start <= final(self).offset < final(self).chunk.e(),
//@body
    proof { assert forall|c: TextChunk, k: int| chunk_in(self.t(), c) && 0 <= k < c.text.spec_bytes().len() implies #[trigger] c.text.spec_bytes()[k] == self.t()[c.start + k] by { assert(self.t().subrange(c.start as int, c.e())[k] == self.t()[c.start + k]); } }
//@end
//@fn SourceCursor::advance_bytes -> r
    requires old(self).winv(), old(self).offset + len <= usize::MAX, old(self).offset + len >= old(self).t().len() || cb(old(self).t(), old(self).offset + len),
    ensures final(self).winv(), final(self).same(old(self)), r == final(self).offset, final(self).offset == (if old(self).offset + len <= old(self).t().len() { old(self).offset + len } else { old(self).t().len() as int }),
//@end
//@fn SourceCursor::advance_char -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).winv(), final(self).same(old(self)), r == peek(old(self).t(), old(self).offset as int), cb(final(self).t(), final(self).offset as int),
        r is Some ==> final(self).offset == old(self).offset + charlen(r->0), r is None ==> final(self).offset == old(self).offset,
//@body
    proof { if self.offset < self.t().len() { lemma_step(self.t(), self.offset as int); } }
//@end
//@fn SourceCursor::advance_byte -> r
    requires old(self).winv(),
    ensures final(self).winv(), final(self).same(old(self)), r == (if old(self).offset < old(self).t().len() { Some(old(self).t()[old(self).offset as int]) } else { None }),
        final(self).offset == old(self).offset + (if r is Some { 1int } else { 0 }),
//@end
//@fn SourceCursor::skip_ascii_whitespace -> r
    requires old(self).winv(),
    ensures final(self).winv(), final(self).same(old(self)), r.start == old(self).offset, r.end == final(self).offset, r.start <= r.end,
        forall|k: int| r.start <= k < r.end ==> is_ws(#[trigger] old(self).t()[k]), r.end < old(self).t().len() ==> !is_ws(old(self).t()[r.end as int]),
//@body
    let ghost t = self.t(); let ghost src = self.source;
//@loop 1
    invariant self.winv(), self.source == src, self.t() == t, start == old(self).offset, start <= self.offset, t == old(self).t(), src == old(self).source,
        forall|k: int| start <= k < self.offset ==> is_ws(#[trigger] t[k]),
    ensures self.winv(), self.source == src, self.t() == t, start <= self.offset, forall|k: int| start <= k < self.offset ==> is_ws(#[trigger] t[k]), self.offset < t.len() ==> !is_ws(t[self.offset as int]),
    decreases t.len() - self.offset,
//@after /self\.ensure_chunk\(\);/
    proof { lemma_bytes_here(t, self.chunk, self.offset as int); }
//@end
//@fn SourceCursor::skip_ascii_digits -> r
    requires old(self).winv(),
    ensures final(self).winv(), final(self).same(old(self)), r.start == old(self).offset, r.end == final(self).offset, r.start <= r.end,
        forall|k: int| r.start <= k < r.end ==> is_digit(#[trigger] old(self).t()[k]), r.end < old(self).t().len() ==> !is_digit(old(self).t()[r.end as int]),
//@body
    let ghost t = self.t(); let ghost src = self.source;
//@loop 1
    invariant self.winv(), self.source == src, self.t() == t, start == old(self).offset, start <= self.offset, t == old(self).t(), src == old(self).source,
        forall|k: int| start <= k < self.offset ==> is_digit(#[trigger] t[k]),
    ensures self.winv(), self.source == src, self.t() == t, start <= self.offset, forall|k: int| start <= k < self.offset ==> is_digit(#[trigger] t[k]), self.offset < t.len() ==> !is_digit(t[self.offset as int]),
    decreases t.len() - self.offset,
//@after /self\.ensure_chunk\(\);/
    proof { lemma_bytes_here(t, self.chunk, self.offset as int); }
//@end
//@fn SourceCursor::skip_ascii_ident_continue -> r
    requires old(self).winv(),
    ensures final(self).winv(), final(self).same(old(self)), r.start == old(self).offset, r.end == final(self).offset, r.start <= r.end,
        forall|k: int| r.start <= k < r.end ==> is_ident(#[trigger] old(self).t()[k]), r.end < old(self).t().len() ==> !is_ident(old(self).t()[r.end as int]),
//@body
    let ghost t = self.t(); let ghost src = self.source;
//@loop 1
    invariant self.winv(), self.source == src, self.t() == t, start == old(self).offset, start <= self.offset, t == old(self).t(), src == old(self).source,
        forall|k: int| start <= k < self.offset ==> is_ident(#[trigger] t[k]),
    ensures self.winv(), self.source == src, self.t() == t, start <= self.offset, forall|k: int| start <= k < self.offset ==> is_ident(#[trigger] t[k]), self.offset < t.len() ==> !is_ident(t[self.offset as int]),
    decreases t.len() - self.offset,
//@after /self\.ensure_chunk\(\);/
    proof { lemma_bytes_here(t, self.chunk, self.offset as int); }
//@end
//@fn SourceCursor::skip_until -> r
    requires old(self).winv(),
    ensures final(self).winv(), final(self).same(old(self)), r.start == old(self).offset, r.end == final(self).offset, r.start <= r.end,
        forall|k: int| r.start <= k < r.end ==> #[trigger] old(self).t()[k] != target, r.end < old(self).t().len() ==> old(self).t()[r.end as int] == target,
//@body
    let ghost t = self.t(); let ghost src = self.source;
//@loop 1
    invariant self.winv(), self.source == src, self.t() == t, start == old(self).offset, start <= self.offset, t == old(self).t(), src == old(self).source,
        forall|k: int| start <= k < self.offset ==> #[trigger] t[k] != target,
    ensures self.winv(), self.source == src, self.t() == t, start <= self.offset, forall|k: int| start <= k < self.offset ==> #[trigger] t[k] != target, self.offset < t.len() ==> t[self.offset as int] == target,
    decreases t.len() - self.offset,
//@after /self\.ensure_chunk\(\);/
    proof { lemma_bytes_here(t, self.chunk, self.offset as int); }
//@end
//@fn SourceCursor::take_while_byte -> r
    requires old(self).winv(), forall|x: u8| #[trigger] call_requires(pred, (x,)),
    ensures final(self).winv(), final(self).same(old(self)), r.start == old(self).offset, r.end == final(self).offset, r.start <= r.end,
        forall|k: int| r.start <= k < r.end ==> call_ensures(pred, (#[trigger] old(self).t()[k],), true), r.end < old(self).t().len() ==> call_ensures(pred, (old(self).t()[r.end as int],), false),
//@sub /for \(i, &b\) in bytes\.iter\(\)\.enumerate\(\) \{/ => for i in 0..bytes.len() { let b = bytes[i];
//@body
    let ghost t = self.t(); let ghost src = self.source; let ghost p = |c: u8, b: bool| call_ensures(pred, (c,), b);
    proof { lemma_bsat_step(t, self.offset as int, self.offset as int, p); }
//@afterloop 1
    proof { reveal(bsat); }
//@loop 1
    invariant self.winv(), self.source == src, self.t() == t, start == old(self).offset, start <= self.offset, t == old(self).t(), src == old(self).source,
        forall|x: u8| #[trigger] call_requires(pred, (x,)), p == (|c: u8, b: bool| call_ensures(pred, (c,), b)),
        bsat(t, start as int, self.offset as int, p),
    ensures self.winv(), self.source == src, self.t() == t, start <= self.offset, bsat(t, start as int, self.offset as int, p), self.offset < t.len() ==> p(t[self.offset as int], false),
    decreases t.len() - self.offset,
//@after /self\.ensure_chunk\(\);/
    let ghost o = self.offset as int;
    proof { lemma_bsat(t, self.chunk, start as int, o, p); }
//@loop 2
    invariant_except_break !stop, advanced == i,
    invariant bytes@.len() <= isize::MAX, forall|x: u8| #[trigger] call_requires(pred, (x,)), p == (|c: u8, b: bool| call_ensures(pred, (c,), b)), bsat(bytes@, 0, advanced as int, p),
    ensures advanced <= bytes@.len(), bsat(bytes@, 0, advanced as int, p), stop ==> advanced < bytes@.len() && p(bytes@[advanced as int], false), !stop ==> advanced == bytes@.len(),
//@loopstart 2
    proof { lemma_bsat_step(bytes@, 0, advanced as int, p); }
//@end
//@fn SourceCursor::take_while -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int), forall|x: char| #[trigger] call_requires(pred, (x,)),
    ensures final(self).winv(), final(self).same(old(self)), r.start == old(self).offset, r.end == final(self).offset,
        taken(old(self).t(), r.start as int, r.end as int, |c: char, b: bool| call_ensures(pred, (c,), b)),
//@sub /for \(i, ch\) in char_indices_v\(text\) \{/ => let ci = char_indices_v(text); for j in 0..ci.len() { let (i, ch) = ci[j];
//@sub /for \(i, ch\) in text\.char_indices\(\) \{/ => let ci = char_indices_v(text); for j in 0..ci.len() { let (i, ch) = ci[j];
//@body
    let ghost t = self.t(); let ghost src = self.source; let ghost p = |c: char, b: bool| call_ensures(pred, (c,), b);
    proof { lemma_empty_str(); }
//@loop 1
    invariant self.winv(), self.source == src, self.t() == t, start == old(self).offset, start <= self.offset, t == old(self).t(), src == old(self).source, cb(t, self.offset as int),
        forall|x: char| #[trigger] call_requires(pred, (x,)), p == (|c: char, b: bool| call_ensures(pred, (c,), b)),
        forall|k: int| start <= k < self.offset && cb(t, k) ==> #[trigger] p(char_at(t, k), true), "".spec_bytes().len() == 0,
    ensures self.winv(), self.source == src, self.t() == t, start <= self.offset, taken(t, start as int, self.offset as int, p),
    decreases t.len() - self.offset,
//@after /self\.ensure_chunk\(\);/
    proof { lemma_here(t, self.chunk, self.offset as int); }
//@before /let mut advanced = 0;/
    let ghost o = self.offset as int; let ghost e = self.chunk.e();
    proof { lemma_chars_bytes(text); assert(text.spec_bytes() =~= t.subrange(o, e)); lemma_str_valid(text); assert(text@.take(0) =~= Seq::empty()); }
//@loop 2
    invariant_except_break !stop, o + encode_utf8(text@.take(j as int)).len() == o + advanced, j == text@.len() ==> o + advanced == e,
    invariant self.winv(), self.t() == t, o == self.offset, e == self.chunk.e(), o <= e <= t.len(), valid_utf8(t), cb(t, o), cb(t, e), text.spec_bytes() == t.subrange(o, e), t.len() <= isize::MAX,
        forall|x: char| #[trigger] call_requires(pred, (x,)), p == (|c: char, b: bool| call_ensures(pred, (c,), b)),
        ci@.len() == text@.len(), forall|k: int| 0 <= k < text@.len() ==> (#[trigger] ci@[k]).1 == text@[k] && ci@[k].0 == encode_utf8(text@.take(k)).len(),
        o + advanced <= e, cb(t, o + advanced),
        forall|k: int| o <= k < o + advanced && cb(t, k) ==> #[trigger] p(char_at(t, k), true),
    ensures o + advanced <= e, cb(t, o + advanced), forall|k: int| o <= k < o + advanced && cb(t, k) ==> #[trigger] p(char_at(t, k), true),
        stop ==> o + advanced < e && p(char_at(t, o + advanced), false), !stop ==> o + advanced == e,
//@loopstart 2
    proof { lemma_char_index(t, text, o, e, j as int); lemma_step(t, o + encode_utf8(text@.take(j as int)).len()); }
//@afterloop 2
    proof { }
//@end
//@fn SourceCursor::starts_with -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).winv(), final(self).same(old(self)), final(self).offset == old(self).offset, r == is_prefix(pattern.spec_bytes(), old(self).t().skip(old(self).offset as int)),
//@sub /self\.scratch\.clear\(\)/ => str_clear(&mut self.scratch)
//@sub /self\.scratch\.push_str\(([\w.]+)\)/ => str_push(&mut self.scratch, \1)
//@sub /self\.scratch\.len\(\)/ => str_len(&self.scratch)
//@sub /self\.scratch\.starts_with\(pattern\)/ => starts_with_v(self.scratch.as_str(), pattern)
//@body
    let ghost t = self.t(); let ghost o = self.offset as int; let ghost src = self.source;
    proof { lemma_empty_str(); lemma_str_len(pattern); }
//@after /self\.ensure_chunk\(\);/
    proof { lemma_here(t, self.chunk, o); }
//@loop 1
    invariant i <= chunk_text.spec_bytes().len(),
    decreases chunk_text.spec_bytes().len() - i,
//@before /if rest\.len\(\) >= pattern\.len\(\)/
    proof { assert(rest.spec_bytes() =~= t.subrange(o, self.chunk.e())); lemma_prefix_split(t, o, self.chunk.e(), pattern.spec_bytes()); }
//@loop 2
    invariant self.winv(), self.t() == t, self.source == src, self.offset == o, end == t.len(), o <= next <= t.len(), cb(t, next as int), src.seam_at(next as int), encode_utf8(self.scratch@) == t.subrange(o, next as int), t.len() <= isize::MAX, pattern.spec_bytes().len() <= isize::MAX,
    decreases t.len() - next,
//@loopstart 2
    let ghost n0 = next as int;
//@loopend 2
    proof { assert(t.subrange(o, n0) + t.subrange(n0, next as int) =~= t.subrange(o, next as int)); }
//@afterloop 2
    proof { lemma_prefix_split(t, o, next as int, pattern.spec_bytes()); }
//@end
//@fn SourceCursor::consume_if_starts_with -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).winv(), final(self).same(old(self)), cb(final(self).t(), final(self).offset as int), r == is_prefix(pattern.spec_bytes(), old(self).t().skip(old(self).offset as int)),
        final(self).offset == old(self).offset + (if r { pattern.spec_bytes().len() as int } else { 0 }),
//@body
    let ghost t = self.t(); let ghost o = self.offset as int; 
    proof { lemma_str_len(pattern); lemma_str_valid(pattern); if is_prefix(pattern.spec_bytes(), t.skip(o)) { lemma_prefix_cb(t, o, pattern.spec_bytes()); } }
//@end
//@fn SourceCursor::find_str -> r
    requires old(self).winv(), cb(old(self).t(), old(self).offset as int),
    ensures final(self).winv(), final(self).same(old(self)), first_occ(old(self).t(), old(self).offset as int, pattern.spec_bytes(), r),
//@sub /self\.scratch\.clear\(\)/ => str_clear(&mut self.scratch)
//@sub /self\.scratch\.push_str\(([\w.]+)\)/ => str_push(&mut self.scratch, \1)
//@sub /self\.scratch\.find\(pattern\)/ => find_v(self.scratch.as_str(), pattern)
//@body
    let ghost t = self.t(); let ghost o = self.offset as int; let ghost src = self.source; let ghost p = pattern.spec_bytes();
    proof { lemma_str_len(pattern); lemma_str_valid(pattern); lemma_chars_bytes(pattern); src.lemma_inv(); lemma_occ_ends(t, p, o); }
//@loop 1
    invariant self.winv(), self.t() == t, self.source == src, o <= offset <= t.len(), cb(t, offset as int), end == t.len(), p == pattern.spec_bytes(), pat_len == p.len(), 0 < pat_len <= isize::MAX, valid_utf8(p),
        none_in(t, o, offset as int, p), t == old(self).t(), src == old(self).source, o == old(self).offset,
    ensures none_in(t, o, t.len() as int, p), self.winv(), self.same(old(self)),
    decreases t.len() - offset,
//@after /self\.ensure_chunk\(\);/
    proof { lemma_here(t, self.chunk, offset as int); }
//@after /let text = self\.chunk\.slice_from\(offset\);/
    let ghost e = self.chunk.e(); let ghost a = offset as int;
    proof { assert(text.spec_bytes() =~= t.subrange(a, e)); lemma_found_in(t, o, a, e, p); lemma_str_len(text); }
//@loop 2
    invariant tail_start <= text.spec_bytes().len() <= isize::MAX, text.spec_bytes() == t.subrange(a, e), 0 <= a <= e <= t.len(), cb(t, e), keep == p.len() - 1,
        forall|k: int| e - keep <= k < a + tail_start && k >= a ==> !cb(t, k),
    decreases text.spec_bytes().len() - tail_start,
//@loopstart 2
    proof { if cb(t, a + tail_start) && tail_start < text.spec_bytes().len() { assert(text.spec_bytes()[tail_start as int] == t[a + tail_start]); } }
//@after /let tail_abs_start = [^;]*;/
    let ghost ta = tail_abs_start as int;
    proof { assert(tail.spec_bytes() =~= t.subrange(ta, e)); }
//@loop 3
    invariant self.winv(), self.t() == t, self.source == src, e == chunk_end, keep == p.len() - 1, keep <= isize::MAX, ta <= e <= next <= t.len(), end == t.len(), cb(t, next as int), src.seam_at(next as int), encode_utf8(self.scratch@) == t.subrange(ta, next as int), t.len() <= isize::MAX, 0 <= ta,
    decreases t.len() - next,
//@loopstart 3
    let ghost n0 = next as int;
//@loopend 3
    proof { assert(t.subrange(ta, n0) + t.subrange(n0, next as int) =~= t.subrange(ta, next as int)); }
//@afterloop 3
    proof { lemma_tail(t, o, a, e, ta, next as int, p); }
//@end
}
/// The searching default methods of `Source` (placed in a trait of their own here).
pub trait SourceFind: Source {
//@src projects/oak-core/src/source/mod.rs
//@fn trait Source::find_str_from -> r
    requires self.inv(), offset >= self.text().len() || cb(self.text(), offset as int),
    ensures first_occ(self.text(), (if offset <= self.text().len() { offset as int } else { self.text().len() as int }), pattern.spec_bytes(), r),
//@end
//@fn trait Source::find_char_from -> r
    requires self.inv(), offset >= self.text().len() || cb(self.text(), offset as int),
    ensures first_char_occ(self.text(), offset as int, ch, r),
//@sub /\brest\.find\(ch\)/ => find_char_v(rest, ch)
//@body
    let ghost t = self.text();
    proof { self.lemma_inv(); lemma_no_char(t, ch); }
//@loop 1
    invariant cursor.winv(), cursor.t() == t, cursor.source == self, self.inv(), t == self.text(), t.len() <= isize::MAX, valid_utf8(t),
        base < t.len() ==> cursor.offset == base, base >= t.len() ==> cursor.offset == t.len(), cb(t, cursor.offset as int),
        no_char(t, offset as int, base as int, ch), offset <= base, base >= t.len() ==> base == offset,
    decreases t.len() - base,
//@loopstart 1
    let ghost o = cursor.offset as int;
//@after /let rest = cursor\.rest\(\);/
    let ghost e = o + rest.spec_bytes().len();
    proof { lemma_rest_chars(t, o, e, ch); lemma_no_char(t, ch); let x = offset as int;
        if o < t.len() {
            assert forall|y: int| #[trigger] no_char(t, o, y, ch) implies no_char(t, x, y, ch) by { assert(no_char2(t, x, o, y, ch)); }
        } }
//@end
}
