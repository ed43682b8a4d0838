// ---- the Source trait: every representation shows the same flat text -------------------------
pub open spec fn chunk_ok(t: Seq<u8>, c: TextChunk, o: int) -> bool {
    &&& c.start + c.text.spec_bytes().len() <= t.len()
    &&& t.subrange(c.start as int, c.start + c.text.spec_bytes().len()) == c.text.spec_bytes()
    &&& cb(t, c.start as int) && cb(t, c.start + c.text.spec_bytes().len())
    &&& o >= t.len() ==> c.start == t.len() && c.text.spec_bytes().len() == 0
    &&& o < t.len() ==> c.start <= o < c.start + c.text.spec_bytes().len()
}
/// First character of valid text.
pub open spec fn first_char(b: Seq<u8>) -> Option<char> { if b.len() == 0 { None } else { Some(decode_utf8(b)[0]) } }
pub open spec fn first_of(s: Seq<char>) -> Option<char> { if s.len() == 0 { None } else { Some(s[0]) } }
pub trait CharsNext { spec fn cv(&self) -> Seq<char>; fn first_char_v(&self) -> (r: Option<char>) ensures r == first_of(self.cv()); }
impl CharsNext for str { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn first_char_v(&self) -> (r: Option<char>) { self.chars().next() } }
pub proof fn lemma_chars_bytes(s: &str)
    ensures first_of(s@) == first_char(s.spec_bytes()), decode_utf8(s.spec_bytes()) == s@, s@.len() == 0 <==> s.spec_bytes().len() == 0,
{
    lemma_str_valid(s); lemma_empty_str(); encode_utf8_decode_utf8(s@);
    if s.spec_bytes().len() == 0 && s@.len() > 0 { assert(s.spec_bytes() =~= encode_utf8(Seq::<char>::empty())); encode_utf8_decode_utf8(Seq::<char>::empty()); }
    if s@.len() == 0 { assert(s@ =~= Seq::<char>::empty()); }
}
/// The first character of text does not depend on what follows the (valid, non-empty) prefix.
pub proof fn lemma_first_char_prefix(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b), a.len() > 0,
    ensures first_char(a + b) == first_char(a),
{
    decode_utf8_encode_utf8(a); decode_utf8_encode_utf8(b); 
    let x = decode_utf8(a); let y = decode_utf8(b);
    encode_utf8_concat(x, y); encode_utf8_decode_utf8(x + y);
    assert(decode_utf8(a + b) == x + y);
    lemma_empty_str();
    if x.len() == 0 { assert(x =~= Seq::<char>::empty()); }
}
//@gsub /\.chars\(\)\.next\(\)/ => .first_char_v()
//@gsub /crate::source::TextChunk/ => TextChunk
//@gsub /core::range::Range\b/ => Range
//@src projects/oak-core/src/source/mod.rs
#[derive(Clone, Copy)]
#[verifier::allow(autoderive_clone_without_spec)]
//@item TextChunk
impl<'a> TextChunk<'a> {
    pub open spec fn e(&self) -> int { self.start + self.text.spec_bytes().len() }
//@fn TextChunk::end -> r
    requires self.e() <= usize::MAX,
    ensures r == self.e(),
//@end
//@fn TextChunk::slice_from -> r
    ensures
        offset <= self.start ==> r.spec_bytes() == self.text.spec_bytes(),
        offset > self.start && cb(self.text.spec_bytes(), offset - self.start) ==> r.spec_bytes() == self.text.spec_bytes().skip(offset - self.start),
        offset > self.start && !cb(self.text.spec_bytes(), offset - self.start) ==> r.spec_bytes() == Seq::<u8>::empty(),
//@body
    proof { lemma_empty_str(); }
//@end
}
pub trait Source {
    spec fn text(&self) -> Seq<u8>;
    spec fn inv(&self) -> bool;
    /// A chunk ends here, so the next one begins here.
    spec fn seam_at(&self, o: int) -> bool;
    proof fn lemma_inv(&self) requires self.inv() ensures valid_utf8(self.text()), self.text().len() <= isize::MAX;
    fn length(&self) -> (r: usize)
        requires self.inv(),
        ensures r == self.text().len();
    fn chunk_at(&self, offset: usize) -> (r: TextChunk<'_>)
        requires self.inv(), offset >= self.text().len() || cb(self.text(), offset as int),
        ensures chunk_ok(self.text(), r, offset as int), self.seam_at(r.e()), self.seam_at(offset as int) && offset <= self.text().len() ==> r.start == offset;
    fn get_text_in(&self, range: Range<usize>) -> (r: Cow<'_, str>)
        requires self.inv(),
        ensures range.start <= range.end <= self.text().len() && cb(self.text(), range.start as int) && cb(self.text(), range.end as int) ==> r.bytes() == self.text().subrange(range.start as int, range.end as int);
//@fn trait Source::is_empty -> r
        requires self.inv(),
        ensures r == (self.text().len() == 0),
//@end
//@fn trait Source::get_char_at -> r
        requires self.inv(), offset >= self.text().len() || cb(self.text(), offset as int),
        ensures offset < self.text().len() ==> r == first_char(self.text().skip(offset as int)), offset >= self.text().len() ==> r is None,
//@sub /self\.chunk_at\(offset\)\.slice_from\(offset\)\.chars\(\)\.next\(\)/ => { let c = self.chunk_at(offset); let s = c.slice_from(offset); proof { self.lemma_inv(); lemma_char_here(self.text(), c, s, offset as int); } s.chars().next() }
//@end
//@fn trait Source::get_text_from -> r
        requires self.inv(), offset >= self.text().len() || cb(self.text(), offset as int),
        ensures offset < self.text().len() ==> r.bytes() == self.text().skip(offset as int), offset >= self.text().len() ==> r.bytes() == Seq::<u8>::empty(),
//@body
    proof { lemma_empty_str(); if offset < self.text().len() { assert(self.text().subrange(offset as int, self.text().len() as int) =~= self.text().skip(offset as int)); } }
//@end
}
/// The character at offset o, read from the chunk that holds o, is the character of the text at o.
pub proof fn lemma_char_here(t: Seq<u8>, c: TextChunk, s: &str, o: int)
    requires valid_utf8(t), chunk_ok(t, c, o), o >= t.len() || cb(t, o), o >= 0,
        o <= c.start ==> s.spec_bytes() == c.text.spec_bytes(),
        o > c.start && cb(c.text.spec_bytes(), o - c.start) ==> s.spec_bytes() == c.text.spec_bytes().skip(o - c.start),
        o > c.start && !cb(c.text.spec_bytes(), o - c.start) ==> s.spec_bytes() == Seq::<u8>::empty(),
    ensures
        o < t.len() ==> s.spec_bytes().len() > 0 && s.spec_bytes() == t.subrange(o, c.e()) && first_of(s@) == first_char(t.skip(o)),
        o >= t.len() ==> s.spec_bytes().len() == 0 && s@.len() == 0,
{
    lemma_chars_bytes(s);
    lemma_str_valid(s);
    if o < t.len() {
        let b = c.text.spec_bytes();
        assert(b[o - c.start] == t[o]);
        lemma_str_valid(c.text);
        lemma_first_not_cont(b);
        assert(cb(b, o - c.start));
        assert(s.spec_bytes() =~= t.subrange(o, c.e()));
        lemma_cb(t, c.e());
        valid_utf8_split(t, c.e());
        assert(t.skip(o) =~= s.spec_bytes() + t.skip(c.e()));
        lemma_first_char_prefix(s.spec_bytes(), t.skip(c.e()));
    }
}
