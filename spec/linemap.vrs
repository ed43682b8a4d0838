// ---- lines and UTF-16 columns of a text --------------------------------------------------------
/// Offsets at which the lines of t[0..n) begin: 0 and every offset after a line feed.
#[verifier::opaque]
pub open spec fn starts(t: Seq<u8>, n: int) -> Seq<int> decreases n { if n <= 0 { seq![0int] } else if t[n - 1] == 10 { starts(t, n - 1).push(n) } else { starts(t, n - 1) } }
/// Number of line feeds in t[0..n).
pub open spec fn feeds(t: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { feeds(t, n - 1) + if t[n - 1] == 10 { 1int } else { 0 } } }
/// Start of the line that contains o.
pub open spec fn line_of(t: Seq<u8>, o: int) -> int decreases o { if o <= 0 { 0 } else if t[o - 1] == 10 { o } else { line_of(t, o - 1) } }
/// UTF-16 units of the characters that begin in t[a..b).
#[verifier::opaque]
pub open spec fn units(t: Seq<u8>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { units(t, a, b - 1) + unit(t[b - 1]) } }
pub open spec fn unit(x: u8) -> int { if cont(x) { 0 } else if x >= 0xF0 { 2 } else { 1 } }
/// The position of boundary o: line feeds before it, UTF-16 units since the last one.
pub open spec fn pos(t: Seq<u8>, o: int) -> (int, int) { (feeds(t, o), units(t, line_of(t, o), o)) }
pub open spec fn pos_lt(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn len16(c: char) -> int { if c as int >= 0x10000 { 2 } else { 1 } }
pub open spec fn len16s(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { len16s(s.drop_last()) + len16(s.last()) } }
pub trait Utf16 { spec fn uc(&self) -> Seq<char>; fn utf16_count_v(&self) -> (r: usize) ensures r == len16s(self.uc()); }
impl Utf16 for str { open spec fn uc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn utf16_count_v(&self) -> (r: usize) { self.encode_utf16().count() } }
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
#[verifier::external_body]
pub fn char_len16(c: char) -> (r: usize) ensures r == len16(c) { c.len_utf16() }
impl<'a> Cow<'a, str> {
    pub fn as_ref_v(&self) -> (r: &str) ensures r.spec_bytes() == self.bytes() { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
}
pub trait UMin { fn vmin(self, o: usize) -> (r: usize) ensures r == self.us() || r == o, r <= self.us(), r <= o; fn vmax(self, o: usize) -> (r: usize) ensures r == self.us() || r == o, r >= self.us(), r >= o; spec fn us(self) -> usize; }
impl UMin for usize { open spec fn us(self) -> usize { self } fn vmin(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } fn vmax(self, o: usize) -> (r: usize) { if self <= o { o } else { self } } }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
pub proof fn lemma_starts(t: Seq<u8>, n: int)
    requires 0 <= n <= t.len(),
    ensures starts(t, n).len() == feeds(t, n) + 1, 0 <= feeds(t, n) <= n, starts(t, n)[0] == 0, starts(t, n).last() == line_of(t, n), 0 <= line_of(t, n) <= n,
        forall|i: int, j: int| 0 <= i < j < starts(t, n).len() ==> starts(t, n)[i] < starts(t, n)[j], forall|i: int| 0 <= i < starts(t, n).len() ==> 0 <= #[trigger] starts(t, n)[i] <= n,
        cb(t, n) && valid_utf8(t) ==> cb(t, line_of(t, n)),
    decreases n,
{
    reveal_with_fuel(starts, 2);
    if n > 0 {
        lemma_starts(t, n - 1);
        if t[n - 1] != 10 && line_of(t, n - 1) != 0 && valid_utf8(t) { lemma_line_of(t, n - 1); }
    }
}
/// The line of o begins at 0 or just after a line feed, and holds none before o.
pub proof fn lemma_line_of(t: Seq<u8>, o: int)
    requires 0 <= o <= t.len(),
    ensures 0 <= line_of(t, o) <= o, line_of(t, o) > 0 ==> t[line_of(t, o) - 1] == 10, forall|k: int| line_of(t, o) <= k < o ==> t[k] != 10, valid_utf8(t) ==> cb(t, line_of(t, o)),
    decreases o,
{
    if o > 0 && t[o - 1] != 10 { lemma_line_of(t, o - 1); }
    if valid_utf8(t) && line_of(t, o) > 0 { let l = line_of(t, o); lemma_ascii_next(t, l - 1); }
}
/// starts of a longer prefix extend those of a shorter one by offsets beyond it.
pub proof fn lemma_starts_ext(t: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m <= t.len(),
    ensures starts(t, n).len() <= starts(t, m).len(), forall|i: int| 0 <= i < starts(t, n).len() ==> #[trigger] starts(t, m)[i] == starts(t, n)[i],
        forall|i: int| starts(t, n).len() <= i < starts(t, m).len() ==> #[trigger] starts(t, m)[i] > n,
    decreases m - n,
{ if m > n { lemma_starts_ext(t, n, m - 1); reveal_with_fuel(starts, 2); lemma_starts(t, n); lemma_starts(t, m - 1); } }
/// A line start past the first follows a line feed, and every line feed is followed by a line start.
pub proof fn lemma_line_at(t: Seq<u8>, n: int, i: int)
    requires 0 <= n <= t.len(), 0 <= i < starts(t, n).len(),
    ensures starts(t, n)[i] > 0 ==> t[starts(t, n)[i] - 1] == 10, feeds(t, starts(t, n)[i]) == i, line_of(t, starts(t, n)[i]) == starts(t, n)[i],
        i > 0 ==> starts(t, n)[i] > 0,
    decreases n,
{
    reveal_with_fuel(starts, 2); lemma_starts(t, n);
    if n > 0 { if t[n - 1] == 10 && i == starts(t, n).len() - 1 { lemma_starts(t, n - 1); } else { lemma_line_at(t, n - 1, i); } }
}
pub proof fn lemma_units(t: Seq<u8>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= t.len(),
    ensures units(t, a, c) == units(t, a, b) + units(t, b, c), 0 <= units(t, b, c) <= 2 * (c - b), units(t, a, a) == 0,
    decreases c - b,
{ reveal_with_fuel(units, 2); if c > b { lemma_units(t, a, b, c - 1); } }
/// Units counted in a slice.
pub proof fn lemma_units_sub(t: Seq<u8>, o: int, e: int, a: int, b: int)
    requires 0 <= o <= e <= t.len(), 0 <= a <= b <= e - o,
    ensures units(t.subrange(o, e), a, b) == units(t, o + a, o + b),
    decreases b - a,
{ reveal_with_fuel(units, 2); if b > a { lemma_units_sub(t, o, e, a, b - 1); } }
/// One character adds its UTF-16 length.
pub proof fn lemma_unit_char(t: Seq<u8>, o: int)
    requires valid_utf8(t), cb(t, o), o < t.len(),
    ensures units(t, o, o + charlen(char_at(t, o))) == len16(char_at(t, o)),
{
    lemma_step(t, o); lemma_skip(t, o); let c = char_at(t, o); let n = charlen(c); lemma_charlen(c);
    let s = encode_scalar(c as u32);
    assert(s[0] == t[o]) by { assert(t.subrange(o, o + n)[0] == t[o]); }
    assert(!cont(t[o]));
    lemma_lead(c);
    reveal_with_fuel(units, 5);
    assert forall|k: int| o < k < o + n implies cont(#[trigger] t[k]) by { assert(!cb(t, k)); }
    lemma_conts(t, o + 1, o + n); lemma_units(t, o, o + 1, o + n);
}
pub proof fn lemma_conts(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|k: int| a <= k < b ==> cont(#[trigger] t[k]),
    ensures units(t, a, b) == 0,
    decreases b - a,
{ reveal_with_fuel(units, 2); if b > a { lemma_conts(t, a, b - 1); } }
pub proof fn lemma_lead(c: char)
    ensures encode_scalar(c as u32)[0] >= 0xF0 <==> c as int >= 0x10000,
{
    let s = seq![c];
    broadcast use encode_utf8_valid_utf8;
    encode_utf8_first_scalar(s);
    let x = c as u32; char_is_scalar(c); assert(x == c as int);
    assert(x < 0x10000 ==> ((x >> 12) & 0xF) <= 0xF) by (bit_vector);
    assert(((x >> 18) & 0x7) <= 7) by (bit_vector);
    assert(((x >> 6) & 0x1F) <= 0x1F) by (bit_vector);
    assert(((x >> 12) & 0x0F) <= 0x0F) by (bit_vector);
    assert(0xF0u8 | 0u8 == 0xF0u8) by (bit_vector);
    assert forall|y: u8| y <= 7 implies (#[trigger] (0xF0u8 | y)) >= 0xF0 by { assert(y <= 7 ==> (0xF0u8 | y) >= 0xF0u8) by (bit_vector); }
    assert forall|y: u8| y <= 0xF implies (#[trigger] (0xE0u8 | y)) < 0xF0 by { assert(y <= 0xF ==> (0xE0u8 | y) < 0xF0u8) by (bit_vector); }
    assert forall|y: u8| y <= 0x1F implies (#[trigger] (0xC0u8 | y)) < 0xF0 by { assert(y <= 0x1F ==> (0xC0u8 | y) < 0xF0u8) by (bit_vector); }
    assert(x < 0x80 ==> (x & 0x7F) == x) by (bit_vector);
}
/// The UTF-16 length of text, character by character, is its unit count.
pub proof fn lemma_text_units(s: &str, j: int)
    requires 0 <= j <= s@.len(),
    ensures len16s(s@.take(j)) == units(s.spec_bytes(), 0, encode_utf8(s@.take(j)).len() as int), encode_utf8(s@.take(j)).len() <= s.spec_bytes().len(), j == s@.len() ==> encode_utf8(s@.take(j)) == s.spec_bytes() && s@.take(j) == s@,
    decreases j,
{
    let b = s.spec_bytes(); lemma_str_valid(s); lemma_empty_str();
    if j == 0 { assert(s@.take(0) =~= Seq::empty()); reveal_with_fuel(units, 1); }
    else {
        lemma_text_units(s, j - 1);
        assert(b == b.subrange(0, b.len() as int));
        lemma_char_index(b, s, 0, b.len() as int, j - 1);
        let o = encode_utf8(s@.take(j - 1)).len() as int;
        lemma_unit_char(b, o); lemma_units(b, 0, o, o + charlen(s@[j - 1]));
        assert(s@.take(j).drop_last() =~= s@.take(j - 1));
    }
    if j == s@.len() { assert(s@.take(j) =~= s@); }
}
pub open spec fn is_starts(v: Seq<usize>, t: Seq<u8>, n: int) -> bool { v.len() == starts(t, n).len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == starts(t, n)[i] }
/// Where line l begins and ends (its line feed included).
pub open spec fn line_begin(t: Seq<u8>, l: int) -> Option<usize> { if l <= feeds(t, t.len() as int) { Some(starts(t, t.len() as int)[l] as usize) } else { None } }
pub open spec fn line_stop(t: Seq<u8>, l: int) -> Option<usize> { if l < feeds(t, t.len() as int) { Some(starts(t, t.len() as int)[l + 1] as usize) } else if l == feeds(t, t.len() as int) { Some(t.len() as usize) } else { None } }
/// Every boundary on line l lies in [a, e], and on that line unless it is the start of the next.
#[verifier::opaque]
pub open spec fn line_is(t: Seq<u8>, l: int, a: int, e: int) -> bool { forall|o: int| #[trigger] cb(t, o) && feeds(t, o) == l ==> a <= o <= e && line_of(t, o) == a }
pub proof fn lemma_line_span(t: Seq<u8>, l: int, a: int, e: int)
    requires valid_utf8(t), t.len() <= usize::MAX, 0 <= l <= feeds(t, t.len() as int), line_begin(t, l) == Some(a as usize), line_stop(t, l) == Some(e as usize), 0 <= a <= usize::MAX, 0 <= e <= usize::MAX,
    ensures 0 <= a <= e <= t.len(), cb(t, a), cb(t, e), line_is(t, l, a, e),
{
    let n = t.len() as int; lemma_starts(t, n); lemma_line_at(t, n, l); if l < feeds(t, n) { lemma_line_at(t, n, l + 1); lemma_ascii_next(t, e - 1); }
    if a > 0 { lemma_ascii_next(t, a - 1); }
    reveal(line_is);
    assert forall|o: int| #[trigger] cb(t, o) && feeds(t, o) == l implies a <= o <= e && line_of(t, o) == a by {
        lemma_starts(t, o); lemma_starts_ext(t, o, n);
        assert(starts(t, n)[l] == starts(t, o)[l]);
        if l < feeds(t, n) { assert(starts(t, n)[l + 1] > o); }
    }
}
/// Boundary b has the first position on line l whose column reaches the target.
pub proof fn lemma_hit(t: Seq<u8>, l: int, a: int, e: int, b: int, target: int)
    requires valid_utf8(t), 0 <= a <= b <= e <= t.len(), cb(t, b), line_is(t, l, a, e), forall|k: int| a <= k < b && #[trigger] cb(t, k) ==> units(t, a, k) < target,
        b < e ==> units(t, a, b) >= target,
    ensures forall|o: int| #[trigger] cb(t, o) && pos(t, o) == (l, target) ==> o == b,
{
    assert forall|o: int| #[trigger] cb(t, o) && pos(t, o) == (l, target) implies o == b by {
        reveal(line_is);
        if o > b { lemma_step(t, b); lemma_unit_char(t, b); let m = b + charlen(char_at(t, b)); assert(m <= o); lemma_units(t, a, b, m); lemma_units(t, a, m, o); }
    }
}
pub proof fn lemma_sub_valid(t: Seq<u8>, a: int, b: int)
    requires valid_utf8(t), cb(t, a), cb(t, b), a <= b,
    ensures valid_utf8(t.subrange(a, b)),
{ lemma_skip(t, a); lemma_cb(t.skip(a), b - a); valid_utf8_split(t.skip(a), b - a); assert(t.skip(a).subrange(0, b - a) =~= t.subrange(a, b)); }
/// `encode_utf16().count()` of a slice of text.
pub proof fn lemma_len16s(s: Seq<u8>, n: int)
    requires n == s.len(), valid_utf8(s),
    ensures forall|x: &str| #[trigger] x.spec_bytes() == s ==> len16s(x@) == units(s, 0, n),
{ assert forall|x: &str| #[trigger] x.spec_bytes() == s implies len16s(x@) == units(s, 0, n) by { lemma_text_units(x, x@.len() as int); } }
/// The part of a chunk from o on.
pub proof fn lemma_slice_here(t: Seq<u8>, c: TextChunk, s: &str, o: int)
    requires valid_utf8(t), chunk_ok(t, c, o), 0 <= o < t.len(), cb(t, o),
        o <= c.start ==> s.spec_bytes() == c.text.spec_bytes(),
        o > c.start && cb(c.text.spec_bytes(), o - c.start) ==> s.spec_bytes() == c.text.spec_bytes().skip(o - c.start),
    ensures s.spec_bytes() == t.subrange(o, c.e()), o < c.e() <= t.len(), cb(t, c.e()),
{ lemma_here(t, c, o); if o == c.start { assert(t.subrange(o, c.e()) =~= c.text.spec_bytes()); } }
/// Distinct boundaries have distinct positions, in order; and positions determine offsets.
pub proof fn lemma_order(t: Seq<u8>, a: int, b: int)
    requires valid_utf8(t), cb(t, a), cb(t, b), a < b,
    ensures pos_lt(pos(t, a), pos(t, b)),
{
    lemma_starts(t, a); lemma_starts(t, b); lemma_starts_ext(t, a, b);
    if feeds(t, a) == feeds(t, b) {
        assert(starts(t, a).last() == starts(t, b).last());
        lemma_step(t, a); lemma_unit_char(t, a);
        let n = a + charlen(char_at(t, a));
        assert(n <= b);
        lemma_units(t, line_of(t, a), a, b); lemma_units(t, a, n, b);
    }
}
//@gsubclear
//@gsub /\.(min|max)\(/ => .v\1(
//@gsub /core::range::Range\b/ => Range
//@gsub /\.binary_search\(/ => .binary_search_v(
//@gsub /\.encode_utf16\(\)\.count\(\)/ => .utf16_count_v()
//@gsub /\.as_ref\(\)/ => .as_ref_v()
//@src projects/oak-vfs/src/line_map.rs
//@item LineMap
impl LineMap {
    /// The map describes text t.
    pub open spec fn of(&self, t: Seq<u8>) -> bool { self.len == t.len() && self.line_starts@.len() == starts(t, t.len() as int).len() && forall|i: int| 0 <= i < self.line_starts@.len() ==> #[trigger] self.line_starts@[i] == starts(t, t.len() as int)[i] }
//@fn LineMap::from_source -> r
    requires source.inv(),
    ensures r.of(source.text()),
//@sub /for \(i, b\) in text\.as_bytes\(\)\.iter\(\)\.enumerate\(\) \{/ => let bytes = text.as_bytes(); for i in 0..bytes.len() { let b = &bytes[i];
//@body
    let ghost t = source.text();
    proof { source.lemma_inv(); reveal_with_fuel(starts, 2); }
//@loop 1
    invariant source.inv(), t == source.text(), len == t.len(), t.len() <= isize::MAX, valid_utf8(t), offset <= len, cb(t, offset as int), is_starts(line_starts@, t, offset as int),
    decreases len - offset,
//@after /let text = chunk\.slice_from\(offset\);/
    let ghost o = offset as int;
    proof { lemma_slice_here(t, chunk, text, o); }
//@loop 2
    invariant t.len() <= isize::MAX, len == t.len(), o == offset, offset + bytes@.len() == chunk.e() <= len, bytes@ == t.subrange(o, chunk.e()), is_starts(line_starts@, t, o + i),
//@loopstart 2
    proof { reveal_with_fuel(starts, 2); assert(bytes@[i as int] == t[o + i]); }
//@end
//@fn LineMap::line_count -> r
    ensures forall|t: Seq<u8>| #[trigger] self.of(t) ==> r == feeds(t, t.len() as int) + 1,
//@body
    proof { assert forall|t: Seq<u8>| #[trigger] self.of(t) implies self.line_starts@.len() == feeds(t, t.len() as int) + 1 by { lemma_starts(t, t.len() as int); } }
//@end
//@fn LineMap::line_start -> r
    ensures forall|t: Seq<u8>| #[trigger] self.of(t) ==> r == line_begin(t, line as int),
//@body
    proof { assert forall|t: Seq<u8>| #[trigger] self.of(t) implies self.line_starts@.len() == feeds(t, t.len() as int) + 1 && (forall|i: int| 0 <= i < self.line_starts@.len() ==> #[trigger] self.line_starts@[i] == starts(t, t.len() as int)[i]) by { lemma_starts(t, t.len() as int); } }
//@end
//@fn LineMap::line_end -> r
    ensures forall|t: Seq<u8>| #[trigger] self.of(t) ==> r == line_stop(t, line as int),
//@body
    assert(self.line_starts@.len() <= usize::MAX) by { let n = self.line_starts.len(); assert(n == self.line_starts@.len()); }
    proof { assert forall|t: Seq<u8>| #[trigger] self.of(t) implies self.len == t.len() && self.line_starts@.len() == feeds(t, t.len() as int) + 1 && (forall|i: int| 0 <= i < self.line_starts@.len() ==> 0 <= (#[trigger] self.line_starts@[i]) <= t.len() && self.line_starts@[i] == starts(t, t.len() as int)[i]) && (forall|i: int, j: int| 0 <= i < j < self.line_starts@.len() ==> self.line_starts@[i] < self.line_starts@[j]) by { lemma_starts(t, t.len() as int); } }
//@end
//@fn LineMap::offset_to_line_col_utf16 -> r
    requires source.inv(), self.of(source.text()), offset >= source.text().len() || cb(source.text(), offset as int), source.text().len() <= u32::MAX / 2,
    ensures ({ let o = if offset <= source.text().len() { offset as int } else { source.text().len() as int }; (r.0 as int, r.1 as int) == pos(source.text(), o) }),
//@body
    let ghost t = source.text(); let ghost o = if offset <= t.len() { offset as int } else { t.len() as int };
    proof { source.lemma_inv(); lemma_starts(t, t.len() as int); lemma_starts(t, o); lemma_starts_ext(t, o, t.len() as int); lemma_units(t, line_of(t, o), o, o); lemma_units(t, line_of(t, o), line_of(t, o), o);
        assert(self.line_starts@[feeds(t, o)] == line_of(t, o)); lemma_line_of(t, o); }
//@before /let col = /
    proof { let s = slice.bytes(); assert(s == t.subrange(line_of(t, o), o)); lemma_units_sub(t, line_of(t, o), o, 0, o - line_of(t, o)); lemma_sub_valid(t, line_of(t, o), o); lemma_len16s(s, o - line_of(t, o)); }
//@end
//@fn LineMap::line_col_utf16_to_offset -> r
    requires source.inv(), self.of(source.text()), source.text().len() <= u32::MAX / 2,
    ensures r <= source.text().len(), cb(source.text(), r as int),
        forall|o: int| #[trigger] cb(source.text(), o) && pos(source.text(), o) == (line as int, col_utf16 as int) ==> r == o,
        line as int > feeds(source.text(), source.text().len() as int) ==> r == source.text().len(),
        line as int <= feeds(source.text(), source.text().len() as int) ==> line_begin(source.text(), line as int)->0 <= r <= line_stop(source.text(), line as int)->0,
//@sub /for \(byte_idx, ch\) in text\.char_indices\(\) \{/ => let ci = char_indices_v(text); for j in 0..ci.len() { let (byte_idx, ch) = ci[j];
//@sub /\bch\.len_utf16\(\)/ => char_len16(ch)
//@body
    let ghost t = source.text(); let ghost n = t.len() as int;
    proof { source.lemma_inv(); lemma_starts(t, n); 
        assert forall|o: int| #[trigger] cb(t, o) implies 0 <= feeds(t, o) <= feeds(t, n) by { lemma_starts(t, o); lemma_starts_ext(t, o, n); } }
//@before /let slice = /
    let ghost a = line_start as int; let ghost e = line_end as int;
    proof { lemma_line_span(t, line as int, a, e); lemma_units(t, a, a, a); lemma_empty_str(); assert forall|x: &str| encode_utf8(#[trigger] x@.take(0)) =~= Seq::<u8>::empty() && (x.spec_bytes() == t.subrange(a, e) && x@.len() == 0 ==> a == e) by { assert(x@.take(0) =~= Seq::<char>::empty()); lemma_chars_bytes(x); } }
//@loop 1
    invariant t == source.text(), t.len() <= u32::MAX / 2, n == t.len(), Some(line_start) == line_begin(t, line as int), Some(line_end) == line_stop(t, line as int), line as int <= feeds(t, n), self.len == n, valid_utf8(t), a == line_start, e == line_end, 0 <= a <= e <= n, cb(t, a), cb(t, e), text.spec_bytes() == t.subrange(a, e), target == col_utf16,
        ci@.len() == text@.len(), forall|k: int| 0 <= k < text@.len() ==> (#[trigger] ci@[k]).1 == text@[k] && ci@[k].0 == encode_utf8(text@.take(k)).len(),
        line_is(t, line as int, a, e),
        ({ let b = a + encode_utf8(text@.take(j as int)).len(); b <= e && cb(t, b) && utf16 == units(t, a, b) && utf16 <= 2 * n && (j == text@.len() ==> b == e)
            && forall|k: int| a <= k < b && #[trigger] cb(t, k) ==> units(t, a, k) < target }),
//@loopstart 1
    proof { lemma_char_index(t, text, a, e, j as int); let b = a + encode_utf8(text@.take(j as int)).len(); lemma_step(t, b); lemma_unit_char(t, b); lemma_units(t, a, b, b + charlen(text@[j as int])); lemma_units(t, a, a, b + charlen(text@[j as int]));
        if utf16 >= target { lemma_hit(t, line as int, a, e, b, target as int); } }
//@afterloop 1
    proof { lemma_hit(t, line as int, a, e, e, target as int); }
//@end
}
