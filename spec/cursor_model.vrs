/// `get_unchecked(rel..)` on bytes and text: in bounds (and on a boundary) is the caller's duty.
#[verifier::external_body]
pub fn bytes_from<'a>(s: &'a str, i: usize) -> (r: &'a [u8]) requires i <= s.spec_bytes().len() ensures r@ == s.spec_bytes().skip(i as int), r@.len() <= isize::MAX { &s.as_bytes()[i..] }
#[verifier::external_body]
pub fn text_from<'a>(s: &'a str, i: usize) -> (r: &'a str) requires cb(s.spec_bytes(), i as int) ensures r.spec_bytes() == s.spec_bytes().skip(i as int) { &s[i..] }
#[verifier::external_body]
pub fn byte_unchecked(s: &[u8], i: usize) -> (r: u8) requires i < s@.len() ensures r == s@[i as int] { s[i] }
pub fn byte_get(s: &[u8], i: usize) -> (r: Option<u8>) ensures r == (if i < s@.len() { Some(s@[i as int]) } else { None }) { if i < s.len() { Some(s[i]) } else { None } }
#[verifier::external_body]
pub fn no_bytes<'a>() -> (r: &'a [u8]) ensures r@.len() == 0 { &[] }
pub open spec fn is_prefix(p: Seq<u8>, t: Seq<u8>) -> bool { p.len() <= t.len() && t.take(p.len() as int) == p }
/// `str::starts_with(&str)`.
#[verifier::external_body]
pub fn starts_with_v(s: &str, p: &str) -> (r: bool) ensures r == is_prefix(p.spec_bytes(), s.spec_bytes()) { s.starts_with(p) }
/// `str::find(&str)`: the first occurrence.
#[verifier::opaque]
pub open spec fn occurs(t: Seq<u8>, o: int, p: Seq<u8>) -> bool { 0 <= o && o + p.len() <= t.len() && t.subrange(o, o + p.len()) == p }
pub open spec fn first_occ(t: Seq<u8>, from: int, p: Seq<u8>, r: Option<usize>) -> bool {
    match r { Some(i) => from <= i && occurs(t, i as int, p) && forall|k: int| from <= k < i ==> !occurs(t, k, p), None => forall|k: int| from <= k ==> !occurs(t, k, p) }
}
#[verifier::external_body]
pub fn find_v(s: &str, p: &str) -> (r: Option<usize>) ensures first_occ(s.spec_bytes(), 0, p.spec_bytes(), r) { s.find(p) }
/// `str::char_indices` as a list.
#[verifier::external_body]
pub fn char_indices_v(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && r@[k].0 == encode_utf8(s@.take(k)).len(),
{ s.char_indices().collect() }
#[verifier::external_body]
pub fn find_char_v(s: &str, c: char) -> (r: Option<usize>)
    ensures found_char(s.spec_bytes(), c, r),
{ s.find(c) }
/// From s to e every character satisfies p, and e is the end or a character that does not.
pub open spec fn taken(t: Seq<u8>, s: int, e: int, p: spec_fn(char, bool) -> bool) -> bool {
    &&& s <= e <= t.len() && cb(t, e)
    &&& forall|k: int| s <= k < e && cb(t, k) ==> #[trigger] p(char_at(t, k), true)
    &&& e < t.len() ==> p(char_at(t, e), false)
}
// ---- text seen by a cursor -------------------------------------------------------------------
pub open spec fn charlen(c: char) -> int { encode_scalar(c as u32).len() as int }
/// The character of valid text t at boundary o.
pub open spec fn char_at(t: Seq<u8>, o: int) -> char { decode_utf8(t.skip(o))[0] }
pub open spec fn peek(t: Seq<u8>, o: int) -> Option<char> { if 0 <= o < t.len() { Some(char_at(t, o)) } else { None } }
/// The chunk shows a part of the text (anywhere).
pub open spec fn chunk_in(t: Seq<u8>, c: TextChunk) -> bool {
    &&& c.start + c.text.spec_bytes().len() <= t.len()
    &&& t.subrange(c.start as int, c.e()) == c.text.spec_bytes()
    &&& cb(t, c.start as int) && cb(t, c.e())
}
pub proof fn lemma_prefix_valid(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(a + b),
    ensures valid_utf8(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert(length_of_first_scalar(a) == length_of_first_scalar(a + b));
        assert(pop_first_scalar(a + b) =~= pop_first_scalar(a) + b);
        lemma_prefix_valid(pop_first_scalar(a), b);
    }
}
/// t from boundary o on is valid text, and boundaries of the rest are boundaries of t.
pub proof fn lemma_skip(t: Seq<u8>, o: int)
    requires valid_utf8(t), cb(t, o),
    ensures valid_utf8(t.skip(o)), forall|k: int| 0 <= k <= t.len() - o ==> (#[trigger] cb(t.skip(o), k) <==> cb(t, o + k)),
{
    lemma_cb(t, o); valid_utf8_split(t, o); assert(t.subrange(o, t.len() as int) =~= t.skip(o));
    let s = t.skip(o);
    if s.len() > 0 { lemma_first_not_cont(s); assert(s[0] == t[o]); }
    assert forall|k: int| 0 <= k <= t.len() - o implies (#[trigger] cb(s, k) <==> cb(t, o + k)) by { if k < s.len() { assert(s[k] == t[o + k]); } }
}
pub proof fn lemma_ascii_next(t: Seq<u8>, o: int)
    requires valid_utf8(t), 0 <= o < t.len(), t[o] < 0x80,
    ensures cb(t, o), cb(t, o + 1), char_at(t, o) as int == t[o] as int, charlen(char_at(t, o)) == 1,
{
    lemma_skip(t, o);
    let a = t.skip(o);
    assert(a[0] == t[o]);
    assert(is_leading_byte_width_1(a[0])); assert(length_of_first_scalar(a) == 1); assert(pop_first_scalar(a) =~= a.skip(1));
    if a.len() > 1 { lemma_first_not_cont(a.skip(1)); assert(a.skip(1)[0] == t[o + 1]); }
    decode_utf8_first_scalar(a);
    lemma_step(t, o); let c = char_at(t, o); lemma_charlen(c);
    assert(encode_scalar(c as u32)[0] == t.subrange(o, o + charlen(c))[0]);
}
/// One character step.
pub proof fn lemma_step(t: Seq<u8>, o: int)
    requires valid_utf8(t), cb(t, o), o < t.len(),
    ensures
        1 <= charlen(char_at(t, o)) <= 4, o + charlen(char_at(t, o)) <= t.len(), cb(t, o + charlen(char_at(t, o))),
        t.subrange(o, o + charlen(char_at(t, o))) == encode_scalar(char_at(t, o) as u32),
        decode_utf8(t.skip(o)) == seq![char_at(t, o)] + decode_utf8(t.skip(o + charlen(char_at(t, o)))),
        forall|k: int| o < k < o + charlen(char_at(t, o)) ==> !cb(t, k),
{
    lemma_skip(t, o);
    let a = t.skip(o); let d = decode_utf8(a); let c = d[0];
    decode_utf8_encode_utf8(a); lemma_empty_str();
    if d.len() == 0 { assert(d =~= Seq::<char>::empty()); }
    assert(encode_utf8(d) == encode_scalar(c as u32) + encode_utf8(d.drop_first()));
    broadcast use encode_utf8_valid_utf8;
    let r = encode_utf8(d.drop_first());
    encode_utf8_decode_utf8(d.drop_first());
    let n = charlen(c);
    assert(a.skip(n) =~= r); assert(t.skip(o).skip(n) =~= t.skip(o + n)); assert(a.take(n) =~= encode_scalar(c as u32)); assert(t.skip(o).take(n) =~= t.subrange(o, o + n));
    assert(t.subrange(o, o + n) =~= encode_scalar(c as u32));
    if r.len() > 0 { lemma_first_not_cont(r); assert(r[0] == t[o + n]); }
    assert(d =~= seq![c] + d.drop_first());
    assert forall|k: int| o < k < o + n implies !cb(t, k) by { lemma_charlen(c); assert(cont(encode_scalar(c as u32)[k - o])); assert(t[k] == encode_scalar(c as u32)[k - o]); }
    lemma_charlen(c);
}
pub proof fn lemma_charlen(c: char)
    ensures 1 <= charlen(c) <= 4, forall|k: int| 0 < k < charlen(c) ==> cont(#[trigger] encode_scalar(c as u32)[k]), c.is_ascii_v() <==> charlen(c) == 1, c.is_ascii_v() ==> encode_scalar(c as u32)[0] == c as u8, !c.is_ascii_v() ==> forall|k: int| 0 <= k < charlen(c) ==> (#[trigger] encode_scalar(c as u32)[k]) >= 0x80,
{
    let s = seq![c];
    broadcast use encode_utf8_valid_utf8;
    encode_utf8_first_scalar(s);
    let x = c as u32;
    char_is_scalar(c);
    assert(x < 0x80 ==> (x & 0x7F) == x) by (bit_vector); assert(x < 0x80 ==> (x & 0xFF) == x) by (bit_vector);
    assert(x == c as int);
    assert forall|k: int| 0 < k < charlen(c) implies cont(#[trigger] encode_scalar(c as u32)[k]) by {
        assert((x & 0x3F) <= 0x3F) by (bit_vector); assert(((x >> 6) & 0x3F) <= 0x3F) by (bit_vector); assert(((x >> 12) & 0x3F) <= 0x3F) by (bit_vector);
    }
}
pub trait AsciiV { spec fn is_ascii_v(&self) -> bool; }
impl AsciiV for char { open spec fn is_ascii_v(&self) -> bool { (*self as int) < 0x80 } }
pub proof fn lemma_end_chunk(t: Seq<u8>)
    ensures t.subrange(t.len() as int, t.len() as int) =~= Seq::<u8>::empty(),
{ }
/// The part of the chunk from boundary o on.
pub proof fn lemma_here(t: Seq<u8>, c: TextChunk, o: int)
    requires chunk_in(t, c), c.start <= o <= c.e(), valid_utf8(t),
    ensures
        cb(c.text.spec_bytes(), o - c.start) <==> cb(t, o),
        c.text.spec_bytes().skip(o - c.start) == t.subrange(o, c.e()),
{
    let b = c.text.spec_bytes();
    lemma_str_valid(c.text);
    if o < c.e() { assert(b[o - c.start] == t[o]); if o == c.start { lemma_first_not_cont(b); } }
    assert(b.skip(o - c.start) =~= t.subrange(o, c.e()));
}
pub proof fn lemma_bytes_here(t: Seq<u8>, c: TextChunk, o: int)
    requires chunk_in(t, c),
    ensures c.start <= o <= c.e() ==> (forall|k: int| 0 <= k < c.e() - o ==> #[trigger] c.text.spec_bytes().skip(o - c.start)[k] == t[o + k]), c.start <= o <= c.e() ==> (forall|k: int| o <= k < c.e() ==> #[trigger] t[k] == c.text.spec_bytes().skip(o - c.start)[k - o]),
{
    if c.start <= o <= c.e() {
      let b = c.text.spec_bytes();
      assert forall|k: int| o <= k < c.e() implies #[trigger] t[k] == b.skip(o - c.start)[k - o] by { assert(t.subrange(c.start as int, c.e())[k - c.start] == t[k]); }
      assert forall|k: int| 0 <= k < c.e() - o implies #[trigger] b.skip(o - c.start)[k] == t[o + k] by { assert(t[o + k] == b.skip(o - c.start)[o + k - o]); }
    }
}
/// Every byte of t[a..b) satisfies p.
#[verifier::opaque]
pub open spec fn bsat(t: Seq<u8>, a: int, b: int, p: spec_fn(u8, bool) -> bool) -> bool { forall|k: int| a <= k < b ==> p(#[trigger] t[k], true) }
pub proof fn lemma_bsat_step(t: Seq<u8>, a: int, b: int, p: spec_fn(u8, bool) -> bool)
    ensures bsat(t, a, a, p), bsat(t, a, b, p) && p(t[b], true) ==> bsat(t, a, b + 1, p),
{ reveal(bsat); }
pub proof fn lemma_bsat(t: Seq<u8>, c: TextChunk, s: int, o: int, p: spec_fn(u8, bool) -> bool)
    requires chunk_in(t, c),
    ensures c.start <= o <= c.e() ==> ({ let b = c.text.spec_bytes().skip(o - c.start);
        &&& b.len() == c.e() - o && bsat(b, 0, 0, p)
        &&& forall|n: int| 0 <= n <= b.len() && bsat(t, s, o, p) && #[trigger] bsat(b, 0, n, p) ==> bsat(t, s, o + n, p)
        &&& forall|n: int| 0 <= n < b.len() ==> #[trigger] b[n] == t[o + n] }),
{
    if c.start <= o <= c.e() {
        lemma_bytes_here(t, c, o); reveal(bsat);
        let b = c.text.spec_bytes().skip(o - c.start);
        assert forall|n: int| 0 <= n <= b.len() && bsat(t, s, o, p) && #[trigger] bsat(b, 0, n, p) implies bsat(t, s, o + n, p) by {
            assert forall|k: int| s <= k < o + n implies p(#[trigger] t[k], true) by { if k >= o { assert(b[k - o] == t[k]); } }
        }
    }
}
/// First character of a slice that starts at o.
pub proof fn lemma_first_here(t: Seq<u8>, c: TextChunk, s: &str, o: int)
    requires valid_utf8(t), chunk_in(t, c), c.start <= o <= c.e(), cb(t, o), s.spec_bytes() == t.subrange(o, c.e()), o == c.e() ==> o == t.len(),
    ensures first_of(s@) == peek(t, o),
{
    lemma_chars_bytes(s); lemma_str_valid(s);
    if o < c.e() {
        lemma_skip(t, c.e());
        assert(t.skip(o) =~= s.spec_bytes() + t.skip(c.e()));
        lemma_first_char_prefix(s.spec_bytes(), t.skip(c.e()));
    }
}
/// The j-th character of text == t[o..e].
pub proof fn lemma_char_index(t: Seq<u8>, s: &str, o: int, e: int, j: int)
    requires valid_utf8(t), 0 <= o <= e <= t.len(), cb(t, o), cb(t, e), s.spec_bytes() == t.subrange(o, e), 0 <= j < s@.len(),
    ensures ({ let b = encode_utf8(s@.take(j)).len(); let b2 = encode_utf8(s@.take(j + 1)).len();
        &&& b2 == b + charlen(s@[j]) && 0 <= b < b2 <= e - o
        &&& cb(t, o + b) && char_at(t, o + b) == s@[j]
        &&& j + 1 == s@.len() ==> b2 == e - o }),
{
    broadcast use encode_utf8_valid_utf8;
    lemma_str_valid(s);
    let x = s@.take(j); let y = s@.skip(j);
    assert(x + y =~= s@); encode_utf8_concat(x, y);
    let b = encode_utf8(x).len() as int;
    lemma_skip(t, e);
    assert(t.subrange(o, e).skip(b) =~= encode_utf8(y));
    assert(t.skip(o + b) =~= encode_utf8(y) + t.skip(e));
    lemma_empty_str(); lemma_charlen(s@[j]);
    assert(encode_utf8(y) == encode_scalar(y[0] as u32) + encode_utf8(y.drop_first()));
    encode_utf8_decode_utf8(y);
    lemma_first_char_prefix(encode_utf8(y), t.skip(e));
    lemma_first_not_cont(encode_utf8(y)); assert(t.skip(o + b)[0] == t[o + b]);
    assert(s@.take(j + 1) =~= x + seq![s@[j]]); encode_utf8_concat(x, seq![s@[j]]);
    reveal_with_fuel(encode_utf8, 2);
    assert(seq![s@[j]].drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(seq![s@[j]]) =~= encode_scalar(s@[j] as u32));
    if j + 1 == s@.len() { assert(s@.take(j + 1) =~= s@); }
}
pub proof fn lemma_prefix_split(t: Seq<u8>, o: int, e: int, p: Seq<u8>)
    requires 0 <= o <= e <= t.len(),
    ensures p.len() <= e - o || e == t.len() ==> ((p.len() <= t.subrange(o, e).len() && t.subrange(o, e).take(p.len() as int) == p) <==> (p.len() <= t.skip(o).len() && t.skip(o).take(p.len() as int) == p)),
{ if p.len() <= e - o { assert(t.subrange(o, e).take(p.len() as int) =~= t.skip(o).take(p.len() as int)); } else if e == t.len() { assert(t.subrange(o, e) =~= t.skip(o)); } }
pub proof fn lemma_prefix_cb(t: Seq<u8>, o: int, p: Seq<u8>)
    requires valid_utf8(t), cb(t, o), valid_utf8(p), p.len() <= t.len() - o, t.skip(o).take(p.len() as int) == p,
    ensures cb(t, o + p.len()),
{
    lemma_skip(t, o); let a = t.skip(o); let r = a.skip(p.len() as int);
    assert(p + r =~= a); lemma_prefix_valid(p, r);
    if r.len() > 0 { lemma_first_not_cont(r); assert(r[0] == t[o + p.len()]); }
}
#[verifier::external_body]
pub fn str_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty(), encode_utf8(final(s)@) == Seq::<u8>::empty() { s.clear() }
#[verifier::external_body]
pub fn str_push(s: &mut String, x: &str) ensures encode_utf8(final(s)@) == encode_utf8(old(s)@) + x.spec_bytes() { s.push_str(x) }
#[verifier::external_body]
pub fn str_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
/// No str is longer than isize::MAX bytes (a fact of the Rust memory model).
pub axiom fn lemma_str_len(s: &str) ensures s.spec_bytes().len() <= isize::MAX;
pub open spec fn first_char_occ(t: Seq<u8>, from: int, c: char, r: Option<usize>) -> bool {
    match r {
        Some(i) => from <= i < t.len() && cb(t, i as int) && char_at(t, i as int) == c && no_char(t, from, i as int, c),
        None => no_char(t, from, t.len() as int, c),
    }
}
/// Character c begins nowhere in t[a..b).
#[verifier::opaque]
pub open spec fn no_char(t: Seq<u8>, a: int, b: int, c: char) -> bool { forall|k: int| a <= k < b && k < t.len() && cb(t, k) ==> char_at(t, k) != c }
/// p begins nowhere in t[a..b).
#[verifier::opaque]
pub open spec fn none_in(t: Seq<u8>, a: int, b: int, p: Seq<u8>) -> bool { forall|k: int| a <= k < b ==> !#[trigger] occurs(t, k, p) }
pub proof fn lemma_occ_ends(t: Seq<u8>, p: Seq<u8>, o: int)
    requires 0 <= o <= t.len(),
    ensures p.len() == 0 ==> occurs(t, o, p), none_in(t, o, o, p), p.len() > 0 && none_in(t, o, t.len() as int, p) ==> forall|k: int| o <= k ==> !#[trigger] occurs(t, k, p),
        forall|i: usize| (#[trigger] occurs(t, i as int, p)) && i >= o && none_in(t, o, i as int, p) ==> first_occ(t, o, p, Some(i)),
{ reveal(occurs); reveal(none_in); if p.len() == 0 { assert(t.subrange(o, o) =~= p); } }
/// Occurrences inside t[a..b] are the occurrences of t that fit there.
pub proof fn lemma_occ_in(t: Seq<u8>, a: int, b: int, p: Seq<u8>)
    requires 0 <= a <= b <= t.len(),
    ensures
        forall|k: int| #[trigger] occurs(t.subrange(a, b), k, p) ==> occurs(t, a + k, p) && a + k + p.len() <= b,
        forall|k: int| a <= k && k + p.len() <= b && #[trigger] occurs(t, k, p) ==> occurs(t.subrange(a, b), k - a, p),
{
    reveal(occurs);
    let s = t.subrange(a, b);
    assert forall|k: int| #[trigger] occurs(s, k, p) implies occurs(t, a + k, p) && a + k + p.len() <= b by { assert(t.subrange(a + k, a + k + p.len()) =~= s.subrange(k, k + p.len())); }
    assert forall|k: int| a <= k && k + p.len() <= b && #[trigger] occurs(t, k, p) implies occurs(s, k - a, p) by { assert(t.subrange(k, k + p.len()) =~= s.subrange(k - a, k - a + p.len())); }
}
/// Searching t[a..e]: what each answer says about t, given that nothing begins in [o, a).
pub proof fn lemma_found_in(t: Seq<u8>, o: int, a: int, e: int, p: Seq<u8>)
    requires 0 <= o <= a <= e <= t.len(), none_in(t, o, a, p), p.len() > 0,
    ensures
        forall|r: Option<usize>| #[trigger] first_occ(t.subrange(a, e), 0, p, r) && r is Some && t.len() <= usize::MAX ==> a + r->0 <= t.len() && first_occ(t, o, p, Some((a + r->0) as usize)),
        first_occ(t.subrange(a, e), 0, p, None) ==> none_in(t, o, e - p.len() + 1, p),
        p.len() == 1 && first_occ(t.subrange(a, e), 0, p, None) ==> none_in(t, o, e, p),
        first_occ(t.subrange(a, e), 0, p, None) && e == t.len() ==> forall|k: int| o <= k ==> !#[trigger] occurs(t, k, p),
{
    lemma_occ_in(t, a, e, p); reveal(none_in);
    assert forall|r: Option<usize>| #[trigger] first_occ(t.subrange(a, e), 0, p, r) && r is Some && t.len() <= usize::MAX implies a + r->0 <= t.len() && first_occ(t, o, p, Some((a + r->0) as usize)) by {
        assert(occurs(t.subrange(a, e), r->0 as int, p));
        assert forall|k: int| o <= k < a + r->0 implies !#[trigger] occurs(t, k, p) by { if k >= a && occurs(t, k, p) { assert(k + p.len() <= e) by { reveal(occurs); } assert(occurs(t.subrange(a, e), k - a, p)); } }
    }
    if first_occ(t.subrange(a, e), 0, p, None) {
        assert forall|k: int| o <= k < e - p.len() + 1 implies !#[trigger] occurs(t, k, p) by { if k >= a && occurs(t, k, p) { assert(occurs(t.subrange(a, e), k - a, p)); } }
        if e == t.len() { assert forall|k: int| o <= k implies !#[trigger] occurs(t, k, p) by { reveal(occurs); if occurs(t, k, p) { assert(k + p.len() <= t.len()); if k >= a { assert(occurs(t.subrange(a, e), k - a, p)); } } } }
    }
}
/// Searching t[ta..next] for an occurrence that straddles e.
pub proof fn lemma_tail(t: Seq<u8>, o: int, a: int, e: int, ta: int, next: int, p: Seq<u8>)
    requires 0 <= o <= a <= ta <= e <= next <= t.len(), valid_utf8(t), valid_utf8(p), p.len() > 1, none_in(t, o, e - p.len() + 1, p), next >= e + p.len() - 1 || next == t.len(),
        none_in(t, o, a, p), forall|k: int| e - (p.len() - 1) <= k < ta && k >= a ==> !cb(t, k),
    ensures
        forall|r: Option<usize>| #[trigger] first_occ(t.subrange(ta, next), 0, p, r) && r is Some && t.len() <= usize::MAX ==> ta + r->0 <= t.len() && first_occ(t, o, p, Some((ta + r->0) as usize)),
        first_occ(t.subrange(ta, next), 0, p, None) ==> none_in(t, o, e, p),
{
    lemma_occ_in(t, ta, next, p); reveal(none_in); lemma_occ_cb(t, p);
    assert forall|r: Option<usize>| #[trigger] first_occ(t.subrange(ta, next), 0, p, r) && r is Some && t.len() <= usize::MAX implies ta + r->0 <= t.len() && first_occ(t, o, p, Some((ta + r->0) as usize)) by {
        assert(occurs(t.subrange(ta, next), r->0 as int, p));
        assert forall|k: int| o <= k < ta + r->0 implies !#[trigger] occurs(t, k, p) by {
            if occurs(t, k, p) { assert(cb(t, k)); if k >= ta { assert(k + p.len() <= next) by { reveal(occurs); } assert(occurs(t.subrange(ta, next), k - ta, p)); } }
        }
    }
    if first_occ(t.subrange(ta, next), 0, p, None) {
        assert forall|k: int| o <= k < e implies !#[trigger] occurs(t, k, p) by {
            if occurs(t, k, p) { assert(cb(t, k)); if k >= ta { assert(k + p.len() <= next) by { reveal(occurs); } assert(occurs(t.subrange(ta, next), k - ta, p)); } }
        }
    }
}
/// Text can only be found at character boundaries.
pub proof fn lemma_occ_cb(t: Seq<u8>, p: Seq<u8>)
    requires valid_utf8(t), valid_utf8(p),
    ensures p.len() > 0 ==> forall|k: int| #[trigger] occurs(t, k, p) ==> cb(t, k),
{
    reveal(occurs);
    if p.len() > 0 { lemma_first_not_cont(p); assert forall|k: int| #[trigger] occurs(t, k, p) implies cb(t, k) by { assert(t.subrange(k, k + p.len())[0] == t[k]); } }
}
/// Characters of a slice starting at boundary o and ending at a boundary are the characters of t.
pub proof fn lemma_slice_chars(t: Seq<u8>, o: int, s: Seq<u8>)
    requires valid_utf8(t), cb(t, o), o + s.len() <= t.len(), s == t.subrange(o, o + s.len()), cb(t, o + s.len()),
    ensures forall|k: int| 0 <= k < s.len() ==> (#[trigger] cb(s, k) <==> cb(t, o + k)), forall|k: int| 0 <= k < s.len() && cb(s, k) ==> #[trigger] char_at(s, k) == char_at(t, o + k),
{
    let e = o + s.len();
    lemma_skip(t, o); lemma_skip(t, e);
    let a = t.skip(o);
    lemma_cb(a, s.len() as int); valid_utf8_split(a, s.len() as int); assert(a.subrange(0, s.len() as int) =~= s);
    if s.len() > 0 { lemma_first_not_cont(s); }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] cb(s, k) <==> cb(t, o + k)) by { assert(s[k] == t[o + k]); if k == 0 { assert(s[0] == t[o]); } }
    assert forall|k: int| 0 <= k < s.len() && cb(s, k) implies #[trigger] char_at(s, k) == char_at(t, o + k) by {
        assert(s[k] == t[o + k]); 
        lemma_skip(s, k); 
        assert(t.skip(o + k) =~= s.skip(k) + t.skip(e));
        lemma_first_char_prefix(s.skip(k), t.skip(e));
    }
}
/// What `find_char_v` on t[o..e] says about t.
pub proof fn lemma_rest_chars(t: Seq<u8>, o: int, e: int, c: char)
    requires valid_utf8(t), cb(t, o), cb(t, e), o <= e,
    ensures ({ let s = t.subrange(o, e);
        &&& forall|i: usize| #[trigger] found_char(s, c, Some(i)) ==> o + i < e && cb(t, o + i) && char_at(t, o + i) == c && no_char(t, o, o + i, c)
        &&& found_char(s, c, None) ==> no_char(t, o, e, c) }),
        forall|x: int| #[trigger] no_char(t, x, o, c) ==> forall|y: int| y >= o && no_char(t, o, y, c) ==> #[trigger] no_char(t, x, y, c),
        no_char(t, o, o, c),
{
    reveal(no_char);
    let s = t.subrange(o, e); lemma_slice_chars(t, o, s);
    assert forall|i: usize| #[trigger] found_char(s, c, Some(i)) implies o + i < e && cb(t, o + i) && char_at(t, o + i) == c && no_char(t, o, o + i, c) by {
        assert(cb(s, i as int)); assert(char_at(s, i as int) == c);
        assert forall|k: int| o <= k < o + i && k < t.len() && cb(t, k) implies char_at(t, k) != c by { assert(o + (k - o) == k); assert(cb(s, k - o)); assert(char_at(s, k - o) == char_at(t, o + (k - o))); }
    }
    if found_char(s, c, None) { assert forall|k: int| o <= k < e && k < t.len() && cb(t, k) implies char_at(t, k) != c by { assert(o + (k - o) == k); assert(cb(s, k - o)); assert(char_at(s, k - o) == char_at(t, o + (k - o))); } }
}
pub proof fn lemma_no_char(t: Seq<u8>, c: char)
    ensures forall|x: int| #[trigger] no_char(t, x, x, c), forall|x: int, y: int| x >= t.len() ==> #[trigger] no_char(t, x, y, c),
        forall|x: int, y: int, z: int| no_char(t, x, y, c) && no_char(t, y, z, c) ==> #[trigger] no_char2(t, x, y, z, c),
        forall|x: int, y: int, z: int| #[trigger] no_char2(t, x, y, z, c) ==> no_char(t, x, z, c),
{ reveal(no_char); }
pub open spec fn no_char2(t: Seq<u8>, x: int, y: int, z: int, c: char) -> bool { no_char(t, x, y, c) && no_char(t, y, z, c) }
pub open spec fn found_char(s: Seq<u8>, c: char, r: Option<usize>) -> bool {
    match r { Some(i) => cb(s, i as int) && i < s.len() && char_at(s, i as int) == c && (forall|k: int| 0 <= k < i && cb(s, k) ==> char_at(s, k) != c), None => forall|k: int| 0 <= k < s.len() && cb(s, k) ==> char_at(s, k) != c }
}
