// ---- what the scanning helpers describe --------------------------------------------------------
/// [s, e) is the longest run from s whose bytes satisfy p.
pub open spec fn run_end(t: Seq<u8>, s: int, e: int, p: spec_fn(u8) -> bool) -> bool { s <= e <= t.len() && (forall|k: int| s <= k < e ==> #[trigger] p(t[k])) && (e < t.len() ==> !p(t[e])) }
/// A run of ASCII bytes from a boundary leads to a boundary.
pub proof fn lemma_ascii_run(t: Seq<u8>, o: int, e: int)
    requires valid_utf8(t), cb(t, o), o <= e <= t.len(), forall|k: int| o <= k < e ==> (#[trigger] t[k]) < 0x80,
    ensures cb(t, e),
    decreases e - o,
{ if o < e { lemma_ascii_run(t, o, e - 1); lemma_ascii_next(t, e - 1); } }
pub proof fn lemma_runs(t: Seq<u8>, o: int)
    requires valid_utf8(t), cb(t, o),
    ensures forall|e: int| o <= e <= t.len() && (forall|k: int| o <= k < e ==> (#[trigger] t[k]) < 0x80) ==> #[trigger] cb(t, e),
{ assert forall|e: int| o <= e <= t.len() && (forall|k: int| o <= k < e ==> (#[trigger] t[k]) < 0x80) implies #[trigger] cb(t, e) by { lemma_ascii_run(t, o, e); } }
pub open spec fn pre(t: Seq<u8>, o: int, p: Seq<u8>) -> bool { is_prefix(p, t.skip(o)) }
/// The end of the line from o: the first line feed, or the end of the text.
pub open spec fn line_tail(t: Seq<u8>, o: int, e: int) -> bool { run_end(t, o, e, |x: u8| x != 10) }
/// The end of a comment body from o: just after the first occurrence of `close`, or the end of the text.
pub open spec fn closed(t: Seq<u8>, o: int, close: Seq<u8>, e: int) -> bool {
    (exists|i: usize| #[trigger] first_occ(t, o, close, Some(i)) && e == i + close.len()) || (first_occ(t, o, close, None) && e == t.len())
}
/// The end of a (nesting) block comment: walks character by character until as many closing as opening marks were seen.
#[verifier::opaque]
pub open spec fn block_end(t: Seq<u8>, o: int, open: Seq<u8>, close: Seq<u8>, nested: bool, depth: int) -> int
    decreases (if o <= t.len() { t.len() - o } else { 0 }),
{
    if depth <= 0 || o >= t.len() || o < 0 { o }
    else if nested && open.len() > 0 && pre(t, o, open) { block_end(t, o + open.len(), open, close, nested, depth + 1) }
    else if close.len() > 0 && pre(t, o, close) { block_end(t, o + close.len(), open, close, nested, depth - 1) }
    else if charlen(char_at(t, o)) < 1 { o }
    else { block_end(t, o + charlen(char_at(t, o)), open, close, nested, depth) }
}
/// The end of a quoted string whose body begins at o: an escape character hides the character after it.
#[verifier::opaque]
pub open spec fn str_end(t: Seq<u8>, o: int, q: char, esc: Option<char>) -> int
    decreases (if o <= t.len() { t.len() - o } else { 0 }),
{
    if o >= t.len() || o < 0 { o } else {
        let c = char_at(t, o); let n = o + charlen(c);
        if n <= o { o }
        else if Some(c) == esc { if n >= t.len() { n } else { let m = n + charlen(char_at(t, n)); if m <= n { n } else { str_end(t, m, q, esc) } } }
        else if c == q { n }
        else { str_end(t, n, q, esc) }
    }
}
pub open spec fn nx(t: Seq<u8>, o: int) -> int { o + charlen(char_at(t, o)) }
/// One step of each walk.
pub proof fn lemma_block_step(t: Seq<u8>, o: int, open: &str, close: &str, nested: bool, depth: int)
    requires valid_utf8(t), cb(t, o), open.spec_bytes().len() > 0,
    ensures ({ let a = open.spec_bytes(); let b = close.spec_bytes(); let r = block_end(t, o, a, b, nested, depth);
        &&& depth <= 0 || o >= t.len() ==> r == o
        &&& depth > 0 && o < t.len() ==> (if nested && pre(t, o, a) { r == block_end(t, o + a.len(), a, b, nested, depth + 1) && cb(t, o + a.len()) && o + a.len() <= t.len() }
            else if b.len() > 0 && pre(t, o, b) { r == block_end(t, o + b.len(), a, b, nested, depth - 1) && cb(t, o + b.len()) && o + b.len() <= t.len() }
            else { r == block_end(t, nx(t, o), a, b, nested, depth) && cb(t, nx(t, o)) && o < nx(t, o) <= t.len() }) }),
{ lemma_pre_cb(t, o, open); lemma_pre_cb(t, o, close); if o < t.len() { lemma_step(t, o); } reveal_with_fuel(block_end, 1); }
pub proof fn lemma_str_step(t: Seq<u8>, o: int, q: char, esc: Option<char>)
    requires valid_utf8(t), cb(t, o),
    ensures
        o >= t.len() ==> str_end(t, o, q, esc) == o,
        o < t.len() ==> cb(t, nx(t, o)) && o < nx(t, o) <= t.len() && (
            if Some(char_at(t, o)) == esc { if nx(t, o) >= t.len() { str_end(t, o, q, esc) == t.len() && str_end(t, nx(t, o), q, esc) == t.len() } else { cb(t, nx(t, nx(t, o))) && nx(t, o) < nx(t, nx(t, o)) <= t.len() && str_end(t, o, q, esc) == str_end(t, nx(t, nx(t, o)), q, esc) } }
            else if char_at(t, o) == q { str_end(t, o, q, esc) == nx(t, o) } else { str_end(t, o, q, esc) == str_end(t, nx(t, o), q, esc) }),
{ if o < t.len() { lemma_step(t, o); let n = nx(t, o); if n < t.len() { lemma_step(t, n); } reveal_with_fuel(str_end, 1); if n >= t.len() { assert(str_end(t, n, q, esc) == n); } } else { reveal_with_fuel(str_end, 1); } }
pub proof fn lemma_pre_cb(t: Seq<u8>, o: int, p: &str)
    requires valid_utf8(t), cb(t, o),
    ensures pre(t, o, p.spec_bytes()) ==> cb(t, o + p.spec_bytes().len()) && o + p.spec_bytes().len() <= t.len(),
{ lemma_str_valid(p); if pre(t, o, p.spec_bytes()) { lemma_prefix_cb(t, o, p.spec_bytes()); } }
/// Bytes that are neither the quote nor the escape (both ASCII) are skipped.
pub proof fn lemma_str_skip(t: Seq<u8>, o: int, e: int, q: char, esc: Option<char>)
    requires valid_utf8(t), cb(t, o), o <= e <= t.len(), cb(t, e), (q as int) < 0x80, esc is Some ==> (esc->0 as int) < 0x80, forall|k: int| o <= k < e ==> (#[trigger] t[k]) as int != q as int && (esc is Some ==> t[k] as int != esc->0 as int),
    ensures str_end(t, o, q, esc) == str_end(t, e, q, esc),
    decreases e - o,
{
    if o < e {
        lemma_step(t, o); let c = char_at(t, o); let n = o + charlen(c); lemma_charlen(c);
        assert(n <= e);
        assert(t.subrange(o, n)[0] == t[o]);
        lemma_str_step(t, o, q, esc);
        lemma_str_skip(t, n, e, q, esc);
    }
}
/// The first of four bytes.
#[verifier::opaque]
pub open spec fn first4(s: Seq<u8>, a: u8, b: u8, c: u8, d: u8, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < s.len() && (s[i as int] == a || s[i as int] == b || s[i as int] == c || s[i as int] == d) && (forall|k: int| 0 <= k < i ==> (#[trigger] s[k]) != a && s[k] != b && s[k] != c && s[k] != d),
        None => forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) != a && s[k] != b && s[k] != c && s[k] != d,
    }
}
/// The search for the quote or the escape (both ASCII) skips only characters that are part of the string.
pub proof fn lemma_first4(t: Seq<u8>, o: int, e: int, q: char, esc: Option<char>, qb: u8, eb: u8)
    requires valid_utf8(t), cb(t, o), cb(t, e), o <= e, (q as int) < 0x80, esc is Some ==> (esc->0 as int) < 0x80, qb as int == q as int, eb as int == (match esc { Some(c) => c as int, None => q as int }),
    ensures
        forall|i: usize| #[trigger] first4(t.subrange(o, e), qb, eb, qb, eb, Some(i)) ==> o + i < e && t.subrange(o, e)[i as int] == t[o + i] && (t[o + i] == qb || t[o + i] == eb) && cb(t, o + i) && cb(t, o + i + 1) && nx(t, o + i) == o + i + 1 && char_at(t, o + i) as int == t[o + i] as int && str_end(t, o, q, esc) == str_end(t, o + i, q, esc),
        first4(t.subrange(o, e), qb, eb, qb, eb, None) ==> str_end(t, o, q, esc) == str_end(t, e, q, esc),
{
    reveal(first4); let s = t.subrange(o, e);
    assert forall|i: usize| #[trigger] first4(s, qb, eb, qb, eb, Some(i)) implies o + i < e && s[i as int] == t[o + i] && (t[o + i] == qb || t[o + i] == eb) && cb(t, o + i) && cb(t, o + i + 1) && nx(t, o + i) == o + i + 1 && char_at(t, o + i) as int == t[o + i] as int && str_end(t, o, q, esc) == str_end(t, o + i, q, esc) by {
        assert(t[o + i] == s[i as int]); lemma_ascii_next(t, o + i);
        assert forall|k: int| o <= k < o + i implies (#[trigger] t[k]) as int != q as int && (esc is Some ==> t[k] as int != esc->0 as int) by { assert(s[k - o] == t[k]); }
        lemma_str_skip(t, o, o + i, q, esc);
    }
    if first4(s, qb, eb, qb, eb, None) {
        assert forall|k: int| o <= k < e implies (#[trigger] t[k]) as int != q as int && (esc is Some ==> t[k] as int != esc->0 as int) by { assert(s[k - o] == t[k]); }
        lemma_str_skip(t, o, e, q, esc);
    }
}
/// First occurrence of `close`, found by looking only where its first byte is.
#[verifier::opaque]
pub open spec fn none_before(t: Seq<u8>, a: int, b: int, p: Seq<u8>) -> bool { forall|k: int| a <= k < b ==> !#[trigger] occurs(t, k, p) }
pub proof fn lemma_skip_to(t: Seq<u8>, a: int, b: int, p: Seq<u8>)
    requires p.len() > 0, 0 <= a <= b <= t.len(),
    ensures (forall|k: int| a <= k < b ==> #[trigger] t[k] != p[0]) ==> none_before(t, a, b, p),
{
    reveal(none_before); reveal(occurs);
    if forall|k: int| a <= k < b ==> #[trigger] t[k] != p[0] { assert forall|k: int| a <= k < b implies !#[trigger] occurs(t, k, p) by { if occurs(t, k, p) { assert(t.subrange(k, k + p.len())[0] == t[k]); } } }
}
pub proof fn lemma_none_first(t: Seq<u8>, a: int, p: Seq<u8>) ensures none_before(t, a, a, p) { reveal(none_before); }
pub proof fn lemma_join(t: Seq<u8>, a: int, b: int, c: int, p: Seq<u8>) requires none_before(t, a, b, p), none_before(t, b, c, p), a <= b <= c ensures none_before(t, a, c, p) { reveal(none_before); }
pub proof fn lemma_none_at(t: Seq<u8>, a: int, b: usize, p: Seq<u8>)
    requires p.len() > 0, 0 <= a <= b <= t.len(), none_before(t, a, b as int, p),
    ensures !pre(t, b as int, p) ==> none_before(t, a, b + 1, p), pre(t, b as int, p) ==> first_occ(t, a, p, Some(b)), b == t.len() ==> first_occ(t, a, p, None) && !pre(t, b as int, p),
{
    reveal(none_before); reveal(occurs);
    assert(occurs(t, b as int, p) <==> pre(t, b as int, p)) by { if b + p.len() <= t.len() { assert(t.skip(b as int).take(p.len() as int) =~= t.subrange(b as int, b + p.len())); } }
}
pub uninterp spec fn is_unicode_ws(c: char) -> bool;
pub open spec fn uni_ws_run(t: Seq<u8>, s: int, e: int) -> bool { s <= e <= t.len() && cb(t, e) && (forall|k: int| s <= k < e && #[trigger] cb(t, k) ==> is_unicode_ws(char_at(t, k))) && (e < t.len() ==> !is_unicode_ws(char_at(t, e))) }
#[verifier::external_body]
pub fn unicode_ws(c: char) -> (r: bool) ensures r == is_unicode_ws(c) { c.is_whitespace() }
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as int) < 0x80);
pub assume_specification[ u8::is_ascii_alphabetic ](c: &u8) -> (r: bool) ensures r == is_alpha(*c);
pub fn chars_contain(s: &[char], c: char) -> (r: bool) ensures r == s@.contains(c) {
    let mut i = 0;
    while i < s.len() invariant i <= s.len(), forall|k: int| 0 <= k < i ==> s@[k] != c decreases s.len() - i { if s[i] == c { assert(s@.contains(c)); return true; } i += 1; }
    assert(!s@.contains(c));
    false
}
pub fn bytes_start(s: &[u8], p: &[u8]) -> (r: bool) ensures r == is_prefix(p@, s@) {
    if s.len() < p.len() { return false; }
    let mut i = 0;
    while i < p.len() invariant i <= p.len() <= s.len(), forall|k: int| 0 <= k < i ==> s@[k] == p@[k] decreases p.len() - i { if s[i] != p[i] { assert(s@.take(p@.len() as int)[i as int] != p@[i as int]); return false; } i += 1; }
    assert(s@.take(p@.len() as int) =~= p@);
    true
}
