// ---- edits: model, and trusted contracts of the collection operations used ---------------------
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn str_v(&self) -> (r: &str) ensures r.spec_bytes() == self.bytes() { unimplemented!() }
}
pub struct E { pub start: int, pub end: int, pub text: Seq<u8> }
pub open spec fn edit_of(x: TextEdit) -> E { E { start: x.span.start as int, end: x.span.end as int, text: x.text.bytes() } }
pub open spec fn edits_in(x: Seq<TextEdit>, order: Seq<usize>) -> Seq<E> { Seq::new(order.len(), |k: int| edit_of(x[order[k] as int])) }
/// The batch, in sorted order, is admissible for text t: in bounds, on boundaries, disjoint.
#[verifier::opaque]
pub open spec fn batch_ok(t: Seq<u8>, e: Seq<E>) -> bool {
    &&& forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).start <= e[k].end && cb(t, e[k].start) && cb(t, e[k].end) && valid_utf8(e[k].text)
    &&& forall|j: int, k: int| 0 <= j < k < e.len() ==> (#[trigger] e[j]).end <= (#[trigger] e[k]).start
    &&& t.len() + total(e) <= isize::MAX
}
#[verifier::opaque]
pub open spec fn total(e: Seq<E>) -> int decreases e.len() { if e.len() == 0 { 0 } else { total(e.drop_last()) + e.last().text.len() } }
/// The text from old offset `pos` on, with edits k.. applied.
#[verifier::opaque]
pub open spec fn edited(t: Seq<u8>, e: Seq<E>, k: int, pos: int) -> Seq<u8> decreases e.len() - k {
    if k < 0 || k >= e.len() { t.skip(pos) } else { t.subrange(pos, e[k].start) + e[k].text + edited(t, e, k + 1, e[k].end) }
}
/// Where the replacement of edit k begins in the new text.
#[verifier::opaque]
pub open spec fn new_start(e: Seq<E>, k: int) -> int decreases k { if k <= 0 { e[0].start } else { new_start(e, k - 1) + e[k - 1].text.len() + e[k].start - e[k - 1].end } }
/// Permutation of 0..n that sorts the edits by start, keeping the order of equal starts.
#[verifier::opaque]
pub open spec fn is_order(x: Seq<TextEdit>, o: Seq<usize>) -> bool {
    &&& o.len() == x.len()
    &&& forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]) < x.len()
    &&& forall|j: int, k: int| 0 <= j < k < o.len() ==> #[trigger] o[j] != #[trigger] o[k]
    &&& forall|j: int, k: int| 0 <= j < k < o.len() ==> (x[(#[trigger] o[j]) as int].span.start < x[(#[trigger] o[k]) as int].span.start || (x[o[j] as int].span.start == x[o[k] as int].span.start && o[j] < o[k]))
}
#[verifier::opaque]
pub open spec fn the_order(x: Seq<TextEdit>) -> Seq<usize> { choose|o: Seq<usize>| is_order(x, o) }
pub open spec fn es(x: Seq<TextEdit>) -> Seq<E> { if x.len() == 0 { Seq::empty() } else { edits_in(x, the_order(x)) } }
/// `(0..n).collect()` then `sort_by_key` on the start: the stable sorting permutation.
#[verifier::external_body]
pub fn idx_collect(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == k { (0..n).collect() }
#[verifier::external_body]
pub fn sort_by_start(o: &mut Vec<usize>, x: &[TextEdit])
    requires old(o)@.len() == x@.len(), forall|k: int| 0 <= k < x@.len() ==> old(o)@[k] == k,
    ensures is_order(x@, final(o)@), final(o)@ == the_order(x@), final(o)@.len() == x@.len(),
{ unimplemented!() }
/// `String::replace_range`, which panics off boundaries (hence the precondition).
#[verifier::external_body]
pub fn replace_range_v(s: &mut String, a: usize, b: usize, x: &str)
    requires get_ok(encode_utf8(old(s)@), a as int, b as int),
    ensures encode_utf8(final(s)@) == encode_utf8(old(s)@).take(a as int) + x.spec_bytes() + encode_utf8(old(s)@).skip(b as int),
{ s.replace_range(a..b, x) }
#[verifier::external_body]
pub fn string_of(s: &Arc<str>) -> (r: String) ensures encode_utf8(r@) == s.spec_bytes() { s.to_string() }
#[verifier::external_body]
pub fn arc_of_string(s: String) -> (r: Arc<str>) ensures r.spec_bytes() == encode_utf8(s@) { Arc::from(s) }
#[verifier::external_body]
pub fn drain_v<T>(v: &mut Vec<T>, a: usize, b: usize)
    requires a <= b <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int),
{ v.drain(a..b); }
#[verifier::external_body]
pub fn splice_v<T>(v: &mut Vec<T>, a: usize, b: usize, x: Vec<T>)
    requires a <= b <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(a as int) + x@ + old(v)@.skip(b as int),
{ v.splice(a..b, x); }

pub proof fn lemma_edited_split(t: Seq<u8>, e: Seq<E>, k: int, pos: int)
    requires batch_ok(t, e), 0 <= k <= e.len(), 0 <= pos <= t.len(), k < e.len() ==> pos <= e[k].start,
    ensures edited(t, e, k, 0) == t.take(pos) + edited(t, e, k, pos),
{ reveal(batch_ok); reveal(edited); reveal(new_start); reveal(total);
    if k >= e.len() { assert(t.take(pos) + t.skip(pos) =~= t.skip(0)); }
    else { assert(t.take(pos) + t.subrange(pos, e[k].start) =~= t.subrange(0, e[k].start));
      assert(t.take(pos) + (t.subrange(pos, e[k].start) + e[k].text + edited(t, e, k + 1, e[k].end)) =~= t.subrange(0, e[k].start) + e[k].text + edited(t, e, k + 1, e[k].end)); }
}
/// Applying edit k to the text in which edits k+1.. are applied.
pub proof fn lemma_edit_step(t: Seq<u8>, e: Seq<E>, k: int)
    requires batch_ok(t, e), 0 <= k < e.len(), valid_utf8(t),
    ensures ({ let c = edited(t, e, k + 1, 0);
        &&& get_ok(c, e[k].start, e[k].end)
        &&& c.take(e[k].start) + e[k].text + c.skip(e[k].end) == edited(t, e, k, 0) }),
{ reveal(batch_ok); reveal(edited); reveal(new_start); reveal(total);
    let c = edited(t, e, k + 1, 0);
    lemma_edited_split(t, e, k + 1, e[k].end);
    let r = edited(t, e, k + 1, e[k].end);
    assert(c.take(e[k].start) =~= t.subrange(0, e[k].start));
    assert(c.skip(e[k].end) =~= r);
    lemma_edited_valid(t, e, k + 1, e[k].end);
    if r.len() > 0 { lemma_first_not_cont(r); if e[k].end < t.len() { } assert(c[e[k].end] == r[0]); }
    if e[k].start < e[k].end { assert(c[e[k].start] == t[e[k].start]); }
    assert(cb(c, e[k].start)); 
}
pub proof fn lemma_edited_valid(t: Seq<u8>, e: Seq<E>, k: int, pos: int)
    requires batch_ok(t, e), 0 <= k <= e.len(), cb(t, pos), k < e.len() ==> pos <= e[k].start, valid_utf8(t),
    ensures valid_utf8(edited(t, e, k, pos)),
    decreases e.len() - k,
{ reveal(batch_ok); reveal(edited); reveal(new_start); reveal(total);
    lemma_cb(t, pos); valid_utf8_split(t, pos);
    if k < e.len() {
        lemma_edited_valid(t, e, k + 1, e[k].end);
        let s = t.skip(pos);
        if e[k].start - pos < s.len() && e[k].start > pos { assert(s[e[k].start - pos] == t[e[k].start]); }
        assert(t.subrange(pos, t.len() as int) =~= s);
        assert(cb(s, e[k].start - pos)); lemma_cb(s, e[k].start - pos); valid_utf8_split(s, e[k].start - pos);
        assert(s.subrange(0, e[k].start - pos) =~= t.subrange(pos, e[k].start));
        valid_utf8_concat(t.subrange(pos, e[k].start), e[k].text);
        valid_utf8_concat(t.subrange(pos, e[k].start) + e[k].text, edited(t, e, k + 1, e[k].end));
    } else { assert(t.subrange(pos, t.len() as int) =~= t.skip(pos)); }
}
pub proof fn lemma_total(e: Seq<E>, k: int)
    requires 0 <= k < e.len(),
    ensures total(e.take(k + 1)) == total(e.take(k)) + e[k].text.len(), 0 <= total(e.take(k)), total(e.take(k + 1)) <= total(e), total(e.take(k)) <= total(e),
{ reveal(total); assert(e.take(k + 1).drop_last() =~= e.take(k)); lemma_total_mono(e, k + 1); lemma_total_mono(e, k); }
pub proof fn lemma_total_mono(e: Seq<E>, k: int)
    requires 0 <= k <= e.len(),
    ensures 0 <= total(e.take(k)) <= total(e),
    decreases e.len(),
{ reveal(total);
    if k == e.len() { assert(e.take(k) =~= e); if k > 0 { lemma_total_mono(e.drop_last(), k - 1); assert(e.drop_last().take(k - 1) =~= e.drop_last()); } }
    else { lemma_total_mono(e.drop_last(), k); assert(e.drop_last().take(k) =~= e.take(k)); }
}
/// new_start stays within old start plus text inserted so far.
pub proof fn lemma_new_start(t: Seq<u8>, e: Seq<E>, k: int)
    requires batch_ok(t, e), 0 <= k < e.len(),
    ensures 0 <= new_start(e, k) <= e[k].start + total(e.take(k)), e[k].start <= t.len(), total(e.take(k + 1)) <= total(e), e[0].start <= e[k].start,
        k + 1 < e.len() ==> new_start(e, k + 1) == new_start(e, k) + e[k].text.len() + e[k + 1].start - e[k].end && new_start(e, k + 1) >= new_start(e, k) + e[k].text.len(),
        total(e.take(k + 1)) == total(e.take(k)) + e[k].text.len(), total(e.take(k)) >= 0,
    decreases k,
{ reveal(batch_ok); reveal(edited); reveal(new_start); reveal(total);
    lemma_total(e, k);
    if k > 0 { lemma_new_start(t, e, k - 1); lemma_total(e, k - 1); } else { assert(e.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_edited_len(t: Seq<u8>, e: Seq<E>, k: int, pos: int)
    requires batch_ok(t, e), 0 <= k <= e.len(), 0 <= pos <= t.len(), k < e.len() ==> pos <= e[k].start,
    ensures edited(t, e, k, pos).len() <= t.len() - pos + total(e) - total(e.take(k)),
    decreases e.len() - k,
{ reveal(batch_ok); reveal(edited); reveal(new_start); reveal(total);
    if k < e.len() { lemma_edited_len(t, e, k + 1, e[k].end); lemma_total(e, k); }
    else { assert(e.take(k) =~= e); }
}
/// What one round of the bookkeeping loop needs.
pub proof fn lemma_round(t: Seq<u8>, x: Seq<TextEdit>, o: Seq<usize>, k: int)
    requires is_order(x, o), o == the_order(x), batch_ok(t, es(x)), 0 <= k < x.len(), t.len() <= isize::MAX,
    ensures
        o.len() == x.len(), o[k] < x.len(), es(x).len() == x.len(), es(x)[k] == edit_of(x[o[k] as int]),
        es(x)[k].start <= es(x)[k].end <= t.len(), 0 <= es(x)[k].start, valid_utf8(es(x)[k].text),
        0 <= new_start(es(x), k), new_start(es(x), k) + es(x)[k].text.len() <= isize::MAX, es(x)[0].start <= es(x)[k].start,
        new_start(es(x), 0) == es(x)[0].start,
        k + 1 < x.len() ==> new_start(es(x), k + 1) == new_start(es(x), k) + es(x)[k].text.len() + es(x)[k + 1].start - es(x)[k].end && new_start(es(x), k + 1) >= new_start(es(x), k) + es(x)[k].text.len(),
        k > 0 ==> new_start(es(x), k) >= new_start(es(x), k - 1) + es(x)[k - 1].text.len(),
        -isize::MAX <= new_start(es(x), k) + es(x)[k].text.len() - es(x)[k].end <= isize::MAX,
{
    reveal(is_order); reveal(batch_ok); reveal(new_start);
    let e = es(x);
    lemma_new_start(t, e, k); lemma_total(e, k);
    if k > 0 { lemma_new_start(t, e, k - 1); }
}
/// What one round of the applying loop needs.
pub proof fn lemma_apply_round(t: Seq<u8>, x: Seq<TextEdit>, o: Seq<usize>, k: int)
    requires is_order(x, o), o == the_order(x), batch_ok(t, es(x)), 0 <= k < x.len(), valid_utf8(t),
    ensures
        o.len() == x.len(), o[k] < x.len(), es(x)[k] == edit_of(x[o[k] as int]),
        get_ok(edited(t, es(x), k + 1, 0), es(x)[k].start, es(x)[k].end),
        edited(t, es(x), k + 1, 0).take(es(x)[k].start) + es(x)[k].text + edited(t, es(x), k + 1, 0).skip(es(x)[k].end) == edited(t, es(x), k, 0),
        edited(t, es(x), k, 0).len() <= isize::MAX,
        edited(t, es(x), k, 0).len() == edited(t, es(x), k + 1, 0).len() - (es(x)[k].end - es(x)[k].start) + es(x)[k].text.len(),
{
    reveal(is_order); reveal(batch_ok); lemma_edit_step(t, es(x), k); lemma_edited_len(t, es(x), k, 0); lemma_total_mono(es(x), k);
    
}
pub proof fn lemma_no_more(t: Seq<u8>, e: Seq<E>)
    ensures edited(t, e, e.len() as int, 0) == t,
{ reveal(edited); assert(t.skip(0) =~= t); }
