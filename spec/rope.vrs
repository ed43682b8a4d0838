// ---- chunk sequences --------------------------------------------------------------------------
pub open spec fn flat(c: Seq<Arc<str>>) -> Seq<u8> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last().spec_bytes() }
}
#[verifier::opaque]
pub open spec fn at(c: Seq<Arc<str>>, i: int) -> int { flat(c.take(i)).len() as int }
/// Representation invariant shared by all chunked sources.
pub open spec fn wf(c: Seq<Arc<str>>, starts: Seq<usize>, len: usize) -> bool {
    &&& starts.len() == c.len()
    &&& len == flat(c).len()
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] starts[i] == at(c, i)
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).spec_bytes().len() > 0
}
pub proof fn lemma_take_step(c: Seq<Arc<str>>, i: int)
    requires 0 <= i < c.len(),
    ensures flat(c.take(i + 1)) == flat(c.take(i)) + c[i].spec_bytes(), at(c, i + 1) == at(c, i) + c[i].spec_bytes().len(),
{ reveal(at); assert(c.take(i + 1).drop_last() =~= c.take(i)); assert(c.take(i + 1).last() == c[i]); }
pub proof fn lemma_concat(a: Seq<Arc<str>>, b: Seq<Arc<str>>)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); }
    else {
        lemma_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(flat(a) + flat(b.drop_last()) + b.last().spec_bytes() =~= flat(a) + (flat(b.drop_last()) + b.last().spec_bytes()));
    }
}
pub proof fn lemma_split(c: Seq<Arc<str>>, i: int)
    requires 0 <= i <= c.len(),
    ensures flat(c) == flat(c.take(i)) + flat(c.skip(i)), at(c, i) <= flat(c).len(), flat(c).take(at(c, i)) == flat(c.take(i)), flat(c).skip(at(c, i)) == flat(c.skip(i)),
{ reveal(at);
    lemma_concat(c.take(i), c.skip(i)); assert(c.take(i) + c.skip(i) =~= c);
    assert(flat(c).take(at(c, i)) =~= flat(c.take(i)));
    assert(flat(c).skip(at(c, i)) =~= flat(c.skip(i)));
}
pub proof fn lemma_mono(c: Seq<Arc<str>>, i: int, j: int)
    requires 0 <= i <= j <= c.len(),
    ensures at(c, i) <= at(c, j), flat(c.take(j)).take(at(c, i)) == flat(c.take(i)),
{ reveal(at); assert(c.take(j).take(i) =~= c.take(i)); lemma_split(c.take(j), i); }
pub proof fn lemma_chunk(c: Seq<Arc<str>>, i: int)
    requires 0 <= i < c.len(),
    ensures
        at(c, i) + c[i].spec_bytes().len() == at(c, i + 1), at(c, i + 1) <= flat(c).len(),
        flat(c).subrange(at(c, i), at(c, i + 1)) == c[i].spec_bytes(),
        forall|j: int| 0 <= j < c[i].spec_bytes().len() ==> #[trigger] c[i].spec_bytes()[j] == flat(c)[at(c, i) + j],
{ reveal(at);
    lemma_take_step(c, i); lemma_split(c, i + 1);
    assert(flat(c).subrange(at(c, i), at(c, i + 1)) =~= c[i].spec_bytes()) by {
        assert(forall|j: int| 0 <= j < c[i].spec_bytes().len() ==> flat(c.take(i + 1))[at(c, i) + j] == #[trigger] c[i].spec_bytes()[j]);
        assert(forall|k: int| 0 <= k < at(c, i + 1) ==> #[trigger] flat(c)[k] == flat(c).take(at(c, i + 1))[k]);
    }
    assert forall|j: int| 0 <= j < c[i].spec_bytes().len() implies #[trigger] c[i].spec_bytes()[j] == flat(c)[at(c, i) + j] by {
        assert(flat(c).subrange(at(c, i), at(c, i + 1))[j] == flat(c)[at(c, i) + j]);
    }
}
pub proof fn lemma_flat_valid(c: Seq<Arc<str>>)
    ensures valid_utf8(flat(c)),
    decreases c.len(),
{
    if c.len() == 0 { lemma_empty_str(); lemma_str_valid(""); assert(flat(c) =~= "".spec_bytes()); }
    else { lemma_flat_valid(c.drop_last()); lemma_str_valid(&*c.last()); valid_utf8_concat(flat(c.drop_last()), c.last().spec_bytes()); }
}
/// Boundaries of a chunk are boundaries of the whole text, and conversely.
pub proof fn lemma_chunk_cb(c: Seq<Arc<str>>, i: int, j: int)
    requires 0 <= i < c.len(), 0 <= j <= c[i].spec_bytes().len(),
    ensures cb(c[i].spec_bytes(), j) <==> cb(flat(c), at(c, i) + j),
{ reveal(at);
    lemma_chunk(c, i); lemma_str_valid(&*c[i]);
    let b = c[i].spec_bytes();
    if b.len() > 0 { lemma_first_not_cont(b); }
    if j < b.len() { assert(b[j] == flat(c)[at(c, i) + j]); }
    else {
        lemma_split(c, i + 1);
        lemma_flat_valid(c.skip(i + 1));
        if at(c, i) + j < flat(c).len() {
            assert(flat(c)[at(c, i) + j] == flat(c).skip(at(c, i + 1))[0]);
            lemma_first_not_cont(flat(c.skip(i + 1)));
        }
    }
}
pub proof fn lemma_sorted(c: Seq<Arc<str>>, starts: Seq<usize>, len: usize)
    requires wf(c, starts, len),
    ensures sorted(starts), c.len() > 0 ==> starts[0] == 0, len > 0 ==> c.len() > 0,
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] starts[i]) < len,
{ reveal(at);
    assert forall|i: int, j: int| 0 <= i < j < starts.len() implies starts[i] < starts[j] by {
        lemma_take_step(c, i); lemma_mono(c, i + 1, j);
    }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] starts[i]) < len by { lemma_take_step(c, i); lemma_split(c, i + 1); }
    if c.len() > 0 { assert(c.take(0) =~= Seq::empty()); }
}
/// idx is the chunk holding byte `o`.
pub open spec fn holds(c: Seq<Arc<str>>, idx: int, o: int) -> bool { 0 <= idx < c.len() && at(c, idx) <= o < at(c, idx + 1) }
/// What binary_search over `starts` tells about the chunk of offset o.
pub proof fn lemma_found(c: Seq<Arc<str>>, starts: Seq<usize>, len: usize, idx: int, o: int)
    requires wf(c, starts, len), 0 <= idx < c.len(), starts[idx] <= o, idx + 1 < c.len() ==> o < starts[idx + 1], o < len,
    ensures holds(c, idx, o),
{ reveal(at); lemma_take_step(c, idx); if idx + 1 == c.len() { assert(c.take(idx + 1) =~= c); } }

/// How far into the text the segments of chunks si..i reach when start..end is being copied.
pub open spec fn upto(c: Seq<Arc<str>>, start: int, end: int, si: int, ei: int, i: int) -> int {
    if i <= si { start } else if i > ei { end } else { at(c, i) }
}
/// si and ei are the chunks where start and end fall.
pub open spec fn located(c: Seq<Arc<str>>, start: int, end: int, si: int, ei: int) -> bool {
    &&& holds(c, si, start)
    &&& 0 <= ei < c.len() && at(c, ei) <= end <= at(c, ei + 1)
    &&& 0 <= start < end <= flat(c).len()
    &&& cb(flat(c), start) && cb(flat(c), end)
}
pub open spec fn seg(c: Seq<Arc<str>>, start: int, end: int, si: int, ei: int, i: int) -> (int, int) {
    (if i == si { start - at(c, i) } else { 0 }, if i == ei { end - at(c, i) } else { c[i].spec_bytes().len() as int })
}
pub proof fn lemma_seg(c: Seq<Arc<str>>, start: int, end: int, si: int, ei: int, i: int)
    requires located(c, start, end, si, ei), si <= i <= ei,
    ensures
        ({ let (a, b) = seg(c, start, end, si, ei, i);
           &&& get_ok(c[i].spec_bytes(), a, b)
           &&& upto(c, start, end, si, ei, i) <= upto(c, start, end, si, ei, i + 1) <= flat(c).len()
           &&& c[i].spec_bytes().subrange(a, b) == flat(c).subrange(upto(c, start, end, si, ei, i), upto(c, start, end, si, ei, i + 1)) }),
        at(c, i) + c[i].spec_bytes().len() == at(c, i + 1) <= flat(c).len(),
        i == si ==> at(c, i) <= start, i == ei ==> at(c, i) <= end, i > si ==> start <= at(c, i),
{
    lemma_chunk(c, i);
    let (a, b) = seg(c, start, end, si, ei, i);
    if i > si { lemma_mono(c, si + 1, i); }
    if i < ei { lemma_mono(c, i + 1, ei); }
    if i == si { lemma_chunk_cb(c, i, a); }
    if i == ei { lemma_chunk_cb(c, i, b); }
    assert(c[i].spec_bytes().subrange(a, b) =~= flat(c).subrange(at(c, i) + a, at(c, i) + b));
}
/// Everything text_in_chunks needs about the two chunks found by binary search.
pub proof fn lemma_locate(c: Seq<Arc<str>>, starts: Seq<usize>, len: usize, start: int, end: int, si: int, ei: int)
    requires wf(c, starts, len), 0 <= start < end <= len, 0 <= si < c.len(), 0 <= ei < c.len(),
        starts[si] <= start, si + 1 < c.len() ==> start < starts[si + 1],
        starts[ei] <= end, ei + 1 < c.len() ==> end < starts[ei + 1],
    ensures si <= ei, starts[si] <= start, starts[ei] <= end, start - starts[si] <= c[si].spec_bytes().len(), end - starts[ei] <= c[ei].spec_bytes().len(),
        cb(flat(c), start) && cb(flat(c), end) ==> located(c, start, end, si, ei),
        cb(flat(c), start) && cb(flat(c), end) && si == ei ==> get_ok(c[si].spec_bytes(), start - starts[si], end - starts[si]) && c[si].spec_bytes().subrange(start - starts[si], end - starts[si]) == flat(c).subrange(start, end),
        si < ei ==> upto(c, start, end, si, ei, si) == start,
{
    lemma_found(c, starts, len, si, start); 
    if end < len { lemma_found(c, starts, len, ei, end); } else { lemma_chunk(c, ei); if ei + 1 == c.len() { reveal(at); assert(c.take(ei + 1) =~= c); } }
    lemma_chunk(c, si); lemma_chunk(c, ei);
    if ei < si { lemma_mono(c, ei + 1, si); }
    if cb(flat(c), start) && cb(flat(c), end) {
        lemma_chunk_cb(c, si, start - at(c, si)); lemma_chunk_cb(c, ei, end - at(c, ei));
        if si == ei { assert(c[si].spec_bytes().subrange(start - starts[si], end - starts[si]) =~= flat(c).subrange(start, end)); }
    }
}
/// offset is the start of chunk idx (or idx is the chunk count and offset the end).
pub open spec fn is_seam(c: Seq<Arc<str>>, idx: int, o: int) -> bool { 0 <= idx <= c.len() && at(c, idx) == o }
#[verifier::opaque]
pub open spec fn seam(c: Seq<Arc<str>>, o: int) -> bool { exists|i: int| is_seam(c, i, o) }
pub proof fn lemma_ends(c: Seq<Arc<str>>)
    ensures is_seam(c, 0, 0), is_seam(c, c.len() as int, flat(c).len() as int), seam(c, 0), seam(c, flat(c).len() as int),
{ reveal(at); reveal(seam); assert(c.take(0) =~= Seq::empty()); assert(c.take(c.len() as int) =~= c); assert(is_seam(c, 0, 0)); assert(is_seam(c, c.len() as int, flat(c).len() as int)); }
pub open spec fn chunk_parts(c: Seq<Arc<str>>, i: int) -> bool {
    &&& at(c, i) + c[i].spec_bytes().len() == at(c, i + 1)
    &&& at(c, i + 1) <= flat(c).len()
    &&& flat(c).subrange(at(c, i), at(c, i + 1)) == c[i].spec_bytes()
    &&& cb(flat(c), at(c, i)) && cb(flat(c), at(c, i + 1))
    &&& seam(c, at(c, i + 1)) && seam(c, flat(c).len() as int)
    &&& forall|o: int| at(c, i) < o < at(c, i + 1) ==> !#[trigger] seam(c, o)
}
pub proof fn lemma_chunk_parts(c: Seq<Arc<str>>, i: int)
    requires 0 <= i < c.len(),
    ensures chunk_parts(c, i),
{
    lemma_chunk(c, i); lemma_chunk_cb(c, i, 0); lemma_chunk_cb(c, i, c[i].spec_bytes().len() as int); lemma_ends(c);
    reveal(seam); assert(is_seam(c, i + 1, at(c, i + 1)));
    assert forall|o: int| at(c, i) < o < at(c, i + 1) implies !#[trigger] seam(c, o) by {
        if seam(c, o) { let k = choose|k: int| is_seam(c, k, o); if k <= i { lemma_mono(c, k, i); } else { lemma_mono(c, i + 1, k); } }
    }
}
pub proof fn lemma_at_end(c: Seq<Arc<str>>)
    ensures flat(c).subrange(flat(c).len() as int, flat(c).len() as int) =~= Seq::<u8>::empty(), "".spec_bytes() =~= Seq::<u8>::empty(),
{ lemma_empty_str(); }
