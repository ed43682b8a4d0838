//@src projects/oak-core/src/source/simd.rs
pub struct SimdScanner;
impl SimdScanner {
//@fn SimdScanner::find_byte -> r
    requires text@.len() <= isize::MAX,
    ensures
        r is Some ==> r->0 < text@.len() && !(|x: u8| x != needle)(text@[r->0 as int]) && scanned(text@, r->0 as int, |x: u8| x != needle),
        r is None ==> scanned(text@, text@.len() as int, |x: u8| x != needle),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x != needle),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x != needle),
    decreases len - i,
//@end
//@fn SimdScanner::skip_byte -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| x == byte),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x == byte),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x == byte),
    ensures run_of(text@, i as int, |x: u8| x == byte),
    decreases len - i,
//@end
//@fn SimdScanner::skip_two_bytes -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| x == b1 || x == b2),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x == b1 || x == b2),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x == b1 || x == b2),
    ensures run_of(text@, i as int, |x: u8| x == b1 || x == b2),
    decreases len - i,
//@end
//@fn SimdScanner::skip_ascii_whitespace -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| is_ws(x)),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_ws(x)),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_ws(x)),
    ensures run_of(text@, i as int, |x: u8| is_ws(x)),
    decreases len - i,
//@end
//@fn SimdScanner::skip_ascii_digits -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| is_digit(x)),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_digit(x)),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_digit(x)),
    ensures run_of(text@, i as int, |x: u8| is_digit(x)),
    decreases len - i,
//@end
//@fn SimdScanner::skip_ascii_ident_continue -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| is_ident(x)),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_ident(x)),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_ident(x)),
    ensures run_of(text@, i as int, |x: u8| is_ident(x)),
    decreases len - i,
//@end
//@fn SimdScanner::skip_ascii_hexdigits -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| is_hex(x)),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_hex(x)),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| is_hex(x)),
    ensures run_of(text@, i as int, |x: u8| is_hex(x)),
    decreases len - i,
//@end
//@fn SimdScanner::find_first_of_4 -> r
    requires text@.len() <= isize::MAX,
    ensures
        r is Some ==> r->0 < text@.len() && !(|x: u8| x != a && x != b && x != c && x != d)(text@[r->0 as int]) && scanned(text@, r->0 as int, |x: u8| x != a && x != b && x != c && x != d),
        r is None ==> scanned(text@, text@.len() as int, |x: u8| x != a && x != b && x != c && x != d),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x != a && x != b && x != c && x != d),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x != a && x != b && x != c && x != d),
    decreases len - i,
//@end
//@fn SimdScanner::skip_until -> r
    requires text@.len() <= isize::MAX,
    ensures
        run_of(text@, r as int, |x: u8| x != target),
//@loop 1
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x != target),
    decreases len - i,
//@loopstart 1
    assert(forall|k: int| #![trigger text@.subrange(i as int, i + LANES)[k]] 0 <= k < LANES ==> text@.subrange(i as int, i + LANES)[k] == text@[i + k]);
    assert(forall|k: int| #![trigger text@[k]] i <= k < i + LANES ==> text@[k] == text@.subrange(i as int, i + LANES)[k - i]);
//@loop 2
    invariant
        i <= len, len == text@.len(), len <= isize::MAX,
        scanned(text@, i as int, |x: u8| x != target),
    ensures run_of(text@, i as int, |x: u8| x != target),
    decreases len - i,
//@end
}
