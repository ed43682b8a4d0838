// Trusted contracts: bounds-unchecked indexing, ASCII predicates and the portable-SIMD lane operations.
pub assume_specification<T, I: core::slice::SliceIndex<[T]>>[ <[T]>::get_unchecked::<I> ](s: &[T], i: I) -> (r: &<I as core::slice::SliceIndex<[T]>>::Output)
    requires i.in_bounds(s),
    ensures i.index_postcondition(s, r);
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn is_alpha(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn is_hex(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 13 }
pub open spec fn is_ident(b: u8) -> bool { is_digit(b) || is_alpha(b) || b == 95 }
pub assume_specification [ u8::is_ascii_digit ] (s: &u8) -> (r: bool) ensures r == is_digit(*s);
pub assume_specification [ u8::is_ascii_alphanumeric ] (s: &u8) -> (r: bool) ensures r == (is_digit(*s) || is_alpha(*s));
pub assume_specification [ u8::is_ascii_hexdigit ] (s: &u8) -> (r: bool) ensures r == is_hex(*s);

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Simd<T, const N: usize> { x: [T; N] }
#[verifier::external_body]
pub struct Mask<const N: usize> { x: [bool; N] }
impl<const N: usize> Clone for Mask<N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<const N: usize> Copy for Mask<N> {}
impl<const N: usize> Clone for Simd<u8, N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<const N: usize> Copy for Simd<u8, N> {}
impl<const N: usize> Mask<N> {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn first_set(self) -> (r: Option<usize>)
        ensures
            r is None ==> (forall|k: int| 0 <= k < N ==> !#[trigger] self@[k]),
            r is Some ==> r->0 < N && self@[r->0 as int] && (forall|k: int| 0 <= k < r->0 ==> !#[trigger] self@[k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all(self) -> (r: bool) ensures r == (forall|k: int| 0 <= k < N ==> #[trigger] self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn any(self) -> (r: bool) ensures r == (exists|k: int| 0 <= k < N && #[trigger] self@[k]) { unimplemented!() }
}
impl<const N: usize> NotSpecImpl for Mask<N> {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { true }
    uninterp spec fn not_spec(self) -> Mask<N>;
}
impl<const N: usize> core::ops::Not for Mask<N> { type Output = Mask<N>;
    #[verifier::external_body]
    fn not(self) -> (r: Mask<N>) ensures forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < N ==> r@[k] == !self@[k] { unimplemented!() }
}
impl<const N: usize> BitOrSpecImpl for Mask<N> {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, o: Self) -> bool { true }
    uninterp spec fn bitor_spec(self, o: Self) -> Mask<N>;
}
impl<const N: usize> core::ops::BitOr for Mask<N> { type Output = Mask<N>;
    #[verifier::external_body]
    fn bitor(self, o: Self) -> (r: Mask<N>) ensures forall|k: int| #![trigger r@[k]] #![trigger self@[k]] #![trigger o@[k]] 0 <= k < N ==> r@[k] == (self@[k] || o@[k]) { unimplemented!() }
}
impl<const N: usize> BitAndSpecImpl for Mask<N> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: Self) -> bool { true }
    uninterp spec fn bitand_spec(self, o: Self) -> Mask<N>;
}
impl<const N: usize> core::ops::BitAnd for Mask<N> { type Output = Mask<N>;
    #[verifier::external_body]
    fn bitand(self, o: Self) -> (r: Mask<N>) ensures forall|k: int| #![trigger r@[k]] #![trigger self@[k]] #![trigger o@[k]] 0 <= k < N ==> r@[k] == (self@[k] && o@[k]) { unimplemented!() }
}
impl<const N: usize> Simd<u8, N> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: Self) requires s@.len() >= N
        ensures forall|k: int| #![trigger r@[k]] #![trigger s@[k]] 0 <= k < N ==> r@[k] == s@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn splat(b: u8) -> (r: Self) ensures forall|k: int| 0 <= k < N ==> #[trigger] r@[k] == b { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_eq(self, o: Self) -> (r: Mask<N>) ensures forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < N ==> r@[k] == (self@[k] == o@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_ge(self, o: Self) -> (r: Mask<N>) ensures forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < N ==> r@[k] == (self@[k] >= o@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn simd_le(self, o: Self) -> (r: Mask<N>) ensures forall|k: int| #![trigger r@[k]] #![trigger self@[k]] 0 <= k < N ==> r@[k] == (self@[k] <= o@[k]) { unimplemented!() }
}
// vstd states subrange facts about get_unchecked's result as `r@ == s@.subrange(a, b)`; this restates
// them element-wise so that facts about a block transfer back to the text.
pub open spec fn scanned(t: Seq<u8>, n: int, p: spec_fn(u8) -> bool) -> bool {
    forall|k: int| 0 <= k < n ==> p(#[trigger] t[k])
}
// `n` is exactly the length of the longest prefix whose bytes satisfy p.
pub open spec fn run_of(t: Seq<u8>, n: int, p: spec_fn(u8) -> bool) -> bool {
    0 <= n <= t.len() && scanned(t, n, p) && (n < t.len() ==> !p(t[n]))
}
