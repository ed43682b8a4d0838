pub mod text_model {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::sync::Arc;
// ---- model of text: bytes of valid UTF-8, character boundaries ------------------------------
pub open spec fn cont(b: u8) -> bool { 0x80 <= b <= 0xBF }
/// i is a character boundary of the text b.
pub open spec fn cb(b: Seq<u8>, i: int) -> bool { 0 <= i <= b.len() && (i == 0 || i == b.len() || !cont(b[i])) }

pub proof fn lemma_str_valid(s: &str)
    ensures valid_utf8(s.spec_bytes()), s.spec_bytes() == encode_utf8(s@),
{ broadcast use encode_utf8_valid_utf8; assert(s.spec_bytes() == encode_utf8(s@)); }

pub proof fn lemma_cb(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(),
    ensures cb(b, i) <==> is_char_boundary(b, i),
{
    is_char_boundary_start_end_of_seq(b);
    if i < b.len() { is_char_boundary_iff_not_is_continuation_byte(b, i); assert(is_continuation_byte(b[i]) == cont(b[i])); }
}
pub proof fn lemma_first_not_cont(b: Seq<u8>)
    requires valid_utf8(b), b.len() > 0,
    ensures !cont(b[0]),
{
    is_char_boundary_start_end_of_seq(b);
    is_char_boundary_iff_not_is_continuation_byte(b, 0);
    assert(is_continuation_byte(b[0]) == cont(b[0]));
}
/// Shape facts about a str that are used everywhere.
pub broadcast proof fn lemma_str_bytes(s: &str)
    ensures #![trigger s.spec_bytes()] valid_utf8(s.spec_bytes()),
{ lemma_str_valid(s); }

// ---- stand-ins for library types, with the same fields --------------------------------------
/// core::range::Range has public fields `start` and `end`; this mirrors them.
#[derive(Clone, Copy)]
#[verifier::allow(autoderive_clone_without_spec)]
pub struct Range<T> { pub start: T, pub end: T }
/// std::borrow::Cow<'_, str>: the same two constructors.
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> Cow<'a, str> {
    pub open spec fn bytes(&self) -> Seq<u8> {
        match self { Cow::Borrowed(s) => s.spec_bytes(), Cow::Owned(s) => encode_utf8(s@) }
    }
}
/// `str::get(range)`: trusted contract, one impl per range type (`.get(` is rewritten to `.get_v(`).
pub open spec fn get_ok(b: Seq<u8>, a: int, e: int) -> bool { 0 <= a <= e <= b.len() && cb(b, a) && cb(b, e) }
pub trait StrGet<R> { fn get_v(&self, r: R) -> (o: Option<&str>) ensures get_post(self.sb(), r, o); spec fn sb(&self) -> Seq<u8>; }
pub uninterp spec fn get_post<R>(b: Seq<u8>, r: R, o: Option<&str>) -> bool;
pub broadcast axiom fn axiom_get_range(b: Seq<u8>, r: core::ops::Range<usize>, o: Option<&str>)
    ensures #[trigger] get_post(b, r, o) <==> (o is Some <==> get_ok(b, r.start as int, r.end as int)) && (o is Some ==> o->0.spec_bytes() == b.subrange(r.start as int, r.end as int));
pub broadcast axiom fn axiom_get_to(b: Seq<u8>, r: core::ops::RangeTo<usize>, o: Option<&str>)
    ensures #[trigger] get_post(b, r, o) <==> (o is Some <==> get_ok(b, 0, r.end as int)) && (o is Some ==> o->0.spec_bytes() == b.take(r.end as int));
pub broadcast axiom fn axiom_get_from(b: Seq<u8>, r: core::ops::RangeFrom<usize>, o: Option<&str>)
    ensures #[trigger] get_post(b, r, o) <==> (o is Some <==> get_ok(b, r.start as int, b.len() as int)) && (o is Some ==> o->0.spec_bytes() == b.skip(r.start as int));
impl StrGet<core::ops::Range<usize>> for str { open spec fn sb(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body] fn get_v(&self, r: core::ops::Range<usize>) -> (o: Option<&str>) { self.get(r) } }
impl StrGet<core::ops::RangeTo<usize>> for str { open spec fn sb(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body] fn get_v(&self, r: core::ops::RangeTo<usize>) -> (o: Option<&str>) { self.get(r) } }
impl StrGet<core::ops::RangeFrom<usize>> for str { open spec fn sb(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body] fn get_v(&self, r: core::ops::RangeFrom<usize>) -> (o: Option<&str>) { self.get(r) } }
/// `<[usize]>::binary_search`: trusted contract (`.binary_search(` is rewritten to `.binary_search_v(`).
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub trait BinarySearch {
    spec fn bs(&self) -> Seq<usize>;
    fn binary_search_v(&self, x: &usize) -> (r: Result<usize, usize>)
        requires sorted(self.bs()),
        ensures
            r is Ok ==> r->Ok_0 < self.bs().len() && self.bs()[r->Ok_0 as int] == *x,
            r is Err ==> r->Err_0 <= self.bs().len() && (forall|k: int| 0 <= k < r->Err_0 ==> #[trigger] self.bs()[k] < *x) && (forall|k: int| r->Err_0 <= k < self.bs().len() ==> #[trigger] self.bs()[k] > *x);
}
impl BinarySearch for [usize] {
    open spec fn bs(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn binary_search_v(&self, x: &usize) -> (r: Result<usize, usize>) { self.binary_search(x) }
}
/// `Arc::as_ref` is the pointee.
pub assume_specification<T: ?Sized, A: core::alloc::Allocator>[ <Arc<T, A> as AsRef<T>>::as_ref ](a: &Arc<T, A>) -> (r: &T)
    ensures r == &**a;
/// `Arc::<str>::from(s.to_string())`: a shared copy of the same text.
#[verifier::external_body]
pub fn arc_str(s: &str) -> (r: Arc<str>) ensures r.spec_bytes() == s.spec_bytes() { Arc::<str>::from(s.to_string()) }
/// `&s[a..b]`: the bytes a..b; panics (hence the precondition) unless both are boundaries.
#[verifier::external_body]
pub fn str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires get_ok(s.spec_bytes(), a as int, b as int),
    ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, b as int),
{ &s[a..b] }
#[verifier::external_body]
pub fn str_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires get_ok(s.spec_bytes(), a as int, s.spec_bytes().len() as int),
    ensures r.spec_bytes() == s.spec_bytes().skip(a as int),
{ &s[a..] }
/// `str::is_char_boundary`, for every index (vstd states it only inside the text).
#[verifier::external_body]
pub fn is_cb(s: &str, i: usize) -> (r: bool) ensures r == cb(s.spec_bytes(), i as int) { s.is_char_boundary(i) }
/// `Arc::<[T]>::from(v.clone())`: a shared copy of the same elements (elements are `Copy` or `Arc`).
#[verifier::external_body]
pub fn arc_slice<T: Clone>(v: &Vec<T>) -> (r: Arc<[T]>) ensures r@ == v@ { Arc::<[T]>::from(v.clone()) }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub proof fn lemma_empty_str()
    ensures ""@ =~= Seq::<char>::empty(), "".spec_bytes() =~= Seq::<u8>::empty(), encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty(),
{ reveal_strlit(""); lemma_str_valid(""); reveal_with_fuel(encode_utf8, 2); assert(""@ =~= Seq::<char>::empty()); }
pub broadcast group group_text { axiom_get_range, axiom_get_to, axiom_get_from }
}
use text_model::*;
broadcast use group_text;
