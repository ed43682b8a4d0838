//@include str_cmp.vrs
// ---- writing text (assumed: std's Display, String and slice methods) ---------------------------
pub open spec fn digit(n: nat) -> char { ('0' as u32 + n % 10) as char }
/// Decimal digits of n.
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n)) } }
pub open spec fn hexdigit(n: nat) -> char { if n % 16 < 10 { ('0' as u32 + n % 16) as char } else { ('a' as u32 + n % 16 - 10) as char } }
pub open spec fn hex4(n: nat) -> Seq<char> { seq![hexdigit(n / 4096), hexdigit(n / 256), hexdigit(n / 16), hexdigit(n)] }
pub open spec fn times(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { times(s, (n - 1) as nat) + s } }
/// `{:>w$}`.
pub open spec fn right(s: Seq<char>, w: nat) -> Seq<char> { if s.len() >= w { s } else { times(seq![' '], (w - s.len()) as nat) + s } }
/// What a value displays as.
pub trait Disp { spec fn ds(&self) -> Seq<char>; fn to_string_v(&self) -> (r: String) ensures r@ == self.ds(); }
impl Disp for str { open spec fn ds(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl Disp for String { open spec fn ds(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl Disp for char { open spec fn ds(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl Disp for usize { open spec fn ds(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl Disp for u32 { open spec fn ds(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
impl Disp for bool { open spec fn ds(&self) -> Seq<char> { bool_text(*self) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn ds(&self) -> Seq<char> { (**self).ds() } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
/// `format!`, one piece after the other.
pub struct Fo { pub t: String }
#[verifier::external_body] pub fn fo() -> (r: Fo) ensures r.t@ == Seq::<char>::empty() { unimplemented!() }
impl Fo {
    #[verifier::external_body] pub fn l(self, s: &str) -> (r: Fo) ensures r.t@ == self.t@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn a<T: Disp + ?Sized>(self, x: &T) -> (r: Fo) ensures r.t@ == self.t@ + x.ds() { unimplemented!() }
    #[verifier::external_body] pub fn p<T: Disp + ?Sized>(self, x: &T, w: usize) -> (r: Fo) ensures r.t@ == self.t@ + right(x.ds(), w as nat) { unimplemented!() }
    #[verifier::external_body] pub fn x4(self, n: u32) -> (r: Fo) ensures n < 65536 ==> r.t@ == self.t@ + hex4(n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn s(self) -> (r: String) ensures r@ == self.t@ { unimplemented!() }
}
pub trait Put { fn put<T: Disp + ?Sized>(&mut self, x: &T); }
impl Put for String { fn put<T: Disp + ?Sized>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.ds() { self.push_str(x.to_string_v().as_str()) } }
pub trait Repeat { fn repeat_v(&self, n: usize) -> (r: String) ensures r@ == times(self.rs(), n as nat); spec fn rs(&self) -> Seq<char>; }
impl Repeat for str { open spec fn rs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn repeat_v(&self, n: usize) -> (r: String) { unimplemented!() } }
pub open spec fn views<T: Disp>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|s: T| s.ds()) }
/// `[..].join(sep)`.
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
pub trait Join { spec fn js(&self) -> Seq<Seq<char>>; fn join_v(&self, sep: &str) -> (r: String) ensures r@ == joined(self.js(), sep@); }
impl<T: Disp> Join for Vec<T> { open spec fn js(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn join_v(&self, sep: &str) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn chars_v(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
/// A text seen as str.
#[verifier::external_body] pub fn sv<T: Disp + ?Sized>(x: &T) -> (r: &str) ensures r@ == x.ds() { unimplemented!() }
pub proof fn lemma_views<T: Disp>(v: Seq<T>, x: T)
    ensures views(v.push(x)) == views(v).push(x.ds()), views(Seq::<T>::empty()) == Seq::<Seq<char>>::empty(),
{ assert(views(v.push(x)) =~= views(v).push(x.ds())); assert(views(Seq::<T>::empty()) =~= Seq::<Seq<char>>::empty()); }
pub assume_specification[ char::is_control ](c: char) -> (r: bool) ensures r == ((c as u32) < 32 || 127 <= c as u32 <= 159);
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
