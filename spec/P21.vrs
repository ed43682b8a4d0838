use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- characters and strings (assumed: std) ---------------------------------------------------
pub uninterp spec fn alnum(c: char) -> bool;
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == alnum(c);
pub trait StrEnds { spec fn cs(&self) -> Seq<char>;
    fn first_char(&self) -> (r: Option<char>) ensures r == (if self.cs().len() == 0 { None } else { Some(self.cs()[0]) });
    fn last_char(&self) -> (r: Option<char>) ensures r == (if self.cs().len() == 0 { None } else { Some(self.cs().last()) });
}
impl StrEnds for str { open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn first_char(&self) -> (r: Option<char>) { self.chars().next() }
    #[verifier::external_body] fn last_char(&self) -> (r: Option<char>) { self.chars().last() } }
impl StrEnds for String { open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn first_char(&self) -> (r: Option<char>) { self.chars().next() }
    #[verifier::external_body] fn last_char(&self) -> (r: Option<char>) { self.chars().last() } }
//@gsub /\.chars\(\)\.next\(\)/ => .first_char()
//@gsub /\.chars\(\)\.(?:last|next_back)\(\)/ => .last_char()
//@gsub /(\w+)\.map_or\(false, \|(\w+)\| ((?:[^()]|\(\))*)\)/ => (match \1 { Some(\2) => \3, None => false })
//@gsub /(\w+)\.is_some_and\(\|(\w+)\| ((?:[^()]|\(\))*)\)/ => (match \1 { Some(\2) => \3, None => false })
// ---- what the buffer holds -------------------------------------------------------------------
pub open spec fn word(c: char) -> bool { alnum(c) || c == '_' }
pub open spec fn touch(a: Seq<char>, b: Seq<char>) -> bool { a.len() > 0 && b.len() > 0 && word(a.last()) && word(b[0]) }
/// Text after one more piece: a space in between exactly when two words would touch.
pub open spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char> { if touch(a, b) { a.push(' ') + b } else { a + b } }
/// The text of a whole sequence of pieces.
pub open spec fn emitted(ps: Seq<Seq<char>>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { seq![] } else { joined(emitted(ps.drop_last()), ps.last()) } }
/// The same pieces with nothing between them.
pub open spec fn glued(ps: Seq<Seq<char>>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { seq![] } else { glued(ps.drop_last()) + ps.last() } }
/// `at` holds the offset of every piece in the text t: pieces are in order, complete, and what lies between two is nothing or one space between two word characters.
pub open spec fn laid(ps: Seq<Seq<char>>, at: Seq<int>, t: Seq<char>) -> bool {
    at.len() == ps.len() && (forall|i: int| 0 <= i < ps.len() ==> 0 <= #[trigger] at[i] && at[i] + ps[i].len() <= t.len() && t.subrange(at[i], at[i] + ps[i].len()) == ps[i])
        && (forall|i: int| 0 <= i && #[trigger] next(i) < ps.len() ==> gap(t, at[i] + ps[i].len(), at[i + 1]))
        && (ps.len() == 0 ==> t.len() == 0) && (ps.len() > 0 ==> at[0] == 0 && at.last() + ps.last().len() == t.len())
}
pub open spec fn next(i: int) -> int { i + 1 }
pub open spec fn gap(t: Seq<char>, e: int, b: int) -> bool { (e == b && !(0 < e < t.len() && word(t[e - 1]) && word(t[e]))) || (e + 1 == b && 0 < e && b < t.len() && t[e] == ' ' && word(t[e - 1]) && word(t[b])) }
/// For any non-empty pieces pushed in any order: every piece is there once and in order, and two word characters of different pieces never touch.
pub proof fn lemma_emitted(ps: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() > 0,
    ensures exists|at: Seq<int>| laid(ps, at, emitted(ps)),
    decreases ps.len(),
{
    if ps.len() == 0 { assert(laid(ps, Seq::<int>::empty(), emitted(ps))); } else {
        let q = ps.drop_last(); let b = ps.last();
        assert(forall|i: int| 0 <= i < q.len() ==> q[i] == ps[i]);
        assert(ps[ps.len() - 1].len() > 0);
        lemma_emitted(q);
        let a = choose|at: Seq<int>| laid(q, at, emitted(q));
        let t0 = emitted(q); let t = emitted(ps);
        let s: int = if touch(t0, b) { t0.len() as int + 1 } else { t0.len() as int };
        let at = a.push(s);
        assert(t.subrange(0, t0.len() as int) == t0);
        assert(t.subrange(s, s + b.len()) == b);
        assert(t.len() == s + b.len());
        if q.len() > 0 { assert(q.last() == ps[q.len() - 1]); assert(a.last() == a[q.len() - 1]); }
        assert forall|i: int| 0 <= i < ps.len() implies 0 <= #[trigger] at[i] && at[i] + ps[i].len() <= t.len() && t.subrange(at[i], at[i] + ps[i].len()) == ps[i] by {
            if i < q.len() { assert(at[i] == a[i]); assert(t.subrange(a[i], a[i] + q[i].len()) == t0.subrange(a[i], a[i] + q[i].len())); }
        }
        assert forall|i: int| 0 <= i && #[trigger] next(i) < ps.len() implies gap(t, at[i] + ps[i].len(), at[i + 1]) by {
            assert(at[i] == a[i]);
            if next(i) < q.len() {
                assert(at[i + 1] == a[i + 1]); let e = a[i] + q[i].len();
                assert(gap(t0, e, a[i + 1]));
                assert(q[i + 1].len() > 0 && a[i + 1] + q[i + 1].len() <= t0.len());
                assert(forall|k: int| 0 <= k < t0.len() ==> #[trigger] t[k] == t0[k]);
            } else {
                assert(i == q.len() - 1); assert(a[i] + q[i].len() == t0.len());
                assert(t0[t0.len() - 1] == t[t0.len() - 1]); assert(t[s] == b[0]);
            }
        }
        assert(laid(ps, at, t));
    }
}
//@src projects/oak-core/src/source/buffer.rs
//@item SourceBuffer
impl SourceBuffer {
    /// The remembered character is the last one of the text.
    pub open spec fn inv(&self) -> bool { self.last_char == (if self.inner@.len() == 0 { None } else { Some(self.inner@.last()) }) }
    /// Started empty; deriving Default gives the empty string and None.
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.inner@.len() == 0, r.last_char is None { SourceBuffer { inner: Default::default(), last_char: Default::default() } }
//@fn SourceBuffer::new -> r
    ensures r.inv(), r.inner@ == emitted(seq![]),
//@end
//@fn SourceBuffer::push
    requires old(self).inv(),
    ensures final(self).inv(), final(self).inner@ == joined(old(self).inner@, s@),
        forall|ps: Seq<Seq<char>>| old(self).inner@ == #[trigger] emitted(ps) ==> final(self).inner@ == emitted(ps.push(s@)),
//@body
    let ghost a = self.inner@;
    proof { assert forall|ps: Seq<Seq<char>>| self.inner@ == #[trigger] emitted(ps) implies joined(self.inner@, s@) == emitted(ps.push(s@)) by { assert(ps.push(s@).drop_last() == ps); }
        assert(a + s@ == joined(a, s@) || touch(a, s@)); if s@.len() == 0 { assert(a + s@ == a); } }
//@end
//@fn SourceBuffer::finish -> r
    requires self.inv(),
    ensures r@ == self.inner@,
//@end
//@fn SourceBuffer::is_word_char -> r
    ensures r == (c is Some && word(c->0)),
//@end
}
}
fn main() {}
