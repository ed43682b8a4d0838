#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
verus! {
//@include text_out.vrs
//@fmt
// ---- std (assumed) ------------------------------------------------------------------------------------
/// `str::trim`.
pub uninterp spec fn trim_of(s: Seq<char>) -> Seq<char>;
/// `str::lines`.
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn strs<'a>(v: Seq<&'a str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
#[verifier::external_body] pub fn trim_v<T: Disp + ?Sized>(s: &T) -> (r: &str) ensures r@ == trim_of(s.ds()) { unimplemented!() }
#[verifier::external_body] pub fn lines_v(s: &String) -> (r: Vec<&str>) ensures strs(r@) == lines_of(s@) { s.lines().collect() }
#[verifier::external_body] pub fn has(s: &String, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
/// Whether a character is white space.
pub uninterp spec fn blank(c: char) -> bool;
/// What is printed of a text apart from white space.
pub open spec fn ink(s: Seq<char>) -> Seq<char> { s.filter(|c: char| !blank(c)) }
/// Trimming and splitting at line ends drop white space only.
pub broadcast axiom fn axiom_trim(s: Seq<char>) ensures #[trigger] ink(trim_of(s)) == ink(s);
pub axiom fn axiom_lines(s: Seq<char>) ensures inks(lines_of(s)) == ink(s);
pub axiom fn axiom_blanks() ensures blank(' '), blank('\n'), !blank('/'), !blank('*');
pub open spec fn inks(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { inks(v.drop_last()) + ink(v.last()) } }
pub open spec fn order_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub fn cmp_u(a: usize, b: usize) -> (r: Ordering) ensures r == order_of(a as int, b as int) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn with_key<T>(v: Seq<T>, k: spec_fn(T) -> int, n: int) -> Seq<T> { v.filter(|x: T| k(x) == n) }
/// Sorted by a key, elements with the same key in the order they had.
pub open spec fn stably<T>(old: Seq<T>, new: Seq<T>, k: spec_fn(T) -> int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < new.len() ==> k(#[trigger] new[i]) <= k(#[trigger] new[j])
    &&& forall|n: int| #[trigger] with_key(new, k, n) == with_key(old, k, n)
    &&& new.len() == old.len()
}
/// `sort_by`.
#[verifier::external_body] pub fn sort_by_v<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|x: T, y: T| f.requires((&x, &y)),
    ensures forall|k: spec_fn(T) -> int| (forall|x: T, y: T, o: Ordering| #[trigger] f.ensures((&x, &y), o) ==> o == order_of(k(x), k(y))) ==> #[trigger] stably(old(v)@, final(v)@, k),
{ v.sort_by(f) }
/// `sort_by_key`.
#[verifier::external_body] pub fn sort_key_v<T, F: Fn(&T) -> usize>(v: &mut Vec<T>, f: F)
    requires forall|x: T| f.requires((&x,)),
    ensures forall|k: spec_fn(T) -> int| (forall|x: T, o: usize| #[trigger] f.ensures((&x,), o) ==> o as int == k(x)) ==> #[trigger] stably(old(v)@, final(v)@, k),
{ v.sort_by_key(f) }
pub trait EmptyV { spec fn none(&self) -> bool; fn empty_v(&self) -> (r: bool) ensures r == self.none(); }
impl EmptyV for str { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn empty_v(&self) -> (r: bool) { unimplemented!() } }
impl EmptyV for String { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn empty_v(&self) -> (r: bool) { unimplemented!() } }
impl<T> EmptyV for Vec<T> { open spec fn none(&self) -> bool { self@.len() == 0 } fn empty_v(&self) -> (r: bool) { self.len() == 0 } }
/// Texts put together, whatever the grouping.
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
/// `iter().filter(..).collect()`.
#[verifier::external_body] pub fn keep<'a, T, F: Fn(&T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Vec<&'a T>)
    requires forall|x: T| f.requires((&x,)),
    ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)) ==> owned(r@) == #[trigger] v@.filter(p),
{ unimplemented!() }
pub open spec fn owned<'a, T>(v: Seq<&'a T>) -> Seq<T> { v.map_values(|x: &T| *x) }
// ---- comments -------------------------------------------------------------------------------------------
//@src projects/oak-pretty-print/src/comment/mod.rs
//@item Position
//@item SourceSpan
#[derive(PartialEq, Eq, Structural)]
//@item CommentKind
//@item Comment
//@item CommentCollector
//@item CommentProcessor
pub open spec fn opener(k: CommentKind) -> Seq<char> { match k { CommentKind::Line => "//"@, CommentKind::Block => "/*"@, CommentKind::Doc => "///"@ } }
pub open spec fn closer(k: CommentKind) -> Seq<char> { match k { CommentKind::Block => " */"@, _ => ""@ } }
/// The lines of a block comment, each behind its own star.
pub open spec fn starred(v: Seq<Seq<char>>, ind: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { starred(v.drop_last(), ind) + ind + " * "@ + trim_of(v.last()) + seq!['\n'] }
}
/// What a comment is printed as.
pub open spec fn text_of(c: Comment, ind: Seq<char>) -> Seq<char> {
    let t = trim_of(c.content@);
    if t.len() == 0 { opener(c.kind) + c.content@ + closer(c.kind) }
    else if c.kind is Block && c.content@.contains('\n') { "/*\n"@ + starred(lines_of(c.content@), ind) + ind + " */"@ }
    else { opener(c.kind) + seq![' '] + t + closer(c.kind) }
}
/// Comments on lines of their own.
pub open spec fn own_lines(v: Seq<Comment>, ind: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.last().is_trailing { own_lines(v.drop_last(), ind) } else { own_lines(v.drop_last(), ind) + ind + text_of(v.last(), ind) + seq!['\n'] }
}
pub open spec fn lying_before(v: Seq<Comment>, o: int) -> Seq<Comment> { v.filter(|c: Comment| c.span.end.offset <= o) }
pub open spec fn lying_after(v: Seq<Comment>, o: int) -> Seq<Comment> { v.filter(|c: Comment| c.span.start.offset >= o) }
pub open spec fn first_trailing(v: Seq<Comment>) -> Option<Comment> decreases v.len() {
    if v.len() == 0 { None } else if v[0].is_trailing { Some(v[0]) } else { first_trailing(v.skip(1)) }
}
pub proof fn lemma_step<T>(v: Seq<T>, k: int) requires 0 <= k < v.len() ensures v.take(k + 1).drop_last() == v.take(k), v.take(k + 1).last() == v[k] { assert(v.take(k + 1).drop_last() =~= v.take(k)); }
pub proof fn lemma_literals() ensures "\n"@ == seq!['\n'], " "@ == seq![' '], " * "@ == seq![' '] + "*"@ + seq![' '], "/* "@ == "/*"@ + seq![' '], ""@ == Seq::<char>::empty(), "/*"@.len() == 2, "//"@ == seq!['/', '/'], "///"@ == seq!['/', '/', '/'], "/*"@ == seq!['/', '*'], " */"@ == seq![' ', '*', '/'], " * "@ == seq![' ', '*', ' '], "/*\n"@ == seq!['/', '*', '\n'] {
    reveal_strlit(" "); reveal_strlit("\n"); reveal_strlit("*"); assert("\n"@ =~= seq!['\n']); assert(" * "@ =~= seq![' '] + "*"@ + seq![' ']) by { reveal_strlit(" * "); } reveal_strlit("/* "); reveal_strlit("/*"); reveal_strlit(""); reveal_strlit("//"); reveal_strlit("///"); reveal_strlit(" */"); reveal_strlit(" * "); reveal_strlit("/*\n");
    assert(" "@ =~= seq![' ']); assert("/* "@ =~= "/*"@ + seq![' ']); assert(""@ =~= Seq::<char>::empty()); assert("//"@ =~= seq!['/', '/']); assert("///"@ =~= seq!['/', '/', '/']); assert("/*"@ =~= seq!['/', '*']); assert(" */"@ =~= seq![' ', '*', '/']); assert(" * "@ =~= seq![' ', '*', ' ']); assert("/*\n"@ =~= seq!['/', '*', '\n']);
}
#[verifier::external_body] pub fn string_clone(s: &String) -> (r: String) ensures r == *s { s.clone() }
//@gsub /\.is_empty\(\)/ => .empty_v()
//@gsub /\b(\w+(?:\.\w+)?)\.trim\(\)/ => trim_v(&\1)
//@gsub /\b(\w+(?:\.\w+)?)\.contains\(('.*?')\)/ => has(&\1, \2)
//@gsub /\b(\w+(?:\.\w+)?)\.lines\(\)\.collect\(\)/ => lines_v(&\1)
//@gsub /(\w+)\.content\.(?:clone|to_string|to_owned)\(\)/ => string_clone(&\1.content)
//@gsub /self\.comments\s*\.iter\(\)\s*\.filter\(\|&?(\w+)\| (.*?)\)\s*\.collect\(\)/ => keep(&self.comments, |\1: &Comment| -> (b: bool) ensures b == (\2) { \2 })
//@gsub /self\.comments\.sort_by\(\|(\w+), (\w+)\| (\S+)\.cmp\(&(\S+)\)\)/ => sort_by_v(&mut self.comments, |\1: &Comment, \2: &Comment| -> (o: Ordering) ensures o == order_of(\3 as int, \4 as int) { cmp_u(\3, \4) })
//@gsub /self\.comments\.sort_by_key\(\|(\w+)\| (.*?)\)(?=\s)/ => sort_key_v(&mut self.comments, |\1: &Comment| -> (o: usize) ensures o == (\2) { \2 })
//@gsub /\(mut self, (.*?)\) -> Self \{/ => (self, \1) -> Self { let mut me = self;
impl Comment {
//@fn Comment::new -> r
    ensures r == (Comment { kind, content, span, is_trailing: false, indent_level: 0 }),
//@end
//@fn Comment::line -> r
    ensures r == (Comment { kind: CommentKind::Line, content, span, is_trailing: false, indent_level: 0 }),
//@end
//@fn Comment::block -> r
    ensures r == (Comment { kind: CommentKind::Block, content, span, is_trailing: false, indent_level: 0 }),
//@end
//@fn Comment::doc -> r
    ensures r == (Comment { kind: CommentKind::Doc, content, span, is_trailing: false, indent_level: 0 }),
//@end
//@fn Comment::with_trailing -> r
    ensures r == (Comment { is_trailing, ..self }),
//@sub /\bself\./ => me.
//@sub /\n\s*self\n/ => me
//@end
//@fn Comment::with_indent_level -> r
    ensures r == (Comment { indent_level: level, ..self }),
//@sub /\bself\./ => me.
//@sub /\n\s*self\n/ => me
//@end
//@fn Comment::formatted_text -> r
    ensures r@ == text_of(*self, indent@),
//@sub /for (\w+) in self\.content\.lines\(\) \{/ => let lines = lines_v(&self.content); for \1 in lines {
//@sub /for (\w+) in lines(?:\.iter\(\))? \{/ => let mut k: usize = 0; while k < lines.len() { let \1 = lines[k]; k = k + 1;
//@loop 1
    invariant k <= lines.len(), strs(lines@) == lines_of(self.content@), result@ == "/*\n"@ + starred(lines_of(self.content@).take(k as int), indent@),
    decreases lines.len() - k,
//@body
    broadcast use lemma_assoc;
    proof { lemma_literals(); }
//@loopstart 1
    proof { lemma_literals(); lemma_step(lines_of(self.content@), k as int); assert(strs(lines@)[k as int] == lines@[k as int]@); }
//@afterloop 1
    proof { assert(lines_of(self.content@).take(k as int) =~= lines_of(self.content@)); }
//@end
}
impl Default for CommentCollector {
//@fn Default for CommentCollector::default -> r
    ensures r.comments@.len() == 0,
//@end
}
impl Default for CommentProcessor {
//@fn Default for CommentProcessor::default -> r
    ensures r.collector.comments@.len() == 0, r.preserve_comments, r.format_comments,
//@end
}
impl CommentCollector {
//@fn CommentCollector::new -> r
    ensures r.comments@.len() == 0,
//@end
//@fn CommentCollector::add_comment
    ensures final(self).comments@ == old(self).comments@.push(comment),
//@end
//@fn CommentCollector::comments -> r
    ensures r@ == self.comments@,
//@end
//@fn CommentCollector::comments_in_range -> r
    ensures owned(r@) == self.comments@.filter(|c: Comment| c.span.start.offset >= start.offset && c.span.end.offset <= end.offset),
//@end
//@fn CommentCollector::comments_before -> r
    ensures owned(r@) == lying_before(self.comments@, position.offset as int),
//@end
//@fn CommentCollector::comments_after -> r
    ensures owned(r@) == lying_after(self.comments@, position.offset as int),
//@end
//@fn CommentCollector::trailing_comments -> r
    ensures owned(r@) == self.comments@.filter(|c: Comment| c.is_trailing),
//@end
//@fn CommentCollector::clear
    ensures final(self).comments@.len() == 0,
//@end
//@fn CommentCollector::sort_by_position
    ensures stably(old(self).comments@, final(self).comments@, |c: Comment| c.span.start.offset as int),
//@end
}
impl CommentProcessor {
//@fn CommentProcessor::new -> r
    ensures r.collector.comments@.len() == 0, r.preserve_comments, r.format_comments,
//@end
//@fn CommentProcessor::with_preserve_comments -> r
    ensures r == (CommentProcessor { preserve_comments: preserve, ..self }),
//@sub /\bself\./ => me.
//@sub /\n\s*self\n/ => me
//@end
//@fn CommentProcessor::with_format_comments -> r
    ensures r == (CommentProcessor { format_comments: format, ..self }),
//@sub /\bself\./ => me.
//@sub /\n\s*self\n/ => me
//@end
//@fn CommentProcessor::collector -> r
    ensures r == self.collector,
//@end
//@fn CommentProcessor::process_comments -> r
    ensures r@.len() == (if self.preserve_comments { comments@.len() } else { 0 }),
        self.preserve_comments ==> forall|i: int| 0 <= i < comments@.len() ==> (#[trigger] r@[i])@ == (if self.format_comments { text_of(comments@[i], indent@) } else { comments@[i].content@ }),
//@sub /comments\s*\.iter\(\)\s*\.map\(\|(\w+)\| (.*)\)\s*\.collect\(\)/ => let mut out: Vec<String> = Vec::new(); let mut k: usize = 0; while k < comments.len() { let \1 = &comments[k]; k = k + 1; let one = \2; out.push(one); } out
//@loop 1
    invariant k <= comments.len(), out@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] out@[i])@ == (if self.format_comments { text_of(comments@[i], indent@) } else { comments@[i].content@ }),
    decreases comments.len() - k,
//@end
//@fn CommentProcessor::insert_comments_at_position
    ensures final(output)@ == old(output)@ + own_lines(lying_before(self.collector.comments@, position.offset as int), indent@),
//@sub /for (\w+) in (?:&)?comments \{/ => let mut k: usize = 0; while k < comments.len() { let \1 = comments[k]; k = k + 1;
//@loop 1
    invariant k <= comments.len(), start == old(output)@, output@ == start + own_lines(owned(comments@).take(k as int), indent@),
    decreases comments.len() - k,
//@body
    let ghost start = output@;
    broadcast use lemma_assoc;
//@loopstart 1
    proof { lemma_step(owned(comments@), k as int); lemma_literals(); }
//@afterloop 1
    proof { assert(owned(comments@).take(k as int) =~= owned(comments@)); }
//@end
//@fn CommentProcessor::insert_trailing_comment
    ensures final(output)@ == old(output)@ + (match first_trailing(lying_after(self.collector.comments@, position.offset as int)) { Some(c) => seq![' '] + text_of(c, Seq::empty()), None => Seq::empty() }),
//@sub /for (\w+) in (?:&)?comments \{/ => let mut k: usize = 0; while k < comments.len() { let \1 = comments[k]; k = k + 1;
//@loop 1
    invariant_except_break k <= comments.len(), output@ == start, first_trailing(owned(comments@)) == first_trailing(owned(comments@).skip(k as int)),
    ensures output@ == start + (match first_trailing(owned(comments@)) { Some(c) => seq![' '] + text_of(c, Seq::empty()), None => Seq::empty() }),
    decreases comments.len() - k,
//@body
    let ghost start = output@;
    broadcast use lemma_assoc;
    proof { lemma_literals(); assert(forall|v: Seq<Comment>| #[trigger] v.skip(0) =~= v); }
//@loopstart 1
    proof { let v = owned(comments@); let w = v.skip(k as int); assert(w[0] == v[k as int]); assert(w.skip(1) =~= v.skip(k + 1)); lemma_literals(); }
//@end
}
// ---- nothing of a comment is lost, and nothing but the marks is added ----------------------------------
pub proof fn lemma_ink(a: Seq<char>, b: Seq<char>) ensures ink(a + b) == ink(a) + ink(b) { Seq::filter_distributes_over_add(a, b, |c: char| !blank(c)); }
pub proof fn lemma_ink_one(c: char) ensures ink(seq![c]) == (if blank(c) { Seq::<char>::empty() } else { seq![c] }) {
    reveal(Seq::filter); reveal_with_fuel(Seq::filter, 2); let s = seq![c]; assert(s.drop_last() =~= Seq::empty()); assert(s.last() == c); let p = |c: char| !blank(c); assert(Seq::<char>::empty().filter(p) =~= Seq::empty());
    if !blank(c) { assert(s.filter(p) == Seq::<char>::empty().push(c)); assert(Seq::<char>::empty().push(c) =~= seq![c]); } else { assert(s.filter(p) == Seq::<char>::empty()); }
}
/// A block comment's lines without white space, each behind a star.
pub open spec fn stars(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { stars(v.drop_last()) + seq!['*'] + ink(v.last()) } }
proof fn lemma_starred(v: Seq<Seq<char>>, ind: Seq<char>) requires ink(ind).len() == 0 ensures ink(starred(v, ind)) == stars(v) decreases v.len() {
    broadcast use axiom_trim;
    if v.len() == 0 { reveal(Seq::filter); assert(ink(starred(v, ind)) =~= Seq::empty()); } else {
        lemma_starred(v.drop_last(), ind); axiom_blanks(); lemma_literals();
        let w = starred(v.drop_last(), ind); let t = trim_of(v.last());
        lemma_ink(w + ind + " * "@ + t, seq!['\n']); lemma_ink(w + ind + " * "@, t); lemma_ink(w + ind, " * "@); lemma_ink(w, ind);
        lemma_ink_one('\n'); lemma_ink_one(' '); lemma_ink_one('*');
        assert(" * "@ =~= seq![' '] + seq!['*'] + seq![' ']); lemma_ink(seq![' '] + seq!['*'], seq![' ']); lemma_ink(seq![' '], seq!['*']);
        assert(ink(" * "@) =~= seq!['*']); assert(ink(ind) =~= Seq::empty());
        assert(ink(starred(v, ind)) =~= stars(v));
    }
}
pub open spec fn marks(k: CommentKind) -> (Seq<char>, Seq<char>) { match k { CommentKind::Line => (seq!['/', '/'], Seq::empty()), CommentKind::Block => (seq!['/', '*'], seq!['*', '/']), CommentKind::Doc => (seq!['/', '/', '/'], Seq::empty()) } }
/// Apart from white space a comment is printed as its marks around all of its content; in a block of
/// several lines each line comes behind a star.
pub proof fn theorem_kept(c: Comment, ind: Seq<char>) requires ink(ind).len() == 0
    ensures ({ let m = marks(c.kind); let o = ink(text_of(c, ind)); let v = lines_of(c.content@);
        if c.kind is Block && c.content@.contains('\n') && trim_of(c.content@).len() > 0 { o == m.0 + stars(v) + m.1 && inks(v) == ink(c.content@) } else { o == m.0 + ink(c.content@) + m.1 } }),
{
    broadcast use axiom_trim;
    axiom_blanks(); lemma_literals(); axiom_lines(c.content@);
    let t = trim_of(c.content@); let (o, e) = (opener(c.kind), closer(c.kind)); let m = marks(c.kind); let v = lines_of(c.content@);
    lemma_ink_one('/'); lemma_ink_one('*'); lemma_ink_one(' '); lemma_ink_one('\n');
    assert(ink(Seq::<char>::empty()) =~= Seq::empty()) by { reveal(Seq::filter); }
    lemma_ink(seq!['/'], seq!['/']); lemma_ink(seq!['/'] + seq!['/'], seq!['/']); lemma_ink(seq!['/'], seq!['*']);
    lemma_ink(seq![' '] + seq!['*'], seq!['/']); lemma_ink(seq![' '], seq!['*']); lemma_ink(seq!['/'] + seq!['*'], seq!['\n']);
    assert("//"@ =~= seq!['/'] + seq!['/']); assert("///"@ =~= seq!['/'] + seq!['/'] + seq!['/']); assert("/*"@ =~= seq!['/'] + seq!['*']); assert(" */"@ =~= seq![' '] + seq!['*'] + seq!['/']); assert("/*\n"@ =~= seq!['/'] + seq!['*'] + seq!['\n']);
    assert(ink(o) =~= m.0); assert(ink(e) =~= m.1); assert(ink("/*\n"@) =~= seq!['/', '*']); assert(ink(" */"@) =~= seq!['*', '/']);
    lemma_starred(v, ind); let w = starred(v, ind);
    lemma_ink("/*\n"@ + w + ind, " */"@); lemma_ink("/*\n"@ + w, ind); lemma_ink("/*\n"@, w);
    lemma_ink(o + c.content@, e); lemma_ink(o, c.content@);
    lemma_ink(o + seq![' '] + t, e); lemma_ink(o + seq![' '], t); lemma_ink(o, seq![' ']);
    assert(ink(ind) =~= Seq::empty());
    assert(m.0 + Seq::empty() + ink(t) + m.1 =~= m.0 + ink(t) + m.1);
    assert(m.0 + stars(v) + Seq::empty() + m.1 =~= m.0 + stars(v) + m.1);
}
fn main() {}
}
