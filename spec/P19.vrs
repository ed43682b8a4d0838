#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::std_specs::ops::*;
use std::sync::Arc;
verus! {
//@include reports.vrs
// ---- plain text ------------------------------------------------------------------------------------
//@item PlainTextEmitter
pub open spec fn plain_at(f: Frame, p: Spot, u: Option<&str>) -> Seq<char> { e() + "  "@ + f.ltop + " at "@ + url_of(u) + ":"@ + place(p) + "\n"@ }
pub open spec fn plain_bar(f: Frame, p: Spot) -> Seq<char> { e() + pad(p) + " "@ + f.vbar + "\n"@ }
pub open spec fn plain_line(f: Frame, p: Spot, t: Seq<u8>, l: int) -> Seq<char> { e() + right(num(l), num(p.l2).len()) + " "@ + f.vbar + " "@ + line_text(t, l) + "\n"@ }
pub open spec fn plain_mark(f: Frame, p: Spot) -> Seq<char> { e() + pad(p) + " "@ + f.vbar + " "@ + times(" "@, p.c1) + times("^"@, p.under) }
pub open spec fn plain_one(f: Frame, p: Spot, t: Seq<u8>, m: Option<String>) -> Seq<char> { plain_line(f, p, t, p.l1) + plain_mark(f, p) + tail(m) }
pub open spec fn plain_side(f: Frame, p: Spot, t: Seq<u8>, l: int) -> Seq<char> { e() + right(num(l), num(p.l2).len()) + " "@ + f.vbar + " "@ + (if l == p.l1 { f.ltop } else { f.vbar }) + line_text(t, l) + "\n"@ }
pub open spec fn plain_foot(f: Frame, p: Spot) -> Seq<char> { e() + pad(p) + " "@ + f.vbar + " "@ + f.lbot + times(f.hbar, (if p.c2 == 0 { 0 } else { p.c2 - 1 }) as nat) + "^"@ }
pub open spec fn plain_sides(f: Frame, p: Spot, t: Seq<u8>, l: int) -> Seq<char> decreases l - p.l1 { if l <= p.l1 { seq![] } else { plain_sides(f, p, t, l - 1) + plain_side(f, p, t, l - 1) } }
/// All lines from the first to the last one of the span, then the marker under the last one.
pub open spec fn plain_many(f: Frame, p: Spot, t: Seq<u8>, m: Option<String>) -> Seq<char> { if p.l1 > p.l2 { seq![] } else { plain_sides(f, p, t, p.l2 + 1) + plain_foot(f, p) + tail(m) } }
pub open spec fn plain_snippet(f: Frame, t: Seq<u8>, l: Label, u: Option<&str>) -> Seq<char> {
    let p = spot(t, l.span);
    plain_at(f, p, u) + plain_bar(f, p) + (if p.l1 == p.l2 { plain_one(f, p, t, l.message) } else { plain_many(f, p, t, l.message) }) + plain_bar(f, p)
}
impl PlainTextEmitter {
//@fn PlainTextEmitter::render_snippet
    requires source.inv(), line_map.of(source.text()), full_text.spec_bytes() == source.text(), all_lines(lines@, source.text()), source.text().len() <= u32::MAX / 2,
        askable(source.text(), label.span.start as int), askable(source.text(), label.span.end as int),
    ensures final(out)@ == old(out)@ + plain_snippet(frame(self.unicode), source.text(), *label, uri),
//@body
    let ghost t = source.text(); let ghost f = frame(self.unicode); let ghost p = spot(t, label.span); let ghost o0 = out@;
    proof { source.lemma_inv(); lemma_spot(t, label.span.start as int); lemma_spot(t, label.span.end as int); lemma_dec_bytes((p.l2 + 1) as nat); lemma_empty_str(); lemma_all_chars(); lemma_chars_bytes(full_text); lemma_chars_bytes(""); }
//@before /let line_num_width/
    assert(start_line == p.l1 && end_line == p.l2 && start_col == p.c1 && end_col == p.c2);
//@before /if start_line == end_line/
    let ghost o2 = out@;
    proof { assert(padding@ == pad(p)); cat(o0, plain_at(f, p, uri), plain_bar(f, p)); assert(o2 == o0 + plain_at(f, p, uri) + plain_bar(f, p)); assert(plain_sides(f, p, t, p.l1) == e()); assert(o2 + e() =~= o2); }
//@before /let underline = /
    assert(underline_len == p.under);
//@loop 1
    invariant start_line == p.l1, end_line == p.l2, end_col == p.c2, f == frame(self.unicode), chars.vbar@ == f.vbar, chars.ltop@ == f.ltop, chars.lbot@ == f.lbot, chars.hbar@ == f.hbar, all_lines(lines@, t), p.l2 < count_lines(t), padding@ == pad(p), line_num_width == num(p.l2).len(),
        i <= end_line ==> out@ == o2 + plain_sides(f, p, t, i as int),
        p.l1 > p.l2 ==> out@ == o2, start_line != end_line,
        i > end_line && p.l1 <= p.l2 ==> out@ == o2 + plain_many(f, p, t, label.message),
//@after /\.a\(&\("\^"\)\)\.s\(\)\);/
    proof { assert(out@ == o2 + plain_sides(f, p, t, i as int) + plain_side(f, p, t, i as int) + plain_foot(f, p)); }
//@loopend 1
    proof {
        let l = i as int; let d = plain_sides(f, p, t, l + 1);
        assert(d == plain_sides(f, p, t, l) + plain_side(f, p, t, l));
        cat(o2, plain_sides(f, p, t, l), plain_side(f, p, t, l));
        if l == p.l2 { cat(o2, d, plain_foot(f, p)); cat(o2, d + plain_foot(f, p), tail(label.message)); assert(out@ == o2 + d + plain_foot(f, p) + tail(label.message)); } else { assert(out@ == o2 + d); }
    }
//@before /out\.push_str\([^;]*\);\s*\}\s*$/
    proof {
        if p.l1 == p.l2 { cat(o2, plain_line(f, p, t, p.l1), plain_mark(f, p)); cat(o2, plain_line(f, p, t, p.l1) + plain_mark(f, p), tail(label.message)); assert(out@ == o2 + plain_one(f, p, t, label.message)); }
        else { if p.l1 > p.l2 { assert(o2 + e() =~= o2); } assert(out@ == o2 + plain_many(f, p, t, label.message)); }
        let m = if p.l1 == p.l2 { plain_one(f, p, t, label.message) } else { plain_many(f, p, t, label.message) };
        cat(o0, plain_at(f, p, uri) + plain_bar(f, p), m); cat(o0, plain_at(f, p, uri) + plain_bar(f, p) + m, plain_bar(f, p));
    }
//@end
}

pub open spec fn plain_header<L: Localizer + ?Sized>(d: Diagnostic, l: Option<&L>) -> Seq<char> { match d.code { Some(c) => e() + "["@ + c@ + "] "@ + message_of(d, l) + "\n"@, None => e() + "["@ + severity_name(d.severity) + "] "@ + message_of(d, l) + "\n"@ } }
pub open spec fn plain_help(d: Diagnostic) -> Seq<char> { match d.help { Some(h) => e() + "\nhelp: "@ + h@ + "\n"@, None => e() } }
pub open spec fn plain_snippets(f: Frame, t: Seq<u8>, v: Seq<Label>, u: Option<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { e() } else { plain_snippets(f, t, v.drop_last(), u) + plain_snippet(f, t, v.last(), u) } }
impl PlainTextEmitter {
//@fn Emitter for PlainTextEmitter::render_localized -> r
    requires source.inv(), source.text().len() <= u32::MAX / 2, labels_ok(source.text(), diagnostic.labels@),
    ensures r@ == plain_header(*diagnostic, localizer) + plain_snippets(frame(self.unicode), source.text(), diagnostic.labels@, uri) + plain_help(*diagnostic),
//@sub /for label in &diagnostic\.labels \{/ => for i in 0..diagnostic.labels.len() { let label = &diagnostic.labels[i];
//@body
    let ghost t = source.text(); let ghost f = frame(self.unicode); let ghost v = diagnostic.labels@;
    proof { source.lemma_inv(); }
//@after /let full_text = [^;]*;/
    proof { encode_utf8_decode_utf8(full_text@); lemma_all_chars(); assert(t.subrange(0, t.len() as int) =~= t); }
//@loop 1
    invariant source.inv(), t == source.text(), t.len() <= u32::MAX / 2, labels_ok(t, v), v == diagnostic.labels@, f == frame(self.unicode), line_map.of(t), full_text@ == decode_utf8(t), encode_utf8(full_text@) == t, all_lines(lines@, t),
        out@ == plain_header(*diagnostic, localizer) + plain_snippets(f, t, v.take(i as int), uri),
//@loopstart 1
    proof { assert(v.take(i + 1).drop_last() =~= v.take(i as int)); assert(v.take(i + 1).last() == v[i as int]); cat(plain_header(*diagnostic, localizer), plain_snippets(f, t, v.take(i as int), uri), plain_snippet(f, t, v[i as int], uri)); }
//@afterloop 1
    proof { assert(v.take(v.len() as int) =~= v); }
//@end
}
pub proof fn lemma_times(s: Seq<char>, n: nat)
    requires s.len() == 1,
    ensures times(s, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] times(s, n)[i] == s[0],
    decreases n,
{ if n > 0 { lemma_times(s, (n - 1) as nat); } }
pub proof fn lemma_dec_longer(a: nat, b: nat)
    requires a <= b, ensures dec(a).len() <= dec(b).len(), decreases b,
{ if a >= 10 { lemma_dec_longer(a / 10, b / 10); } else if b >= 10 { lemma_dec_longer(0, b / 10); } }
/// The text of a stretch is the texts of its parts.
pub proof fn lemma_parts(t: Seq<u8>, a: int, b: int, c: int)
    requires valid_utf8(t), get_ok(t, a, b), get_ok(t, b, c),
    ensures piece(t, a, c) == piece(t, a, b) + piece(t, b, c),
{
    lemma_sub_valid(t, a, b); lemma_sub_valid(t, b, c);
    let x = t.subrange(a, b); let y = t.subrange(b, c);
    decode_utf8_encode_utf8(x); decode_utf8_encode_utf8(y);
    encode_utf8_concat(decode_utf8(x), decode_utf8(y)); encode_utf8_decode_utf8(decode_utf8(x) + decode_utf8(y));
    assert(t.subrange(a, c) =~= x + y);
}
/// A line runs from its start to its end, both of them boundaries.
pub proof fn lemma_line_piece(t: Seq<u8>, o: int)
    requires valid_utf8(t), cb(t, o),
    ensures ({ let l = feeds(t, o); let a = line_of(t, o); 0 <= l < count_lines(t) && starts(t, t.len() as int)[l] == a && a <= o && cb(t, a) && cb(t, line_end(t, l)) && a <= line_end(t, l) && line_text(t, l) == piece(t, a, line_end(t, l)) }),
{
    let n = t.len() as int; let l = feeds(t, o); let s = starts(t, n);
    lemma_starts(t, o); lemma_starts(t, n); lemma_starts_ext(t, o, n); lemma_line_of(t, o);
    if l + 1 < s.len() {
        lemma_line_at(t, n, l + 1); let e = s[l + 1] - 1; assert(t[e] == 10); assert(!cont(t[e])); assert(cb(t, e));
        assert(s[l] < s[l + 1]); if e > s[l] && t[e - 1] == 13 { assert(!cont(t[e - 1])); assert(cb(t, e - 1)); }
    }
}
/// How far the quoted text and the marker are from the left edge.
pub open spec fn margin(p: Spot) -> int { num(p.l2).len() as int + 3 }
proof fn lemma_widths(f: Frame, p: Spot, l: int)
    requires f.vbar.len() == 1, 0 <= l <= p.l2,
    ensures (e() + pad(p) + " "@ + f.vbar + " "@).len() == margin(p), (e() + right(num(l), num(p.l2).len()) + " "@ + f.vbar + " "@).len() == margin(p),
{ reveal_strlit(" "); lemma_times(" "@, num(p.l2).len()); lemma_dec_longer((l + 1) as nat, (p.l2 + 1) as nat); if num(l).len() < num(p.l2).len() { lemma_times(seq![' '], (num(p.l2).len() - num(l).len()) as nat); } }
pub proof fn lemma_frame(u: bool) ensures ({ let f = frame(u); f.vbar.len() == 1 && f.hbar.len() == 1 && f.ltop.len() == 1 && f.lbot.len() == 1 && f.hbar[0] != '^' })
{ reveal_strlit("│"); reveal_strlit("─"); reveal_strlit("┌"); reveal_strlit("└"); reveal_strlit("|"); reveal_strlit("_"); reveal_strlit("/"); }
/// A span on one line: the carets stand exactly under its characters, or one caret where it is empty.
pub proof fn theorem_marker(u: bool, t: Seq<u8>, s: Range<usize>, k: int)
    requires valid_utf8(t), t.len() <= usize::MAX, get_ok(t, s.start as int, s.end as int), feeds(t, s.start as int) == feeds(t, s.end as int), 0 <= k,
    ensures ({
        let f = frame(u); let p = spot(t, s); let n = piece(t, s.start as int, s.end as int).len(); let mark = plain_mark(f, p); let line = plain_line(f, p, t, p.l1); let x = margin(p) + k;
        // the caret is there exactly for the characters of the span
        &&& (x < mark.len() && mark[x] == '^') == (p.c1 <= k < p.c1 + (if n == 0 { 1 } else { n }))
        // the quoted line shows the line's text above it
        &&& k < line_text(t, p.l1).len() ==> x < line.len() && line[x] == line_text(t, p.l1)[k]
        // and the characters of the span are where the carets are
        &&& s.end <= line_end(t, p.l1) && p.c1 <= k < p.c1 + n ==> k < line_text(t, p.l1).len() && line_text(t, p.l1)[k] == piece(t, s.start as int, s.end as int)[k - p.c1]
    }),
{
    let f = frame(u); let p = spot(t, s); let a = line_of(t, s.start as int); let b = s.start as int; let c = s.end as int;
    reveal_strlit(" "); reveal_strlit("^"); lemma_line_piece(t, b); lemma_line_piece(t, c);
    lemma_frame(u); lemma_widths(f, p, p.l1); lemma_times(" "@, p.c1); lemma_times("^"@, p.under);
    let m0 = e() + pad(p) + " "@ + f.vbar + " "@; let mark = plain_mark(f, p); let x = margin(p) + k;
    assert(mark == m0 + times(" "@, p.c1) + times("^"@, p.under));
    if k < p.c1 { assert(mark[x] == times(" "@, p.c1)[k]); } else if k < p.c1 + p.under { assert(mark[x] == times("^"@, p.under)[k - p.c1]); }
    let z = line_end(t, p.l1);
    let q0 = e() + right(num(p.l1), num(p.l2).len()) + " "@ + f.vbar + " "@;
    assert(plain_line(f, p, t, p.l1) == q0 + line_text(t, p.l1) + "\n"@);
    if c <= z { lemma_parts(t, a, b, c); lemma_parts(t, a, c, z); }
}
/// A span over several lines: one caret, under its last character on the last line, or at the start of that line where it has none there.
pub proof fn theorem_foot(u: bool, t: Seq<u8>, s: Range<usize>, k: int)
    requires valid_utf8(t), t.len() <= usize::MAX, get_ok(t, s.start as int, s.end as int), feeds(t, s.start as int) < feeds(t, s.end as int), 0 <= k,
    ensures ({
        let f = frame(u); let p = spot(t, s); let mark = plain_foot(f, p); let line = plain_side(f, p, t, p.l2); let x = margin(p) + 1 + k;
        &&& (x < mark.len() && mark[x] == '^') == (k == if p.c2 == 0 { 0 } else { p.c2 - 1 })
        &&& k < line_text(t, p.l2).len() ==> x < line.len() && line[x] == line_text(t, p.l2)[k]
        &&& s.end <= line_end(t, p.l2) && p.c2 > 0 ==> line_text(t, p.l2).len() >= p.c2 && line_text(t, p.l2)[p.c2 - 1] == piece(t, line_of(t, s.end as int), s.end as int).last()
    }),
{
    let f = frame(u); let p = spot(t, s); let c = s.end as int; let h = (if p.c2 == 0 { 0 } else { p.c2 - 1 }) as nat;
    reveal_strlit(" "); reveal_strlit("^"); lemma_line_piece(t, c);
    lemma_frame(u); lemma_widths(f, p, p.l2); lemma_times(f.hbar, h);
    let m0 = e() + pad(p) + " "@ + f.vbar + " "@; let mark = plain_foot(f, p); let x = margin(p) + 1 + k;
    assert(mark == m0 + f.lbot + times(f.hbar, h) + "^"@);
    if k < h { assert(mark[x] == times(f.hbar, h)[k]); }
    let q0 = e() + right(num(p.l2), num(p.l2).len()) + " "@ + f.vbar + " "@;
    assert(plain_side(f, p, t, p.l2) == q0 + (if p.l2 == p.l1 { f.ltop } else { f.vbar }) + line_text(t, p.l2) + "\n"@);
    if c <= line_end(t, p.l2) { lemma_parts(t, line_of(t, c), c, line_end(t, p.l2)); }
}
// ---- console ------------------------------------------------------------------------------------
//@item ConsoleEmitter
pub open spec fn con_at(f: Frame, p: Spot, u: Option<&str>) -> Seq<char> { e() + "  \x1b[34m"@ + f.ltop + "\x1b[0m at "@ + url_of(u) + ":"@ + place(p) + "\n"@ }
pub open spec fn con_bar(f: Frame, p: Spot) -> Seq<char> { e() + pad(p) + " \x1b[34m"@ + f.vbar + "\x1b[0m\n"@ }
pub open spec fn con_line(f: Frame, p: Spot, t: Seq<u8>, l: int) -> Seq<char> { e() + right(num(l), num(p.l2).len()) + " \x1b[34m"@ + f.vbar + "\x1b[0m "@ + line_text(t, l) + "\n"@ }
/// The colour of a marker.
pub open spec fn colour(l: Label) -> Seq<char> { match l.color { Some(c) => c@, None => "\x1b[31;1m"@ } }
pub open spec fn con_mark(f: Frame, p: Spot, k: Seq<char>) -> Seq<char> { e() + pad(p) + " \x1b[34m"@ + f.vbar + "\x1b[0m "@ + times(" "@, p.c1) + k + times("^"@, p.under) + "\x1b[0m"@ }
pub open spec fn con_one(f: Frame, p: Spot, t: Seq<u8>, b: Label) -> Seq<char> { con_line(f, p, t, p.l1) + con_mark(f, p, colour(b)) + tail(b.message) }
pub open spec fn con_side(f: Frame, p: Spot, t: Seq<u8>, l: int, k: Seq<char>) -> Seq<char> { e() + right(num(l), num(p.l2).len()) + " \x1b[34m"@ + f.vbar + "\x1b[0m "@ + k + (if l == p.l1 { f.ltop } else { f.vbar }) + "\x1b[0m"@ + " "@ + line_text(t, l) + "\n"@ }
/// What follows the marker under several lines.
pub open spec fn con_tail(m: Option<String>) -> Seq<char> { match m { Some(s) => e() + " "@ + s@ + "\x1b[0m\n"@, None => "\x1b[0m\n"@ } }
pub open spec fn con_foot(f: Frame, p: Spot, k: Seq<char>) -> Seq<char> { e() + pad(p) + " \x1b[34m"@ + f.vbar + "\x1b[0m "@ + k + f.lbot + times(f.hbar, p.c2) + "^"@ }
pub open spec fn con_sides(f: Frame, p: Spot, t: Seq<u8>, l: int, k: Seq<char>) -> Seq<char> decreases l - p.l1 { if l <= p.l1 { seq![] } else { con_sides(f, p, t, l - 1, k) + con_side(f, p, t, l - 1, k) } }
/// All lines from the first to the last one of the span, then the marker under the last one.
pub open spec fn con_many(f: Frame, p: Spot, t: Seq<u8>, b: Label) -> Seq<char> { if p.l1 > p.l2 { seq![] } else { con_sides(f, p, t, p.l2 + 1, colour(b)) + con_foot(f, p, colour(b)) + con_tail(b.message) } }
pub open spec fn con_snippet(f: Frame, t: Seq<u8>, l: Label, u: Option<&str>) -> Seq<char> {
    let p = spot(t, l.span);
    con_at(f, p, u) + con_bar(f, p) + (if p.l1 == p.l2 { con_one(f, p, t, l) } else { con_many(f, p, t, l) }) + con_bar(f, p)
}
impl ConsoleEmitter {
//@fn ConsoleEmitter::render_snippet
    requires source.inv(), line_map.of(source.text()), full_text.spec_bytes() == source.text(), all_lines(lines@, source.text()), source.text().len() <= u32::MAX / 2,
        askable(source.text(), label.span.start as int), askable(source.text(), label.span.end as int),
    ensures final(out)@ == old(out)@ + con_snippet(frame(self.unicode), source.text(), *label, uri),
//@body
    let ghost t = source.text(); let ghost f = frame(self.unicode); let ghost p = spot(t, label.span); let ghost o0 = out@; let ghost k = colour(*label);
    proof { source.lemma_inv(); lemma_spot(t, label.span.start as int); lemma_spot(t, label.span.end as int); lemma_dec_bytes((p.l2 + 1) as nat); lemma_empty_str(); lemma_all_chars(); lemma_chars_bytes(full_text); lemma_chars_bytes(""); }
//@before /let line_num_width/
    assert(start_line == p.l1 && end_line == p.l2 && start_col == p.c1 && end_col == p.c2);
//@before /if start_line == end_line/
    let ghost o2 = out@;
    proof { assert(padding@ == pad(p)); cat(o0, con_at(f, p, uri), con_bar(f, p)); assert(o2 == o0 + con_at(f, p, uri) + con_bar(f, p)); assert(con_sides(f, p, t, p.l1, k) == e()); assert(o2 + e() =~= o2); }
//@before /let underline = /
    assert(underline_len == p.under);
//@loop 1
    invariant start_line == p.l1, end_line == p.l2, end_col == p.c2, f == frame(self.unicode), k == colour(*label), color@ == k, chars.vbar@ == f.vbar, chars.ltop@ == f.ltop, chars.lbot@ == f.lbot, chars.hbar@ == f.hbar, all_lines(lines@, t), p.l2 < count_lines(t), padding@ == pad(p), line_num_width == num(p.l2).len(),
        i <= end_line ==> out@ == o2 + con_sides(f, p, t, i as int, k),
        p.l1 > p.l2 ==> out@ == o2, start_line != end_line,
        i > end_line && p.l1 <= p.l2 ==> out@ == o2 + con_many(f, p, t, *label),
//@after /\.a\(&\("\^"\)\)\.s\(\)\);/
    proof { assert(out@ == o2 + con_sides(f, p, t, i as int, k) + con_side(f, p, t, i as int, k) + con_foot(f, p, k)); }
//@loopend 1
    proof {
        let l = i as int; let d = con_sides(f, p, t, l + 1, k);
        assert(d == con_sides(f, p, t, l, k) + con_side(f, p, t, l, k));
        cat(o2, con_sides(f, p, t, l, k), con_side(f, p, t, l, k));
        if l == p.l2 { cat(o2, d, con_foot(f, p, k)); cat(o2, d + con_foot(f, p, k), con_tail(label.message)); assert(out@ == o2 + d + con_foot(f, p, k) + con_tail(label.message)); } else { assert(out@ == o2 + d); }
    }
//@before /out\.push_str\([^;]*\);\s*\}\s*$/
    proof {
        if p.l1 == p.l2 { cat(o2, con_line(f, p, t, p.l1), con_mark(f, p, k)); cat(o2, con_line(f, p, t, p.l1) + con_mark(f, p, k), tail(label.message)); assert(out@ == o2 + con_one(f, p, t, *label)); }
        else { if p.l1 > p.l2 { assert(o2 + e() =~= o2); } assert(out@ == o2 + con_many(f, p, t, *label)); }
        let m = if p.l1 == p.l2 { con_one(f, p, t, *label) } else { con_many(f, p, t, *label) };
        cat(o0, con_at(f, p, uri) + con_bar(f, p), m); cat(o0, con_at(f, p, uri) + con_bar(f, p) + m, con_bar(f, p));
    }
//@end
}

pub open spec fn severity_colour(s: Severity) -> Seq<char> { match s { Severity::Error => "\x1b[31;1m"@, Severity::Warning => "\x1b[33;1m"@, Severity::Advice => "\x1b[36;1m"@ } }
pub open spec fn con_header<L: Localizer + ?Sized>(d: Diagnostic, l: Option<&L>) -> Seq<char> { match d.code { Some(c) => e() + severity_colour(d.severity) + "["@ + c@ + "]\x1b[0m "@ + message_of(d, l) + "\n"@, None => e() + severity_colour(d.severity) + "["@ + severity_name(d.severity) + "]\x1b[0m "@ + message_of(d, l) + "\n"@ } }
pub open spec fn con_help(d: Diagnostic) -> Seq<char> { match d.help { Some(h) => e() + "\n\x1b[36;1mhelp\x1b[0m: "@ + h@ + "\n"@, None => e() } }
pub open spec fn con_snippets(f: Frame, t: Seq<u8>, v: Seq<Label>, u: Option<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { e() } else { con_snippets(f, t, v.drop_last(), u) + con_snippet(f, t, v.last(), u) } }
impl ConsoleEmitter {
//@fn Emitter for ConsoleEmitter::render_localized -> r
    requires source.inv(), source.text().len() <= u32::MAX / 2, labels_ok(source.text(), diagnostic.labels@),
    ensures r@ == con_header(*diagnostic, localizer) + con_snippets(frame(self.unicode), source.text(), diagnostic.labels@, uri) + con_help(*diagnostic),
//@sub /for label in &diagnostic\.labels \{/ => for i in 0..diagnostic.labels.len() { let label = &diagnostic.labels[i];
//@body
    let ghost t = source.text(); let ghost f = frame(self.unicode); let ghost v = diagnostic.labels@;
    proof { source.lemma_inv(); }
//@after /let full_text = [^;]*;/
    proof { encode_utf8_decode_utf8(full_text@); lemma_all_chars(); assert(t.subrange(0, t.len() as int) =~= t); }
//@loop 1
    invariant source.inv(), t == source.text(), t.len() <= u32::MAX / 2, labels_ok(t, v), v == diagnostic.labels@, f == frame(self.unicode), line_map.of(t), full_text@ == decode_utf8(t), encode_utf8(full_text@) == t, all_lines(lines@, t),
        out@ == con_header(*diagnostic, localizer) + con_snippets(f, t, v.take(i as int), uri),
//@loopstart 1
    proof { assert(v.take(i + 1).drop_last() =~= v.take(i as int)); assert(v.take(i + 1).last() == v[i as int]); cat(con_header(*diagnostic, localizer), con_snippets(f, t, v.take(i as int), uri), con_snippet(f, t, v[i as int], uri)); }
//@afterloop 1
    proof { assert(v.take(v.len() as int) =~= v); }
//@end
}
// ---- the place of an error --------------------------------------------------------------------------
/// What an error kind displays as (assumed).
pub uninterp spec fn kind_text(k: OakErrorKind) -> Seq<char>;
impl Disp for OakErrorKind { open spec fn ds(&self) -> Seq<char> { kind_text(*self) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn kind_key(k: OakErrorKind) -> Seq<char>;
impl HashMap<String, String> {
    #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) { unimplemented!() }
}
#[verifier::external_body] pub fn char_len8(c: Option<char>) -> (r: usize) ensures r == (match c { Some(x) => charlen(x), None => 0 }) { unimplemented!() }
//@gsub /\(mut self,([^{]*)\{\s*self\./ => (self,\1{ let mut me = self; me.
//@gsub /;\s*self\s*\}$/ => ; me }
//@gsub /(source\.get_char_at\(\w+\))\.map_or\(0, char::len_utf8\)/ => char_len8(\1)
//@include errors.vrs
impl OakErrorKind { #[verifier::external_body] pub fn key(&self) -> (r: &'static str) ensures r@ == kind_key(*self) { unimplemented!() } }
/// The label covers the character at o, or nothing behind the last character.
pub open spec fn covers_char(l: Label, t: Seq<u8>, o: int) -> bool { let a = clamp(t, o); l.span.start == a && l.span.end == a + (if a < t.len() { charlen(char_at(t, a)) } else { 0 }) }
pub open spec fn bare(d: Diagnostic, m: Seq<char>, s: Severity) -> bool { d.message@ == m && d.code is None && d.i18n_key is None && d.severity == s && d.labels@.len() == 0 && d.help is None }
//@src projects/oak-diagnostic/src/lib.rs
impl Diagnostic {
//@fn Diagnostic::error -> r
    ensures bare(r, message.it(), Severity::Error),
//@end
//@fn Diagnostic::warning -> r
    ensures bare(r, message.it(), Severity::Warning),
//@end
//@fn Diagnostic::with_i18n -> r
    ensures r.i18n_key is Some, r.i18n_key->0@ == key.it(), r == (Diagnostic { i18n_key: r.i18n_key, ..self }),
//@end
//@fn Diagnostic::with_arg -> r
    ensures r == (Diagnostic { i18n_args: r.i18n_args, ..self }),
//@end
//@fn Diagnostic::with_label -> r
    ensures r == (Diagnostic { labels: r.labels, ..self }), r.labels@.len() == self.labels@.len() + 1, r.labels@.drop_last() == self.labels@, r.labels@.last().span == span, r.labels@.last().message is Some, r.labels@.last().message->0@ == message.it(), r.labels@.last().color is None,
//@end
//@fn Diagnostic::with_help -> r
    ensures r.help is Some, r.help->0@ == help.it(), r == (Diagnostic { help: r.help, ..self }),
//@end
//@fn Diagnostic::with_code -> r
    ensures r.code is Some, r.code->0@ == code.it(), r == (Diagnostic { code: r.code, ..self }),
//@end
}
pub struct Provider {}
//@fn DiagnosticProvider for OakError::to_diagnostic -> r
    requires source.inv(), place_of(this.k()) is Some ==> askable(source.text(), place_of(this.k())->0 as int),
    ensures r.message@ == kind_text(this.k()), r.severity == Severity::Error, r.code is Some, r.code->0@ == kind_key(this.k()), r.help is None,
        place_of(this.k()) is None ==> r.labels@.len() == 0,
        place_of(this.k()) is Some ==> r.labels@.len() == 1 && covers_char(r.labels@[0], source.text(), place_of(this.k())->0 as int) && askable(source.text(), r.labels@[0].span.start as int) && askable(source.text(), r.labels@[0].span.end as int),
//@sub /\(&self,/ => (this: &OakError,
//@sub /self\./ => this.
//@body
    let ghost t = source.text();
    proof { source.lemma_inv(); if place_of(this.k()) is Some { let a = clamp(t, place_of(this.k())->0 as int); if a < t.len() { lemma_step(t, a); } } }
//@end
}
fn main() {}
