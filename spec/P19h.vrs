#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::std_specs::ops::*;
use std::sync::Arc;
verus! {
//@import reports.vrs
//@import diag_escape.vrs
//@gsub /html_escape\((&?\w+)\)/ => html_escape(\1)
// ---- HTML ------------------------------------------------------------------------------------
//@item HtmlEmitter
pub open spec fn html_at(p: Spot, u: Option<&str>) -> Seq<char> { e() + "    <div class=\"location\">  "@ + "┌"@ + " at "@ + escs(url_of(u)) + ":"@ + place(p) + "</div>\n"@ }
/// What stands before and after the lines.
pub open spec fn html_top(p: Spot, u: Option<&str>) -> Seq<char> { "  <div class=\"snippet\">\n"@ + html_at(p, u) + "    <pre><code>"@ }
pub open spec fn html_bar(p: Spot) -> Seq<char> { e() + "<span class=\"padding\">"@ + pad(p) + "</span> <span class=\"vbar\">│</span>\n"@ }
pub open spec fn html_line(p: Spot, t: Seq<u8>, l: int) -> Seq<char> { e() + "<span class=\"line-num\">"@ + right(num(l), num(p.l2).len()) + "</span> <span class=\"vbar\">│</span> "@ + escs(line_text(t, l)) + "\n"@ }
pub open spec fn html_mark(p: Spot) -> Seq<char> { e() + "<span class=\"padding\">"@ + pad(p) + "</span> <span class=\"vbar\">│</span> <span class=\"underline\">"@ + times(" "@, p.c1) + times("^"@, p.under) + "</span>"@ }
/// The message after the marker.
pub open spec fn html_msg(m: Option<String>) -> Seq<char> { match m { Some(s) => e() + " <span class=\"label-msg\">"@ + escs(s@) + "</span>"@, None => e() } }
pub open spec fn html_tail(m: Option<String>) -> Seq<char> { html_msg(m) + "\n"@ }
pub open spec fn html_one(p: Spot, t: Seq<u8>, m: Option<String>) -> Seq<char> { html_line(p, t, p.l1) + html_mark(p) + html_tail(m) }
pub open spec fn html_side(p: Spot, t: Seq<u8>, l: int) -> Seq<char> { e() + "<span class=\"line-num\">"@ + right(num(l), num(p.l2).len()) + (if l == p.l1 { "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">┌</span>"@ } else { "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>"@ }) + escs(line_text(t, l)) + "\n"@ }
pub open spec fn html_foot(p: Spot) -> Seq<char> { e() + "<span class=\"padding\">"@ + pad(p) + "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">"@ + times("─"@, (if p.c2 == 0 { 0 } else { p.c2 - 1 }) as nat) + "</span>"@ }
pub open spec fn html_caret() -> Seq<char> { e() + "<span class=\"underline\">"@ + "^"@ + "</span>"@ }
pub open spec fn html_sides(p: Spot, t: Seq<u8>, l: int) -> Seq<char> decreases l - p.l1 { if l <= p.l1 { seq![] } else { html_sides(p, t, l - 1) + html_side(p, t, l - 1) } }
/// All lines from the first to the last one of the span, then the marker under the last one.
pub open spec fn html_many(p: Spot, t: Seq<u8>, m: Option<String>) -> Seq<char> { if p.l1 > p.l2 { seq![] } else { html_sides(p, t, p.l2 + 1) + html_foot(p) + html_caret() + html_tail(m) } }
pub open spec fn html_snippet(t: Seq<u8>, l: Label, u: Option<&str>) -> Seq<char> {
    let p = spot(t, l.span);
    html_top(p, u) + html_bar(p) + (if p.l1 == p.l2 { html_one(p, t, l.message) } else { html_many(p, t, l.message) }) + html_bar(p) + "</code></pre>\n"@ + "  </div>\n"@
}
impl HtmlEmitter {
//@fn HtmlEmitter::render_snippet
    requires source.inv(), line_map.of(source.text()), full_text.spec_bytes() == source.text(), all_lines(lines@, source.text()), source.text().len() <= u32::MAX / 2,
        askable(source.text(), label.span.start as int), askable(source.text(), label.span.end as int),
    ensures final(out)@ == old(out)@ + html_snippet(source.text(), *label, uri),
//@body
    let ghost t = source.text(); let ghost p = spot(t, label.span); let ghost o0 = out@;
    proof { source.lemma_inv(); lemma_spot(t, label.span.start as int); lemma_spot(t, label.span.end as int); lemma_dec_bytes((p.l2 + 1) as nat); lemma_empty_str(); lemma_all_chars(); lemma_chars_bytes(full_text); lemma_chars_bytes(""); }
//@before /let line_num_width/
    assert(start_line == p.l1 && end_line == p.l2 && start_col == p.c1 && end_col == p.c2);
//@before /if start_line == end_line/
    let ghost o2 = out@;
    proof { assert(padding@ == pad(p)); cat(o0, "  <div class=\"snippet\">\n"@, html_at(p, uri)); cat(o0, "  <div class=\"snippet\">\n"@ + html_at(p, uri), "    <pre><code>"@); cat(o0, html_top(p, uri), html_bar(p)); assert(o2 == o0 + html_top(p, uri) + html_bar(p)); assert(html_sides(p, t, p.l1) == e()); assert(o2 + e() =~= o2); }
//@before /let underline = /
    assert(underline_len == p.under);
//@loop 1
    invariant start_line == p.l1, end_line == p.l2, end_col == p.c2, all_lines(lines@, t), p.l2 < count_lines(t), padding@ == pad(p), line_num_width == num(p.l2).len(),
        i <= end_line ==> out@ == o2 + html_sides(p, t, i as int),
        p.l1 > p.l2 ==> out@ == o2, start_line != end_line,
        i > end_line && p.l1 <= p.l2 ==> out@ == o2 + html_many(p, t, label.message),
//@after /\.a\(&\("\^"\)\)\.l\([^()]*\)\.s\(\)\);/
    proof { assert(out@ == o2 + html_sides(p, t, i as int) + html_side(p, t, i as int) + html_foot(p) + html_caret()); }
//@loopend 1
    proof {
        let l = i as int; let d = html_sides(p, t, l + 1);
        assert(d == html_sides(p, t, l) + html_side(p, t, l));
        cat(o2, html_sides(p, t, l), html_side(p, t, l));
        if l == p.l2 { cat(o2, d, html_foot(p)); cat(o2, d + html_foot(p), html_caret()); cat(o2, d + html_foot(p) + html_caret(), html_tail(label.message)); let x = o2 + d + html_foot(p) + html_caret(); cat(x, html_msg(label.message), "\n"@); assert(x + e() =~= x); assert(out@ == o2 + d + html_foot(p) + html_caret() + html_tail(label.message)); } else { assert(out@ == o2 + d); }
    }
//@before /out\.push_str\([^;]*\);\s*out\.push_str\([^;]*\);\s*out\.push_str\([^;]*\);\s*\}\s*$/
    proof {
        if p.l1 == p.l2 { cat(o2, html_line(p, t, p.l1), html_mark(p)); cat(o2, html_line(p, t, p.l1) + html_mark(p), html_tail(label.message)); let x = o2 + html_line(p, t, p.l1) + html_mark(p); cat(x, html_msg(label.message), "\n"@); assert(x + e() =~= x); assert(out@ == o2 + html_one(p, t, label.message)); }
        else { if p.l1 > p.l2 { assert(o2 + e() =~= o2); } assert(out@ == o2 + html_many(p, t, label.message)); }
        let m = if p.l1 == p.l2 { html_one(p, t, label.message) } else { html_many(p, t, label.message) };
        let x = html_top(p, uri) + html_bar(p); cat(o0, x, m); cat(o0, x + m, html_bar(p)); cat(o0, x + m + html_bar(p), "</code></pre>\n"@); cat(o0, x + m + html_bar(p) + "</code></pre>\n"@, "  </div>\n"@);
    }
//@end
}

pub open spec fn html_title<L: Localizer + ?Sized>(d: Diagnostic, l: Option<&L>) -> Seq<char> { match d.code { Some(c) => e() + "    <span class=\"code\">["@ + escs(c@) + "]</span> <span class=\"message\">"@ + escs(message_of(d, l)) + "</span>\n"@, None => e() + "    <span class=\"severity\">["@ + severity_name(d.severity) + "]</span> <span class=\"message\">"@ + escs(message_of(d, l)) + "</span>\n"@ } }
pub open spec fn html_class(d: Diagnostic) -> Seq<char> { e() + "  <div class=\"header "@ + severity_name(d.severity) + "\">\n"@ }
pub open spec fn html_header<L: Localizer + ?Sized>(d: Diagnostic, l: Option<&L>) -> Seq<char> { "<div class=\"diagnostic\">\n"@ + html_class(d) + html_title(d, l) + "  </div>\n"@ }
pub open spec fn html_help(d: Diagnostic) -> Seq<char> { match d.help { Some(h) => e() + "  <div class=\"help\">help: "@ + escs(h@) + "</div>\n"@, None => e() } }
pub open spec fn html_snippets(t: Seq<u8>, v: Seq<Label>, u: Option<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { e() } else { html_snippets(t, v.drop_last(), u) + html_snippet(t, v.last(), u) } }
impl HtmlEmitter {
//@fn Emitter for HtmlEmitter::render_localized -> r
    requires source.inv(), source.text().len() <= u32::MAX / 2, labels_ok(source.text(), diagnostic.labels@),
    ensures r@ == html_header(*diagnostic, localizer) + html_snippets(source.text(), diagnostic.labels@, uri) + html_help(*diagnostic) + "</div>"@,
//@sub /for label in &diagnostic\.labels \{/ => for i in 0..diagnostic.labels.len() { let label = &diagnostic.labels[i];
//@body
    let ghost t = source.text(); let ghost v = diagnostic.labels@;
    proof { source.lemma_inv(); }
//@after /let full_text = [^;]*;/
    proof { assert(out@ =~= e()); encode_utf8_decode_utf8(full_text@); lemma_all_chars(); assert(t.subrange(0, t.len() as int) =~= t); }
//@loop 1
    invariant source.inv(), t == source.text(), t.len() <= u32::MAX / 2, labels_ok(t, v), v == diagnostic.labels@, line_map.of(t), full_text@ == decode_utf8(t), encode_utf8(full_text@) == t, all_lines(lines@, t),
        out@ == html_header(*diagnostic, localizer) + html_snippets(t, v.take(i as int), uri),
//@loopstart 1
    proof { assert(v.take(i + 1).drop_last() =~= v.take(i as int)); assert(v.take(i + 1).last() == v[i as int]); cat(html_header(*diagnostic, localizer), html_snippets(t, v.take(i as int), uri), html_snippet(t, v[i as int], uri)); }
//@afterloop 1
    proof { assert(out@ + e() =~= out@); assert(v.take(v.len() as int) =~= v); }
//@end
}
}
fn main() {}
