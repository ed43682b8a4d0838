use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include text_out.vrs
//@include cow_out.vrs
//@include markup.vrs
//@fmt
//@gsub /\.push_str\(/ => .put(
//@gsub /\.to_string\(\)/ => .to_string_v()
//@gsub /\.join\(/ => .join_v(
//@gsub /(html_escape|json_escape)\(&?(\w+(?:\.\w+)*)\)/ => \1(sv(&\2))
//@gsub /HighlightSegment<'_>/ => HighlightSegment
//@gsub /HighlightResult<'_>/ => HighlightResult
//@src projects/oak-highlight/src/highlighter/mod.rs
//@item HighlightStyle
//@item HighlightSpan
//@item HighlightSegment
//@item HighlightResult
//@src projects/oak-highlight/src/exporters/mod.rs
//@item HtmlExporter
//@item JsonExporter
//@item AnsiExporter
//@item CssExporter
//@fn html_escape -> r
    ensures r@ == escs(text@),
//@sub /text\s*\.chars\(\)\s*\.map\(\|c\| (match c \{.*?\n\s*\})\)\s*\.collect\(\)/ => let cs = chars_v(text); let mut o = String::new(); for i in 0..cs.len() { let c = cs[i]; let piece: String = \1; o.put(&piece); } o
//@loop 1
    invariant cs@ == text@, o@ == escs(text@.take(i as int)),
//@body
    proof { assert(text@.take(0) =~= Seq::empty()); }
//@loopstart 1
    proof { lemma_escs_push(text@, i as int); lits(); }
//@afterloop 1
    proof { assert(text@.take(text@.len() as int) =~= text@); }
//@end
pub proof fn lits()
    ensures "&amp;"@ == esc('&'), "&lt;"@ == esc('<'), "&gt;"@ == esc('>'), "&quot;"@ == esc('"'), "&#39;"@ == esc('\''),
{
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#39;");
    assert("&amp;"@ =~= esc('&')); assert("&lt;"@ =~= esc('<')); assert("&gt;"@ =~= esc('>')); assert("&quot;"@ =~= esc('"')); assert("&#39;"@ =~= esc('\''));
}

// ---- HTML pages --------------------------------------------------------------------------------
/// What all segments spell.
pub open spec fn spelled(v: Seq<HighlightSegment>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { spelled(v.drop_last()) + v.last().text.tx() } }
/// A colour that cannot end the tag it is written in.
pub open spec fn tame(c: Option<String>) -> bool { c is Some ==> forall|i: int| 0 <= i < c->0@.len() ==> c->0@[i] != '>' }
pub open spec fn when(b: bool, v: Seq<Seq<char>>, x: Seq<char>) -> Seq<Seq<char>> { if b { v.push(x) } else { v } }
pub open spec fn attrs(s: HighlightStyle) -> Seq<Seq<char>> {
    let a = when(s.color is Some, seq![], "color: "@ + s.color->0@); let b = when(s.background_color is Some, a, "background-color: "@ + s.background_color->0@);
    when(s.underline, when(s.italic, when(s.bold, b, "font-weight: bold"@), "font-style: italic"@), "text-decoration: underline"@)
}
pub open spec fn class_names(s: HighlightStyle) -> Seq<Seq<char>> { when(s.underline, when(s.italic, when(s.bold, seq![], "bold"@), "italic"@), "underline"@) }
pub open spec fn tagged(open: Seq<char>, v: Seq<Seq<char>>, sep: Seq<char>, text: Seq<char>) -> Seq<char> { if v.len() == 0 { escs(text) } else { open + joined(v, sep) + "\">"@ + escs(text) + "</span>"@ } }
pub open spec fn inline_html(s: HighlightSegment) -> Seq<char> { tagged("<span style=\""@, attrs(s.style), "; "@, s.text.tx()) }
pub open spec fn class_html(s: HighlightSegment) -> Seq<char> { tagged("<span class=\""@, class_names(s.style), " "@, s.text.tx()) }
pub open spec fn seg_html(e: HtmlExporter, s: HighlightSegment) -> Seq<char> { if e.inline_styles { inline_html(s) } else { class_html(s) } }
pub open spec fn segs_html(e: HtmlExporter, v: Seq<HighlightSegment>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { segs_html(e, v.drop_last()) + seg_html(e, v.last()) } }
pub open spec fn html_body(e: HtmlExporter, v: Seq<HighlightSegment>) -> Seq<char> { "<div class=\"highlight\">"@ + segs_html(e, v) + "</div>"@ }
pub open spec fn css_block() -> Seq<char> {
    "<style>\n"@ + ".highlight { font-family: 'Courier New', monospace; white-space: pre }\n"@ + ".highlight .bold { font-weight: bold }\n"@ + ".highlight .italic { font-style: italic }\n"@ + ".highlight .underline { text-decoration: underline }\n"@ + "</style>\n"@
}
/// No text joined from harmless pieces holds '>'.
pub open spec fn no_gt(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '>' }
pub proof fn lemma_joined(v: Seq<Seq<char>>, sep: Seq<char>)
    requires no_gt(sep), forall|i: int| 0 <= i < v.len() ==> no_gt(#[trigger] v[i]),
    ensures no_gt(joined(v, sep)),
    decreases v.len(),
{ if v.len() > 1 { assert forall|i: int| 0 <= i < v.drop_last().len() implies no_gt(#[trigger] v.drop_last()[i]) by { assert(v.drop_last()[i] == v[i]); } lemma_joined(v.drop_last(), sep); assert(no_gt(v[v.len() - 1])); } else if v.len() == 1 { assert(no_gt(v[0])); } }
pub proof fn tags()
    ensures no_gt("<span style=\""@), no_gt("<span class=\""@), "<span style=\""@[0] == '<', "<span style=\""@.len() > 0, "<span class=\""@[0] == '<', "<span class=\""@.len() > 0, "\">"@ == seq!['"', '>'],
        "</span>"@.len() == 7, "</span>"@[0] == '<', "</span>"@.last() == '>', no_gt("</span>"@.drop_last()), no_gt("; "@), no_gt(" "@),
        "</div>"@.len() == 6, "</div>"@[0] == '<', "</div>"@.last() == '>', no_gt("</div>"@.drop_last()),
        "<div class=\"highlight\">"@.len() > 1, "<div class=\"highlight\">"@[0] == '<', "<div class=\"highlight\">"@.last() == '>', no_gt("<div class=\"highlight\">"@.drop_last()),
        no_gt("bold"@), no_gt("italic"@), no_gt("underline"@), no_gt("font-weight: bold"@), no_gt("font-style: italic"@), no_gt("text-decoration: underline"@), no_gt("color: "@), no_gt("background-color: "@),
{
    reveal_strlit("<span style=\""); reveal_strlit("<span class=\""); reveal_strlit("\">"); reveal_strlit("</span>"); reveal_strlit("; "); reveal_strlit(" "); reveal_strlit("</div>"); reveal_strlit("<div class=\"highlight\">");
    reveal_strlit("bold"); reveal_strlit("italic"); reveal_strlit("underline"); reveal_strlit("font-weight: bold"); reveal_strlit("font-style: italic"); reveal_strlit("text-decoration: underline"); reveal_strlit("color: "); reveal_strlit("background-color: ");
    assert("\">"@ =~= seq!['"', '>']);
}
pub proof fn lemma_tagged(open: Seq<char>, v: Seq<Seq<char>>, sep: Seq<char>, text: Seq<char>, b: Seq<char>)
    requires open.len() > 0, open[0] == '<', no_gt(open), no_gt(sep), forall|i: int| 0 <= i < v.len() ==> no_gt(#[trigger] v[i]),
    ensures read_html(tagged(open, v, sep, text) + b) == text + read_html(b),
{
    tags(); lemma_read_text(text, b); lemma_read_text(text, "</span>"@ + b); lemma_joined(v, sep);
    let tag = open + joined(v, sep) + "\">"@; let j = joined(v, sep);
    assert(tag.last() == '>'); assert(tag[0] == '<');
    assert forall|i: int| 0 <= i < tag.len() - 1 implies tag[i] != '>' by { if i < open.len() { assert(tag[i] == open[i]); } else if i < open.len() + j.len() { assert(tag[i] == j[i - open.len()]); } }
    assert("</span>"@.drop_last().len() == 6);
    assert forall|i: int| 0 <= i < 6 implies "</span>"@[i] != '>' by { assert("</span>"@[i] == "</span>"@.drop_last()[i]); }
    lemma_read_tag("</span>"@, b);
    if v.len() > 0 { assert(tagged(open, v, sep, text) + b =~= tag + (escs(text) + ("</span>"@ + b))); lemma_read_tag(tag, escs(text) + ("</span>"@ + b)); }
}
pub proof fn lemma_seg(e: HtmlExporter, s: HighlightSegment, b: Seq<char>)
    requires tame(s.style.color), tame(s.style.background_color),
    ensures read_html(seg_html(e, s) + b) == s.text.tx() + read_html(b),
{
    tags();
    assert(s.style.color is Some ==> no_gt("color: "@ + s.style.color->0@)); assert(s.style.background_color is Some ==> no_gt("background-color: "@ + s.style.background_color->0@));
    if e.inline_styles { lemma_tagged("<span style=\""@, attrs(s.style), "; "@, s.text.tx(), b); } else { lemma_tagged("<span class=\""@, class_names(s.style), " "@, s.text.tx(), b); }
}
pub open spec fn all_tame(v: Seq<HighlightSegment>) -> bool { forall|i: int| 0 <= i < v.len() ==> tame((#[trigger] v[i]).style.color) && tame(v[i].style.background_color) }
pub proof fn lemma_segs(e: HtmlExporter, v: Seq<HighlightSegment>, b: Seq<char>)
    requires all_tame(v),
    ensures read_html(segs_html(e, v) + b) == spelled(v) + read_html(b),
    decreases v.len(),
{
    if v.len() == 0 { assert(segs_html(e, v) + b =~= b); assert(spelled(v) + read_html(b) =~= read_html(b)); }
    else {
        let w = v.drop_last(); let s = v.last();
        assert(v[v.len() - 1] == s); assert(forall|i: int| 0 <= i < w.len() ==> w[i] == v[i]);
        lemma_segs(e, w, seg_html(e, s) + b); lemma_seg(e, s, b);
        assert(segs_html(e, v) + b =~= segs_html(e, w) + (seg_html(e, s) + b));
        assert(spelled(w) + (s.text.tx() + read_html(b)) =~= spelled(v) + read_html(b));
    }
}
/// Reading the page gives the text of all segments, in order and nothing else.
pub proof fn lemma_body(e: HtmlExporter, v: Seq<HighlightSegment>)
    requires all_tame(v),
    ensures read_html(html_body(e, v)) == spelled(v),
{
    tags(); let d = "</div>"@; let o = "<div class=\"highlight\">"@; let none = Seq::<char>::empty();
    assert forall|i: int| 0 <= i < d.len() - 1 implies d[i] != '>' by { assert(d[i] == d.drop_last()[i]); }
    assert forall|i: int| 0 <= i < o.len() - 1 implies o[i] != '>' by { assert(o[i] == o.drop_last()[i]); }
    lemma_read_tag(d, none); assert(d + none =~= d);
    lemma_segs(e, v, d); lemma_read_tag(o, segs_html(e, v) + d);
    assert(html_body(e, v) =~= o + (segs_html(e, v) + d));
    assert(spelled(v) + none =~= spelled(v));
}
pub proof fn lemma_take_push(e: HtmlExporter, v: Seq<HighlightSegment>, i: int)
    requires 0 <= i < v.len(),
    ensures segs_html(e, v.take(i + 1)) == segs_html(e, v.take(i)) + seg_html(e, v[i]),
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
impl HtmlExporter {
//@fn HtmlExporter::new -> r
    ensures r.include_css == include_css, r.inline_styles == inline_styles,
//@end
//@fn HtmlExporter::segment_to_html_inline -> r
    ensures r@ == inline_html(*segment),
//@before /if style_attrs\.is_empty/
    proof { assert(views(style_attrs@) =~= attrs(segment.style)); assert(views(style_attrs@).len() == style_attrs@.len()); }
//@end
//@fn HtmlExporter::segment_to_html_class -> r
    ensures r@ == class_html(*segment),
//@before /if classes\.is_empty/
    proof { assert(views(classes@) =~= class_names(segment.style)); assert(views(classes@).len() == classes@.len()); }
//@end
//@fn Exporter for HtmlExporter::export -> r
    ensures r@ == (if self.include_css { css_block() } else { seq![] }) + html_body(*self, result.segments@),
        all_tame(result.segments@) ==> read_html(html_body(*self, result.segments@)) == spelled(result.segments@),
//@sub /for segment in &result\.segments \{/ => for i in 0..result.segments.len() { let segment = &result.segments[i];
//@before /for i in 0/
    let ghost pre = html@; let ghost v = result.segments@;
    proof { assert(v.take(0) =~= Seq::empty()); assert(pre + Seq::<char>::empty() =~= pre); }
//@loop 1
    invariant v == result.segments@, html@ == pre + segs_html(*self, v.take(i as int)),
//@loopstart 1
    proof { lemma_take_push(*self, v, i as int); }
//@afterloop 1
    proof { assert(v.take(v.len() as int) =~= v); if all_tame(v) { lemma_body(*self, v); } }
//@end
}

// ---- JSON --------------------------------------------------------------------------------------
pub open spec fn control(c: char) -> bool { (c as u32) < 32 || 127 <= c as u32 <= 159 }
/// How a character is written in a JSON string.
pub open spec fn jesc(c: char) -> Seq<char> {
    if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] } else if c == '\x08' { seq!['\\', 'b'] } else if c == '\x0c' { seq!['\\', 'f'] } else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if control(c) { seq!['\\', 'u'] + hex4(c as nat) } else { seq![c] }
}
pub open spec fn jescs(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { jescs(s.drop_last()) + jesc(s.last()) } }
/// A reader of JSON strings: the text up to the closing quote, with what follows the quote.
pub open spec fn hexval(c: char) -> int { if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { -1 } }
pub open spec fn short(c: char) -> Option<char> { if c == '"' || c == '\\' || c == '/' { Some(c) } else if c == 'b' { Some('\x08') } else if c == 'f' { Some('\x0c') } else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None } }
pub open spec fn hexread(s: Seq<char>) -> int { if s.len() < 4 || hexval(s[0]) < 0 || hexval(s[1]) < 0 || hexval(s[2]) < 0 || hexval(s[3]) < 0 { -1 } else { hexval(s[0]) * 4096 + hexval(s[1]) * 256 + hexval(s[2]) * 16 + hexval(s[3]) } }
pub open spec fn put_front(c: char, r: Option<(Seq<char>, Seq<char>)>) -> Option<(Seq<char>, Seq<char>)> { if r is Some { Some((seq![c] + (r->0).0, (r->0).1)) } else { None } }
pub open spec fn jread(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
    if s.len() == 0 || (s[0] as u32) < 32 { None }
    else if s[0] == '"' { Some((seq![], s.skip(1))) }
    else if s[0] == '\\' {
        if s.len() > 1 && short(s[1]) is Some { put_front(short(s[1])->0, jread(s.skip(2))) }
        else if s.len() > 1 && s[1] == 'u' && s.len() >= 6 && 0 <= hexread(s.skip(2)) < 0xD800 { put_front(hexread(s.skip(2)) as char, jread(s.skip(6))) }
        else { None }
    }
    else { put_front(s[0], jread(s.skip(1))) }
}
pub proof fn lemma_hex(n: nat)
    requires n < 256,
    ensures hexread(hex4(n)) == n,
{
    let s = hex4(n);
    assert(n / 4096 == 0); assert(n / 256 == 0);
    assert(forall|k: nat| #![trigger hexdigit(k)] k < 16 ==> hexval(hexdigit(k)) == k);
    assert(hexdigit(n) == hexdigit(n % 16));
    assert(n == (n / 16) * 16 + n % 16); assert(n / 16 < 16);
}
pub proof fn lemma_jread(c: char, b: Seq<char>)
    ensures jread(jesc(c) + b) == put_front(c, jread(b)),
{
    let s = jesc(c) + b; let n = jesc(c).len() as int;
    assert(s.skip(n) =~= b); assert(s[0] == jesc(c)[0]);
    if n == 2 { assert(s[1] == jesc(c)[1]); }
    if n == 6 { lemma_hex(c as nat); assert(s[1] == 'u'); assert(s.skip(2).len() >= 4); assert forall|i: int| 0 <= i < 4 implies s.skip(2)[i] == hex4(c as nat)[i] by { assert(s[i + 2] == jesc(c)[i + 2]); } assert(hexread(s.skip(2)) == hexread(hex4(c as nat))); assert(hexread(s.skip(2)) as char == c); }
}
/// A string written between quotes is read back as it was, up to exactly that closing quote.
pub proof fn lemma_json_text(x: Seq<char>, b: Seq<char>)
    ensures jread(jescs(x) + b) == (if jread(b) is Some { Some((x + (jread(b)->0).0, (jread(b)->0).1)) } else { None::<(Seq<char>, Seq<char>)> }),
    decreases x.len(),
{
    if x.len() == 0 { assert(jescs(x) + b =~= b); if jread(b) is Some { assert(x + (jread(b)->0).0 =~= (jread(b)->0).0); } }
    else {
        let y = x.drop_last(); let c = x.last();
        assert(jescs(x) + b =~= jescs(y) + (jesc(c) + b)); lemma_json_text(y, jesc(c) + b); lemma_jread(c, b);
        if jread(b) is Some { assert(y + (seq![c] + (jread(b)->0).0) =~= x + (jread(b)->0).0); }
    }
}
pub proof fn lemma_json_string(x: Seq<char>, b: Seq<char>)
    ensures jread(jescs(x) + (seq!['"'] + b)) == Some((x, b)),
{ lemma_json_text(x, seq!['"'] + b); assert((seq!['"'] + b).skip(1) =~= b); assert(x + Seq::<char>::empty() =~= x); }
//@fn json_escape -> r
    ensures r@ == jescs(s@),
//@sub /for c in s\.chars\(\) \{/ => let cs = chars_v(s); for i in 0..cs.len() { let c = cs[i];
//@loop 1
    invariant cs@ == s@, escaped@ == jescs(s@.take(i as int)),
//@body
    proof { assert(s@.take(0) =~= Seq::empty()); jlits(); }
//@loopstart 1
    proof { assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); jlits(); }
    let ghost e0 = escaped@;
//@loopend 1
    proof { assert(escaped@ =~= e0 + jesc(cs@[i as int])); }
//@afterloop 1
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@end
pub proof fn jlits()
    ensures "\\\""@ == seq!['\\', '"'], "\\\\"@ == seq!['\\', '\\'], "\\b"@ == seq!['\\', 'b'], "\\f"@ == seq!['\\', 'f'], "\\n"@ == seq!['\\', 'n'], "\\r"@ == seq!['\\', 'r'], "\\t"@ == seq!['\\', 't'], "\\u"@ == seq!['\\', 'u'],
{
    reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\b"); reveal_strlit("\\f"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\u");
    assert("\\\""@ =~= seq!['\\', '"']); assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\b"@ =~= seq!['\\', 'b']); assert("\\f"@ =~= seq!['\\', 'f']); assert("\\n"@ =~= seq!['\\', 'n']); assert("\\r"@ =~= seq!['\\', 'r']); assert("\\t"@ =~= seq!['\\', 't']); assert("\\u"@ =~= seq!['\\', 'u']);
}
pub open spec fn quoted(name: Seq<char>, s: Seq<char>) -> Seq<char> { name + jescs(s) + "\""@ }
pub open spec fn style_json(s: HighlightStyle) -> Seq<Seq<char>> {
    let a = seq!["\"bold\":"@ + bool_text(s.bold), "\"italic\":"@ + bool_text(s.italic), "\"underline\":"@ + bool_text(s.underline)];
    let b = when(s.color is Some, a, quoted("\"color\":\""@, s.color->0@));
    when(s.background_color is Some, b, quoted("\"background_color\":\""@, s.background_color->0@))
}
pub open spec fn seg_json(s: HighlightSegment) -> Seq<char> {
    "{\"span\":{\"start\":"@ + dec(s.span.start as nat) + ",\"end\":"@ + dec(s.span.end as nat) + "},\"style\":{"@ + joined(style_json(s.style), ","@) + "},\"text\":\""@ + jescs(s.text.tx()) + "\"}"@
}
pub open spec fn segs_json(v: Seq<HighlightSegment>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { segs_json(v.drop_last()) + (if v.len() > 1 { seq![','] } else { seq![] }) + seg_json(v.last()) } }
/// A segment of the JSON text is read back as the text of the segment, whatever follows.
pub proof fn lemma_seg_json(s: HighlightSegment, b: Seq<char>)
    ensures ({ let head = "{\"span\":{\"start\":"@ + dec(s.span.start as nat) + ",\"end\":"@ + dec(s.span.end as nat) + "},\"style\":{"@ + joined(style_json(s.style), ","@) + "},\"text\":\""@;
        begins(seg_json(s) + b, head) && jread((seg_json(s) + b).skip(head.len() as int)) == Some((s.text.tx(), seq!['}'] + b)) }),
{
    let head = "{\"span\":{\"start\":"@ + dec(s.span.start as nat) + ",\"end\":"@ + dec(s.span.end as nat) + "},\"style\":{"@ + joined(style_json(s.style), ","@) + "},\"text\":\""@;
    reveal_strlit("\"}"); assert("\"}"@ =~= seq!['"', '}']);
    let t = seg_json(s) + b;
    assert(t =~= head + (jescs(s.text.tx()) + (seq!['"'] + (seq!['}'] + b))));
    assert(t.take(head.len() as int) =~= head); assert(t.skip(head.len() as int) =~= jescs(s.text.tx()) + (seq!['"'] + (seq!['}'] + b)));
    lemma_json_string(s.text.tx(), seq!['}'] + b);
}
type S = Seq<char>;
pub proof fn lemma_glue(p: S, a: S, b: S, c: S, d: S, e: S, f: S, g: S, h: S, i: S)
    ensures p + a + b + c + d + e + f + g + h + i == p + (a + b + c + d + e + f + g + h + i),
{
    let x = a + b; assert(p + a + b =~= p + x); let x1 = x + c; assert(p + x + c =~= p + x1); let x2 = x1 + d; assert(p + x1 + d =~= p + x2); let x3 = x2 + e; assert(p + x2 + e =~= p + x3);
    let x4 = x3 + f; assert(p + x3 + f =~= p + x4); let x5 = x4 + g; assert(p + x4 + g =~= p + x5); let x6 = x5 + h; assert(p + x5 + h =~= p + x6); let x7 = x6 + i; assert(p + x6 + i =~= p + x7);
}
impl JsonExporter {
//@fn Exporter for JsonExporter::export -> r
    ensures r@ == "{\"segments\":["@ + segs_json(result.segments@) + "],\"source\":\""@ + jescs(result.source.tx()) + "\"}"@,
//@sub /for \(i, segment\) in result\.segments\.iter\(\)\.enumerate\(\) \{/ => for i in 0..result.segments.len() { let segment = &result.segments[i];
//@before /for i in 0/
    let ghost pre = json@; let ghost v = result.segments@;
    proof { assert(v.take(0) =~= Seq::empty()); assert(pre + Seq::<char>::empty() =~= pre); }
//@loop 1
    invariant v == result.segments@, json@ == pre + segs_json(v.take(i as int)), pre == "{\"segments\":["@,
//@loopstart 1
    let ghost j0 = json@;
    proof { assert(v.take(i + 1).drop_last() =~= v.take(i as int)); assert(v.take(i + 1).last() == v[i as int]); }
//@before /json\.put\("\{\\"span/
    let ghost j1 = json@;
    proof { assert(j1 =~= j0 + (if i > 0 { seq![','] } else { Seq::<char>::empty() })); }
//@before /json\.put\(&style_parts/
    proof { assert(views(style_parts@) =~= style_json(segment.style)); }
//@loopend 1
    proof {
        let s = v[i as int]; let w = segs_json(v.take(i as int)); let sep = if i > 0 { seq![','] } else { Seq::<char>::empty() };
        lemma_glue(j1, "{\"span\":{\"start\":"@, dec(s.span.start as nat), ",\"end\":"@, dec(s.span.end as nat), "},\"style\":{"@, joined(style_json(s.style), ","@), "},\"text\":\""@, jescs(s.text.tx()), "\"}"@);
        assert(json@ == j1 + seg_json(s)); assert(j1 =~= pre + (w + sep)); assert(pre + (w + sep) + seg_json(s) =~= pre + (w + sep + seg_json(s)));
    }
//@afterloop 1
    proof { assert(v.take(v.len() as int) =~= v); }
//@end
}

// ---- terminal text -----------------------------------------------------------------------------
pub open spec fn esc_char() -> char { '\x1b' }
/// What a terminal shows: escape sequences (up to their letter m) are not printed.
pub open spec fn shown(s: Seq<char>, inside: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if inside { shown(s.skip(1), s[0] != 'm') } else if s[0] == esc_char() { shown(s.skip(1), true) } else { seq![s[0]] + shown(s.skip(1), false) }
}
/// A segment as it is written: plain, or between a sequence of style codes and a reset.
pub open spec fn ansi(s: HighlightSegment, t: Seq<char>) -> bool { t == s.text.tx() || exists|v: Seq<Seq<char>>| #[trigger] all_no_m(v) && t == styled(v, s.text.tx()) }
pub open spec fn styled(v: Seq<Seq<char>>, t: Seq<char>) -> Seq<char> { "\x1b["@ + joined(v, ";"@) + "m"@ + t + "\x1b[0m"@ }
pub open spec fn all_no_m(v: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < v.len() ==> no_m(#[trigger] v[i]) }
pub open spec fn concat(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { concat(v.drop_last()) + v.last() } }
pub open spec fn ansis(v: Seq<HighlightSegment>, p: Seq<Seq<char>>) -> bool { v.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> ansi(v[i], #[trigger] p[i]) }
pub open spec fn no_esc(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != esc_char() }
pub open spec fn no_m(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 'm' }
pub proof fn lemma_shown_text(x: Seq<char>, b: Seq<char>)
    requires no_esc(x),
    ensures shown(x + b, false) == x + shown(b, false),
    decreases x.len(),
{
    if x.len() == 0 { assert(x + b =~= b); assert(x + shown(b, false) =~= shown(b, false)); }
    else { let y = x.skip(1); assert((x + b).skip(1) =~= y + b); lemma_shown_text(y, b); assert(seq![x[0]] + (y + shown(b, false)) =~= x + shown(b, false)); }
}
pub proof fn lemma_shown_in(x: Seq<char>, b: Seq<char>)
    requires no_m(x),
    ensures shown(x + (seq!['m'] + b), true) == shown(b, false),
    decreases x.len(),
{
    let s = x + (seq!['m'] + b);
    if x.len() == 0 { assert(s.skip(1) =~= b); } else { let y = x.skip(1); assert(s.skip(1) =~= y + (seq!['m'] + b)); lemma_shown_in(y, b); }
}
pub proof fn lemma_shown_seq(x: Seq<char>, b: Seq<char>)
    requires no_m(x),
    ensures shown(seq![esc_char()] + x + (seq!['m'] + b), false) == shown(b, false),
{ let s = seq![esc_char()] + x + (seq!['m'] + b); assert(s.skip(1) =~= x + (seq!['m'] + b)); lemma_shown_in(x, b); }
pub proof fn lemma_joined_m(v: Seq<Seq<char>>, sep: Seq<char>)
    requires no_m(sep), forall|i: int| 0 <= i < v.len() ==> no_m(#[trigger] v[i]),
    ensures no_m(joined(v, sep)),
    decreases v.len(),
{ if v.len() > 1 { assert forall|i: int| 0 <= i < v.drop_last().len() implies no_m(#[trigger] v.drop_last()[i]) by { assert(v.drop_last()[i] == v[i]); } lemma_joined_m(v.drop_last(), sep); assert(no_m(v[v.len() - 1])); } else if v.len() == 1 { assert(no_m(v[0])); } }
pub proof fn alits()
    ensures "\x1b["@ == seq![esc_char(), '['], "\x1b[0m"@ == seq![esc_char(), '[', '0', 'm'], "m"@ == seq!['m'], no_m(";"@), no_m("0"@), no_m("1"@), no_m("3"@), no_m("4"@), no_m("31"@), no_m("32"@), no_m("33"@), no_m("34"@), no_m("35"@), no_m("36"@), no_m("37"@),
{
    reveal_strlit("\x1b["); reveal_strlit("\x1b[0m"); reveal_strlit("m"); reveal_strlit(";"); reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("3"); reveal_strlit("4");
    reveal_strlit("31"); reveal_strlit("32"); reveal_strlit("33"); reveal_strlit("34"); reveal_strlit("35"); reveal_strlit("36"); reveal_strlit("37");
    assert("\x1b["@ =~= seq![esc_char(), '[']); assert("\x1b[0m"@ =~= seq![esc_char(), '[', '0', 'm']); assert("m"@ =~= seq!['m']);
}
pub proof fn lemma_seg_shown(s: HighlightSegment, p: Seq<char>, b: Seq<char>)
    requires no_esc(s.text.tx()), ansi(s, p),
    ensures shown(p + b, false) == s.text.tx() + shown(b, false),
{
    alits(); let t = s.text.tx(); lemma_shown_text(t, b);
    if p != t {
        let v = choose|v: Seq<Seq<char>>| #[trigger] all_no_m(v) && p == styled(v, t);
        lemma_joined_m(v, ";"@); let j = joined(v, ";"@); let r = "\x1b[0m"@;
        let x = seq!['['] + j; assert(no_m(x));
        lemma_shown_seq(seq!['[', '0'], b); assert(seq![esc_char()] + seq!['[', '0'] + (seq!['m'] + b) =~= r + b);
        lemma_shown_text(t, r + b);
        lemma_shown_seq(x, t + (r + b));
        assert(p + b =~= seq![esc_char()] + x + (seq!['m'] + (t + (r + b))));
    }
}
pub proof fn lemma_segs_shown(v: Seq<HighlightSegment>, p: Seq<Seq<char>>, b: Seq<char>)
    requires ansis(v, p), forall|i: int| 0 <= i < v.len() ==> no_esc((#[trigger] v[i]).text.tx()),
    ensures shown(concat(p) + b, false) == spelled(v) + shown(b, false),
    decreases v.len(),
{
    if v.len() == 0 { assert(concat(p) + b =~= b); assert(spelled(v) + shown(b, false) =~= shown(b, false)); }
    else {
        let w = v.drop_last(); let s = v.last(); let q = p.drop_last(); let n = v.len() - 1;
        assert(v[n] == s); assert(ansi(v[n], p[n])); assert(forall|i: int| 0 <= i < w.len() ==> w[i] == v[i]); assert forall|i: int| 0 <= i < q.len() implies ansi(w[i], #[trigger] q[i]) by { assert(q[i] == p[i]); }
        lemma_segs_shown(w, q, p.last() + b); lemma_seg_shown(s, p.last(), b);
        assert(concat(p) + b =~= concat(q) + (p.last() + b)); assert(spelled(w) + (s.text.tx() + shown(b, false)) =~= spelled(v) + shown(b, false));
    }
}
impl AnsiExporter {
//@fn AnsiExporter::segment_to_ansi -> r
    ensures ansi(*segment, r@),
//@before /if codes\.len\(\)/
    proof { alits(); assert forall|i: int| 0 <= i < views(codes@).len() implies no_m(#[trigger] views(codes@)[i]) by { assert(views(codes@)[i] == codes@[i]@); assert(no_m(codes@[i]@)); } assert(all_no_m(views(codes@))); assert(views(codes@).len() == codes@.len()); }
//@end
//@fn Exporter for AnsiExporter::export -> r
    ensures exists|p: Seq<Seq<char>>| #[trigger] ansis(result.segments@, p) && r@ == concat(p),
        (forall|i: int| 0 <= i < result.segments@.len() ==> no_esc((#[trigger] result.segments@[i]).text.tx())) ==> shown(r@, false) == spelled(result.segments@),
//@sub /for segment in &result\.segments \{/ => for i in 0..result.segments.len() { let segment = &result.segments[i];
//@before /for i in 0/
    let ghost v = result.segments@; let ghost mut p: Seq<Seq<char>> = seq![];
    proof { assert(v.take(0) =~= Seq::empty()); }
//@loop 1
    invariant v == result.segments@, output@ == concat(p), ansis(v.take(i as int), p),
//@loopstart 1
    let ghost o0 = output@; let ghost q = p; let ghost v1 = v.take(i + 1);
    proof { assert(v1.len() == i + 1); assert(v1.drop_last() =~= v.take(i as int)); assert(v1[i as int] == v[i as int]); }
//@loopend 1
    proof {
        let x = output@.skip(o0.len() as int);
        assert forall|y: Seq<char>| #[trigger] ansi(*segment, y) && output@ == o0 + y implies y == x by { assert((o0 + y).skip(o0.len() as int) =~= y); }
        assert(ansi(*segment, x)); p = p.push(x); assert(p.drop_last() =~= q); assert(output@ =~= o0 + x);
        assert forall|k: int| 0 <= k < p.len() implies ansi(v1[k], #[trigger] p[k]) by { if k < i { assert(p[k] == q[k]); assert(ansi(v.take(i as int)[k], q[k])); } }
    }
//@afterloop 1
    proof { assert(v.take(v.len() as int) =~= v); if forall|i: int| 0 <= i < v.len() ==> no_esc((#[trigger] v[i]).text.tx()) { let none = Seq::<char>::empty(); lemma_segs_shown(v, p, none); assert(concat(p) + none =~= concat(p)); assert(spelled(v) + none =~= spelled(v)); } }
//@end
}
// ---- diagnostics -------------------------------------------------------------------------------
/// `replace(c, t)`.
pub open spec fn subst(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { subst(s.drop_last(), c, t) + (if s.last() == c { t } else { seq![s.last()] }) } }
pub trait Subst { spec fn sc(&self) -> Seq<char>; fn replace_v(&self, c: char, t: &str) -> (r: String) ensures r@ == subst(self.sc(), c, t@); }
impl Subst for str { open spec fn sc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn replace_v(&self, c: char, t: &str) -> (r: String) { self.replace(c, t) } }
impl Subst for String { open spec fn sc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn replace_v(&self, c: char, t: &str) -> (r: String) { self.replace(c, t) } }
pub proof fn lemma_subst_add(a: Seq<char>, b: Seq<char>, c: char, t: Seq<char>)
    ensures subst(a + b, c, t) == subst(a, c, t) + subst(b, c, t),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(subst(a, c, t) + subst(b, c, t) =~= subst(a, c, t)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_subst_add(a, b.drop_last(), c, t); assert((a + b).last() == b.last());
        let z = if b.last() == c { t } else { seq![b.last()] }; assert(subst(a, c, t) + subst(b.drop_last(), c, t) + z =~= subst(a, c, t) + subst(b, c, t)); }
}
pub open spec fn chain(s: Seq<char>) -> Seq<char> { subst(subst(subst(subst(subst(s, '&', esc('&')), '<', esc('<')), '>', esc('>')), '"', esc('"')), '\'', esc('\'')) }
pub proof fn lemma_subst_none(s: Seq<char>, c: char, t: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != c,
    ensures subst(s, c, t) == s,
    decreases s.len(),
{ if s.len() > 0 { assert(forall|i: int| 0 <= i < s.drop_last().len() ==> #[trigger] s.drop_last()[i] == s[i]); lemma_subst_none(s.drop_last(), c, t); assert(s.drop_last() + seq![s.last()] =~= s); } }
pub proof fn lemma_chain_one(c: char)
    ensures chain(seq![c]) == esc(c),
{
    let s = seq![c]; assert(s.drop_last() =~= Seq::empty());
    assert forall|d: char, t: Seq<char>| #[trigger] subst(s, d, t) =~= (if c == d { t } else { s }) by { reveal_with_fuel(subst, 2); }
    let s1 = subst(s, '&', esc('&')); if c == '&' { lemma_subst_none(s1, '<', esc('<')); lemma_subst_none(s1, '>', esc('>')); lemma_subst_none(s1, '"', esc('"')); lemma_subst_none(s1, '\'', esc('\'')); }
    if c == '<' { let x = esc('<'); lemma_subst_none(x, '>', esc('>')); lemma_subst_none(x, '"', esc('"')); lemma_subst_none(x, '\'', esc('\'')); }
    if c == '>' { let x = esc('>'); lemma_subst_none(x, '"', esc('"')); lemma_subst_none(x, '\'', esc('\'')); }
    if c == '"' { let x = esc('"'); lemma_subst_none(x, '\'', esc('\'')); }
}
pub proof fn lemma_chain(s: Seq<char>)
    ensures chain(s) == escs(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let b = seq![s.last()]; assert(a + b =~= s); lemma_chain(a); lemma_chain_one(s.last());
        lemma_subst_add(a, b, '&', esc('&')); let a1 = subst(a, '&', esc('&')); let b1 = subst(b, '&', esc('&'));
        lemma_subst_add(a1, b1, '<', esc('<')); let a2 = subst(a1, '<', esc('<')); let b2 = subst(b1, '<', esc('<'));
        lemma_subst_add(a2, b2, '>', esc('>')); let a3 = subst(a2, '>', esc('>')); let b3 = subst(b2, '>', esc('>'));
        lemma_subst_add(a3, b3, '"', esc('"')); let a4 = subst(a3, '"', esc('"')); let b4 = subst(b3, '"', esc('"'));
        lemma_subst_add(a4, b4, '\'', esc('\''));
    }
}
// ---- highlighting and exporting in one step ----------------------------------------------------------
//@item ExportFormat
impl CssExporter {
/// The style sheet names no part of the text.
#[verifier::external_body] pub fn export(&self, result: &HighlightResult) -> (r: String) ensures r@ == sheet() { unimplemented!() }
}
pub uninterp spec fn sheet() -> Seq<char>;
pub struct Theme { pub t: u8 }
pub struct OakError { pub said: String }
impl OakError { pub fn unsupported_format(format: String) -> (r: OakError) ensures r.said@ == format@ { OakError { said: format } } }
#[verifier::external_body] pub fn format_name(f: &ExportFormat) -> (r: String) { unimplemented!() }
pub struct OakHighlighter { pub t: u8 }
/// One segment, the whole text.
pub open spec fn whole(v: Seq<HighlightSegment>, t: Seq<char>) -> bool { v.len() == 1 && v[0].text.tx() == t }
/// What an export in a format may be.
pub open spec fn exported(f: ExportFormat, v: Seq<HighlightSegment>, t: Seq<char>, o: Seq<char>) -> bool {
    match f {
        ExportFormat::Html => o == css_block() + html_body(HtmlExporter { include_css: true, inline_styles: true }, v),
        ExportFormat::Json => o == "{\"segments\":["@ + segs_json(v) + "],\"source\":\""@ + jescs(t) + "\"}"@,
        ExportFormat::Ansi => exists|p: Seq<Seq<char>>| #[trigger] ansis(v, p) && o == concat(p),
        ExportFormat::Css => o == sheet(),
        ExportFormat::Xml => false,
    }
}
/// The export of a single segment that is the whole text.
pub open spec fn one_step(f: ExportFormat, t: Seq<char>, o: Seq<char>) -> bool { exists|v: Seq<HighlightSegment>| whole(v, t) && #[trigger] exported(f, v, t, o) }
//@gsub /oak_core::errors::ParseResult<String>/ => Result<String, OakError>
//@gsub /oak_core::errors::OakError/ => OakError
//@gsub /crate::(?:themes|exporters)::/ =>
//@gsub /\bExportFormat::_/ => _
//@src projects/oak-highlight/src/highlighter/mod.rs
impl OakHighlighter {
    /// Proved in P17.
    #[verifier::external_body] pub fn highlight<'a>(&self, source: &'a str, language: &str, theme: Theme) -> (r: Result<HighlightResult<'a>, OakError>) ensures r is Ok, whole(r->Ok_0.segments@, source@), r->Ok_0.source.tx() == source@ { unimplemented!() }
//@fn OakHighlighter::highlight_format -> r
    ensures r is Err <==> format is Xml, r is Ok ==> one_step(format, source@, r->Ok_0@),
//@sub /format!\("\{format:\?\}"\)/ => format_name(&format)
//@before /Ok\(content\)/
    proof { assert(whole(result.segments@, source@)); assert(exported(format, result.segments@, source@, content@)); assert(one_step(format, source@, content@)); }
//@end
}
pub mod diagnostic {
use super::*;
//@include diag_escape.vrs
}
}
fn main() {}
