//@include source_base.vrs
//@import source.vrs
//@include cursor_model.vrs
//@import linemap.vrs
//@gsubclear
//@include text_out.vrs
//@include markup.vrs
// ---- pieces and lines of a text ------------------------------------------------------------------
/// The characters of t[a..b), if both ends are boundaries.
pub open spec fn piece(t: Seq<u8>, a: int, b: int) -> Seq<char> { if get_ok(t, a, b) { decode_utf8(t.subrange(a, b)) } else { seq![] } }
pub open spec fn clamp(t: Seq<u8>, o: int) -> int { if o <= t.len() { o } else { t.len() as int } }
/// Line and column of offset o, from zero; the column counts characters.
pub open spec fn line_no(t: Seq<u8>, o: int) -> int { feeds(t, clamp(t, o)) }
pub open spec fn col_no(t: Seq<u8>, o: int) -> nat { piece(t, line_of(t, clamp(t, o)), clamp(t, o)).len() }
/// Where the characters of line l end: before its line feed and a carriage return before that.
pub open spec fn line_end(t: Seq<u8>, l: int) -> int {
    let n = t.len() as int; let s = starts(t, n);
    if l + 1 < s.len() { let e = s[l + 1] - 1; if e > s[l] && t[e - 1] == 13 { e - 1 } else { e } } else { n }
}
pub open spec fn line_bytes(t: Seq<u8>, l: int) -> Seq<u8> { t.subrange(starts(t, t.len() as int)[l], line_end(t, l)) }
pub open spec fn line_text(t: Seq<u8>, l: int) -> Seq<char> { decode_utf8(line_bytes(t, l)) }
pub open spec fn count_lines(t: Seq<u8>) -> int { starts(t, t.len() as int).len() as int }
/// v are the lines of t.
pub open spec fn all_lines(v: Seq<&str>, t: Seq<u8>) -> bool { v.len() == count_lines(t) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == line_text(t, i) }
// std, assumed
/// `text.lines().collect()`: a line feed ends a line, also the last one; a carriage return before it goes with it.
#[verifier::external_body] pub fn lines_v(s: &str) -> (r: Vec<&str>)
    ensures ({ let t = s.spec_bytes(); let n = t.len() as int; r@.len() == count_lines(t) - (if line_of(t, n) == n { 1int } else { 0 }) && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).spec_bytes() == line_bytes(t, i) })
{ s.lines().collect() }
#[verifier::external_body] pub fn ends_with_feed(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes().last() == 10) { s.ends_with('\n') }
#[verifier::external_body] pub fn str_empty(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn byte_len(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { s.len() }
#[verifier::external_body] pub fn char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn opt_str(o: &Option<String>) -> (r: Option<&str>) ensures r is Some == o is Some, r is Some ==> r->0@ == o->0@ { o.as_deref() }
#[verifier::external_body] pub fn nth<'a>(v: &[&'a str], i: usize) -> (r: Option<&'a str>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { v.get(i).copied() }
impl<'a> Cow<'a, str> { #[verifier::external_body] pub fn into_owned_v(self) -> (r: String) ensures encode_utf8(r@) == self.bytes() { unimplemented!() } }
//@fmt
//@gsub /\.min\(/ => .vmin(
//@gsub /\.max\(/ => .vmax(
//@gsub /core::range::Range\b/ => Range
//@gsub /full_text\.get\(/ => full_text.get_v(
//@gsub /full_text\.len\(\)/ => byte_len(full_text)
//@gsub /(full_text\.get_v\([^;]*?\)\.unwrap_or\(""\))\.chars\(\)\.count\(\)/ => char_count(\1)
//@gsub /\(end_line \+ 1\)\.to_string\(\)\.len\(\)/ => str_len(&(end_line + 1).to_string_v())
//@gsub /\.to_string\(\)/ => .to_string_v()
//@gsub /\.repeat\(/ => .repeat_v(
//@gsub /lines\.get\(/ => nth(lines, 
//@gsub /label\.color\.as_deref\(\)/ => opt_str(&label.color)
//@gsub /\.into_owned\(\)/ => .into_owned_v()
//@gsub /for i in start_line\.\.=end_line \{/ => for i in start_line..end_line + 1 {
//@gsub /std::collections::HashMap/ => HashMap
//@src projects/oak-diagnostic/src/lib.rs
pub struct HashMap<K, V> { pub k: K, pub v: V }
//@item Severity
//@item Label
//@item Diagnostic
//@fn source_lines -> r
    ensures all_lines(r@, text.spec_bytes()),
//@sub /text\.lines\(\)\.collect\(\)/ => lines_v(text)
//@sub /text\.is_empty\(\)/ => str_empty(text)
//@sub /text\.ends_with\('\\n'\)/ => ends_with_feed(text)
//@body
    let ghost t = text.spec_bytes(); let ghost n = t.len() as int;
    proof { lemma_starts(t, n); lemma_line_of(t, n); lemma_empty_str(); lemma_chars_bytes(""); }
//@before /lines\s*\}$/
    proof { assert forall|i: int| 0 <= i < lines@.len() implies (#[trigger] lines@[i])@ == line_text(t, i) by { lemma_chars_bytes(lines@[i]); if i == count_lines(t) - 1 && line_of(t, n) == n { assert(line_bytes(t, i) =~= seq![]); assert(lines@[i].spec_bytes() =~= line_bytes(t, i)); } } }
//@end
//@item Characters
impl Characters {
//@fn Characters::unicode -> r
    ensures r.vbar@ == "│"@, r.hbar@ == "─"@, r.ltop@ == "┌"@, r.lbot@ == "└"@,
//@end
//@fn Characters::ascii -> r
    ensures r.vbar@ == "|"@, r.hbar@ == "_"@, r.ltop@ == "/"@, r.lbot@ == "|"@,
//@end
}
/// The characters the frame is drawn with.
pub struct Frame { pub vbar: Seq<char>, pub hbar: Seq<char>, pub ltop: Seq<char>, pub lbot: Seq<char> }
pub open spec fn frame(unicode: bool) -> Frame { if unicode { Frame { vbar: "│"@, hbar: "─"@, ltop: "┌"@, lbot: "└"@ } } else { Frame { vbar: "|"@, hbar: "_"@, ltop: "/"@, lbot: "|"@ } } }
// ---- messages ------------------------------------------------------------------------------------------
/// `Localizer`: what a key and its arguments say (assumed).
pub trait Localizer { spec fn says(&self, key: Seq<char>, args: HashMap<String, String>) -> Seq<char>; fn localize(&self, key: &str, args: &HashMap<String, String>) -> (r: String) ensures r@ == self.says(key@, *args); }
impl Localizer for () { open spec fn says(&self, key: Seq<char>, args: HashMap<String, String>) -> Seq<char> { seq![] }
//@fn Localizer for ()::localize -> r
//@sub /_key/ => key
//@sub /_args/ => args
//@end
}
pub open spec fn message_of<L: Localizer + ?Sized>(d: Diagnostic, l: Option<&L>) -> Seq<char> { if d.i18n_key is Some && l is Some { l->0.says(d.i18n_key->0@, d.i18n_args) } else { d.message@ } }
pub open spec fn severity_name(s: Severity) -> Seq<char> { match s { Severity::Error => "error"@, Severity::Warning => "warning"@, Severity::Advice => "advice"@ } }
/// Every label can be shown.
pub open spec fn labels_ok(t: Seq<u8>, v: Seq<Label>) -> bool { forall|i: int| 0 <= i < v.len() ==> askable(t, (#[trigger] v[i]).span.start as int) && askable(t, v[i].span.end as int) }
// ---- where a span is shown -------------------------------------------------------------------------
/// A span the source can be asked about: its ends are boundaries or lie beyond the text.
pub open spec fn askable(t: Seq<u8>, o: int) -> bool { o >= t.len() || cb(t, o) }
pub struct Spot { pub l1: int, pub c1: nat, pub l2: int, pub c2: nat, pub under: nat }
/// Line and column of both ends, and how many characters are marked on a single line.
pub open spec fn spot(t: Seq<u8>, s: Range<usize>) -> Spot {
    let n = piece(t, clamp(t, s.start as int), clamp(t, s.end as int)).len();
    Spot { l1: line_no(t, s.start as int), c1: col_no(t, s.start as int), l2: line_no(t, s.end as int), c2: col_no(t, s.end as int), under: if n == 0 { 1 } else { n } }
}
pub open spec fn num(l: int) -> Seq<char> { dec((l + 1) as nat) }
pub open spec fn pad(p: Spot) -> Seq<char> { times(" "@, num(p.l2).len()) }
pub open spec fn e() -> Seq<char> { Seq::<char>::empty() }
pub open spec fn url_of(u: Option<&str>) -> Seq<char> { match u { Some(s) => s@, None => "<anonymous>"@ } }
pub open spec fn place(p: Spot) -> Seq<char> { e() + num(p.l1) + ":"@ + dec(p.c1 + 1) }
pub proof fn cat(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures a + b + c == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
/// What follows the marker.
pub open spec fn tail(m: Option<String>) -> Seq<char> { match m { Some(s) => e() + " "@ + s@ + "\n"@, None => "\n"@ } }
pub proof fn lemma_dec_bytes(n: nat)
    ensures encode_utf8(dec(n)).len() == dec(n).len(), 0 < dec(n).len(), forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9',
    decreases n,
{
    let d = seq![digit(n)]; 
    reveal_with_fuel(encode_utf8, 2); assert(d.drop_first() =~= seq![]);
    assert('0' as u32 + n % 10 <= 57); 
    if n >= 10 { lemma_dec_bytes(n / 10); encode_utf8_concat(dec(n / 10), d); assert(dec(n) =~= dec(n / 10) + d); }
}
pub proof fn lemma_longer(s: Seq<char>)
    ensures encode_utf8(s).len() >= s.len(),
    decreases s.len(),
{ reveal_with_fuel(encode_utf8, 2); if s.len() > 0 { lemma_charlen(s[0]); lemma_longer(s.drop_first()); } }
pub proof fn lemma_piece(t: Seq<u8>, a: int, b: int)
    requires valid_utf8(t),
    ensures piece(t, a, b).len() <= t.len(), get_ok(t, a, b) ==> encode_utf8(piece(t, a, b)) == t.subrange(a, b),
{ if get_ok(t, a, b) { lemma_sub_valid(t, a, b); decode_utf8_encode_utf8(t.subrange(a, b)); lemma_longer(piece(t, a, b)); } }
/// The characters of any piece of text are those its bytes spell.
pub proof fn lemma_all_chars()
    ensures forall|x: &str| decode_utf8(#[trigger] x.spec_bytes()) == x@ && x.spec_bytes() == encode_utf8(x@),
{ assert forall|x: &str| decode_utf8(#[trigger] x.spec_bytes()) == x@ && x.spec_bytes() == encode_utf8(x@) by { lemma_chars_bytes(x); lemma_str_valid(x); } }
/// What the map and the text give for a span.
pub proof fn lemma_spot(t: Seq<u8>, o: int)
    requires valid_utf8(t), t.len() <= usize::MAX, 0 <= o, askable(t, o),
    ensures line_begin(t, line_no(t, o)) == Some(line_of(t, clamp(t, o)) as usize), 0 <= line_of(t, clamp(t, o)) <= t.len(), 0 <= line_no(t, o) < count_lines(t), count_lines(t) <= t.len() + 1, col_no(t, o) <= t.len(),
{
    lemma_piece(t, line_of(t, clamp(t, o)), clamp(t, o));
    let n = t.len() as int; let q = clamp(t, o);
    lemma_starts(t, q); lemma_starts(t, n); lemma_starts_ext(t, q, n);
}
