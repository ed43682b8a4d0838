#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::std_specs::ops::*;
use std::sync::Arc;
verus! {
//@import reports.vrs
//@json
//@gsub /&\(&\(/ => &((
// ---- JSON values (assumed: serde_json) -----------------------------------------------------------------
pub enum J { Num(int), Text(Seq<char>), Obj(Seq<(Seq<char>, J)>), Arr(Seq<J>) }
/// How serde_json writes a value.
pub uninterp spec fn json_text(j: J) -> Seq<char>;
pub struct Value { pub j: Ghost<J> }
impl Disp for Value { open spec fn ds(&self) -> Seq<char> { json_text(self.j@) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
pub trait ToJ { spec fn js(&self) -> J; fn to_j(&self) -> (r: Value) ensures r.j@ == self.js(); }
impl ToJ for u32 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn to_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for i32 { open spec fn js(&self) -> J { J::Num(*self as int) } #[verifier::external_body] fn to_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for String { open spec fn js(&self) -> J { J::Text(self@) } #[verifier::external_body] fn to_j(&self) -> (r: Value) { unimplemented!() } }
impl<'a> ToJ for &'a str { open spec fn js(&self) -> J { J::Text(self@) } #[verifier::external_body] fn to_j(&self) -> (r: Value) { unimplemented!() } }
pub open spec fn js_all(v: Seq<Value>) -> Seq<J> { v.map_values(|x: Value| x.j@) }
impl ToJ for Vec<Value> { open spec fn js(&self) -> J { J::Arr(js_all(self@)) } #[verifier::external_body] fn to_j(&self) -> (r: Value) { unimplemented!() } }
pub fn jv<T: ToJ>(x: &T) -> (r: Value) ensures r.j@ == x.js() { x.to_j() }
pub struct Jo { pub m: Ghost<Seq<(Seq<char>, J)>> }
pub fn jo() -> (r: Jo) ensures r.m@ == Seq::<(Seq<char>, J)>::empty() { Jo { m: Ghost(Seq::empty()) } }
impl Jo {
    pub fn f(self, k: &str, v: Value) -> (r: Jo) ensures r.m@ == self.m@.push((k@, v.j@)) { Jo { m: Ghost(self.m@.push((k@, v.j@))) } }
    pub fn o(self) -> (r: Value) ensures r.j@ == J::Obj(self.m@) { Value { j: Ghost(J::Obj(self.m@)) } }
}
#[verifier::external_body] pub fn or_empty(o: Option<String>) -> (r: String) ensures r@ == (match o { Some(s) => s@, None => e() }) { o.unwrap_or_default() }
pub open spec fn no() -> Seq<(Seq<char>, J)> { Seq::empty() }
// ---- LSP -----------------------------------------------------------------------------------------------
/// The LSP position of offset o: line and UTF-16 column.
pub open spec fn lsp_point(t: Seq<u8>, o: int) -> J { let p = pos(t, clamp(t, o)); J::Obj(no().push(("line"@, J::Num(p.0))).push(("character"@, J::Num(p.1)))) }
pub open spec fn lsp_range(t: Seq<u8>, s: Range<usize>) -> J { J::Obj(no().push(("start"@, lsp_point(t, s.start as int))).push(("end"@, lsp_point(t, s.end as int)))) }
pub open spec fn lsp_none() -> J { let p = J::Obj(no().push(("line"@, J::Num(0))).push(("character"@, J::Num(0)))); J::Obj(no().push(("start"@, p)).push(("end"@, p))) }
pub open spec fn lsp_related(t: Seq<u8>, v: Seq<Label>, u: Option<&str>) -> Seq<J> decreases v.len() {
    if v.len() == 0 { seq![] } else {
        let r = lsp_related(t, v.drop_last(), u);
        match v.last().message { None => r, Some(m) => r.push(J::Obj(no().push(("location"@, J::Obj(no().push(("uri"@, J::Text(match u { Some(s) => s@, None => ""@ }))).push(("range"@, lsp_range(t, v.last().span)))))).push(("message"@, J::Text(m@))))) }
    }
}
pub open spec fn lsp_severity(s: Severity) -> int { match s { Severity::Error => 1, Severity::Warning => 2, Severity::Advice => 3 } }
pub open spec fn lsp_report(t: Seq<u8>, d: Diagnostic, m: Seq<char>, u: Option<&str>) -> J {
    J::Obj(no().push(("range"@, if d.labels@.len() > 0 { lsp_range(t, d.labels@[0].span) } else { lsp_none() })).push(("severity"@, J::Num(lsp_severity(d.severity)))).push(("code"@, J::Text(match d.code { Some(s) => s@, None => e() }))).push(("source"@, J::Text("oak"@))).push(("message"@, J::Text(m))).push(("relatedInformation"@, J::Arr(lsp_related(t, d.labels@, u)))))
}
//@src projects/oak-diagnostic/src/lib.rs
//@item LspEmitter
impl LspEmitter {
//@fn Emitter for LspEmitter::render_localized -> r
    requires source.inv(), source.text().len() <= u32::MAX / 2, labels_ok(source.text(), diagnostic.labels@),
    ensures r@ == json_text(lsp_report(source.text(), *diagnostic, message_of(*diagnostic, localizer), uri)),
//@sub /let lsp_diag = (.*?)diagnostic\.labels\.iter\(\)\.filter_map\(\|l\| \{\s*l\.message\.as_ref\(\)\.map\(\|msg\| (\{.*?\n\s*\})\)\s*\}\)\.collect::<Vec<serde_json::Value>>\(\)(.*?);\s*lsp_diag/ => let mut related: Vec<Value> = Vec::new(); for i in 0..diagnostic.labels.len() { let l = &diagnostic.labels[i]; if let Some(msg) = l.message.as_ref() { related.push(\2); } } let lsp_diag = \1related\3; lsp_diag
//@sub /diagnostic\.code\.clone\(\)\.unwrap_or_default\(\)/ => or_empty(diagnostic.code.clone())
//@body
    let ghost t = source.text(); let ghost v = diagnostic.labels@;
    proof { source.lemma_inv(); lemma_empty_str(); }
//@loop 1
    invariant source.inv(), t == source.text(), t.len() <= u32::MAX / 2, labels_ok(t, v), v == diagnostic.labels@, line_map.of(t), js_all(related@) == lsp_related(t, v.take(i as int), uri),
//@loopstart 1
    let ghost r0 = related@;
    proof { assert(v.take(i + 1).drop_last() =~= v.take(i as int)); assert(v.take(i + 1).last() == v[i as int]); }
//@loopend 1
    proof { if related@.len() > r0.len() { assert(js_all(related@) =~= js_all(r0).push(related@.last().j@)); } }
//@afterloop 1
    proof { assert(v.take(v.len() as int) =~= v); }
//@end
}
}
fn main() {}
