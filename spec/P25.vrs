#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include text_out.vrs
//@fmt
//@json all
//@strmatch
// ---- JSON by value (assumed: serde_json) -------------------------------------------------------------
pub enum J { Null, Num(int), Other(int), Text(Seq<char>), Obj(Map<Seq<char>, J>), Arr(Seq<J>) }
/// How serde_json writes a value.
pub uninterp spec fn json_text(j: J) -> Seq<char>;
/// What stands under a key.
pub uninterp spec fn field(j: J, k: Seq<char>) -> Option<J>;
pub struct JsonValue { pub j: Ghost<J> }
impl JsonValue {
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&JsonValue>) ensures opt_j(r) == field(self.j@, k@) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures match self.j@ { J::Text(s) => r is Some && r->Some_0@ == s, _ => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures match self.j@ { J::Num(n) => if 0 <= n <= u64::MAX { r == Some(n as u64) } else { r is None }, _ => r is None } { unimplemented!() }
}
impl Disp for JsonValue { open spec fn ds(&self) -> Seq<char> { json_text(self.j@) } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
pub open spec fn opt_j(o: Option<&JsonValue>) -> Option<J> { match o { Some(v) => Some(v.j@), None => None } }
pub open spec fn or_null(o: Option<J>) -> J { match o { Some(j) => j, None => J::Null } }
/// Steps on optional values (`and_then`, `cloned`, `unwrap_or`, `unwrap_or_default`).
pub trait OptJ<'a> { spec fn oj(&self) -> Option<J>; fn strv(self) -> (r: Option<&'a str>) ensures opt_s(r) == text_of(self.oj()); fn u64v(self) -> (r: Option<u64>) ensures r == nat_of(self.oj()); fn cloned_v(self) -> (r: Option<JsonValue>) ensures own_j(r) == self.oj(); }
impl<'a> OptJ<'a> for Option<&'a JsonValue> {
    open spec fn oj(&self) -> Option<J> { opt_j(*self) }
    fn strv(self) -> (r: Option<&'a str>) { match self { Some(v) => v.as_str(), None => None } }
    fn u64v(self) -> (r: Option<u64>) { match self { Some(v) => v.as_u64(), None => None } }
    fn cloned_v(self) -> (r: Option<JsonValue>) { match self { Some(v) => Some(JsonValue { j: v.j }), None => None } }
}
pub open spec fn own_j(o: Option<JsonValue>) -> Option<J> { match o { Some(v) => Some(v.j@), None => None } }
pub open spec fn opt_s(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn text_of(o: Option<J>) -> Option<Seq<char>> { match o { Some(J::Text(s)) => Some(s), _ => None } }
pub open spec fn nat_of(o: Option<J>) -> Option<u64> { match o { Some(J::Num(n)) => if 0 <= n <= u64::MAX { Some(n as u64) } else { None }, _ => None } }
pub trait OrEmpty<'a> { fn or_empty(self) -> (r: &'a str) ensures r@ == self.oe(); spec fn oe(&self) -> Seq<char>; }
impl<'a> OrEmpty<'a> for Option<&'a str> { open spec fn oe(&self) -> Seq<char> { match *self { Some(s) => s@, None => Seq::empty() } } #[verifier::external_body] fn or_empty(self) -> (r: &'a str) { self.unwrap_or_default() } }
pub trait ToJ { spec fn js(&self) -> J; fn to_j(&self) -> (r: JsonValue) ensures r.j@ == self.js(); }
impl ToJ for str { open spec fn js(&self) -> J { J::Text(self@) } fn to_j(&self) -> (r: JsonValue) { JsonValue { j: Ghost(J::Text(self@)) } } }
impl ToJ for &str { open spec fn js(&self) -> J { J::Text(self@) } fn to_j(&self) -> (r: JsonValue) { JsonValue { j: Ghost(J::Text(self@)) } } }
impl ToJ for String { open spec fn js(&self) -> J { J::Text(self@) } fn to_j(&self) -> (r: JsonValue) { JsonValue { j: Ghost(J::Text(self@)) } } }
impl ToJ for bool { open spec fn js(&self) -> J { J::Other(if *self { 1 } else { 0 }) } fn to_j(&self) -> (r: JsonValue) { JsonValue { j: Ghost(J::Other(if *self { 1 } else { 0 })) } } }
impl ToJ for JsonValue { open spec fn js(&self) -> J { self.j@ } fn to_j(&self) -> (r: JsonValue) { JsonValue { j: self.j } } }
impl ToJ for Vec<String> { open spec fn js(&self) -> J { J::Arr(self@.map_values(|s: String| J::Text(s@))) } #[verifier::external_body] fn to_j(&self) -> (r: JsonValue) { unimplemented!() } }
pub fn jv<T: ToJ>(x: &T) -> (r: JsonValue) ensures r.j@ == x.js() { x.to_j() }
pub fn jnull() -> (r: JsonValue) ensures r.j@ == J::Null { JsonValue { j: Ghost(J::Null) } }
pub struct Jo { pub m: Ghost<Map<Seq<char>, J>> }
pub fn jo() -> (r: Jo) ensures r.m@ == Map::<Seq<char>, J>::empty() { Jo { m: Ghost(Map::empty()) } }
impl Jo {
    pub fn f(self, k: &str, v: JsonValue) -> (r: Jo) ensures r.m@ == self.m@.insert(k@, v.j@) { Jo { m: Ghost(self.m@.insert(k@, v.j@)) } }
    pub fn o(self) -> (r: JsonValue) ensures r.j@ == J::Obj(self.m@) { JsonValue { j: Ghost(J::Obj(self.m@)) } }
}
pub struct Ja { pub m: Ghost<Seq<J>> }
pub fn ja() -> (r: Ja) ensures r.m@ == Seq::<J>::empty() { Ja { m: Ghost(Seq::empty()) } }
impl Ja {
    pub fn e(self, v: JsonValue) -> (r: Ja) ensures r.m@ == self.m@.push(v.j@) { Ja { m: Ghost(self.m@.push(v.j@)) } }
    pub fn a(self) -> (r: JsonValue) ensures r.j@ == J::Arr(self.m@) { JsonValue { j: Ghost(J::Arr(self.m@)) } }
}
pub open spec fn obj1(k: Seq<char>, j: J) -> J { J::Obj(Map::<Seq<char>, J>::empty().insert(k, j)) }
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn unreached() -> ! requires false { loop {} }
// ---- messages --------------------------------------------------------------------------------------------
//@gsub /async fn/ => fn
//@gsub /\.await/ =>
//@gsub /\.to_string\(\)/ => .to_string_v()
//@gsub /\.and_then\(\|(\w+)\| \1\.as_str\(\)\)/ => .strv()
//@gsub /\.and_then\(\|(\w+)\| \1\.as_u64\(\)\)/ => .u64v()
//@gsub /\.strv\(\)\.unwrap_or_default\(\)/ => .strv().or_empty()
//@gsub /\.into\(\)/ => .into_text()
//@gsub /\.cloned\(\)/ => .cloned_v()
//@gsub /\.ok_or\(("[^"]*")\)\?/ => .need(\1)?
//@gsub /include_str!\("tools\.json"\)/ => tools_json()
//@gsub /serde_json::from_str\((tools_str)\)\.unwrap\(\)/ => parse_json(\1)
//@gsub /\bRange \{/ => RangeU {
//@gsub /\.search\(([^()]*)\)\s*\.map_err\(\|e\| e\.to_string(?:_v)?\(\)\)/ => .search(\1)
//@gsub /(\w+)\.map\(\|(\w+)\| \2\.contents\)\.unwrap_or_default\(\)/ => contents_of(\1)
//@src projects/oak-mcp/src/lib.rs
//@item JsonRpcRequest
//@item JsonRpcError
//@item JsonRpcResponse
//@item JsonRpcNotification
/// A request, a response, by value.
pub ghost struct ReqV { pub id: J, pub method: Seq<char>, pub params: Option<J> }
pub ghost struct RespV { pub version: Seq<char>, pub id: J, pub result: Option<J>, pub error: Option<(int, Seq<char>, Option<J>)> }
pub open spec fn rq(r: JsonRpcRequest) -> ReqV { ReqV { id: r.id.j@, method: r.method@, params: own_j(r.params) } }
pub open spec fn rp(r: JsonRpcResponse) -> RespV { RespV { version: r.jsonrpc@, id: r.id.j@, result: own_j(r.result), error: match r.error { Some(e) => Some((e.code as int, e.message@, own_j(e.data))), None => None } } }
/// The request a line is (derived Deserialize: an object with text `jsonrpc` and `method`, an `id`, perhaps `params`).
pub uninterp spec fn request_of(s: Seq<char>) -> Option<ReqV>;
pub uninterp spec fn note_of(s: Seq<char>) -> bool;
/// What a response is written as (derived Serialize).
pub uninterp spec fn wire(r: RespV) -> Seq<char>;
/// serde_json's reading of the messages.
pub trait FromJson: Sized { spec fn read(s: Seq<char>) -> bool; spec fn like(&self, s: Seq<char>) -> bool; fn from_str_v(s: &str) -> (r: Result<Self, String>) ensures r is Ok <==> Self::read(s@), r is Ok ==> r->Ok_0.like(s@); }
impl FromJson for JsonRpcRequest { open spec fn read(s: Seq<char>) -> bool { request_of(s) is Some } open spec fn like(&self, s: Seq<char>) -> bool { request_of(s) == Some(rq(*self)) } #[verifier::external_body] fn from_str_v(s: &str) -> (r: Result<Self, String>) { unimplemented!() } }
impl FromJson for JsonRpcNotification { open spec fn read(s: Seq<char>) -> bool { note_of(s) } open spec fn like(&self, s: Seq<char>) -> bool { true } #[verifier::external_body] fn from_str_v(s: &str) -> (r: Result<Self, String>) { unimplemented!() } }
impl JsonRpcRequest {
//@fn JsonRpcRequest::from_json -> r
    ensures r is Ok <==> request_of(json_str@) is Some, r is Ok ==> request_of(json_str@) == Some(rq(r->Ok_0)),
//@sub /serde_json::from_str\((\w+)\)\.map_err\(\|e\| e\.to_string\(\)\)/ => <JsonRpcRequest as FromJson>::from_str_v(\1)
//@end
}
impl JsonRpcNotification {
//@fn JsonRpcNotification::from_json -> r
    ensures r is Ok <==> note_of(json_str@),
//@sub /serde_json::from_str\((\w+)\)\.map_err\(\|e\| e\.to_string\(\)\)/ => <JsonRpcNotification as FromJson>::from_str_v(\1)
//@end
}
impl JsonRpcResponse {
    #[verifier::external_body] pub fn written(&self) -> (r: Option<String>) ensures r is Some, r->Some_0@ == wire(rp(*self)) { unimplemented!() }
//@fn JsonRpcResponse::to_json -> r
    ensures r@ == wire(rp(*self)),
//@sub /serde_json::to_string\(self\)\.unwrap_or_else\(\|_\| (.*?)\)\s*\}$/ => match self.written() { Some(s) => s, None => \1 } }
//@end
}
// ---- the language service and the searcher: whatever they answer (assumed) ---------------------------------
pub struct RangeU { pub start: usize, pub end: usize }
pub struct Hover { pub contents: String }
#[verifier::external_body] pub fn contents_of(h: Option<Hover>) -> (r: String) ensures r@ == (match h { Some(h) => h.contents@, None => Seq::<char>::empty() }) { unimplemented!() }
pub struct Opaque { pub k: u8 }
pub trait WritableVfs {
    /// A file was written with this content.
    spec fn wrote(&self, uri: Seq<char>, content: Seq<char>) -> bool;
    fn write_file(&self, uri: &str, content: Text) ensures self.wrote(uri@, content.t@);
}
/// `Arc<str>` of a text.
pub struct Text { pub t: String }
pub trait IntoText { spec fn it(&self) -> Seq<char>; fn into_text(self) -> (r: Text) ensures r.t@ == self.it(); }
impl IntoText for &str { open spec fn it(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn into_text(self) -> (r: Text) { unimplemented!() } }
pub trait LanguageService {
    type Vfs: WritableVfs;
    spec fn files(&self) -> Self::Vfs;
    fn vfs(&self) -> (r: &Self::Vfs) ensures *r == self.files();
    /// What it says about a place.
    spec fn hover_at(&self, uri: Seq<char>, at: int, to: int) -> Option<Seq<char>>;
    fn hover(&self, uri: &str, range: RangeU) -> (r: Option<Hover>) ensures match self.hover_at(uri@, range.start as int, range.end as int) { Some(t) => r is Some && r->Some_0.contents@ == t, None => r is None };
    fn document_symbols(&self, uri: &str) -> Vec<Opaque>;
    fn definition(&self, uri: &str, range: RangeU) -> Vec<Opaque>;
    fn references(&self, uri: &str, range: RangeU) -> Vec<Opaque>;
    fn diagnostics(&self, uri: &str) -> Vec<Opaque>;
    fn completion(&self, uri: &str, offset: usize) -> Vec<Opaque>;
}
pub trait SemanticSearch {
    spec fn found(&self, query: Seq<char>, limit: int) -> Result<Seq<Seq<char>>, Seq<char>>;
    fn search(&self, query: &str, limit: usize) -> (r: Result<Vec<String>, String>) ensures match self.found(query@, limit as int) { Ok(v) => r is Ok && texts_of(r->Ok_0@) == v, Err(e) => r is Err && r->Err_0@ == e };
}
pub open spec fn texts_of(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub trait Need<T>: Sized { fn need(self, m: &str) -> (r: Result<T, String>) ensures match self.nv() { Some(x) => r == Ok::<T, String>(x), None => r is Err && r->Err_0@ == m@ }; spec fn nv(&self) -> Option<T>; }
impl<T> Need<T> for Option<T> { open spec fn nv(&self) -> Option<T> { *self } fn need(self, m: &str) -> (r: Result<T, String>) { match self { Some(x) => Ok(x), None => Err(m.to_string_v()) } } }
pub uninterp spec fn tools_text() -> Seq<char>;
pub uninterp spec fn json_of(s: Seq<char>) -> Option<J>;
#[verifier::external_body] pub fn tools_json() -> (r: &'static str) ensures r@ == tools_text(), json_of(r@) is Some { unimplemented!() }
#[verifier::external_body] pub fn parse_json(s: &str) -> (r: JsonValue) requires json_of(s@) is Some ensures Some(r.j@) == json_of(s@) { unimplemented!() }
pub open spec fn version() -> Seq<char> { "2.0"@ }
// ---- the server ------------------------------------------------------------------------------------------------
pub struct NoSemanticSearch;
impl SemanticSearch for NoSemanticSearch { uninterp spec fn found(&self, query: Seq<char>, limit: int) -> Result<Seq<Seq<char>>, Seq<char>>; #[verifier::external_body] fn search(&self, query: &str, limit: usize) -> (r: Result<Vec<String>, String>) { unimplemented!() } }
//@item McpServer
pub open spec fn uri_of(args: J) -> Option<Seq<char>> { text_of(field(args, "uri"@)) }
pub open spec fn offset_of(args: J) -> Option<u64> { nat_of(field(args, "offset"@)) }
pub open spec fn missing(what: Seq<char>) -> Result<J, Seq<char>> { Err("Missing "@ + what) }
pub open spec fn limit_of(args: J) -> int { match nat_of(field(args, "limit"@)) { Some(n) => n as int, None => 5 } }
/// What a tool call comes to.
pub open spec fn done<S: LanguageService, E: SemanticSearch>(srv: McpServer<S, E>, name: Seq<char>, args: J, out: Result<J, Seq<char>>) -> bool {
    let uri = uri_of(args);
    if name == "symbols"@ || name == "diagnostics"@ { if uri is None { out == missing("uri"@) } else { out is Ok } }
    else if name == "definition"@ || name == "references"@ || name == "completion"@ || name == "hover"@ {
        if uri is None { out == missing("uri"@) } else if offset_of(args) is None { out == missing("offset"@) }
        else if name == "hover"@ { let at = offset_of(args)->0 as int; out == Ok::<J, Seq<char>>(J::Text(match srv.service.hover_at(uri->0, at, at) { Some(t) => t, None => Seq::empty() })) }
        else { out is Ok }
    } else if name == "set_file_content"@ {
        let content = text_of(field(args, "content"@));
        if uri is None { out == missing("uri"@) } else if content is None { out == missing("content"@) } else { out is Ok && srv.service.files().wrote(uri->0, content->0) }
    } else if name == "semantic_search"@ || name == "search"@ {
        let query = text_of(field(args, "query"@));
        if srv.searcher is None { out == Err::<J, Seq<char>>("Semantic search is not enabled"@) }
        else if query is None { out == missing("query"@) }
        else { match srv.searcher->0.found(query->0, limit_of(args)) { Ok(v) => out == Ok::<J, Seq<char>>(J::Arr(v.map_values(|s: Seq<char>| J::Text(s)))), Err(e) => out == Err::<J, Seq<char>>(e) } }
    } else { out == Err::<J, Seq<char>>("Unknown tool: "@ + name) }
}
pub open spec fn outcome(r: Result<JsonValue, String>) -> Result<J, Seq<char>> { match r { Ok(v) => Ok(v.j@), Err(e) => Err(e@) } }
pub open spec fn said(j: J) -> J { obj1("content"@, J::Arr(seq![J::Obj(Map::<Seq<char>, J>::empty().insert("type"@, J::Text("text"@)).insert("text"@, J::Text(json_text(j))))])) }
pub open spec fn failed(id: J, code: int, message: Seq<char>) -> RespV { RespV { version: version(), id, result: None, error: Some((code, message, None)) } }
pub open spec fn works(id: J, j: J) -> RespV { RespV { version: version(), id, result: Some(j), error: None } }
pub open spec fn has_key(m: Map<Seq<char>, J>, k: Seq<char>) -> bool { m.dom().contains(k) }
/// The order of the fields does not matter.
broadcast proof fn lemma_two(m: Map<Seq<char>, J>, a: Seq<char>, x: J, b: Seq<char>, y: J) requires a != b ensures #[trigger] m.insert(a, x).insert(b, y) == m.insert(b, y).insert(a, x) { assert(m.insert(a, x).insert(b, y) =~= m.insert(b, y).insert(a, x)); }
broadcast proof fn lemma_item(a: J) ensures #[trigger] Seq::<J>::empty().push(a) == seq![a] { assert(Seq::<J>::empty().push(a) =~= seq![a]); }
broadcast proof fn lemma_one(a: (Seq<char>, J)) ensures #[trigger] Seq::<(Seq<char>, J)>::empty().push(a) == seq![a] {}
pub open spec fn tool_name(p: J) -> Seq<char> { match text_of(field(p, "name"@)) { Some(s) => s, None => Seq::empty() } }
/// The response answers the request.
pub open spec fn answers<S: LanguageService, E: SemanticSearch>(srv: McpServer<S, E>, q: ReqV, a: RespV) -> bool {
    let p = or_null(q.params);
    &&& a.id == q.id && a.version == version() && (a.result is Some) != (a.error is Some)
    &&& if q.method == "initialize"@ { a.result is Some && a.result->0 is Obj && has_key(a.result->0->Obj_0, "protocolVersion"@) && has_key(a.result->0->Obj_0, "capabilities"@) && has_key(a.result->0->Obj_0, "serverInfo"@) }
        else if q.method == "tools/list"@ { a == works(q.id, obj1("tools"@, json_of(tools_text())->0)) }
        else if q.method == "tools/call"@ { exists|out: Result<J, Seq<char>>| #[trigger] done(srv, tool_name(p), or_null(field(p, "arguments"@)), out) && a == (match out { Ok(j) => works(q.id, said(j)), Err(e) => failed(q.id, -32000, e) }) }
        else { a == failed(q.id, -32601, "Method not found: "@ + q.method) }
}
// ---- the streams (assumed: tokio) --------------------------------------------------------------------------------
pub struct IoErr { pub k: u8 }
impl Disp for IoErr { uninterp spec fn ds(&self) -> Seq<char>; #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
/// Where lines come from. Whoever reads has sent everything written so far.
pub trait LineSource {
    spec fn lines(&self) -> Seq<Seq<char>>;
    spec fn ended(&self) -> bool;
    fn read_line(&mut self, line: &mut String, out: Ghost<(Seq<char>, Seq<char>)>) -> (r: Result<usize, String>)
        requires out@.0 == out@.1,
        ensures match r {
            Ok(n) => if n == 0 { final(self).lines() == old(self).lines() && final(self).ended() && final(line)@ == old(line)@ } else { final(self).lines().len() == old(self).lines().len() + 1 && final(self).lines() == old(self).lines().push(final(self).lines().last()) && final(line)@ == old(line)@ + final(self).lines().last() },
            Err(_) => true };
}
pub trait Sink {
    /// What was written, and how much of it has been sent.
    spec fn out(&self) -> Seq<char>;
    spec fn sent(&self) -> Seq<char>;
    fn write_text(&mut self, s: &str) -> (r: Result<(), String>) ensures r is Ok ==> final(self).out() == old(self).out() + s@ && final(self).sent() == old(self).sent();
    fn flush(&mut self) -> (r: Result<(), String>) ensures r is Ok ==> final(self).out() == old(self).out() && final(self).sent() == old(self).out();
}
/// Without the blanks around it (`trim`).
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn trim_v(s: &String) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
#[verifier::external_body] pub fn str_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { a.is_empty() }
/// The requests among some lines.
pub open spec fn requests(v: Seq<Seq<char>>) -> Seq<ReqV> decreases v.len() { if v.len() == 0 { Seq::empty() } else { let q = request_of(trimmed(v.last())); if trimmed(v.last()).len() > 0 && q is Some { requests(v.drop_last()).push(q->0) } else { requests(v.drop_last()) } } }
/// One line each.
pub open spec fn wired(v: Seq<RespV>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { wired(v.drop_last()) + wire(v.last()) + "\n"@ } }
/// One answer for each request, in order.
pub open spec fn all_answered<S: LanguageService, E: SemanticSearch>(srv: McpServer<S, E>, q: Seq<ReqV>, a: Seq<RespV>) -> bool { q.len() == a.len() && forall|i: int| 0 <= i < q.len() ==> answers(srv, q[i], #[trigger] a[i]) }
proof fn lemma_requests(v: Seq<Seq<char>>, l: Seq<char>) ensures requests(v.push(l)) == (if trimmed(l).len() > 0 && request_of(trimmed(l)) is Some { requests(v).push(request_of(trimmed(l))->0) } else { requests(v) }) { assert(v.push(l).drop_last() =~= v); }
proof fn lemma_wired(v: Seq<RespV>, a: RespV) ensures wired(v.push(a)) == wired(v) + wire(a) + "\n"@ { assert(v.push(a).drop_last() =~= v); }
proof fn lemma_names()
    ensures "type"@ != "text"@, "tools/list"@ != "tools/call"@, "initialize"@ != "tools/list"@, "initialize"@ != "tools/call"@,
        "hover"@ != "symbols"@, "hover"@ != "diagnostics"@, "definition"@ != "symbols"@, "definition"@ != "diagnostics"@, "references"@ != "symbols"@, "references"@ != "diagnostics"@, "completion"@ != "symbols"@, "completion"@ != "diagnostics"@,
        "hover"@ != "definition"@, "hover"@ != "references"@, "hover"@ != "completion"@, "definition"@ != "references"@, "definition"@ != "completion"@, "references"@ != "completion"@, "symbols"@ != "diagnostics"@,
        "set_file_content"@.len() == 16, "semantic_search"@.len() == 15, "search"@.len() == 6, "hover"@.len() == 5, "symbols"@.len() == 7, "diagnostics"@.len() == 11, "definition"@.len() == 10, "references"@.len() == 10, "completion"@.len() == 10,
        "Missing "@ + "uri"@ == "Missing uri"@, "Missing "@ + "offset"@ == "Missing offset"@, "Missing "@ + "query"@ == "Missing query"@, "Missing "@ + "content"@ == "Missing content"@,
{
    reveal_strlit("tools/list"); reveal_strlit("tools/call"); reveal_strlit("initialize"); reveal_strlit("hover"); reveal_strlit("symbols"); reveal_strlit("diagnostics"); reveal_strlit("definition"); reveal_strlit("references"); reveal_strlit("completion"); reveal_strlit("set_file_content"); reveal_strlit("semantic_search"); reveal_strlit("search");
    reveal_strlit("Missing "); reveal_strlit("uri"); reveal_strlit("offset"); reveal_strlit("query"); reveal_strlit("content"); reveal_strlit("Missing uri"); reveal_strlit("Missing offset"); reveal_strlit("Missing query"); reveal_strlit("Missing content");
    assert("hover"@.len() == 5); assert("symbols"@.len() == 7); assert("diagnostics"@.len() == 11); assert("definition"@.len() == 10); assert("references"@.len() == 10); assert("completion"@.len() == 10);
    reveal_strlit("type"); reveal_strlit("text"); assert("type"@[1] == 'y' && "text"@[1] == 'e');
    assert("tools/list"@[6] == 'l' && "tools/call"@[6] == 'c');
    assert("initialize"@[0] == 'i' && "tools/list"@[0] == 't' && "tools/call"@[0] == 't');
    assert("definition"@[0] == 'd' && "references"@[0] == 'r' && "completion"@[0] == 'c');
    assert("Missing "@ + "uri"@ =~= "Missing uri"@); assert("Missing "@ + "offset"@ =~= "Missing offset"@); assert("Missing "@ + "query"@ =~= "Missing query"@); assert("Missing "@ + "content"@ =~= "Missing content"@);
}
//@gsub /S: LanguageService \+ 'static/ => S: LanguageService
impl<S: LanguageService, E: SemanticSearch> McpServer<S, E> {
//@fn McpServer::handle_tool_call -> r
    ensures done(*self, name@, args.j@, outcome(r)),
//@body
    proof { lemma_names(); }
//@before /Ok\((?:json!\(|jv\(&\()results\)/
    proof { assert(results@.map_values(|s: String| J::Text(s@)) =~= texts_of(results@).map_values(|s: Seq<char>| J::Text(s))); }
//@end
//@fn McpServer::handle_notification
//@end
//@fn McpServer::handle_request -> r
    ensures answers(*self, rq(request), rp(r)),
//@body
    broadcast use {lemma_two, lemma_item};
    proof { lemma_names(); }
    let ghost p = or_null(own_j(request.params));
//@after /let args = [^;]*;/
    proof { assert(params.j@ == p); assert(name@ == tool_name(p)); assert(args.j@ == or_null(field(p, "arguments"@))); }
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn McpServer::run -> r
    requires old(reader).lines().len() == 0, old(writer).out() == old(writer).sent(),
    ensures r is Ok ==> final(reader).ended() && exists|a: Seq<RespV>| #[trigger] all_answered(*self, requests(final(reader).lines()), a) && final(writer).sent() == old(writer).out() + wired(a),
//@sub /fn run<R, W>\(&self, mut reader: R, mut writer: W\) -> Result<\(\), String>\s*where.*?Unpin,\s*W: [^,]*,/ => fn run<R: LineSource, W: Sink>(&self, reader: &mut R, writer: &mut W) -> Result<(), String>
//@sub /reader\.read_line\(&mut line\)\.await\.map_err\(\|e\| e\.to_string\(\)\)/ => reader.read_line(&mut line, Ghost((writer.out(), writer.sent())))
//@sub /writer\.write_all\((\w+)\.as_bytes\(\)\)\.await\.map_err\(\|e\| e\.to_string\(\)\)/ => writer.write_text(\1.as_str())
//@sub /writer\.write_all\(b("[^"]*")\)\.await\.map_err\(\|e\| e\.to_string\(\)\)/ => writer.write_text(\1)
//@sub /writer\.flush\(\)\.await\.map_err\(\|e\| e\.to_string\(\)\)/ => writer.flush()
//@sub /\bline\.trim\(\)/ => trim_v(&line)
//@sub /input\.is_empty\(\)/ => str_empty(input)
//@body
    let ghost mut a = Seq::<RespV>::empty(); let ghost mut seen = reader.lines();
    proof { assert(requests(reader.lines()) == Seq::<ReqV>::empty()); assert(writer.out() + wired(a) =~= writer.out()); }
//@loop 1
    invariant line@.len() == 0, seen == reader.lines(), writer.out() == writer.sent(), writer.out() == old(writer).out() + wired(a), all_answered(*self, requests(reader.lines()), a),
    ensures reader.ended(), writer.out() == writer.sent(), writer.out() == old(writer).out() + wired(a), all_answered(*self, requests(reader.lines()), a),
//@loopstart 1
    let ghost l = reader.lines().last(); let ghost before = reader.lines().drop_last();
    proof { assert(seen =~= before); seen = reader.lines(); assert(Seq::<char>::empty() + l =~= l); assert(line@ =~= l); assert(reader.lines() =~= before.push(l)); lemma_requests(before, l); }
//@before /let response_json = /
    let ghost said = rp(response);
//@after /writer\.flush\(\)\?;/
    proof { lemma_wired(a, said); let b = a.push(said); assert(all_answered(*self, requests(reader.lines()), b)); assert(writer.out() =~= old(writer).out() + wired(b)); a = b; }
//@end
}
}
fn main() {}
