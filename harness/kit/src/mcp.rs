//! P25: an MCP server answers every request once, in order, by what the language service says.
use crate::{common::*, fmt::F};
use core::range::Range;
use oak_core::errors::OakError;
use oak_lsp::{
    service::LanguageService,
    types::{Hover, LocationRange},
    workspace::WorkspaceManager,
};
use oak_mcp::{JsonRpcNotification, JsonRpcRequest, McpServer, SemanticSearch};
use oak_vfs::{MemoryVfs, Vfs};
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    future::Future,
    io,
    pin::{Pin, pin},
    rc::Rc,
    task::{Context, Poll, Waker},
};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

struct Lang {
    vfs: MemoryVfs,
    work: WorkspaceManager,
}
fn hover_of(uri: &str, at: usize, to: usize) -> Option<String> {
    (!uri.contains("none")).then(|| format!("# {uri} {at}-{to} \"é\"\n"))
}
/// Not ready at once.
async fn later() {
    let mut first = true;
    std::future::poll_fn(move |c| {
        if std::mem::take(&mut first) {
            c.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    })
    .await
}
impl LanguageService for Lang {
    type Lang = F;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.work
    }
    fn hover(&self, uri: &str, range: Range<usize>) -> impl Future<Output = Option<Hover>> + Send + '_ {
        let h = hover_of(uri, range.start, range.end);
        async move {
            later().await;
            h.map(|contents| Hover { contents, range: None })
        }
    }
    fn definition<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a {
        async move { vec![LocationRange { uri: uri.into(), range }] }
    }
}
struct Find;
fn found(q: &str, n: usize) -> Result<Vec<String>, OakError> {
    match q.contains("bad") {
        true => Err(OakError::semantic_error(format!("no {q}"))),
        false => Ok((0..n.min(9)).map(|i| format!("{q}\"{i}\n")).collect()),
    }
}
impl SemanticSearch for Find {
    async fn search(&self, q: &str, n: usize) -> Result<Vec<String>, OakError> {
        later().await;
        found(q, n)
    }
}
/// Both ends of the line: what is read next, what was written, how much of it was flushed.
struct Wire {
    input: Vec<u8>,
    at: usize,
    step: usize,
    lazy: bool,
    fail_at: Option<usize>,
    out: Vec<u8>,
    flushed: usize,
    /// Output not yet flushed while input was waited for.
    late: bool,
    broken: bool,
}
#[derive(Clone)]
struct End(Rc<RefCell<Wire>>);
impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        unreachable!()
    }
}
struct Reader {
    w: End,
    buf: Vec<u8>,
    pos: usize,
}
impl AsyncRead for Reader {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        unreachable!()
    }
}
impl AsyncBufRead for Reader {
    fn poll_fill_buf(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let me = self.get_mut();
        if me.pos >= me.buf.len() {
            let mut w = me.w.0.borrow_mut();
            if w.flushed < w.out.len() {
                w.late = true
            }
            w.lazy = !w.lazy;
            if w.lazy && w.step > 1 {
                c.waker().wake_by_ref();
                return Poll::Pending;
            }
            let to = (w.at + w.step).min(w.input.len());
            me.buf = w.input[w.at..to].to_vec();
            w.at = to;
            me.pos = 0;
        }
        Poll::Ready(Ok(&me.buf[me.pos..]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.get_mut().pos += n
    }
}
impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.borrow_mut();
        if w.fail_at.is_some_and(|n| w.out.len() >= n) {
            w.broken = true;
            return Poll::Ready(Err(io::Error::other("closed")));
        }
        let n = b.len().min(w.step.max(3));
        w.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0.borrow_mut();
        w.flushed = w.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
pub fn block<T>(f: impl Future<Output = T>) -> T {
    let mut f = pin!(f);
    let mut c = Context::from_waker(Waker::noop());
    for _ in 0..1_000_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut c) {
            return x;
        }
    }
    panic!("the server makes no progress")
}
/// The request a line is.
fn request(l: &str) -> Option<Value> {
    let v: Value = serde_json::from_str(l).ok()?;
    let o = v.as_object()?;
    (o.get("jsonrpc")?.is_string() && o.get("method")?.is_string() && o.contains_key("id")).then_some(v)
}
/// What the answer to it must be.
fn check_answer(q: &Value, a: &Value, search: bool, vfs: &MemoryVfs) -> Result<(), String> {
    let o = a.as_object().ok_or(format!("{a} is no object"))?;
    ck!(o.get("id") == Some(&q["id"]), "answer to id {} has id {:?}", q["id"], o.get("id"));
    ck!(o.get("jsonrpc") == Some(&json!("2.0")), "version of {a}");
    ck!(o.contains_key("result") != o.contains_key("error"), "{a} has not one of result and error");
    ck!(o.keys().all(|k| ["id", "jsonrpc", "result", "error"].contains(&k.as_str())), "fields of {a}");
    let err = |code: i64, m: &str| (o.get("error") == Some(&json!({"code": code, "message": m}))).then_some(()).ok_or(format!("{q} was answered {a}, expected error {code} {m:?}"));
    match q["method"].as_str().unwrap() {
        "initialize" => ck!(["protocolVersion", "capabilities", "serverInfo"].iter().all(|k| a["result"].get(k).is_some()), "initialize was answered {a}"),
        "tools/list" => ck!(a["result"]["tools"].as_array().is_some_and(|t| t.len() >= 7 && t.iter().all(|t| t["name"].is_string())), "tools/list was answered {a}"),
        "tools/call" => {
            let name = q["params"]["name"].as_str().unwrap_or("");
            let args = &q["params"]["arguments"];
            let (uri, off, content, query) = (args["uri"].as_str(), args["offset"].as_u64(), args["content"].as_str(), args["query"].as_str());
            let text = || -> Result<Value, String> {
                ck!(a["result"]["content"].as_array().is_some_and(|c| c.len() == 1) && a["result"]["content"][0]["type"] == "text", "{q} was answered {a}");
                serde_json::from_str(a["result"]["content"][0]["text"].as_str().ok_or(format!("no text in {a}"))?).map_err(|e| e.to_string())
            };
            match name {
                "symbols" | "diagnostics" | "definition" | "references" | "completion" | "hover" | "set_file_content" if uri.is_none() => err(-32000, "Missing uri")?,
                "definition" | "references" | "completion" | "hover" if off.is_none() => err(-32000, "Missing offset")?,
                "hover" => {
                    let at = off.unwrap() as usize;
                    ckeq!(text()?, json!(hover_of(uri.unwrap(), at, at).unwrap_or_default()), "hover, {q}")
                }
                "symbols" | "diagnostics" | "definition" | "references" | "completion" => drop(text()?),
                "set_file_content" => match content {
                    None => err(-32000, "Missing content")?,
                    Some(_) => {
                        text()?;
                    }
                },
                "search" | "semantic_search" => match (search, query) {
                    (false, _) => err(-32000, "Semantic search is not enabled")?,
                    (_, None) => err(-32000, "Missing query")?,
                    (_, Some(q2)) => match found(q2, args["limit"].as_u64().unwrap_or(5) as usize) {
                        Ok(v) => ckeq!(text()?, json!(v), "search, {q}"),
                        Err(e) => err(-32000, &e.to_string())?,
                    },
                },
                n => err(-32000, &format!("Unknown tool: {n}"))?,
            }
        }
        m => err(-32601, &format!("Method not found: {m}"))?,
    }
    let _ = vfs;
    Ok(())
}
async fn serve<E: SemanticSearch + 'static>(s: &McpServer<Lang, E>, r: Reader, w: End) -> Result<(), String> {
    s.run(r, w).await
}
fn check(lines: &[String], search: bool, step: usize, fail_at: Option<usize>) -> Result<(), String> {
    let input = lines.concat();
    let w = End(Rc::new(RefCell::new(Wire { input: input.clone().into_bytes(), at: 0, step, lazy: false, fail_at, out: vec![], flushed: 0, late: false, broken: false })));
    let r = Reader { w: w.clone(), buf: vec![], pos: 0 };
    let base = McpServer::new(Lang { vfs: MemoryVfs::new(), work: WorkspaceManager::new() });
    let service = base.service.clone();
    let end = match search {
        true => block(serve(&base.with_searcher(Find), r, w.clone())),
        false => block(serve(&base, r, w.clone())),
    };
    let w = w.0.borrow();
    ck!(!w.late, "the next line was awaited before everything written was flushed");
    let asked: Vec<Value> = input.split('\n').filter_map(|l| request(l.trim())).collect();
    if w.broken {
        ck!(end.is_err(), "writing failed, the server says {end:?}");
        return Ok(());
    }
    ck!(end.is_ok(), "ended with {end:?}");
    let out = String::from_utf8(w.out.clone()).map_err(|e| e.to_string())?;
    ck!(w.flushed == w.out.len() && w.at == w.input.len(), "flushed {} of {}, read {} of {}", w.flushed, w.out.len(), w.at, w.input.len());
    ck!(out.is_empty() || out.ends_with('\n'), "the last answer has no line end: {out:?}");
    let told: Vec<&str> = out.lines().collect();
    ck!(told.len() == asked.len(), "{} requests got {} answers: {out}", asked.len(), told.len());
    let mut files = std::collections::BTreeMap::new();
    for (q, a) in asked.iter().zip(told) {
        let a: Value = serde_json::from_str(a).map_err(|e| format!("{a:?} is no JSON: {e}"))?;
        check_answer(q, &a, search, &service.vfs)?;
        if q["method"] == "tools/call" && q["params"]["name"] == "set_file_content" {
            let p = &q["params"]["arguments"];
            if let (Some(u), Some(t)) = (p["uri"].as_str(), p["content"].as_str()) {
                files.insert(u.to_string(), t.to_string());
            }
        }
    }
    for (u, t) in files {
        let got = service.vfs.get_source(&u).map(|s| oak_core::source::Source::get_text_in(&s, (0..oak_core::source::Source::length(&s)).into()).into_owned());
        ckeq!(got, Some(t), "file {u} as set by set_file_content");
    }
    Ok(())
}
/// Every tool that is listed can be called with the arguments it is said to need, and needs all of them.
fn check_tools() -> Result<(), String> {
    let s = McpServer::new(Lang { vfs: MemoryVfs::new(), work: WorkspaceManager::new() }).with_searcher(Find);
    let ask = |m: &str, p: Value| block(s.handle_request(JsonRpcRequest { jsonrpc: "2.0".into(), id: json!(7), method: m.into(), params: Some(p) }));
    let list = ask("tools/list", json!(null)).result.ok_or("tools/list failed")?;
    for t in list["tools"].as_array().ok_or("no tools")? {
        let (name, schema) = (&t["name"], &t["inputSchema"]);
        let need: Vec<&str> = schema["required"].as_array().ok_or("required")?.iter().filter_map(|v| v.as_str()).collect();
        let full: serde_json::Map<String, Value> = need.iter().map(|k| (k.to_string(), if schema["properties"][k]["type"] == "integer" { json!(1) } else { json!("x") })).collect();
        let call = |args: &serde_json::Map<String, Value>| ask("tools/call", json!({"name": name, "arguments": args}));
        let r = call(&full);
        ck!(r.result.is_some(), "listed tool {name} with {full:?}: {:?}", r.error);
        for k in &need {
            let mut less = full.clone();
            less.remove(*k);
            let r = call(&less);
            ck!(r.error.as_ref().is_some_and(|e| e.message == format!("Missing {k}")), "tool {name} without {k}: {:?} {:?}", r.result, r.error);
        }
    }
    Ok(())
}
fn line(r: &mut Rng) -> String {
    let id = r.pick(&[json!(1), json!(0), json!(-3), json!("a\"é"), json!(null), json!(1.5), json!([1, {"k": "v"}]), json!({"x": 2}), json!(u64::MAX), json!("")]).clone();
    let method = *r.pick(&["initialize", "tools/list", "tools/call", "tools/call", "tools/call", "tools/call", "tools/call", "ping", "Initialize", "", "tools/Call", "é\n"]);
    let tool = *r.pick(&["hover", "hover", "symbols", "definition", "references", "diagnostics", "completion", "semantic_search", "search", "set_file_content", "set_file_content", "nope", "Hover", ""]);
    let mut args = json!({});
    let uris = [json!("file:///a é.rs"), json!("mem:none"), json!("a"), json!("")];
    let offsets = [json!(0), json!(1), json!(3), json!(1u64 << 40), json!(u64::MAX)];
    let limits = [json!(0), json!(1), json!(2), json!(5), json!(7), json!(300), json!(u64::MAX), json!(-1)];
    let queries = [json!("find é"), json!(""), json!(" x "), json!("bad \"one\"")];
    let contents = [json!("fn é() {}\n\""), json!(""), json!("a\r\nb\n")];
    for (k, v) in [("uri", r.pick(&uris).clone()), ("uri", r.pick(&uris).clone()), ("offset", r.pick(&offsets).clone()), ("offset", r.pick(&offsets).clone()), ("query", r.pick(&queries).clone()), ("query", r.pick(&queries).clone()), ("limit", r.pick(&limits).clone()), ("content", r.pick(&contents).clone()), ("content", r.pick(&contents).clone())] {
        if r.chance(1, 2) {
            args[k] = v
        }
        else if r.chance(1, 12) {
            args[k] = r.pick(&[json!(null), json!(-1), json!(2.5), json!("7"), json!([]), json!(true)]).clone()
        }
    }
    let mut q = json!({"jsonrpc": "2.0", "id": id, "method": method});
    match r.below(8) {
        0 => {}
        1 => q["params"] = r.pick(&[json!(null), json!([1]), json!("x"), json!({}), json!({"name": 3}), json!({"arguments": args.clone()})]).clone(),
        _ => q["params"] = json!({"name": tool, "arguments": args}),
    }
    match r.below(12) {
        0 => drop(q.as_object_mut().unwrap().remove("id")),
        1 => drop(q.as_object_mut().unwrap().remove(*r.pick(&["jsonrpc", "method"]))),
        2 => q[*r.pick(&["jsonrpc", "method"])] = json!(2),
        _ => {}
    }
    let s = match r.below(16) {
        0 => String::new(),
        1 => "  \t ".into(),
        2 => "{\"jsonrpc\":".into(),
        3 => "[1,2]".into(),
        4 => "nonsense é".into(),
        5 => format!("  {q}\t"),
        6 => format!("{q}{q}"),
        _ => q.to_string(),
    };
    s + *r.pick(&["\n", "\n", "\r\n"])
}
pub fn p25(c: &mut Ctx) {
    c.family("tools");
    c.case(|| "every listed tool".into(), check_tools);
    c.case(
        || "messages".into(),
        || {
            ck!(JsonRpcRequest::from_json(r#"{"jsonrpc":"2.0","id":3,"method":"m","params":[1]}"#).is_ok_and(|r| r.id == json!(3) && r.method == "m" && r.params == Some(json!([1])) && r.jsonrpc == "2.0"), "a request");
            ck!(JsonRpcRequest::from_json(r#"{"jsonrpc":"2.0","method":"m"}"#).is_err(), "a notification is no request");
            ck!(JsonRpcNotification::from_json(r#"{"jsonrpc":"2.0","method":"m"}"#).is_ok_and(|r| r.method == "m" && r.params.is_none()), "a notification");
            Ok(())
        },
    );
    c.family("sessions");
    let mut r = c.rng("sessions");
    for _ in 0..c.n(1500, 20000) {
        let mut lines: Vec<String> = (0..r.below(9)).map(|_| line(&mut r)).collect();
        if r.chance(1, 4)
            && let Some(l) = lines.last_mut()
        {
            *l = l.trim_end_matches(['\r', '\n']).to_string() // the last line may lack its end
        }
        let (search, step) = (r.chance(1, 2), *r.pick(&[1, 2, 7, 64, 100_000]));
        let fail = if r.chance(1, 8) { Some(r.below(400)) } else { None };
        c.case(|| format!("{lines:?} searcher {search} step {step} fail {fail:?}"), || check(&lines, search, step, fail));
    }
}
