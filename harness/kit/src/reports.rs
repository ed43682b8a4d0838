//! P19: what diagnostics show, read back from each emitter's output.
use crate::{common::*, markup::read_html};
use oak_core::{
    errors::OakError,
    source::{ChunkedBuffer, RopeBuffer, Source, SourceText, TextEdit},
};
use oak_diagnostic::{ConsoleEmitter, Diagnostic, DiagnosticProvider, Emitter, HtmlEmitter, Label, Localizer, LspEmitter, PlainTextEmitter, Severity};
use std::collections::HashMap;

/// Line (from 0) of offset o, where that line begins.
fn line_of(t: &str, o: usize) -> (usize, usize) {
    (t[..o].matches('\n').count(), t[..o].rfind('\n').map_or(0, |i| i + 1))
}
fn utf16(t: &str, o: usize) -> (u64, u64) {
    let (l, s) = line_of(t, o);
    (l as u64, t[s..o].encode_utf16().count() as u64)
}
/// The lines as an editor shows them: without their line ends.
fn lines_of(t: &str) -> Vec<&str> {
    let mut v: Vec<&str> = t.split('\n').collect();
    let n = v.len();
    for l in &mut v[..n - 1] {
        *l = l.strip_suffix('\r').unwrap_or(l);
    }
    v
}
fn no_ansi(s: &str) -> String {
    let (mut o, mut rest) = (String::new(), s);
    while let Some(i) = rest.find('\x1b') {
        o.push_str(&rest[..i]);
        let end = rest[i..].find('m').map_or(rest.len(), |k| i + k + 1);
        rest = &rest[end..];
    }
    o + rest
}
struct Loc;
impl Localizer for Loc {
    fn localize(&self, key: &str, args: &HashMap<String, String>) -> String {
        let mut a: Vec<_> = args.iter().collect();
        a.sort();
        format!("<{key} {a:?}>")
    }
}
/// One quoted line: the number and everything, split in characters.
fn check_snippet(out: &mut Vec<String>, t: &str, l: &Label, uri: &str, what: &str) -> Result<(), String> {
    let (a, b) = (l.span.start.min(t.len()), l.span.end.min(t.len()));
    let (l1, s1) = line_of(t, a);
    let (l2, s2) = line_of(t, b);
    let (c1, c2) = (t[s1..a].chars().count(), t[s2..b].chars().count());
    let lines = lines_of(t);
    let mut next = |w: &str| if out.is_empty() { Err(format!("{what}: {w} is missing")) } else { Ok(out.remove(0)) };
    // the location
    let place = next("the location")?;
    let want = format!(" at {uri}:{}:{}", l1 + 1, c1 + 1);
    ck!(place.ends_with(&want), "{what}: location {place:?}, expected {want:?}");
    let bar = next("the bar")?;
    let frame = bar.trim();
    ckeq!(frame.chars().count(), 1, "{what}: bar {bar:?}");
    // the quoted lines
    let mut at = None;
    for k in l1..=l2 {
        let q = next(&format!("line {}", k + 1))?;
        let num = (k + 1).to_string();
        let gutter = format!("{num} {frame} ");
        ck!(q.trim_start().starts_with(&gutter), "{what}: {q:?} is not line {num}");
        ck!(q.ends_with(lines[k]), "{what}: {q:?} does not quote {:?}", lines[k]);
        let col = q.chars().count() - lines[k].chars().count();
        let edge = q.chars().take_while(|c| *c == ' ').count() + gutter.chars().count();
        ck!(col >= edge && col <= edge + if l1 == l2 { 0 } else { 2 }, "{what}: {q:?} quotes more than {:?}", lines[k]);
        ckeq!(*at.get_or_insert(col), col, "{what}: line {num} is not aligned in {q:?}");
        ckeq!(edge, format!("{} {frame} ", l2 + 1).chars().count(), "{what}: gutter of {q:?}");
    }
    let at = at.unwrap_or(0);
    // the marker
    let mark: Vec<char> = next("the marker")?.chars().collect();
    let shown = |i: usize| mark.get(i).copied().unwrap_or(' ');
    let (from, n) = if l1 == l2 { (c1, t[a..b].chars().count().max(1)) } else { (c2.max(1) - 1, 1) };
    // a span that ends at the start of its last line has no character there: its caret may stand left of the text
    let at = if l1 != l2 && c2 == 0 && shown(at) != '^' { at - 1 } else { at };
    ck!((0..at + from).all(|i| shown(i) != '^'), "{what}: a caret before column {from} in {mark:?}");
    if l1 == l2 {
        ck!((at..at + from).all(|i| shown(i) == ' '), "{what}: something before the carets in {mark:?}");
    }
    ck!((at + from..at + from + n).all(|i| shown(i) == '^'), "{what}: {n} carets expected at column {from} in {mark:?}");
    let rest: String = mark[at + from + n..].iter().collect();
    let msg = l.message.as_ref().map_or(String::new(), |m| format!(" {m}"));
    ckeq!(rest, msg, "{what}: after the marker");
    let bar = next("the closing bar")?;
    ckeq!(bar.trim(), frame, "{what}: closing bar");
    Ok(())
}
fn check_text(out: &str, t: &str, d: &Diagnostic, message: &str, uri: Option<&str>, what: &str) -> Result<(), String> {
    let mut v: Vec<String> = out.split('\n').map(|s| s.to_string()).collect();
    let take = |v: &mut Vec<String>| {
        while !v.is_empty() && v[0].trim().is_empty() {
            v.remove(0);
        }
    };
    take(&mut v);
    let tag = d.code.clone().unwrap_or(match d.severity { Severity::Error => "error", Severity::Warning => "warning", Severity::Advice => "advice" }.to_string());
    ck!(!v.is_empty(), "{what}: nothing");
    ckeq!(v.remove(0).trim_start(), format!("[{tag}] {message}"), "{what}: header");
    for (i, l) in d.labels.iter().enumerate() {
        take(&mut v);
        check_snippet(&mut v, t, l, uri.unwrap_or("<anonymous>"), &format!("{what} label {i}"))?;
    }
    take(&mut v);
    if let Some(h) = &d.help {
        ck!(!v.is_empty(), "{what}: no help");
        ckeq!(v.remove(0).trim_start(), format!("help: {h}"), "{what}: help");
    }
    take(&mut v);
    ck!(v.is_empty(), "{what}: more: {v:?}");
    Ok(())
}
fn range(v: &serde_json::Value, t: &str, l: Option<&Label>, what: &str) -> Result<(), String> {
    let p = |o: usize| utf16(t, o.min(t.len()));
    let (a, b) = l.map_or(((0, 0), (0, 0)), |l| (p(l.span.start), p(l.span.end)));
    let got = |k: &str| (v[k]["line"].as_u64(), v[k]["character"].as_u64());
    ckeq!(got("start"), (Some(a.0), Some(a.1)), "{what} start");
    ckeq!(got("end"), (Some(b.0), Some(b.1)), "{what} end");
    Ok(())
}
fn check_lsp(out: &str, t: &str, d: &Diagnostic, message: &str, uri: Option<&str>, what: &str) -> Result<(), String> {
    let v: serde_json::Value = serde_json::from_str(out).map_err(|e| format!("{what}: {e} in {out:?}"))?;
    range(&v["range"], t, d.labels.first(), &format!("{what} range"))?;
    ckeq!(v["severity"].as_i64(), Some(match d.severity { Severity::Error => 1, Severity::Warning => 2, Severity::Advice => 3 }), "{what} severity");
    ckeq!(v["message"].as_str(), Some(message), "{what} message");
    ckeq!(v["code"].as_str(), Some(d.code.as_deref().unwrap_or("")), "{what} code");
    let told: Vec<&Label> = d.labels.iter().filter(|l| l.message.is_some()).collect();
    let rel = v["relatedInformation"].as_array().ok_or(format!("{what}: no relatedInformation"))?;
    ckeq!(rel.len(), told.len(), "{what} relatedInformation");
    for (r, l) in rel.iter().zip(told) {
        range(&r["location"]["range"], t, Some(l), &format!("{what} related"))?;
        ckeq!(r["message"].as_str(), l.message.as_deref(), "{what} related message");
        ckeq!(r["location"]["uri"].as_str(), Some(uri.unwrap_or("")), "{what} related uri");
    }
    Ok(())
}
fn check_all<S: Source + ?Sized>(src: &S, t: &str, d: &Diagnostic, local: bool, uri: Option<&str>, what: &str) -> Result<(), String> {
    let loc = if local { Some(&Loc) } else { None };
    let message = match (&d.i18n_key, loc) {
        (Some(k), Some(l)) => l.localize(k, &d.i18n_args),
        _ => d.message.clone(),
    };
    for unicode in [true, false] {
        let s = PlainTextEmitter { unicode }.render_localized(src, d, loc, uri);
        check_text(&s, t, d, &message, uri, &format!("{what} plain {unicode}"))?;
        let s = ConsoleEmitter { unicode }.render_localized(src, d, loc, uri);
        check_text(&no_ansi(&s), t, d, &message, uri, &format!("{what} console {unicode}"))?;
    }
    let s = HtmlEmitter.render_localized(src, d, loc, uri);
    let (_, text) = read_html(&s)?;
    check_text(&text, t, d, &message, uri, &format!("{what} html"))?;
    check_lsp(&LspEmitter.render_localized(src, d, loc, uri), t, d, &message, uri, &format!("{what} lsp"))?;
    if !local && uri.is_none() {
        ckeq!(PlainTextEmitter::default().render(src, d), PlainTextEmitter { unicode: false }.render_localized::<_, ()>(src, d, None, None), "{what} render");
        ckeq!(ConsoleEmitter::default().render(src, d), ConsoleEmitter { unicode: true }.render_localized::<_, ()>(src, d, None, None), "{what} render");
    }
    Ok(())
}
fn label(a: usize, b: usize, m: Option<&str>, color: Option<&str>) -> Label {
    Label { message: m.map(|s| s.to_string()), span: (a..b).into(), color: color.map(|s| s.to_string()) }
}
fn chunked(t: &str, cuts: &[usize]) -> ChunkedBuffer {
    let mut c = ChunkedBuffer::new();
    let mut last = 0;
    for &k in cuts.iter().chain([t.len()].iter()) {
        if k > last && k <= t.len() && t.is_char_boundary(k) {
            c.push_str(&t[last..k]);
            last = k;
        }
    }
    c
}
fn rope(t: &str, cuts: &[usize]) -> RopeBuffer {
    let mut r = RopeBuffer::new(t);
    for &k in cuts {
        if k <= t.len() && t.is_char_boundary(k) {
            r.apply_edits(&[TextEdit { span: (k..k).into(), text: "\n".into() }]);
            r.apply_edits(&[TextEdit { span: (k..k + 1).into(), text: "".into() }]);
        }
    }
    r
}
fn errors_at(o: usize) -> Vec<OakError> {
    vec![
        OakError::syntax_error("m", o, None),
        OakError::unexpected_character('x', o, Some(3)),
        OakError::unexpected_token("tok", o, None),
        OakError::expected_token("tok", o, None),
        OakError::expected_name("name", o, None),
        OakError::trailing_comma_not_allowed(o, None),
        OakError::unexpected_eof(o, None),
    ]
}
/// An error moved into a file keeps everything else.
fn check_source_id(e: &OakError) -> Result<(), String> {
    let (old, new) = (format!("{:?}", e.kind()), format!("{:?}", e.clone().with_source_id(5).kind()));
    let want = old.replace("source_id: None", "source_id: Some(5)").replace("source_id: Some(3)", "source_id: Some(5)");
    ckeq!(new, want, "with_source_id");
    ckeq!(format!("{:?}", e.clone().kind()), old, "a copy");
    Ok(())
}
/// An error's diagnostic points at the character it happened at.
fn check_error<S: Source + ?Sized>(src: &S, t: &str, o: usize, what: &str) -> Result<(), String> {
    let a = o.min(t.len());
    let b = a + t[a..].chars().next().map_or(0, char::len_utf8);
    for e in errors_at(o) {
        let d = e.to_diagnostic(src);
        ckeq!(d.labels.len(), 1, "{what} labels of {e:?}");
        ckeq!((d.labels[0].span.start, d.labels[0].span.end), (a, b), "{what} label of {e:?}");
        ckeq!(d.code.as_deref(), Some(e.kind().key()), "{what} code");
        ckeq!(d.message, e.kind().to_string(), "{what} message");
        check_source_id(&e)?;
        check_all(src, t, &d, o % 2 == 0, None, what)?;
    }
    let d = OakError::custom_error("no place").to_diagnostic(src);
    ck!(d.labels.is_empty(), "{what} labels of an error without place");
    check_all(src, t, &d, false, None, what)
}
pub fn p19(c: &mut Ctx) {
    c.family("every span");
    for t in all_texts(&['a', '\n', '\r', 'é', '𝄞'], if c.thorough { 5 } else { 4 }) {
        let mut bs = boundaries(&t);
        bs.push(t.len() + 2);
        let src = SourceText::new(t.as_str());
        c.case(|| format!("{t:?}"), || {
            for (i, &a) in bs.iter().enumerate() {
                for &b in &bs[i..] {
                    let mut d = Diagnostic::error("broken");
                    d.labels.push(label(a, b, if (a + b) % 3 == 0 { None } else { Some("msg") }, None));
                    check_all(&src, &t, &d, false, None, &format!("span {a}..{b}"))?;
                }
            }
            Ok(())
        });
    }
    c.family("errors");
    for t in all_texts(&['b', '\n', 'ß', '\r', '😀'], if c.thorough { 4 } else { 3 }) {
        c.case(|| format!("errors in {t:?}"), || {
            let cuts = [1, 2, t.len() / 2];
            for o in boundaries(&t).into_iter().chain([t.len() + 1, usize::MAX]) {
                check_error(&SourceText::new(t.as_str()), &t, o, "text")?;
                check_error(&chunked(&t, &cuts), &t, o, "chunked")?;
                check_error(&rope(&t, &cuts), &t, o, "rope")?;
            }
            Ok(())
        });
    }
    c.family("builders");
    for (i, a) in ["", "x", "<b>", "é"].into_iter().enumerate() {
        c.case(|| format!("builders with {a:?}"), || {
            for severe in [true, false] {
                let d = if severe { Diagnostic::error(a) } else { Diagnostic::warning(a) };
                ck!(matches!((&d.severity, severe), (Severity::Error, true) | (Severity::Warning, false)), "severity");
                ckeq!((d.message.as_str(), &d.code, &d.i18n_key, d.i18n_args.len(), d.labels.len(), &d.help), (a, &None, &None, 0, 0, &None), "a new diagnostic");
                let d = d.with_code("c").with_i18n("key").with_arg("p", "v").with_arg("q", a).with_arg("p", "w").with_help(a).with_label(core::range::Range { start: i, end: i + 2 }, "first").with_label(core::range::Range { start: 0, end: 1 }, a);
                ckeq!((d.message.as_str(), d.code.as_deref(), d.i18n_key.as_deref(), d.help.as_deref()), (a, Some("c"), Some("key"), Some(a)), "texts");
                ckeq!((d.i18n_args.len(), d.i18n_args.get("p").map(|s| s.as_str()), d.i18n_args.get("q").map(|s| s.as_str())), (2, Some("w"), Some(a)), "arguments");
                ckeq!(d.labels.iter().map(|l| (l.span.start, l.span.end, l.message.as_deref())).collect::<Vec<_>>(), vec![(i, i + 2, Some("first")), (0, 1, Some(a))], "labels");
            }
            Ok(())
        });
    }
    c.family("random");
    let mut r = c.rng("random");
    let alphabet: Vec<char> = "aab \t\n\n\r<>&\"'^|_/é𝄞\u{2028}ßﬀ│".chars().collect();
    let words = ["x", "<b>", "two words", "é", "a&b", "it's"];
    for i in 0..c.n(400, 8000) {
        let t = if i % 25 == 0 {
            // enough lines for line numbers of several digits
            let n = if i == 100 { r.range(998, 1002) } else { *r.pick(&[9, 10, 11, 99, 100, 101, 120]) };
            (0..n).map(|_| r.text(&alphabet, 3).replace('\n', "") + if r.chance(1, 5) { "\r\n" } else { "\n" }).collect::<String>() + &r.text(&alphabet, 4)
        }
        else if i % 25 == 1 {
            // long lines
            let (a, b) = (r.range(100, 1500), r.range(1, 4000));
            r.text(&alphabet, a).replace('\n', "x") + "\n" + &"é".repeat(b / 2) + &r.text(&alphabet, 300)
        }
        else {
            r.text(&alphabet, 40)
        };
        let mut bs = boundaries(&t);
        bs.push(t.len() + 1 + r.below(5));
        let mut d = Diagnostic::error(*r.pick(&words));
        d.severity = *r.pick(&[Severity::Error, Severity::Warning, Severity::Advice]);
        d.code = if r.chance(1, 2) { Some(r.pick(&words).to_string()) } else { None };
        d.help = if r.chance(1, 2) { Some(r.pick(&words).to_string()) } else { None };
        if r.chance(1, 2) {
            d = d.with_i18n(*r.pick(&words)).with_arg("k", *r.pick(&words));
        }
        for _ in 0..r.below(4) {
            let (a, b) = (*r.pick(&bs), *r.pick(&bs));
            let m = if r.chance(1, 3) { None } else { Some(*r.pick(&words)) };
            // colours are terminal sequences
            d.labels.push(label(a.min(b), a.max(b), m, if r.chance(1, 4) { Some("\x1b[35m") } else { None }));
        }
        let uri = if r.chance(1, 2) { Some(*r.pick(&["file:///a.x", "<b>", "x y"])) } else { None };
        let local = r.chance(1, 2);
        let cuts: Vec<usize> = { let mut v: Vec<usize> = (0..r.below(5)).map(|_| *r.pick(&bs)).collect(); v.sort(); v };
        c.case(|| format!("{t:?} {:?}", d.labels.iter().map(|l| (l.span.start, l.span.end)).collect::<Vec<_>>()), || {
            check_all(&SourceText::new(t.as_str()), &t, &d, local, uri, "text")?;
            check_all(&chunked(&t, &cuts), &t, &d, local, uri, "chunked")?;
            check_all(&rope(&t, &cuts), &t, &d, local, uri, "rope")
        });
    }
}
