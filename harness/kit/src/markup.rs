//! P18: exported markup keeps the text, escaped.
use crate::common::*;
use oak_core::source::SourceText;
use oak_diagnostic::{Diagnostic, Emitter, HtmlEmitter, Label, Severity};
use oak_highlight::{
    OakHighlighter,
    exporters::{AnsiExporter, ExportFormat, Exporter, HtmlExporter, JsonExporter},
    highlighter::{HighlightResult, HighlightSegment, HighlightSpan, HighlightStyle},
    themes::Theme,
};
use std::borrow::Cow;

/// Reads HTML as a browser does: the tags, and the text with its references resolved.
pub fn read_html(h: &str) -> Result<(Vec<String>, String), String> {
    let (mut tags, mut text, mut rest) = (vec![], String::new(), h);
    while let Some(c) = rest.chars().next() {
        if c == '<' {
            let end = rest.find('>').ok_or(format!("unclosed tag in {h:?}"))?;
            tags.push(rest[1..end].to_string());
            rest = &rest[end + 1..];
        }
        else if c == '&' {
            let end = rest.find(';').ok_or(format!("bare & in {h:?}"))?;
            let name = &rest[1..end];
            text.push(match name {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                n if n.starts_with("#x") => u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or(format!("reference {n:?}"))?,
                n if n.starts_with('#') => n[1..].parse().ok().and_then(char::from_u32).ok_or(format!("reference {n:?}"))?,
                n => return Err(format!("unknown reference {n:?} in {h:?}")),
            });
            rest = &rest[end + 1..];
        }
        else {
            ck!(c != '>', "bare > in the text of {h:?}");
            text.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    Ok((tags, text))
}
/// Tags open and close in pairs and carry only class and style attributes.
pub fn nested(tags: &[String]) -> Result<(), String> {
    let mut open = vec![];
    for t in tags {
        if let Some(n) = t.strip_prefix('/') {
            ckeq!(open.pop().as_deref(), Some(n), "closing tag");
            continue;
        }
        let (name, attr) = t.split_once(' ').unwrap_or((t, ""));
        ck!(name.chars().all(|c| c.is_ascii_alphanumeric()), "tag name {name:?}");
        if !attr.is_empty() {
            let v = attr.strip_prefix("class=\"").or(attr.strip_prefix("style=\"")).ok_or(format!("attribute {attr:?}"))?;
            let v = v.strip_suffix('"').ok_or(format!("attribute {attr:?}"))?;
            ck!(!v.contains('"'), "attribute {attr:?}");
        }
        open.push(name.to_string());
    }
    ck!(open.is_empty(), "tags left open {open:?}");
    Ok(())
}
/// What a terminal shows: the text without SGR sequences, and which sequence is in force for each character.
fn read_ansi(a: &str) -> Result<Vec<(String, char)>, String> {
    let (mut out, mut state, mut rest) = (vec![], String::from("0"), a);
    while let Some(c) = rest.chars().next() {
        if c == '\x1b' {
            let r = rest.strip_prefix("\x1b[").ok_or(format!("escape in {a:?}"))?;
            let end = r.find(|c: char| !c.is_ascii_digit() && c != ';').ok_or("unfinished escape")?;
            ck!(r[end..].starts_with('m'), "escape sequence in {a:?}");
            state = r[..end].to_string();
            rest = &r[end + 1..];
        }
        else {
            out.push((state.clone(), c));
            rest = &rest[c.len_utf8()..];
        }
    }
    ck!(state == "0" || state.is_empty(), "terminal left in state {state}");
    Ok(out)
}

const WILD: &[char] = &[
    'a', 'b', ' ', '<', '>', '&', '"', '\'', '\\', '/', ';', '#', '\n', '\r', '\t', '\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', 'é', '€', '\u{2028}', '\u{2029}',
    '\u{feff}', '\u{ffff}', '😀', 'u', '0', '{', '}', '[', ']', ',', ':',
];
const PIECES: &[&str] = &["&lt;", "&amp;", "&#39;", "&amp;lt;", "\\n", "\\\"", "\\u0041", "</span>", "<b>", "\"},{\"", "]}", "<!--", "-->", "]]>", "&", "\r\n", "\\\\", "\u{1b}[31m"];
fn wild(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(n + 1) {
        if r.chance(1, 4) { s.push_str(*r.pick::<&str>(PIECES)) } else { s.push(*r.pick(WILD)) }
    }
    s
}
fn styles(r: &mut Rng) -> HighlightStyle {
    const COL: &[&str] = &["#FF0000", "#123456", "#00FF00", "#FFFF00", "#0000FF", "#FF00FF", "#00FFFF", "red", "rgb(1, 2, 3)", "#DC322F", "#859900"];
    let col = |r: &mut Rng| if r.chance(1, 2) { Some(r.pick(COL).to_string()) } else { None };
    HighlightStyle { color: col(r), background_color: col(r), bold: r.chance(1, 3), italic: r.chance(1, 3), underline: r.chance(1, 3) }
}
fn check_all(res: &HighlightResult<'_>) -> Result<(), String> {
    let spelled: String = res.segments.iter().map(|s| s.text.as_ref()).collect();
    let styled = |s: &HighlightStyle| s.bold || s.italic || s.underline;
    for css in [false, true] {
        for inline in [false, true] {
            let html = HtmlExporter::new(css, inline).export(res);
            let body = if css {
                let (head, body) = html.split_once("</style>\n").ok_or("no style block")?;
                ck!(head.starts_with("<style>"), "style block first");
                body
            }
            else {
                &html[..]
            };
            let (tags, text) = read_html(body)?;
            ckeq!(text, spelled, "text of the HTML (css {css}, inline {inline})");
            nested(&tags)?;
            ckeq!(tags.first().map(|s| &s[..]), Some("div class=\"highlight\""), "outer tag");
            let want = res.segments.iter().filter(|s| styled(&s.style) || (inline && (s.style.color.is_some() || s.style.background_color.is_some()))).count();
            ckeq!(tags.len(), 2 * want + 2, "one element per styled segment (inline {inline})");
        }
    }
    for pretty in [false, true] {
        let json = JsonExporter { pretty }.export(res);
        let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| format!("JSON does not read: {e}: {json:?}"))?;
        let want = serde_json::json!({
            "segments": res.segments.iter().map(|s| {
                let mut st = serde_json::Map::new();
                st.insert("bold".into(), s.style.bold.into());
                st.insert("italic".into(), s.style.italic.into());
                st.insert("underline".into(), s.style.underline.into());
                if let Some(c) = &s.style.color { st.insert("color".into(), c.clone().into()); }
                if let Some(c) = &s.style.background_color { st.insert("background_color".into(), c.clone().into()); }
                serde_json::json!({"span": {"start": s.span.start, "end": s.span.end}, "style": st, "text": s.text})
            }).collect::<Vec<_>>(),
            "source": res.source,
        });
        ckeq!(v, want, "JSON reads back");
    }
    if !spelled.contains('\x1b') {
        let shown = read_ansi(&AnsiExporter.export(res))?;
        ckeq!(shown.iter().map(|x| x.1).collect::<String>(), spelled, "text on the terminal");
        let mut k = 0;
        for s in &res.segments {
            for _ in s.text.chars() {
                let code = &shown[k].0;
                let on = |n: &str| code.split(';').any(|x| x == n);
                ckeq!((on("1"), on("3"), on("4")), (s.style.bold, s.style.italic, s.style.underline), "terminal style of character {k}");
                ckeq!(code.split(';').any(|x| x.len() == 2 && x.starts_with('3')), s.style.color.is_some(), "terminal colour of character {k}");
                k += 1;
            }
        }
    }
    Ok(())
}
/// The same text with every markup character replaced by a plain one.
fn tame(s: &str) -> String {
    s.chars().map(|c| if matches!(c, '<' | '>' | '&' | '"' | '\'') { 'x' } else { c }).collect()
}
fn diag_html(src: &str, code: Option<&str>, msg: &str, labels: &[(usize, usize, Option<String>)], help: Option<&str>, uri: Option<&str>) -> String {
    let mut d = Diagnostic::error(msg);
    d.severity = if msg.len() % 2 == 0 { Severity::Warning } else { Severity::Advice };
    d.code = code.map(|s| s.to_string());
    d.help = help.map(|s| s.to_string());
    for (a, b, m) in labels {
        d.labels.push(Label { message: m.clone(), span: core::range::Range { start: *a, end: *b }, color: None });
    }
    HtmlEmitter.render_localized::<_, ()>(&SourceText::new(src.to_string()), &d, None, uri)
}
pub fn p18(c: &mut Ctx) {
    c.family("export");
    let mut r = c.rng("export");
    for i in 0..c.n(600, 20000) {
        let len = if i % 100 == 99 { 3000 } else if i % 40 == 39 { 600 } else { 24 };
        let src = wild(&mut r, len);
        let bs = boundaries(&src);
        let mut cuts: Vec<usize> = (0..if len > 600 { r.below(400) } else { r.below(6) }).map(|_| *r.pick(&bs)).collect();
        cuts.extend([0, src.len()]);
        cuts.sort();
        let segments: Vec<_> = cuts
            .windows(2)
            .map(|w| HighlightSegment {
                span: HighlightSpan { start: w[0], end: w[1] },
                style: if r.chance(1, 3) { HighlightStyle { color: None, background_color: None, bold: false, italic: false, underline: false } } else { styles(&mut r) },
                text: Cow::Borrowed(&src[w[0]..w[1]]),
            })
            .collect();
        let res = HighlightResult { segments, source: Cow::Borrowed(&src[..]) };
        c.case(&|| format!("export {src:?} cut at {cuts:?}"), || check_all(&res));
    }
    c.family("each character");
    for code in (0..0x300u32).chain(0x2000..0x2100).chain(0xfff0..0x10010) {
        let Some(ch) = char::from_u32(code) else { continue };
        let src: String = [ch, 'a', ch, ch].iter().collect();
        let res = HighlightResult { segments: vec![HighlightSegment { span: HighlightSpan { start: 0, end: src.len() }, style: HighlightStyle { color: None, background_color: None, bold: true, italic: false, underline: false }, text: Cow::Borrowed(&src[..]) }], source: Cow::Borrowed(&src[..]) };
        c.case(&|| format!("export {src:?}"), || check_all(&res));
    }
    c.family("highlight_format");
    let mut r = c.rng("highlight_format");
    for _ in 0..c.n(100, 2000) {
        let src = wild(&mut r, 20);
        c.case(&|| format!("highlight_format {src:?}"), || {
            let h = OakHighlighter::new();
            let html = h.highlight_format(&src, "x", Theme::OneDarkPro, ExportFormat::Html).map_err(|e| e.to_string())?;
            let (_, text) = read_html(html.split_once("</style>\n").map_or(&html[..], |x| x.1))?;
            ckeq!(text, src, "HTML text");
            ck!(h.highlight_format(&src, "x", Theme::OneDarkPro, ExportFormat::Xml).is_err(), "XML is not written");
            let json = h.highlight_format(&src, "x", Theme::OneDarkPro, ExportFormat::Json).map_err(|e| e.to_string())?;
            let v: serde_json::Value = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            ckeq!(v["source"].as_str(), Some(&src[..]), "JSON source");
            ckeq!(v["segments"][0]["text"].as_str(), Some(&src[..]), "JSON segment");
            if !src.contains('\x1b') {
                let a = h.highlight_format(&src, "x", Theme::OneDarkPro, ExportFormat::Ansi).map_err(|e| e.to_string())?;
                ckeq!(read_ansi(&a)?.iter().map(|x| x.1).collect::<String>(), src, "terminal text");
            }
            Ok(())
        });
    }
    c.family("diagnostics");
    let mut r = c.rng("diagnostics");
    for _ in 0..c.n(600, 20000) {
        let src = if r.chance(1, 40) { wild(&mut r, 800) } else { wild(&mut r, 20) };
        let bs = boundaries(&src);
        let labels: Vec<_> = (0..if r.chance(1, 20) { r.below(12) } else { r.below(3) })
            .map(|_| {
                let (a, b) = (*r.pick(&bs), *r.pick(&bs));
                (a.min(b), a.max(b), if r.chance(2, 3) { Some(wild(&mut r, 5)) } else { None })
            })
            .collect();
        let opt = |r: &mut Rng| if r.chance(1, 2) { Some(wild(r, 6)) } else { None };
        let (code, help, uri, msg) = (opt(&mut r), opt(&mut r), opt(&mut r), wild(&mut r, 8));
        c.case(&|| format!("HtmlEmitter source {src:?} code {code:?} message {msg:?} labels {labels:?} help {help:?} uri {uri:?}"), || {
            let html = diag_html(&src, code.as_deref(), &msg, &labels, help.as_deref(), uri.as_deref());
            let (tags, text) = read_html(&html)?;
            nested(&tags)?;
            // the source read back contains what was given, and differs from a tame run only in the characters themselves
            let head = match &code {
                Some(s) => format!("[{s}] {msg}\n"),
                None => format!("] {msg}\n"),
            };
            let at = text.find(&head).ok_or(format!("header {head:?} is not shown in {text:?}"))?;
            ck!(text[..at].chars().all(|c| c.is_whitespace() || c.is_ascii_alphabetic() || c == '['), "text before the header: {text:?}");
            if let Some(h) = &help {
                ck!(text.trim_end_matches('\n').ends_with(&format!("help: {h}")[..].trim_end_matches('\n')), "help {h:?} is not shown in {text:?}");
            }
            let mut at = at + head.len();
            for (a, b, m) in &labels {
                let show = format!(" at {}:", uri.as_deref().unwrap_or("<anonymous>"));
                at += text[at..].find(&show).ok_or(format!("location {show:?} is not shown in {text:?}"))?;
                at += show.len();
                // the first line of the span, without its line break
                let first = src[..*a].rfind('\n').map_or(0, |k| k + 1);
                let line = src[first..].split('\n').next().unwrap();
                let line = line.strip_suffix('\r').unwrap_or(line);
                at += text[at..].find(line).ok_or(format!("line {line:?} is not shown in {text:?}"))?;
                at += line.len();
                if let Some(m) = m {
                    at += text[at..].find(m).ok_or(format!("message {m:?} of label {a}..{b} is not shown in {text:?}"))?;
                    at += m.len();
                }
            }
            let tame_src = tame(&src);
            let shift = |k: usize| k; // the replaced characters are one byte long
            let tl: Vec<_> = labels.iter().map(|(a, b, m)| (shift(*a), shift(*b), m.as_deref().map(tame))).collect();
            let t = diag_html(&tame_src, code.as_deref().map(tame).as_deref(), &tame(&msg), &tl, help.as_deref().map(tame).as_deref(), uri.as_deref().map(tame).as_deref().or(None));
            let (ttags, ttext) = read_html(&t)?;
            let strip = |v: &[String]| v.iter().filter(|t| !t.contains("header")).cloned().collect::<Vec<_>>();
            ckeq!(strip(&tags), strip(&ttags), "the elements do not depend on the characters of the source");
            ckeq!(tame(&text), tame(&ttext), "the text does not depend on the characters of the source");
            Ok(())
        });
    }
}
