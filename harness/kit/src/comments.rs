//! P27: comments are printed completely, in order and at their place.
use crate::common::*;
use oak_pretty_print::comment::{Comment, CommentCollector, CommentKind, CommentProcessor, Position, SourceSpan};

fn at(offset: usize) -> Position {
    Position { line: offset / 10, column: offset % 10, offset }
}
fn printed(c: &Comment, ind: &str) -> String {
    let t = c.content.trim();
    let (open, close) = match c.kind {
        CommentKind::Line => ("//", ""),
        CommentKind::Doc => ("///", ""),
        CommentKind::Block => ("/*", " */"),
    };
    if t.is_empty() {
        return [open, &c.content, close].concat();
    }
    if c.kind == CommentKind::Block && c.content.contains('\n') {
        let lines: String = c.content.lines().map(|l| [ind, " * ", l.trim(), "\n"].concat()).collect();
        return ["/*\n", &lines, ind, " */"].concat();
    }
    [open, " ", t, close].concat()
}
fn content(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        match r.below(6) {
            0 => s.push('\n'),
            1 => s.push_str(*r.pick(&[" ", "\t", "\r\n", "\r", "  ", "\u{a0}", "\u{2028}"])),
            2 => s.push_str(*r.pick(&["/*", "*/", "//", "*", "/", "{}", "\\n"])),
            _ => s.push_str(*r.pick(&["note", "é", "a b", "x", "日本", "TODO: y"])),
        }
    }
    s
}
fn comment(r: &mut Rng, i: usize) -> Comment {
    let a = r.below(12);
    let span = SourceSpan { start: at(a), end: at(a + r.below(5)) };
    let c = match r.below(3) {
        0 => Comment::line(content(r), span),
        1 => Comment::block(content(r), span),
        _ => Comment::doc(content(r), span),
    };
    c.with_trailing(r.chance(1, 3)).with_indent_level(i)
}
fn one(c: &Comment, ind: &str) -> Result<(), String> {
    let s = c.formatted_text(ind);
    ckeq!(s, printed(c, ind), "printed");
    let kept: String = if c.kind == CommentKind::Block && c.content.contains('\n') && !c.content.trim().is_empty() { c.content.lines().map(|l| format!("*{l}")).collect() } else { c.content.clone() };
    let all = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let mid = all(&s);
    let mid = mid.strip_prefix(["//", "/*", "///"][[CommentKind::Line, CommentKind::Block, CommentKind::Doc].iter().position(|k| *k == c.kind).unwrap()]).ok_or("no opening mark")?;
    let mid = if c.kind == CommentKind::Block { mid.strip_suffix("*/").ok_or("no closing mark")? } else { mid };
    ckeq!(mid, all(&kept), "the text of the comment");
    Ok(())
}
fn table(v: &[Comment], r: &mut Rng, ind: &str) -> Result<(), String> {
    let mut col = CommentCollector::new();
    ck!(col.comments().is_empty(), "a new collector is not empty");
    v.iter().for_each(|c| col.add_comment(c.clone()));
    ckeq!(col.comments(), v, "collected");
    for o in 0..18 {
        let pick = |f: &dyn Fn(&Comment) -> bool| v.iter().filter(|c| f(c)).collect::<Vec<_>>();
        ckeq!(col.comments_before(at(o)), pick(&|c| c.span.end.offset <= o), "before {o}");
        ckeq!(col.comments_after(at(o)), pick(&|c| c.span.start.offset >= o), "after {o}");
        let e = o + r.below(6);
        ckeq!(col.comments_in_range(at(o), at(e)), pick(&|c| c.span.start.offset >= o && c.span.end.offset <= e), "in {o}..{e}");
        ckeq!(col.trailing_comments(), pick(&|c| c.is_trailing), "trailing");
        let mut p = CommentProcessor::new();
        *p.collector_mut() = col.clone();
        ckeq!(p.collector(), &col, "the processor's collector");
        let mut out = "start".to_string();
        p.insert_comments_at_position(&mut out, at(o), ind);
        let own: String = v.iter().filter(|c| c.span.end.offset <= o && !c.is_trailing).map(|c| [ind, &printed(c, ind), "\n"].concat()).collect();
        ckeq!(out, ["start", &own].concat(), "on lines of their own at {o}");
        let mut out = "start".to_string();
        p.insert_trailing_comment(&mut out, at(o));
        let t = v.iter().find(|c| c.span.start.offset >= o && c.is_trailing).map_or(String::new(), |c| [" ", &printed(c, "")].concat());
        ckeq!(out, ["start", &t].concat(), "trailing at {o}");
    }
    for (keep, format) in [(true, true), (true, false), (false, true), (false, false)] {
        let p = CommentProcessor::new().with_preserve_comments(keep).with_format_comments(format);
        let want: Vec<String> = if !keep { vec![] } else { v.iter().map(|c| if format { printed(c, ind) } else { c.content.clone() }).collect() };
        ckeq!(p.process_comments(v, ind), want, "processed, kept {keep} formatted {format}");
    }
    ckeq!(CommentProcessor::new().process_comments(v, ind), v.iter().map(|c| printed(c, ind)).collect::<Vec<_>>(), "processed");
    let mut want = v.to_vec();
    for i in 1..want.len() {
        let mut j = i;
        while j > 0 && want[j - 1].span.start.offset > want[j].span.start.offset {
            want.swap(j - 1, j);
            j -= 1
        }
    }
    col.sort_by_position();
    ckeq!(col.comments(), &want[..], "sorted");
    col.clear();
    ck!(col.comments().is_empty(), "cleared");
    Ok(())
}
pub fn p27(c: &mut Ctx) {
    c.family("each content");
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..if c.thorough { 6 } else { 5 } {
        last = last.iter().flat_map(|s| ["a", "é", " ", "\n", "*", "/"].map(|x| [s, x].concat())).collect();
        all.extend(last.clone());
    }
    for s in all {
        c.case(|| format!("{s:?}"), || {
            for kind in [CommentKind::Line, CommentKind::Block, CommentKind::Doc] {
                let span = SourceSpan { start: at(3), end: at(9) };
                let x = Comment::new(kind, s.clone(), span.clone());
                ckeq!((x.is_trailing, x.indent_level, &x.span, &x.content), (false, 0, &span, &s), "a new comment");
                for ind in ["", "  ", "\t"] {
                    one(&x, ind)?
                }
            }
            Ok(())
        });
    }
    c.family("collections");
    let mut r = c.rng("p27");
    for _ in 0..c.n(3000, 40000) {
        let n = r.below(9);
        let v: Vec<Comment> = (0..n).map(|i| comment(&mut r, i)).collect();
        let ind = " ".repeat(r.below(5));
        let seed = r.below(1 << 20) as u64;
        c.case(|| format!("{v:?} indented by {ind:?}"), || {
            v.iter().try_for_each(|c| one(c, &ind))?;
            table(&v, &mut Rng::new(seed), &ind)
        });
    }
    c.family("long collections");
    for _ in 0..c.n(20, 400) {
        let n = r.range(21, 120);
        let v: Vec<Comment> = (0..n).map(|i| comment(&mut r, i)).collect();
        let seed = r.below(1 << 20) as u64;
        c.case(|| format!("{v:?}"), || table(&v, &mut Rng::new(seed), " "));
    }
}
