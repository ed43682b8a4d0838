//! P16: layout documents are printed by the layout rules.
use crate::common::*;
use oak_pretty_print::{AsDocument, Document, FormatConfig, IndentStyle, LineEnding, ToDocument, document::JoinDoc};

fn width(d: &Document) -> usize {
    match d {
        Document::Text(s) => s.len(),
        Document::Line | Document::SoftLineSpace => 1,
        Document::Group(x) | Document::Indent(x) => width(x),
        Document::Concat(v) => v.iter().map(width).sum(),
        _ => 0,
    }
}
fn hard(d: &Document) -> bool {
    match d {
        Document::HardLine => true,
        Document::Group(x) | Document::Indent(x) => hard(x),
        Document::Concat(v) => v.iter().any(hard),
        _ => false,
    }
}
/// What a document asks for: pieces of text, spaces and line breaks with their indentation.
fn lay(d: &Document, broken: bool, lvl: usize, col: &mut usize, c: &FormatConfig, out: &mut String) {
    let brk = |out: &mut String, col: &mut usize| {
        if c.trim_trailing_whitespace {
            let n = out.trim_end_matches(|c| c == ' ' || c == '\t').len();
            out.truncate(n)
        }
        out.push_str(if c.line_ending == LineEnding::Windows { "\r\n" } else { "\n" });
        out.push_str(&c.indent_text.repeat(lvl));
        *col = lvl * c.indent_size;
    };
    match d {
        Document::Nil => {}
        Document::Text(s) => {
            out.push_str(s);
            *col += s.len()
        }
        Document::Concat(v) => v.iter().for_each(|x| lay(x, broken, lvl, col, c, out)),
        Document::Group(x) => {
            let b = hard(x) || *col + width(x) > c.max_width;
            lay(x, b, lvl, col, c, out)
        }
        Document::Indent(x) => lay(x, broken, lvl + 1, col, c, out),
        Document::HardLine => brk(out, col),
        _ if broken => brk(out, col),
        Document::SoftLine => {}
        _ => {
            out.push(' ');
            *col += 1
        }
    }
}
pub fn ink(s: &str) -> String {
    s.chars().filter(|c| !" \t\r\n".contains(*c)).collect()
}
fn texts(d: &Document, o: &mut String) {
    match d {
        Document::Text(s) => o.push_str(s),
        Document::Group(x) | Document::Indent(x) => texts(x, o),
        Document::Concat(v) => v.iter().for_each(|x| texts(x, o)),
        _ => {}
    }
}
/// What rendering it gives.
pub fn printed(d: &Document, c: &FormatConfig) -> String {
    let (mut want, mut col) = (String::new(), 0);
    lay(d, false, 0, &mut col, c, &mut want);
    if c.trim_trailing_whitespace {
        want = want.trim_end_matches([' ', '\t']).to_string();
    }
    if c.insert_final_newline && !want.is_empty() && !want.ends_with('\n') {
        want.push_str(if c.line_ending == LineEnding::Windows { "\r\n" } else { "\n" });
    }
    want
}
fn check(d: &Document, c: &FormatConfig) -> Result<(), String> {
    let (got, want) = (d.render(c.clone()), printed(d, c));
    ckeq!(got, want, "rendered");
    let mut t = String::new();
    texts(d, &mut t);
    ckeq!(ink(&got), ink(&t), "texts");
    Ok(())
}
fn doc(r: &mut Rng, depth: usize) -> Document<'static> {
    match if depth == 0 { r.below(6) } else { r.below(10) } {
        0 => Document::Nil,
        1 | 2 => Document::text(r.text(&['a', 'b', 'x', '(', 'é', '漢', ' ', '\t', '𝄞'], 7)),
        3 => if r.chance(1, 4) { Document::HardLine } else { Document::Line },
        4 => Document::SoftLine,
        5 => Document::SoftLineSpace,
        6 => Document::group(doc(r, depth - 1)),
        7 => Document::indent(doc(r, depth - 1)),
        8 => {
            let n = r.below(4);
            let sep = doc(r, 0);
            let ds: Vec<Document> = (0..n).map(|_| doc(r, depth - 1)).collect();
            if r.chance(1, 2) { Document::join(ds, sep) } else { ds.into_iter().join_doc(sep) }
        }
        _ => {
            let n = r.below(6);
            Document::concat((0..n).map(|_| doc(r, depth - 1)).collect())
        }
    }
}
pub fn config(r: &mut Rng) -> FormatConfig {
    let mut c = FormatConfig::new().with_max_width(*r.pick(&[0, 1, 3, 6, 10, 20, 40])).with_line_ending(*r.pick(&[LineEnding::Unix, LineEnding::Windows, LineEnding::Auto]));
    c = c.with_indent_style(*r.pick(&[IndentStyle::Tabs, IndentStyle::Spaces(0), IndentStyle::Spaces(1), IndentStyle::Spaces(2), IndentStyle::Spaces(4)]));
    c.trim_trailing_whitespace = r.chance(1, 2);
    c.insert_final_newline = r.chance(1, 2);
    c
}
/// Every document over a small set of leaves with at most n nodes.
fn small(n: usize) -> Vec<Document<'static>> {
    let mut by: Vec<Vec<Document<'static>>> = vec![vec![]];
    by.push(vec![Document::Nil, Document::text("ab"), Document::text("c "), Document::Line, Document::SoftLine, Document::SoftLineSpace, Document::HardLine]);
    for k in 2..=n {
        let mut v = vec![];
        for d in &by[k - 1] {
            v.push(Document::group(d.clone()));
            v.push(Document::indent(d.clone()));
        }
        for i in 1..k - 1 {
            for a in &by[i] {
                for b in &by[k - 1 - i] {
                    v.push(Document::concat(vec![a.clone(), b.clone()]));
                }
            }
        }
        by.push(v);
    }
    by.into_iter().flatten().collect()
}
pub fn p16(c: &mut Ctx) {
    c.family("small");
    let ds = small(if c.thorough { 7 } else { 6 });
    let mut cfgs = vec![];
    for w in 0..=7 {
        for trim in [false, true] {
            let mut f = FormatConfig::new().with_max_width(w).with_indent_style(IndentStyle::Spaces(2)).with_line_ending(if w % 2 == 0 { LineEnding::Unix } else { LineEnding::Windows });
            f.trim_trailing_whitespace = trim;
            f.insert_final_newline = w % 3 == 0;
            cfgs.push(f);
        }
    }
    for d in &ds {
        c.case(
            || format!("{d:?} at widths 0..7"),
            || {
                for f in &cfgs {
                    check(d, f).map_err(|e| format!("max width {} trim {}: {e}", f.max_width, f.trim_trailing_whitespace))?;
                }
                Ok(())
            },
        );
    }
    c.family("joins");
    let mut r = c.rng("joins");
    for _ in 0..c.n(300, 3000) {
        let ds: Vec<Document<'static>> = (0..r.below(5)).map(|_| doc(&mut r, 1)).collect();
        let sep = doc(&mut r, 1);
        c.case(|| format!("{ds:?} joined by {sep:?}"), || {
            let mut v = vec![];
            for d in &ds {
                if !v.is_empty() {
                    v.push(sep.clone())
                }
                v.push(d.clone())
            }
            let want = format!("{:?}", Document::Concat(v));
            ckeq!(format!("{:?}", Document::join(ds.clone(), sep.clone())), want, "join");
            ckeq!(format!("{:?}", ds.clone().into_iter().join_doc(sep.clone())), want, "join_doc");
            Ok(())
        });
    }
    c.family("conversions");
    let mut r = c.rng("conversions");
    for _ in 0..c.n(200, 2000) {
        let ts: Vec<String> = (0..r.below(4)).map(|_| r.text(&['a', 'é', ' ', '\n'], 5)).collect();
        let d = doc(&mut r, 2);
        c.case(|| format!("{ts:?} {d:?}"), || {
            let show = |d: Document| format!("{d:?}");
            let each = show(Document::Concat(ts.iter().map(|t| Document::Text(t.clone().into())).collect()));
            ckeq!(show(ts.as_document()), each.clone(), "a list of strings");
            ckeq!(show(ts.iter().map(|t| t.as_str()).collect::<Vec<_>>().as_document()), each.clone(), "a list of string slices");
            ckeq!(show((&ts).to_document()), each, "a list, handed over");
            for t in &ts {
                let want = show(Document::Text(t.clone().into()));
                for got in [t.as_document(), t.as_str().as_document(), t.clone().to_document(), t.as_str().to_document(), Some(t).as_document(), Box::new(t.clone()).as_document(), Document::from(t.clone()), Document::from(t.as_str()), Document::from(std::borrow::Cow::Borrowed(t.as_str())), Document::text(t.as_str())] {
                    ckeq!(show(got), want.clone(), "text");
                }
            }
            ckeq!(show(None::<String>.as_document()), "Nil".to_string(), "nothing");
            ckeq!(show(d.as_document()), show(d.clone()), "a document");
            ckeq!(show(d.clone().to_document()), show(d.clone()), "a document, handed over");
            Ok(())
        });
    }
    c.family("configurations");
    for n in [0u8, 1, 2, 4, 8, 255] {
        for style in [IndentStyle::Spaces(n), IndentStyle::Tabs] {
            for ending in [LineEnding::Unix, LineEnding::Windows, LineEnding::Auto] {
                c.case(|| format!("{style:?} {ending:?}"), || {
                    let (a, b) = (FormatConfig::new(), FormatConfig::new().with_line_ending(ending).with_indent_style(style).with_max_width(n as usize + 7));
                    ckeq!((a.indent_style, &*a.indent_text, a.indent_size, a.line_ending, a.max_width), (IndentStyle::Spaces(4), "    ", 4, LineEnding::Auto, 100), "as begun");
                    let (text, size) = match style {
                        IndentStyle::Spaces(n) => (" ".repeat(n as usize), n as usize),
                        IndentStyle::Tabs => ("\t".to_string(), 4),
                    };
                    ckeq!((b.indent_style, &*b.indent_text, b.indent_size, b.line_ending, b.max_width), (style, &*text, size, ending, n as usize + 7), "as set");
                    let rest = |c: &FormatConfig| (c.insert_final_newline, c.trim_trailing_whitespace, c.preserve_blank_lines, c.max_blank_lines, c.format_comments, c.format_strings);
                    ckeq!(rest(&a), (true, true, true, 2, true, false), "the rest, as begun");
                    ckeq!(rest(&b), rest(&a), "the rest");
                    Ok(())
                });
            }
        }
    }
    c.family("random");
    let mut r = c.rng("p16");
    for _ in 0..c.n(30000, 600000) {
        let depth = 1 + r.below(6);
        let d = doc(&mut r, depth);
        let f = config(&mut r);
        c.case(|| format!("{d:?} with {f:?}"), || check(&d, &f));
    }
    c.family("long");
    for i in 0..c.n(150, 2000) {
        let mut f = config(&mut r);
        f = f.with_max_width(*r.pick(&[20, 79, 80, 100, 120, 255, 256, 1000, usize::MAX / 2]));
        let depth = 1 + r.below(4);
        let mut d = Document::concat((0..r.range(5, 60)).map(|_| doc(&mut r, depth)).collect());
        for _ in 0..if i % 3 == 0 { r.below(40) } else { 0 } {
            d = match r.below(3) {
                0 => Document::indent(d),
                1 => Document::group(d),
                _ => Document::concat(vec![Document::text("xé".repeat(r.below(70))), d, Document::Line, Document::text("y".repeat(r.below(300)))]),
            };
        }
        c.case(|| format!("{d:?} with {f:?}"), || check(&d, &f));
    }
}
