//! P06 incremental relexing, P07 scanning helpers.
use crate::common::*;
use crate::source::{chunked_of, long_text, random_pieces, rope_of, split_at_all};
use crate::toy::*;
use crate::{ck, ckeq};
use core::range::Range;
use oak_core::lexer::*;
use oak_core::parser::session::ParseSession;
use oak_core::{OakError, source::*};
use std::borrow::Cow;

type Toks = Vec<(T, usize, usize)>;
fn toks(ts: &[Token<T>]) -> Toks {
    ts.iter().map(|t| (t.kind, t.span.start, t.span.end)).collect()
}

// ---- P07: what each helper describes, on the flat text -------------------------------------------
#[derive(Clone, Debug)]
pub enum Scan {
    Ws(bool),
    Comment { line: &'static str, open: &'static str, close: &'static str, nested: bool },
    Str { quotes: &'static [char], escape: Option<char> },
    Ident,
    LineComment(&'static str),
    BlockComment(&'static str, &'static str),
}
fn line_end(t: &str, o: usize) -> usize {
    t[o..].find('\n').map(|i| o + i).unwrap_or(t.len())
}
/// End of the token the helper must produce at o, with its kind, or None.
fn expect(s: &Scan, t: &str, o: usize) -> Option<(T, usize)> {
    let r = &t[o..];
    match s {
        Scan::Ws(uni) => {
            let n: usize = if *uni { r.chars().take_while(|c| c.is_whitespace()).map(|c| c.len_utf8()).sum() } else { r.bytes().take_while(|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r')).count() };
            (n > 0).then_some((T::Ws, o + n))
        }
        Scan::Comment { line, open, close, nested } => {
            if !line.is_empty() && r.starts_with(line) {
                return Some((T::LineC, line_end(t, o + line.len())));
            }
            if open.is_empty() || !r.starts_with(open) {
                return None;
            }
            let mut p = o + open.len();
            let mut depth = 1;
            while depth > 0 && p < t.len() {
                if *nested && t[p..].starts_with(open) {
                    p += open.len();
                    depth += 1;
                }
                else if !close.is_empty() && t[p..].starts_with(close) {
                    p += close.len();
                    depth -= 1;
                }
                else {
                    p += t[p..].chars().next().unwrap().len_utf8();
                }
            }
            Some((T::BlockC, p))
        }
        Scan::Str { quotes, escape } => {
            let mut it = r.char_indices();
            let q = it.next()?.1;
            if !quotes.contains(&q) {
                return None;
            }
            let mut esc = false;
            for (i, c) in it {
                if esc {
                    esc = false;
                }
                else if Some(c) == *escape {
                    esc = true;
                }
                else if c == q {
                    return Some((T::Str, o + i + c.len_utf8()));
                }
            }
            Some((T::Str, t.len()))
        }
        Scan::Ident => {
            let b = r.as_bytes();
            if b.is_empty() || !(b[0].is_ascii_alphabetic() || b[0] == b'_') {
                return None;
            }
            Some((T::Id, o + b.iter().take_while(|b| b.is_ascii_alphanumeric() || **b == b'_').count()))
        }
        Scan::LineComment(p) => r.starts_with(p).then(|| (T::LineC, line_end(t, o + p.len()))),
        Scan::BlockComment(a, z) => r.starts_with(a).then(|| (T::BlockC, t[o + a.len()..].find(z).map(|i| o + a.len() + i + z.len()).unwrap_or(t.len()))),
    }
}
fn run_scan<S: Source + ?Sized>(s: &Scan, st: &mut LexerState<'_, S, Toy>) -> bool {
    match s {
        Scan::Ws(u) => WhitespaceConfig { unicode_whitespace: *u }.scan(st, T::Ws),
        Scan::Comment { line, open, close, nested } => CommentConfig { line_marker: line, block_start: open, block_end: close, nested_blocks: *nested }.scan(st, T::LineC, T::BlockC),
        Scan::Str { quotes, escape } => StringConfig { quotes, escape: *escape }.scan(st, T::Str),
        Scan::Ident => st.scan_ascii_identifier(T::Id),
        Scan::LineComment(p) => st.scan_line_comment(T::LineC, p),
        Scan::BlockComment(a, z) => st.scan_block_comment(T::BlockC, a, z),
    }
}
fn check_scan<S: Source + ?Sized>(src: &S, t: &str, s: &Scan, o: usize, label: &str) -> Result<(), String> {
    let mut st: LexerState<'_, S, Toy> = LexerState::new(src);
    st.set_position(o);
    st.add_token(T::Err, 0, o);
    let r = run_scan(s, &mut st);
    let want = expect(s, t, o);
    ckeq!(r, want.is_some(), "{label}: {s:?} at {o}: matched");
    ckeq!(st.get_position(), want.map(|w| w.1).unwrap_or(o), "{label}: {s:?} at {o}: position");
    let mut all = vec![(T::Err, 0, o)];
    if let Some((k, e)) = want {
        all.push((k, o, e));
    }
    ckeq!(toks(st.tokens()), all, "{label}: {s:?} at {o}: tokens");
    Ok(())
}
/// The small helpers of the lexer state, each against the flat text.
fn check_steps<S: Source + ?Sized>(src: &S, t: &str, o: usize, label: &str) -> Result<(), String> {
    let mk = || {
        let mut st: LexerState<'_, S, Toy> = LexerState::new(src);
        st.set_position(o);
        st
    };
    let mut it = t[o..].chars();
    let c0 = it.next();
    let c1 = it.next();
    let n = c0.map(|c| c.len_utf8()).unwrap_or(0);
    let mut st = mk();
    ckeq!(st.peek(), c0, "{label}: peek at {o}");
    ckeq!(st.current(), c0, "{label}: current at {o}");
    ckeq!(st.peek_next(), c1, "{label}: peek_next at {o}");
    ckeq!(st.peek_next_n(n), c1, "{label}: peek_next_n at {o}");
    ckeq!(st.not_at_end(), o < t.len(), "{label}: not_at_end at {o}");
    ckeq!(st.get_length(), t.len(), "{label}: get_length");
    ckeq!(st.get_char_at(o), c0, "{label}: get_char_at {o}");
    ckeq!(st.get_text_from(o).as_ref(), &t[o..], "{label}: get_text_from {o}");
    ckeq!(st.peek_byte(), t.as_bytes().get(o).copied(), "{label}: peek_byte at {o}");
    ckeq!(st.get_position(), o, "{label}: peeking moved the position");
    ckeq!(st.bump(), c0, "{label}: bump at {o}");
    ckeq!(st.get_position(), o + n, "{label}: position after bump at {o}");
    ck!(st.tokens().is_empty(), "{label}: bump added a token");
    for (what, run, want) in [
        ("skip_ascii_whitespace", 0, t.as_bytes()[o..].iter().take_while(|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r')).count()),
        ("skip_ascii_digits", 1, t.as_bytes()[o..].iter().take_while(|b| b.is_ascii_digit()).count()),
        ("skip_ascii_ident_continue", 2, t.as_bytes()[o..].iter().take_while(|b| b.is_ascii_alphanumeric() || **b == b'_').count()),
        ("skip_until", 3, t.as_bytes()[o..].iter().take_while(|b| **b != b'\n').count()),
        ("take_while", 4, t[o..].chars().take_while(|c| c.is_alphabetic() || *c == '0').map(|c| c.len_utf8()).sum()),
        ("take_while_byte", 5, t.as_bytes()[o..].iter().take_while(|b| **b != b'"').count()),
    ] {
        let mut st = mk();
        let r = match run {
            0 => st.skip_ascii_whitespace(),
            1 => st.skip_ascii_digits(),
            2 => st.skip_ascii_ident_continue(),
            3 => st.skip_until(b'\n'),
            4 => st.take_while(|c| c.is_alphabetic() || c == '0'),
            _ => st.take_while_byte(|b| b != b'"'),
        };
        ckeq!((r.start, r.end), (o, o + want), "{label}: {what} at {o}");
        ckeq!(st.get_position(), o + want, "{label}: position after {what} at {o}");
        ck!(st.tokens().is_empty(), "{label}: {what} added a token");
    }
    for p in ["", "*", "*/", "//", "é", "aé", "é*", "/**/", "*/a"] {
        let mut st = mk();
        ckeq!(st.starts_with(p), t[o..].starts_with(p), "{label}: starts_with({p:?}) at {o}");
        ckeq!(st.consume_if_starts_with(p), t[o..].starts_with(p), "{label}: consume_if_starts_with({p:?}) at {o}");
        ckeq!(st.get_position(), if t[o..].starts_with(p) { o + p.len() } else { o }, "{label}: position after consume_if_starts_with({p:?}) at {o}");
    }
    let mut st = mk();
    st.advance_if_dead_lock(o);
    ckeq!(st.get_position(), o + n, "{label}: advance_if_dead_lock({o}) at {o}");
    st.advance_if_dead_lock(t.len() + 1);
    ckeq!(st.get_position(), o + n, "{label}: advance_if_dead_lock elsewhere");
    let mut st = mk();
    st.add_eof();
    ckeq!(toks(st.tokens()), vec![(T::Eof, o, o)], "{label}: add_eof at {o}");
    let mut st = mk();
    st.advance_with(Token { kind: T::Op, span: Range { start: o, end: o + n } });
    ckeq!(toks(st.get_tokens()), vec![(T::Op, o, o + n)], "{label}: advance_with at {o}");
    ckeq!(st.get_position(), o + n, "{label}: position after advance_with at {o}");
    Ok(())
}
fn everywhere(t: &str, pieces: &[&str], f: &dyn Fn(&dyn Source, &str, usize) -> Result<(), String>) -> Result<(), String> {
    for o in boundaries(t) {
        f(&SourceText::new(t), "contiguous", o)?;
        f(&chunked_of(pieces), "chunked", o)?;
        if pieces.len() <= 4 {
            f(&rope_of(pieces), "rope", o)?;
        }
    }
    Ok(())
}
const SCANS: &[Scan] = &[
    Scan::Ws(true),
    Scan::Ws(false),
    Scan::Ident,
    Scan::Comment { line: "//", open: "/*", close: "*/", nested: true },
    Scan::Comment { line: "//", open: "/*", close: "*/", nested: false },
    Scan::Comment { line: "", open: "/", close: "*", nested: true },
    Scan::Comment { line: "*", open: "/é", close: "é/", nested: true },
    Scan::Comment { line: "--", open: "", close: "", nested: false },
    Scan::Comment { line: "#", open: "/*", close: "", nested: true },
    Scan::Str { quotes: &['"', '\''], escape: Some('\\') },
    Scan::Str { quotes: &['"'], escape: None },
    Scan::Str { quotes: &['é', '"'], escape: Some('\\') },
    Scan::Str { quotes: &['"', '\''], escape: Some('é') },
    Scan::LineComment("//"),
    Scan::LineComment("é"),
    Scan::BlockComment("/*", "*/"),
    Scan::BlockComment("/", "é*"),
    Scan::BlockComment("/*", "**/"),
    Scan::BlockComment("a", "aab"),
];
pub fn p07(c: &mut Ctx) {
    let alphabets: [(&str, &[char], usize); 4] = [("strings", &['"', '\\', 'a', 'é'], 6), ("comments", &['/', '*', 'é', '\n'], 6), ("mixed", &['"', '\'', '\\', '/', ' ', '0'], 4), ("words", &['a', 'b', '_', ' ', '\u{a0}', '\t'], 4)];
    for (name, alpha, max) in alphabets {
        c.family(name);
        let max = if c.thorough { max + 1 } else { max };
        for (i, t) in all_texts(alpha, max).into_iter().enumerate() {
            let b = boundaries(&t);
            // every single cut for short texts, a rotating pair of cuts for the others
            let cuts: Vec<usize> = b.iter().copied().filter(|x| (x + i) % 3 == 0).collect();
            let pieces = split_at_all(&t, &cuts);
            c.case(
                || format!("text {t:?} pieces {pieces:?}, every scan from every position"),
                || {
                    for s in SCANS {
                        everywhere(&t, &pieces, &|src, l, o| check_scan(src, &t, s, o, l))?;
                    }
                    everywhere(&t, &pieces, &|src, l, o| check_steps(src, &t, o, l))
                },
            );
        }
    }
    c.family("bytes");
    for b in 0..=255u8 {
        c.case(
            || format!("byte {b}"),
            || {
                use oak_core::lexer::{scan_identifier::*, scan_number::*};
                ckeq!(is_ascii_ident_start(b), b == b'_' || b.is_ascii_alphabetic(), "is_ascii_ident_start");
                ckeq!(is_ascii_ident_continue(b), b == b'_' || b.is_ascii_alphanumeric(), "is_ascii_ident_continue");
                for n in 0..70 {
                    let v: Vec<u8> = (0..n).map(|i| b"0918f"[i % 4]).chain([b, b'7', b'F']).collect();
                    ckeq!(count_ascii_digit_prefix(&v), v.iter().take_while(|x| x.is_ascii_digit()).count(), "digits behind {n}");
                    ckeq!(count_ascii_hexdigit_prefix(&v), v.iter().take_while(|x| x.is_ascii_hexdigit()).count(), "hexdigits behind {n}");
                }
                let src = SourceText::new("ab".to_string());
                let mut st: LexerState<'_, SourceText, Toy> = LexerState::new(&src);
                st.set_position(1);
                st.add_token(T::Id, 0, 1);
                st.add_error(OakError::custom_error("e"));
                let out = st.finish(Ok(()));
                ckeq!(out.diagnostics.len(), 1, "errors");
                Ok(())
            },
        );
    }
    c.family("random");
    let mut rng = c.rng("p07");
    let alpha = ['a', 'b', '_', '0', '"', '\\', '/', '*', '\n', ' ', 'é', '漢', '😀', '\''];
    for _ in 0..c.n(6000, 150000) {
        let mut t = rng.text(&alpha, 40);
        if rng.chance(1, 3) {
            t.insert_str(0, *rng.pick(&["/*", "\"", "//", "/*/*"]));
        }
        let pieces = random_pieces(&t, &mut rng);
        c.case(
            || format!("text {t:?} pieces {pieces:?}"),
            || {
                for s in SCANS {
                    everywhere(&t, &pieces, &|src, l, o| check_scan(src, &t, s, o, l))?;
                }
                everywhere(&t, &pieces, &|src, l, o| check_steps(src, &t, o, l))
            },
        );
    }
    c.family("long");
    for _ in 0..c.n(120, 3000) {
        let mut t = long_text(&mut rng);
        for _ in 0..rng.range(0, 6) {
            let b = boundaries(&t);
            let i = *rng.pick(&b);
            t.insert_str(i, *rng.pick(&["/*", "*/", "\"", "\\\"", "\n", "//", " "]));
        }
        let head: &str = *rng.pick(&["/*", "\"", "//", "/*/*", "a", "'"]);
        t.insert_str(0, head);
        let pieces = random_pieces(&t, &mut rng);
        c.case(
            || format!("long text of {} bytes in {} pieces starting {:?}", t.len(), pieces.len(), t.chars().take(20).collect::<String>()),
            || {
                for s in SCANS {
                    check_scan(&SourceText::new(&t[..]), &t, s, 0, "contiguous")?;
                    check_scan(&chunked_of(&pieces), &t, s, 0, "chunked")?;
                    check_scan(&RopeBuffer::new(&t[..]), &t, s, 0, "rope")?;
                }
                Ok(())
            },
        );
    }
}

// ---- P06 -----------------------------------------------------------------------------------------
/// A cache that only answers token by token.
#[derive(Default)]
struct Plain(Option<LexOutput<Toy>>);
impl LexerCache<Toy> for Plain {
    fn set_lex_output(&mut self, output: LexOutput<Toy>) {
        self.0 = Some(output)
    }
    fn get_token(&self, index: usize) -> Option<Token<T>> {
        self.0.as_ref()?.result.as_ref().ok()?.get(index).copied()
    }
    fn count_tokens(&self) -> usize {
        self.0.as_ref().and_then(|o| o.result.as_ref().ok()).map(|t| t.len()).unwrap_or(0)
    }
    fn has_tokens(&self) -> bool {
        self.count_tokens() > 0
    }
}
/// A lexer made of the shared helpers; every token depends at most on the token after it.
fn toy_run<S: Source + ?Sized>(st: &mut LexerState<'_, S, Toy>) {
    while st.not_at_end() {
        if (WhitespaceConfig { unicode_whitespace: false }).scan(st, T::Ws) {
            continue;
        }
        if (CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true }).scan(st, T::LineC, T::BlockC) {
            continue;
        }
        if (StringConfig { quotes: &['"'], escape: Some('\\') }).scan(st, T::Str) {
            continue;
        }
        let start = st.get_position();
        let c = st.peek().unwrap();
        if c.is_alphabetic() {
            st.take_while(|c| c.is_alphanumeric());
            let end = st.get_position();
            let kind = if st.peek() == Some('(') { T::Call } else { T::Id };
            st.add_token(kind, start, end);
        }
        else if c.is_ascii_digit() {
            st.skip_ascii_digits();
            st.add_token(T::Num, start, st.get_position());
        }
        else if c == '(' || c == '*' || c == '/' {
            st.advance(1);
            st.add_token(T::Op, start, st.get_position());
        }
        else {
            st.bump();
            st.add_token(T::Err, start, st.get_position());
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Style {
    AddEof,
    NoEof,
    EofUnlessReused,
}
fn lex_into<S: Source + ?Sized, C: LexerCache<Toy>>(src: &S, from: usize, cache: &mut C, style: Style) -> Toks {
    lex_or_fail(src, from, cache, style, false)
}
/// A run that fails goes through the same motions and gives no tokens.
fn lex_or_fail<S: Source + ?Sized, C: LexerCache<Toy>>(src: &S, from: usize, cache: &mut C, style: Style, fails: bool) -> Toks {
    let mut st: LexerState<'_, S, Toy> = LexerState::new_with_cache(src, from, cache);
    let reused = st.tokens().len() > 0 && st.fully_reused();
    if !(style != Style::AddEof && reused) {
        toy_run(&mut st);
    }
    if style == Style::AddEof || (style == Style::EofUnlessReused && !reused) {
        st.add_eof();
    }
    if fails {
        let out = st.finish_with_cache(Err(oak_core::errors::OakError::custom_error("gave up")), cache);
        assert!(out.result.is_err(), "a run that failed has a result");
        return vec![];
    }
    let out = st.finish_with_cache(Ok(()), cache);
    toks(&out.result.unwrap())
}
fn check_tiling(ts: &Toks, t: &str, style: Style) -> Result<(), String> {
    let mut at = 0;
    for (i, (k, s, e)) in ts.iter().enumerate() {
        ck!(*s == at && *e >= *s, "token {i} {k:?} {s}..{e} does not continue at {at}");
        ck!(*e > *s || (*k == T::Eof && i + 1 == ts.len()), "token {i} {k:?} is empty");
        at = *e;
    }
    ckeq!(at, t.len(), "tokens end");
    ckeq!(ts.iter().filter(|x| x.0 == T::Eof).count(), if style == Style::NoEof { 0 } else { 1 }, "end-of-input tokens");
    Ok(())
}
#[derive(Clone, Debug)]
struct Step {
    at: usize,
    del: usize,
    ins: String,
    /// how far the reported edit offset lies before the first difference (in characters)
    slack: usize,
    report_unchanged: bool,
    /// the lexer gives up on this text
    fails: bool,
}
fn session(first: &str, steps: &[Step], style: Style, cache: &mut impl LexerCache<Toy>, rep: usize) -> Result<(), String> {
    let fresh = |t: &str| lex_into(&SourceText::new(t), 0, &mut Plain::default(), style);
    let with = |t: &str, from: usize, cache: &mut _, fails: bool| match rep {
        0 => lex_or_fail(&SourceText::new(t), from, cache, style, fails),
        1 => {
            let mut v = vec![];
            let mut r = t;
            while !r.is_empty() {
                let n = r.char_indices().nth(3).map(|x| x.0).unwrap_or(r.len());
                v.push(&r[..n]);
                r = &r[n..];
            }
            lex_or_fail(&chunked_of(&v), from, cache, style, fails)
        }
        _ => lex_or_fail(&RopeBuffer::new(t), from, cache, style, fails),
    };
    let mut doc = first.to_string();
    let got = with(&doc, 0, cache, false);
    ckeq!(got, fresh(&doc), "first lex of {doc:?}");
    check_tiling(&got, &doc, style)?;
    for (i, s) in steps.iter().enumerate() {
        let b = boundaries(&doc);
        let a = b[s.at % b.len()];
        let e = b[(s.at % b.len() + s.del).min(b.len() - 1)];
        let old = doc.clone();
        doc.replace_range(a..e, &s.ins);
        let nb: Vec<usize> = boundaries(&doc).into_iter().filter(|x| *x <= a).collect();
        let mut from = nb[nb.len() - 1 - s.slack.min(nb.len() - 1)];
        if doc == old && s.report_unchanged {
            from = doc.len();
        }
        let got = with(&doc, from, cache, s.fails);
        if s.fails {
            continue;
        }
        ckeq!(got, fresh(&doc), "step {i}: {old:?} -> {doc:?} relexed from {from}");
        check_tiling(&got, &doc, style).map_err(|m| format!("step {i}: {old:?} -> {doc:?} relexed from {from}: {m}"))?;
    }
    Ok(())
}
fn both(first: &str, steps: &[Step], style: Style, rep: usize) -> Result<(), String> {
    session(first, steps, style, &mut ParseSession::<Toy>::new(4), rep).map_err(|e| format!("parse session cache, {style:?}: {e}"))?;
    session(first, steps, style, &mut Plain::default(), rep).map_err(|e| format!("token-by-token cache, {style:?}: {e}"))
}
fn r_range(r: &mut Rng) -> usize {
    *r.pick(&[20, 60, 200])
}
pub fn p06(c: &mut Ctx) {
    c.family("one-edit-exhaustive");
    let small = ['a', ' ', '/', '*', '('];
    let styles = [Style::AddEof, Style::NoEof, Style::EofUnlessReused];
    for t in all_texts(&small, if c.thorough { 4 } else { 3 }) {
        let n = boundaries(&t).len();
        c.case(
            || format!("text {t:?}, every deletion and every insertion of up to two characters at every position, every admissible reported offset"),
            || {
                for at in 0..n {
                    for del in 0..n - at {
                        for ins in ["", "a", " ", "/", "*", "(", "ab", "a (", "*/", "/*"] {
                            for slack in 0..3 {
                                for style in styles {
                                    both(&t, &[Step { at, del, ins: ins.into(), slack, report_unchanged: true, fails: false }], style, 0)?;
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.family("sessions");
    let mut rng = c.rng("p06");
    let alpha = ['a', 'b', ' ', '\n', '/', '*', '"', '\\', '(', '1', 'é', '漢'];
    for _ in 0..c.n(120000, 1500000) {
        let t = rng.text(&alpha, 24);
        let steps: Vec<Step> = (0..rng.range(1, 6)).map(|_| Step { at: rng.below(64), del: if rng.chance(1, 3) { 0 } else { rng.below(8) }, ins: if rng.chance(1, 3) { String::new() } else { rng.text(&alpha, 6) }, slack: rng.below(4) * rng.below(3), report_unchanged: rng.chance(1, 2), fails: rng.chance(1, 12) }).collect();
        let style = *rng.pick(&styles);
        let rep = rng.below(3);
        c.case(|| format!("{t:?} then {steps:?}, source kind {rep}"), || both(&t, &steps, style, rep));
    }
    c.family("long sessions");
    for _ in 0..c.n(150, 3000) {
        let mut t = String::new();
        for _ in 0..r_range(&mut rng) {
            t.push_str(&rng.text(&alpha, 24));
        }
        let steps: Vec<Step> = (0..rng.range(1, 25)).map(|_| Step { at: rng.below(1 << 20), del: *rng.pick(&[0, 0, 1, 5, 300]), ins: if rng.chance(1, 3) { String::new() } else if rng.chance(1, 8) { rng.text(&alpha, 900) } else { rng.text(&alpha, 6) }, slack: rng.below(40) * rng.below(3), report_unchanged: rng.chance(1, 2), fails: rng.chance(1, 12) }).collect();
        let style = *rng.pick(&styles);
        let rep = rng.below(3);
        c.case(|| format!("{t:?} then {steps:?}, source kind {rep}"), || both(&t, &steps, style, rep));
    }
    c.family("helpers");
    // tokens come only from where they are scanned: the helpers neither skip nor repeat text
    for _ in 0..c.n(12000, 200000) {
        let t = rng.text(&alpha, 40);
        let pieces = random_pieces(&t, &mut rng);
        c.case(|| format!("{t:?} pieces {pieces:?}"), || check_tiling(&lex_into(&chunked_of(&pieces), 0, &mut Plain::default(), Style::AddEof), &t, Style::AddEof));
    }
}
#[allow(dead_code)]
fn _c(_: Cow<'_, str>) {}
