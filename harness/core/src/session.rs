//! P12: reparsing with the previous tree against parsing from scratch.
use crate::{common::*, toy::*, tree::*};
use core::range::Range;
use oak_core::{
    OakDiagnostics, OakError,
    lexer::{LexOutput, Lexer, LexerCache, Token},
    memory::arena::SyntaxArena,
    parser::{ParserState, parse_with_lexer, session::ParseSession},
    source::{Source, SourceText, TextEdit},
    tree::{GreenNode, GreenTree},
};

pub fn plain<'a>(t: GreenTree<'a, Toy>) -> M {
    match t {
        GreenTree::Leaf(l) => M::L(l.kind, l.length),
        GreenTree::Node(n) => M::N(n.kind, n.children().iter().map(|c| plain(*c)).collect()),
    }
}
/// Words, numbers, blanks and single characters; the kind of a word depends on the character behind it.
pub fn lex(s: &str) -> LexOutput<Toy> {
    let b = s.as_bytes();
    let mut v: Vec<Token<T>> = vec![];
    let mut i = 0;
    while i < b.len() {
        let a = i;
        let run = |f: fn(&u8) -> bool| b[a..].iter().take_while(|c| f(c)).count();
        let kind = match b[a] {
            b' ' => {
                i += run(|c| *c == b' ');
                T::Ws
            }
            c if c.is_ascii_alphabetic() => {
                i += run(|c| c.is_ascii_alphabetic());
                if b.get(i) == Some(&b'(') { T::Call } else { T::Id }
            }
            c if c.is_ascii_digit() => {
                i += run(|c| c.is_ascii_digit());
                T::Num
            }
            c => {
                i += 1;
                match c {
                    b'\n' => T::Nl,
                    b'(' => T::Str,
                    b')' => T::Err,
                    _ => T::Op,
                }
            }
        };
        v.push(Token { kind, span: Range { start: a, end: i } });
    }
    v.push(Token { kind: T::Eof, span: Range { start: i, end: i } });
    OakDiagnostics { result: Ok(v.into()), diagnostics: vec![] }
}
/// Which parts of the grammar are marked for reuse.
#[derive(Clone, Copy, Debug)]
pub struct Grammar {
    /// trivia behind the end-of-input token, and that token itself, belong to the root
    pub eof: bool,
    pub opt: bool,
}
type St<'a, S> = ParserState<'a, Toy, S>;
/// An operator, if there is one; what follows depends on whether there was.
fn sign<'a, S: Source + ?Sized>(st: &mut St<'a, S>) -> bool {
    st.incremental_opt(E::Error, |st| {
        if st.at(T::Op) {
            st.bump();
            Ok(true)
        }
        else {
            Ok(false)
        }
    })
    .unwrap()
}
fn item<'a, S: Source + ?Sized>(g: Grammar, st: &mut St<'a, S>) -> Result<(), OakError> {
    let body = |st: &mut St<'a, S>| {
        match st.peek_kind() {
            // a word in front of a bracket takes the bracket with it
            Some(T::Call) => {
                st.bump();
                st.incremental_node(E::List, |st| {
                    list(g, st);
                    Ok(())
                })?;
            }
            Some(T::Str) => list(g, st),
            // a number may take an operator and another item behind it
            Some(T::Num) => {
                let even = st.peek_text().is_some_and(|t| t.ends_with('2'));
                let c = st.checkpoint();
                st.bump();
                if even {
                    st.finish_at(c, E::Pre);
                }
                if st.eat(T::Op) && !matches!(st.peek_kind(), None | Some(T::Eof) | Some(T::Err)) {
                    item(g, st)?;
                }
            }
            // a word is wrapped once more for each k it starts with
            Some(T::Id) => {
                let ks = st.peek_text().map_or(0, |t| t.bytes().take_while(|b| *b == b'k').count());
                let c = st.checkpoint();
                st.bump();
                for _ in 0..ks {
                    st.finish_at(c, E::Pre);
                }
            }
            Some(T::Err) if g.opt => {
                st.bump();
                return Err(OakError::custom_error("bracket"));
            }
            _ => st.bump(),
        }
        Ok(())
    };
    if g.opt {
        let c = st.checkpoint();
        if sign(st) {
            if st.at(T::Num) {
                item(g, st)?;
            }
            st.finish_at(c, E::Bin);
            return Ok(());
        }
        else if st.at(T::Op) {
            return Err(OakError::custom_error("an operator was there"));
        }
    }
    let kind = match st.peek_kind() {
        Some(T::Id | T::Call) => E::Item,
        Some(T::Num) => E::Expr,
        _ => E::Post,
    };
    if g.opt { st.incremental_opt(kind, |st| body(st).map(|_| true)).map(|_| ()) } else { st.incremental_node(kind, body) }
}
fn list<'a, S: Source + ?Sized>(g: Grammar, st: &mut St<'a, S>) {
    st.expect(T::Str).ok();
    while !matches!(st.peek_kind(), None | Some(T::Eof) | Some(T::Err)) {
        item(g, st).ok();
    }
    st.expect(T::Err).ok();
}
pub fn root<'a, S: Source + ?Sized>(g: Grammar, st: &mut St<'a, S>) -> &'a GreenNode<'a, Toy> {
    while st.not_at_end() && !st.at(T::Eof) {
        item(g, st).ok();
    }
    if g.eof {
        st.bump()
    }
    st.finish_at((0, 0), E::Root)
}
pub struct L;
impl Lexer<Toy> for L {
    fn lex<'a, S: Source + ?Sized>(&self, text: &'a S, _: &[TextEdit], _: &'a mut impl LexerCache<Toy>) -> LexOutput<Toy> {
        lex(&text.get_text_in(Range { start: 0, end: text.length() }))
    }
}
pub fn fresh(g: Grammar, text: &str) -> M {
    let arena = SyntaxArena::new(16);
    let src = SourceText::new(text.to_string());
    let mut st = ParserState::new(&arena, lex(text), &src, 16);
    plain(GreenTree::Node(root(g, &mut st)))
}
pub type Ed = (usize, usize, String);
pub fn to_edits(e: &[Ed]) -> Vec<TextEdit> {
    e.iter().map(|e| TextEdit { span: Range { start: e.0, end: e.1 }, text: e.2.clone().into() }).collect()
}
pub fn apply(doc: &str, edits: &[Ed]) -> String {
    let mut out = String::new();
    let mut at = 0;
    for e in edits {
        out.push_str(&doc[at..e.0]);
        out.push_str(&e.2);
        at = e.1;
    }
    out.push_str(&doc[at..]);
    out
}
fn shuffled(edits: &[Ed], how: u64) -> Vec<Ed> {
    // edits with the same start keep their order
    let mut v = edits.to_vec();
    if how % 2 == 1 && edits.windows(2).all(|w| w[0].0 != w[1].0) {
        v.reverse()
    }
    v
}
fn session(g: Grammar, first: &str, batches: &[Vec<Ed>], how: u64) -> Result<(), String> {
    // parser states by hand
    let arenas: Vec<_> = (0..=batches.len()).map(|_| SyntaxArena::new(16)).collect();
    let mut docs = vec![first.to_string()];
    for b in batches {
        docs.push(apply(docs.last().unwrap(), b));
    }
    let srcs: Vec<_> = docs.iter().map(|d| SourceText::new(d.clone())).collect();
    let mut st = ParserState::new(&arenas[0], lex(&docs[0]), &srcs[0], 16);
    let mut old = root(g, &mut st);
    let mut cache = ParseSession::<Toy>::new(4);
    let out = parse_with_lexer(&L, &srcs[0], &[], &mut cache, |st| Ok(root(g, st)));
    ckeq!(plain(GreenTree::Node(out.result.unwrap())), fresh(g, &docs[0]), "first parse of {:?} in a session", docs[0]);
    for (i, b) in batches.iter().enumerate() {
        let (doc, next) = (&docs[i], &docs[i + 1]);
        let want = fresh(g, next);
        let edits = shuffled(b, how >> i);
        let mut st = ParserState::new(&arenas[i + 1], lex(next), &srcs[i + 1], 16);
        st.set_incremental(old, &to_edits(&edits));
        let new = root(g, &mut st);
        ckeq!(plain(GreenTree::Node(new)), want, "batch {i}: {doc:?} to {next:?} by {edits:?}");
        ckeq!(new.text_len() as usize, next.len(), "length of the root");
        let out = parse_with_lexer(&L, &srcs[i + 1], &to_edits(&edits), &mut cache, |st| Ok(root(g, st)));
        ckeq!(plain(GreenTree::Node(out.result.unwrap())), want, "batch {i} in a session: {doc:?} to {next:?} by {edits:?}");
        old = new;
    }
    Ok(())
}
fn batch(r: &mut Rng, len: usize, alphabet: &[char]) -> Vec<Ed> {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 4]);
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| r.below(len + 1)).collect();
    cuts.sort();
    let mut v: Vec<Ed> = vec![];
    for c in cuts.chunks(2) {
        let end = if r.chance(1, 2) { c[0] } else { c[1].min(c[0] + 4) };
        // a second edit at the start of another only after an insertion
        if v.last().is_some_and(|l| l.0 == c[0] && l.1 > c[0]) {
            continue;
        }
        let text = if r.chance(1, 4) { String::new() } else { r.text(alphabet, 3) };
        v.push((c[0], end, text));
    }
    v
}
pub fn p12(c: &mut Ctx) {
    let all: Vec<Grammar> = (0..4).map(|k| Grammar { eof: k & 1 == 0, opt: k & 2 == 2 }).collect();
    c.family("one-edit-exhaustive");
    for t in all_texts(&['k', '1', ' ', '(', ')', ','], if c.thorough { 5 } else { 4 }) {
        c.case(
            || format!("text {t:?}, every deletion and every insertion of up to two characters at every position"),
            || {
                for a in 0..=t.len() {
                    for e in a..=t.len() {
                        for ins in ["", "a", "k", "1", "2", " ", "(", ")", ",", "1,", "a("] {
                            let edit = (a, e, ins.to_string());
                            session(all[(a + e) % 2], &t, &[vec![edit]], 0)?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
    c.family("sessions");
    let alphabet = ['a', 'b', 'k', '1', '2', ' ', '\n', '(', ')', ',', ';'];
    let mut r = c.rng("sessions");
    for _ in 0..c.n(60_000, 600_000) {
        let max = *r.pick(&[6, 12, 12, 30, 30, 200]);
        let first = r.text(&alphabet, max);
        let mut len = first.len();
        let mut doc = first.clone();
        let batches: Vec<_> = (0..r.range(1, 4))
            .map(|_| {
                let b = batch(&mut r, len, &alphabet);
                doc = apply(&doc, &b);
                len = doc.len();
                b
            })
            .collect();
        let g = *r.pick(&all);
        let how = r.next();
        c.case(|| format!("{g:?} {first:?} {batches:?}"), || session(g, &first, &batches, how));
    }
    c.family("long sessions");
    for _ in 0..c.n(150, 2000) {
        let max = *r.pick(&[300, 1500, 4000]);
        let first = r.text(&alphabet, max);
        let mut doc = first.clone();
        let batches: Vec<_> = (0..r.range(1, 10))
            .map(|_| {
                let mut b: Vec<Ed> = vec![];
                let mut at = 0;
                for _ in 0..r.range(1, 30) {
                    let k = at + 1 + r.below(doc.len() / 8 + 2);
                    if k > doc.len() {
                        break;
                    }
                    let e = (k + if r.chance(1, 10) { r.below(200) } else { r.below(4) }).min(doc.len());
                    let ins = *r.pick(&[0, 1, 1, 3, 60]);
                    b.push((k, e, r.text(&alphabet, ins)));
                    at = e;
                }
                doc = apply(&doc, &b);
                b
            })
            .collect();
        let g = *r.pick(&all);
        let how = r.next();
        c.case(|| format!("{g:?} {first:?} {batches:?}"), || session(g, &first, &batches, how));
    }
}
