//! P13: parse sessions against a model that keeps copies of the committed tree and the tokens.
use crate::{common::*, session::*, toy::*, tree::*};
use oak_core::{
    OakDiagnostics, OakError,
    lexer::{LexOutput, LexerCache},
    memory::arena::SyntaxArena,
    parser::{ParseCache, parse_with_lexer, session::ParseSession},
    source::{SourceText, TextEdit},
    tree::{GreenLeaf, GreenNode, GreenTree},
};

#[derive(Debug, Clone)]
enum O {
    /// A parse; what becomes of it; through a reference to the session or not
    Parse(String, bool, bool),
    Prepare,
    /// Trees built by hand, the last of them committed or not
    Build(usize, bool),
    Lex(String, bool),
}
/// Gives memory that was handed back to others, who write into it.
fn churn() {
    let arenas: Vec<_> = (0..4).map(|_| SyntaxArena::new(1)).collect();
    for a in &arenas {
        for _ in 0..3 {
            a.alloc_slice_copy(&[0xAAu8; 20_000]);
        }
    }
}
fn flat(o: &LexOutput<Toy>) -> (Option<Vec<(T, usize, usize)>>, usize) {
    (o.result.as_ref().ok().map(|t| t.iter().map(|t| (t.kind, t.span.start, t.span.end)).collect()), o.diagnostics.len())
}
#[derive(Default)]
struct Model {
    root: Option<M>,
    root_text: String,
    /// a generation was prepared
    old: bool,
    lex: Option<(Option<Vec<(T, usize, usize)>>, usize)>,
}
fn look<C: ParseCache<Toy>>(c: &C, m: &Model) -> Result<(), String> {
    let got = c.old_tree().map(|n| plain(GreenTree::Node(n)));
    ckeq!(got, if m.old { m.root.clone() } else { None }, "tree handed out for reuse");
    ckeq!(c.lex_output().map(flat), m.lex, "lexer output");
    let toks = m.lex.as_ref().and_then(|l| l.0.clone());
    ckeq!(c.get_tokens().map(|t| t.iter().map(|t| (t.kind, t.span.start, t.span.end)).collect::<Vec<_>>()), toks, "tokens");
    let n = toks.as_ref().map_or(0, |t| t.len());
    ckeq!(c.count_tokens(), n, "number of tokens");
    ckeq!(c.has_tokens(), n > 0, "whether there are tokens");
    for i in 0..=n + 1 {
        ckeq!(c.get_token(i).map(|t| (t.kind, t.span.start, t.span.end)), toks.as_ref().and_then(|t| t.get(i).copied()), "token {i}");
    }
    Ok(())
}
fn agree(s: &mut ParseSession<Toy>, m: &Model, step: usize) -> Result<(), String> {
    churn();
    ckeq!(s.last_root().map(|n| plain(GreenTree::Node(n))), m.root, "last root behind step {step}");
    look(s, m)?;
    look(&&mut *s, m)
}
fn build<'a>(a: &'a SyntaxArena, n: usize) -> &'a GreenNode<'a, Toy> {
    let mut kids: Vec<GreenTree<'a, Toy>> = vec![];
    for i in 0..n {
        let leaf = GreenTree::Leaf(GreenLeaf::new(KIND[i % 3], i as u32 % 5));
        let inner: &GreenNode<Toy> = a.alloc(GreenNode::new(E::Item, a.alloc_slice_copy(&[leaf; 3][..i % 4])));
        kids.push(leaf);
        kids.push(GreenTree::Node(inner));
    }
    a.alloc(GreenNode::new(E::List, a.alloc_slice_copy(&kids)))
}
const KIND: [T; 3] = [T::Id, T::Ws, T::Num];
fn parse<'a, C: ParseCache<Toy>>(c: &'a mut C, src: &'a SourceText, edits: &[TextEdit], g: Grammar, ok: bool) -> Result<Option<M>, String> {
    let out = parse_with_lexer(&L, src, edits, c, |st| {
        let r = root(g, st);
        if ok { Ok(r) } else { Err(OakError::syntax_error("given up", 0, None)) }
    });
    ckeq!(out.result.is_ok(), ok, "outcome of the parse");
    Ok(out.result.ok().map(|n| plain(GreenTree::Node(n))))
}
fn run(g: Grammar, ops: &[O], cap: usize) -> Result<(), String> {
    let mut s = if cap == 16 { ParseSession::<Toy>::default() } else { ParseSession::new(cap) };
    let mut m = Model::default();
    agree(&mut s, &m, 0)?;
    for (i, o) in ops.iter().enumerate() {
        match o {
            O::Parse(text, ok, by_ref) => {
                let src = SourceText::new(text.clone());
                // the edits lead from the last committed text to this one
                let edits = match &m.root {
                    Some(_) => to_edits(&[(0, m.root_text.len(), text.clone())]),
                    None => vec![],
                };
                let tree = if *by_ref { parse(&mut &mut s, &src, &edits, g, *ok)? } else { parse(&mut s, &src, &edits, g, *ok)? };
                m.old = true;
                m.lex = Some(flat(&lex(text)));
                if let Some(t) = tree {
                    ckeq!(t, fresh(g, text), "tree");
                    m.root = Some(t);
                    m.root_text = text.clone();
                }
            }
            O::Prepare => {
                s.prepare_generation();
                m.old = true;
                m.lex = None;
            }
            O::Build(n, commit) => {
                let t = build(s.arena(), *n);
                if *commit {
                    s.commit_generation(t);
                    m.root = Some(plain(GreenTree::Node(t)));
                    m.root_text = "x".repeat(t.text_len() as usize);
                }
            }
            O::Lex(text, ok) => {
                let mut out = lex(text);
                if !ok {
                    out = OakDiagnostics { result: Err(OakError::syntax_error("no tokens", 0, None)), diagnostics: vec![OakError::syntax_error("no tokens", 1, None)] };
                }
                m.lex = Some(flat(&out));
                s.set_lex_output(out);
            }
        }
        agree(&mut s, &m, i + 1)?;
    }
    Ok(())
}
pub fn p13(c: &mut Ctx) {
    c.family("small");
    let kinds = [O::Parse("ab (1)".into(), true, false), O::Parse("1,2 x".into(), false, true), O::Prepare, O::Build(3, true), O::Build(70, false), O::Lex("a b".into(), true)];
    let most = if c.thorough { 6 } else { 5 };
    for n in 1..=most {
        for code in 0..kinds.len().pow(n as u32) {
            let ops: Vec<O> = (0..n).map(|i| kinds[code / kinds.len().pow(i as u32) % kinds.len()].clone()).collect();
            c.case(|| format!("{ops:?}"), || run(Grammar { eof: true, opt: false }, &ops, 16));
        }
    }
    c.family("random");
    let alphabet = ['a', 'b', '1', ' ', '\n', '(', ')', ',', ';'];
    let mut r = c.rng("random");
    for _ in 0..c.n(6_000, 60_000) {
        let ops: Vec<O> = (0..r.range(1, 14))
            .map(|_| match r.below(8) {
                0..=3 => {
                    let max = *r.pick(&[5, 20, 200, 3000]);
                    O::Parse(r.text(&alphabet, max), r.chance(2, 3), r.chance(1, 2))
                }
                4 => O::Prepare,
                5 | 6 => O::Build(*r.pick(&[0, 1, 5, 50, 1500]), r.chance(1, 2)),
                _ => O::Lex(r.text(&alphabet, 8), r.chance(2, 3)),
            })
            .collect();
        let (g, cap) = (Grammar { eof: r.chance(1, 2), opt: r.chance(1, 2) }, *r.pick(&[0, 1, 16, 100]));
        c.case(|| format!("{g:?} {cap} {ops:?}"), || run(g, &ops, cap));
    }
    c.family("long");
    for _ in 0..c.n(12, 100) {
        let ops: Vec<O> = (0..r.range(2, 6))
            .map(|_| match r.below(3) {
                0 => O::Build(r.range(3000, 12_000), r.chance(1, 2)),
                1 => O::Prepare,
                _ => O::Parse(r.text(&alphabet, 30_000), r.chance(2, 3), r.chance(1, 2)),
            })
            .collect();
        c.case(|| format!("{ops:?}"), || run(Grammar { eof: true, opt: false }, &ops, 16));
    }
    // more generations than any small number
    for _ in 0..c.n(4, 40) {
        let ops: Vec<O> = (0..400).map(|_| if r.chance(1, 4) { O::Prepare } else { O::Parse(r.text(&alphabet, 12), r.chance(1, 2), r.chance(1, 2)) }).collect();
        c.case(|| format!("{ops:?}"), || run(Grammar { eof: true, opt: false }, &ops, 16));
    }
}
