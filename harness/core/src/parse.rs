//! P10, P11: the parser state and operator parsing against plain models.
use crate::{common::*, toy::*, tree::*};
use oak_core::{
    OakDiagnostics, OakError,
    errors::OakErrorKind,
    language::TokenType,
    lexer::Token,
    memory::arena::SyntaxArena,
    parser::{ParserState, state::{TokenSource, TreeSink}},
    source::{Source, SourceText},
    tree::{GreenNode, GreenTree, ProvenancePart, TokenProvenance},
};

pub const KINDS: [T; 9] = [T::Ws, T::Nl, T::Id, T::Call, T::Num, T::Str, T::LineC, T::BlockC, T::Op];

#[derive(Debug, Clone)]
enum P {
    Bump,
    Eat(T),
    Expect(T),
    Advance,
    Until(T),
    UntilAny(Vec<T>),
    Skip,
    Record(u8),
    Try(Vec<P>, bool, bool),
    Back(Vec<P>),
    Wrap(Vec<P>, E),
    Before(usize, E),
    Push(usize),
}
fn program(r: &mut Rng, depth: usize, toks: &[(T, usize)]) -> Vec<P> {
    let n = r.below(6) + if depth == 0 { 3 } else { 0 };
    let kind = |r: &mut Rng| if toks.is_empty() || r.chance(1, 4) { *r.pick(&KINDS) } else { r.pick(toks).0 };
    (0..n)
        .map(|_| match r.below(if depth < 4 { 18 } else { 12 }) {
            0..=3 => P::Bump,
            4 => P::Eat(kind(r)),
            5 => P::Expect(kind(r)),
            6 => P::Advance,
            7 => {
                if r.chance(1, 2) {
                    P::Until(kind(r))
                }
                else {
                    let n = r.below(3);
                    P::UntilAny((0..n).map(|_| kind(r)).collect())
                }
            }
            8 => P::Skip,
            9 => P::Record(r.below(7) as u8),
            10 => P::Before(r.below(8), *r.pick(&[E::Bin, E::Post])),
            11 => P::Push(r.below(8)),
            12 | 13 => {
                let (a, b) = (r.chance(1, 2), r.chance(1, 2));
                P::Try(program(r, depth + 1, toks), a, b)
            }
            14 => P::Back(program(r, depth + 1, toks)),
            _ => P::Wrap(program(r, depth + 1, toks), *r.pick(&[E::List, E::Item, E::Expr])),
        })
        .collect()
}
struct Model {
    toks: Vec<(T, usize, usize)>,
    len: usize,
    i: usize,
    kids: Vec<(usize, M)>,
    errs: Vec<usize>,
    next: usize,
    fail: Option<String>,
}
impl Model {
    fn cur(&self) -> Option<T> {
        self.toks.get(self.i).map(|t| t.0)
    }
    fn here(&self) -> usize {
        self.toks.get(self.i).map(|t| t.1).unwrap_or(self.len)
    }
    fn leaf(&mut self) {
        if let Some(t) = self.toks.get(self.i) {
            self.kids.push((0, M::L(t.0, t.2 as u32)))
        }
    }
    fn trivia(&mut self) {
        while self.cur().is_some_and(|k| k.is_ignored()) {
            self.leaf();
            self.i += 1
        }
    }
    fn advance(&mut self) {
        self.i += 1;
        self.trivia()
    }
    fn bump(&mut self) {
        if self.cur().is_some() {
            self.leaf();
            self.advance()
        }
    }
    fn wrap(&mut self, at: usize, k: E) -> usize {
        let c = self.kids.split_off(at).into_iter().map(|x| x.1).collect();
        self.next += 1;
        self.kids.push((self.next, M::N(k, c)));
        self.next
    }
}
fn at(e: &OakError) -> usize {
    match e.kind() {
        OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedToken { offset, .. } | OakErrorKind::UnexpectedEof { offset, .. } | OakErrorKind::ExpectedToken { offset, .. } | OakErrorKind::ExpectedName { offset, .. } | OakErrorKind::TrailingCommaNotAllowed { offset, .. } => *offset,
        k => panic!("unexpected error {k:?}"),
    }
}
/// The source an error says it is in.
fn file(e: &OakError) -> Option<u32> {
    match e.kind() {
        OakErrorKind::SyntaxError { source_id, .. } | OakErrorKind::UnexpectedToken { source_id, .. } | OakErrorKind::UnexpectedEof { source_id, .. } | OakErrorKind::ExpectedToken { source_id, .. } | OakErrorKind::ExpectedName { source_id, .. } | OakErrorKind::TrailingCommaNotAllowed { source_id, .. } => *source_id,
        k => panic!("unexpected error {k:?}"),
    }
}
type St<'a> = ParserState<'a, Toy, SourceText>;
type Nodes<'a> = Vec<(usize, &'a GreenNode<'a, Toy>)>;
fn agree(st: &St, m: &Model, p: &P) -> Result<(), String> {
    ckeq!(st.checkpoint(), (m.i, m.kids.len()), "position and number of trees after {p:?}");
    ckeq!(st.peek_kind(), m.cur(), "peek_kind after {p:?}");
    ckeq!(st.current().map(|t| (t.kind, t.span.start)), m.cur().map(|k| (k, m.here())), "current after {p:?}");
    ckeq!(st.not_at_end(), m.cur().is_some(), "not_at_end after {p:?}");
    ckeq!(st.current_offset(), m.here(), "current_offset after {p:?}");
    ckeq!(st.errors.iter().map(at).collect::<Vec<_>>(), m.errs, "errors after {p:?}");
    ck!(st.errors.iter().all(|e| file(e) == st.source_id()), "the source of the errors {:?} after {p:?}", st.errors);
    ckeq!(st.peek_text().map(|t| t.to_string()), m.toks.get(m.i).map(|t| st.source.get_text_in((t.1..t.1 + t.2).into()).to_string()), "peek_text after {p:?}");
    let seen: Vec<T> = m.toks.iter().skip(m.i).map(|t| t.0).filter(|k| !k.is_ignored()).collect();
    for d in 0..4 {
        ckeq!(st.peek_kind_at(d), m.toks.get(m.i + d).map(|t| t.0), "peek_kind_at({d}) after {p:?}");
        ckeq!(st.peek_non_trivia_kind_at(d), seen.get(d).copied(), "peek_non_trivia_kind_at({d}) after {p:?}");
    }
    for k in KINDS {
        ckeq!((st.at(k), st.not_at(k)), (m.cur() == Some(k), m.cur() != Some(k)), "at({k:?}) after {p:?}");
    }
    Ok(())
}
fn run<'a>(st: &mut St<'a>, m: &mut Model, nodes: &mut Nodes<'a>, prog: &[P]) {
    for p in prog {
        if m.fail.is_some() {
            return;
        }
        if let Err(e) = one(st, m, nodes, p).and_then(|_| agree(st, m, p)) {
            m.fail.get_or_insert(e);
        }
    }
}
fn one<'a>(st: &mut St<'a>, m: &mut Model, nodes: &mut Nodes<'a>, p: &P) -> Result<(), String> {
    match p {
        P::Bump => {
            st.bump();
            m.bump()
        }
        P::Eat(k) => {
            let want = m.cur() == Some(*k);
            ckeq!(st.eat(*k), want, "eat({k:?})");
            if want {
                m.bump()
            }
        }
        P::Expect(k) => {
            let want = m.cur() == Some(*k);
            match st.expect(*k) {
                Ok(()) => ck!(want, "expect({k:?}) accepted {:?}", m.cur()),
                Err(e) => {
                    ck!(!want, "expect({k:?}) refused");
                    ckeq!((at(&e), file(&e)), (m.here(), st.source_id()), "place of expect's error")
                }
            }
            if want { m.bump() } else { m.errs.push(m.here()) }
        }
        P::Advance => {
            st.advance();
            m.advance()
        }
        P::Until(k) => {
            st.advance_until(*k);
            while m.cur().is_some() && m.cur() != Some(*k) {
                m.advance()
            }
        }
        P::UntilAny(ks) => {
            st.advance_until_any(ks);
            while m.cur().is_some_and(|c| !ks.contains(&c)) {
                m.advance()
            }
        }
        P::Skip => {
            st.skip_trivia();
            m.trivia()
        }
        P::Record(n) => {
            let mut o = m.here();
            match n {
                0 => ckeq!(at(&st.syntax_error("x")), o, "syntax_error"),
                1 => st.record_unexpected_token("x"),
                2 => st.record_expected("x"),
                3 => st.record_expected_name("x"),
                4 => st.record_trailing_comma_not_allowed(),
                5 => {
                    o = m.len;
                    st.record_unexpected_eof()
                }
                _ => {
                    o = m.len;
                    ckeq!(at(&st.unexpected_eof()), o, "unexpected_eof")
                }
            }
            m.errs.push(o)
        }
        P::Try(q, ok, other) => {
            let (i, n) = (m.i, m.kids.len());
            let known = nodes.len();
            let f = |s: &mut St<'a>| {
                run(s, m, nodes, q);
                if *ok { Ok(7) } else { Err(OakError::custom_error("no")) }
            };
            let r = if *other { st.try_parse(f) } else { st.try_parse_with_error(f) };
            ckeq!(r.ok(), ok.then_some(7), "result of an attempt");
            if !ok {
                m.i = i;
                m.kids.truncate(n);
                nodes.truncate(known);
            }
        }
        P::Back(q) => {
            let (i, n) = (m.i, m.kids.len());
            let cp = st.checkpoint();
            run(st, m, nodes, q);
            st.restore(cp);
            m.i = i;
            m.kids.truncate(n);
        }
        P::Wrap(q, k) => {
            let n = m.kids.len();
            let cp = st.checkpoint();
            run(st, m, nodes, q);
            let g = st.finish_at(cp, *k);
            let id = m.wrap(n, *k);
            ck!(same(&m.kids[n].1, &GreenTree::Node(g)), "finished node {g:?} instead of {:?}", m.kids[n].1);
            nodes.push((id, g));
        }
        // only trees above every open checkpoint may be wrapped: a fresh node, directly
        P::Before(n, k) => {
            let start = m.kids.len();
            let cp = st.checkpoint();
            run(st, m, nodes, &vec![P::Bump; n % 3]);
            let inner = st.finish_at(cp, E::Item);
            let id = m.wrap(start, E::Item);
            for _ in 0..n / 3 {
                st.bump();
                m.bump()
            }
            let cp = st.checkpoint_before(inner);
            let want = m.kids.iter().rposition(|x| x.0 == id).unwrap();
            ckeq!(cp.1, want, "checkpoint before a node");
            let g = st.finish_at(cp, *k);
            let at = m.wrap(want, *k);
            ck!(same(&m.kids[want].1, &GreenTree::Node(g)), "wrapped node {g:?}");
            nodes.push((at, g));
            let gone = st.checkpoint_before(inner);
            ckeq!(gone.1, m.kids.len(), "checkpoint before a node that is no longer on top");
        }
        P::Push(n) => {
            let a = st.arena();
            let g: &'a GreenNode<'a, Toy> = a.alloc(GreenNode::new(E::Error, a.alloc_slice_copy(&[])));
            for _ in 0..n % 3 {
                st.push_child(g);
                m.next += 1;
                m.kids.push((m.next, M::N(E::Error, vec![])));
            }
        }
    }
    Ok(())
}
pub fn lexed(toks: &[(T, usize)]) -> (SourceText, Vec<Token<T>>) {
    let mut p = 0;
    let v = toks
        .iter()
        .map(|&(kind, n)| {
            p += n;
            Token { kind, span: (p - n..p).into() }
        })
        .collect();
    (SourceText::new_with_id(('a'..='w').cycle().take(p).collect::<String>(), 7), v)
}
fn session(toks: &[(T, usize)], prog: &[P], broken: u8) -> Result<(), String> {
    let (src, v) = lexed(toks);
    let arena = SyntaxArena::new(64);
    let out = if broken == 1 { OakDiagnostics { result: Err(OakError::syntax_error("a", 3, Some(7))), diagnostics: vec![OakError::syntax_error("b", 5, Some(7))] } } else { OakDiagnostics { result: Ok(v.clone().into()), diagnostics: if broken == 2 { vec![OakError::syntax_error("b", 5, Some(7))] } else { vec![] } } };
    let mut st: St = ParserState::new(&arena, out, &src, 16);
    let mut m = Model { toks: if broken == 1 { vec![] } else { v.iter().map(|t| (t.kind, t.span.start, t.span.end - t.span.start)).collect() }, len: src.length(), i: 0, kids: vec![], errs: [vec![], vec![3, 5], vec![5]][broken as usize].clone(), next: 0, fail: None };
    m.trivia();
    agree(&st, &m, &P::Skip)?;
    let mut nodes = vec![];
    run(&mut st, &mut m, &mut nodes, prog);
    if let Some(e) = m.fail {
        return Err(e);
    }
    // the rest of the text, then the root
    while st.not_at_end() {
        st.bump();
        m.bump();
    }
    let root = st.finish_at((0, 0), E::Root);
    m.wrap(0, E::Root);
    ck!(same(&m.kids[0].1, &GreenTree::Node(root)), "tree {root:?} instead of {:?}", m.kids[0].1);
    ckeq!(root.text_len() as usize, m.kids[0].1.len(), "length of the root");
    let out = st.finish(Ok(root));
    ck!(out.result.is_ok_and(|r| std::ptr::eq(r, root)), "root handed out");
    ckeq!(out.diagnostics.iter().map(at).collect::<Vec<_>>(), m.errs, "diagnostics handed out");
    Ok(())
}
pub fn tokens(r: &mut Rng, max: usize) -> Vec<(T, usize)> {
    let n = r.below(max + 1);
    (0..n).map(|_| (*r.pick(&KINDS), { let lo = if r.chance(1, 12) { 0 } else { 1 }; r.range(lo, 4) })).collect()
}
/// The tree sink and the token source driven directly.
fn sinks(ops: &[(usize, usize)]) -> Result<(), String> {
    let arena = SyntaxArena::new(2);
    let mut sink = TreeSink::<Toy>::new(&arena, 2);
    let mut want: Vec<(M, Vec<Option<usize>>)> = vec![];
    let provenance = |n: usize| TokenProvenance { parts: vec![ProvenancePart::Source(core::range::Range { start: n, end: n + 1 })] };
    let toks: Vec<Token<T>> = (0..ops.len()).map(|i| Token { kind: KINDS[i % 9], span: core::range::Range { start: i, end: i + 1 } }).collect();
    let mut ts = TokenSource::<Toy>::new(toks.clone().into());
    let mut at = 0;
    for &(op, n) in ops {
        match op {
            0 => {
                sink.push_leaf(KINDS[n % 9], n);
                want.push((M::L(KINDS[n % 9], n as u32), vec![None]));
            }
            1 => {
                sink.push_leaf_with_metadata(KINDS[n % 9], n, provenance(n));
                want.push((M::L(KINDS[n % 9], n as u32), vec![Some(n)]));
            }
            2 => {
                let c = n % (want.len() + 1);
                let node = sink.finish_node(c, E::Item);
                let kids = want.split_off(c);
                ckeq!(node.text_len(), kids.iter().map(|k| k.0.len() as u32).sum::<u32>(), "length of a node");
                let meta = kids.iter().flat_map(|k| k.1.clone()).collect();
                want.push((M::N(E::Item, kids.into_iter().map(|k| k.0).collect()), meta));
                if n % 5 == 0 {
                    sink.push_node(node);
                    want.push(want.last().unwrap().clone());
                }
            }
            3 => {
                let c = n % (want.len() + 2);
                sink.restore(c);
                want.truncate(c);
            }
            4 => {
                ts.set_index(n % (toks.len() + 1));
                at = n % (toks.len() + 1);
            }
            _ => {
                ts.advance();
                at += 1;
            }
        }
        ckeq!(sink.checkpoint(), want.len(), "checkpoint");
        ckeq!((ts.index(), ts.is_end()), (at, at >= toks.len()), "token index");
        ckeq!(ts.current().copied(), toks.get(at).copied(), "current token");
        ckeq!(ts.peek_at(n).copied(), toks.get(at + n).copied(), "token {n} ahead");
    }
    let root = sink.finish_node(0, E::Root);
    ckeq!(root.children().len(), want.len(), "number of children");
    fn metas(t: &GreenTree<'_, Toy>, arena: &SyntaxArena, out: &mut Vec<Option<usize>>) {
        match t {
            GreenTree::Leaf(l) => out.push(l.metadata.map(|m| match &arena.get_metadata(m).unwrap().parts[0] {
                ProvenancePart::Source(r) => r.start,
                _ => usize::MAX,
            })),
            GreenTree::Node(n) => n.children().iter().for_each(|c| metas(c, arena, out)),
        }
    }
    for (g, w) in root.children().iter().zip(&want) {
        ck!(same(&w.0, g), "tree {g:?} instead of {:?}", w.0);
        let mut m = vec![];
        metas(g, &arena, &mut m);
        ckeq!(m, w.1, "provenance of the leaves");
    }
    Ok(())
}
pub fn p10(c: &mut Ctx) {
    c.family("small");
    for n in 0..=3usize {
        for code in 0..3usize.pow(n as u32) {
            let toks: Vec<_> = (0..n).map(|i| ([T::Ws, T::Id, T::Op][code / 3usize.pow(i as u32) % 3], i + 1)).collect();
            let ops = [P::Bump, P::Advance, P::Skip, P::Eat(T::Id), P::Expect(T::Op), P::Until(T::Op), P::UntilAny(vec![T::Id, T::Ws]), P::Before(1, E::Bin), P::Record(0)];
            for a in &ops {
                for b in &ops {
                    for shape in 0..5 {
                        let ab = vec![a.clone(), b.clone()];
                        let prog = match shape {
                            0 => ab,
                            1 => vec![P::Try(ab, false, true)],
                            2 => vec![a.clone(), P::Try(vec![b.clone(), a.clone()], false, false)],
                            3 => vec![P::Wrap(ab, E::List)],
                            _ => vec![P::Try(vec![a.clone(), P::Wrap(vec![b.clone()], E::Item)], false, true), P::Bump],
                        };
                        c.case(|| format!("{toks:?} {prog:?}"), || session(&toks, &prog, 0));
                    }
                }
            }
        }
    }
    c.family("sinks");
    let mut r = c.rng("sinks");
    for _ in 0..c.n(3000, 60_000) {
        let ops: Vec<(usize, usize)> = (0..r.below(25)).map(|_| (r.below(6), r.below(40))).collect();
        c.case(|| format!("sink and token source by themselves: {ops:?}"), || sinks(&ops));
    }
    c.family("programs");
    let mut r = c.rng("programs");
    for _ in 0..c.n(40_000, 400_000) {
        let toks = tokens(&mut r, 14);
        let prog = program(&mut r, 0, &toks);
        let broken = if r.chance(1, 10) { r.range(1, 2) as u8 } else { 0 };
        c.case(|| format!("{toks:?} {prog:?} {broken}"), || session(&toks, &prog, broken));
    }
    c.family("long");
    let mut r = c.rng("long");
    for i in 0..c.n(60, 600) {
        let max = *r.pick(&[100, 700, 3000]);
        let toks = tokens(&mut r, max);
        let step = |r: &mut Rng| match r.below(12) {
            0 => P::Before(r.below(6), E::Bin),
            1 => P::Eat(*r.pick(&KINDS)),
            2 => P::Expect(*r.pick(&KINDS)),
            3 => P::Wrap((0..r.below(30)).map(|_| P::Bump).collect(), E::Item),
            4 => P::Try((0..r.below(60)).map(|_| P::Bump).collect(), true, r.chance(1, 2)),
            5 => P::Record(r.below(4) as u8),
            _ => P::Bump,
        };
        let n = toks.len() + r.below(20);
        let mut prog: Vec<P> = (0..n).map(|_| step(&mut r)).collect();
        if i % 3 == 0 {
            prog = vec![P::Wrap(prog, E::List)];
        }
        if i % 5 == 0 {
            prog = vec![P::Try(prog.clone(), i % 2 == 0, true), P::Bump, P::Wrap(prog, E::List)];
        }
        c.case(|| format!("{toks:?} {prog:?}"), || session(&toks, &prog, 0));
    }
}
