//! P11: operator parsing against an operator-stack model, for random operator tables.
use crate::common::*;
use oak_core::{
    Associativity, OakDiagnostics, OperatorInfo, Pratt, PrattParser, binary,
    language::{ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole},
    lexer::Token,
    memory::arena::SyntaxArena,
    parser::{ParserState, postfix, unary},
    source::{Source, SourceText},
    tree::{GreenNode, GreenTree},
    unary as _,
};

/// 0 blank, 1 number, 2 open, 3 close, 4 stop, 5.. operators
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct K(u8);
impl TokenType for K {
    const END_OF_STREAM: Self = K(255);
    type Role = UniversalTokenRole;
    fn role(&self) -> Self::Role {
        if self.0 == 0 { UniversalTokenRole::Whitespace } else { UniversalTokenRole::None }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum X {
    Tok(u8),
    Atom,
    Pre(u8),
    Bin(u8),
    Post(u8),
}
impl From<K> for X {
    fn from(k: K) -> X {
        X::Tok(k.0)
    }
}
impl ElementType for X {
    type Role = UniversalElementRole;
    fn role(&self) -> Self::Role {
        UniversalElementRole::None
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Ops;
impl Language for Ops {
    const NAME: &'static str = "ops";
    type TokenType = K;
    type ElementType = X;
    type TypedRoot = ();
}
type St<'a> = ParserState<'a, Ops, SourceText>;
#[derive(Debug, Clone, Copy, PartialEq)]
enum R {
    Inf(OperatorInfo),
    Post(u8),
}
/// What an operator kind is in front of an operand, and what behind one.
#[derive(Debug, Clone, Default)]
struct Table {
    pre: Vec<Option<u8>>,
    suf: Vec<Option<R>>,
}
impl Table {
    fn pre(&self, k: u8) -> Option<u8> {
        self.pre.get(k as usize).copied().flatten()
    }
    fn suf(&self, k: u8) -> Option<R> {
        self.suf.get(k as usize).copied().flatten()
    }
}
struct Full<'t>(&'t Table);
struct Plain<'t>(&'t Table);
fn atom<'a, S: Source + ?Sized>(state: &mut ParserState<'a, Ops, S>, mut inner: impl FnMut(&mut ParserState<'a, Ops, S>)) -> &'a GreenNode<'a, Ops> {
    let cp = state.checkpoint();
    match state.peek_kind() {
        Some(K(1)) => state.bump(),
        Some(K(2)) => {
            state.bump();
            inner(state);
            state.eat(K(3));
        }
        _ => {}
    }
    state.finish_at(cp, X::Atom)
}
fn suffix<'a, S: Source + ?Sized>(t: &Table, state: &mut ParserState<'a, Ops, S>, left: &'a GreenNode<'a, Ops>, min: u8, f: impl FnMut(&mut ParserState<'a, Ops, S>, u8) -> &'a GreenNode<'a, Ops>) -> Option<&'a GreenNode<'a, Ops>> {
    let k = state.peek_kind()?;
    match t.suf(k.0)? {
        R::Inf(o) => (o.precedence >= min).then(|| binary(state, left, k, o.precedence, o.associativity, X::Bin(k.0), f)),
        R::Post(p) => (p >= min).then(|| postfix(state, left, k, X::Post(k.0))),
    }
}
impl<'t> Pratt<Ops> for Full<'t> {
    fn primary<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, Ops, S>) -> &'a GreenNode<'a, Ops> {
        atom(state, |s| {
            PrattParser::parse(s, 0, self);
        })
    }
    fn prefix<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, Ops, S>) -> &'a GreenNode<'a, Ops> {
        if let Some(k) = state.peek_kind() {
            if let Some(p) = self.0.pre(k.0) {
                return unary(state, k, p, X::Pre(k.0), |s, p| PrattParser::parse(s, p, self));
            }
        }
        self.primary(state)
    }
    fn infix<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, Ops, S>, left: &'a GreenNode<'a, Ops>, min: u8) -> Option<&'a GreenNode<'a, Ops>> {
        suffix(self.0, state, left, min, |s, p| PrattParser::parse(s, p, self))
    }
}
impl<'t> Pratt<Ops> for Plain<'t> {
    fn primary<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, Ops, S>) -> &'a GreenNode<'a, Ops> {
        atom(state, |s| {
            PrattParser::new(Plain(self.0)).parse_expr(s, 0);
        })
    }
    fn infix<'a, S: Source + ?Sized>(&self, state: &mut ParserState<'a, Ops, S>, left: &'a GreenNode<'a, Ops>, min: u8) -> Option<&'a GreenNode<'a, Ops>> {
        suffix(self.0, state, left, min, |s, p| PrattParser::new(Plain(self.0)).parse_expr(s, p))
    }
}
#[derive(Debug, Clone, PartialEq)]
enum G {
    L(u8, usize),
    N(X, Vec<G>),
}
fn shape(t: &GreenTree<Ops>) -> G {
    match t {
        GreenTree::Leaf(l) => G::L(l.kind.0, l.length as usize),
        GreenTree::Node(n) => G::N(n.kind, n.children().iter().map(shape).collect()),
    }
}
/// Operator-stack parser: every operator waits until one arrives that does not belong into its operand.
struct Model<'t> {
    t: &'t Table,
    pre: bool,
    toks: &'t [(u8, usize)],
    i: usize,
}
impl Model<'_> {
    fn cur(&self) -> Option<u8> {
        self.toks.get(self.i).map(|t| t.0)
    }
    /// The current token and the blanks behind it.
    fn take(&mut self) -> Vec<G> {
        let mut v = vec![];
        if let Some(t) = self.toks.get(self.i) {
            v.push(G::L(t.0, t.1));
            self.i += 1;
        }
        v.extend(self.blanks());
        v
    }
    fn blanks(&mut self) -> Vec<G> {
        let mut v = vec![];
        while self.cur() == Some(0) {
            v.push(G::L(0, self.toks[self.i].1));
            self.i += 1;
        }
        v
    }
    fn expr(&mut self, min: u8) -> G {
        // (kind, children so far, precedence an operator must have to belong into the operand)
        let mut wait: Vec<(X, Vec<G>, u32)> = vec![];
        let mut operands: Vec<G> = vec![];
        'operand: loop {
            while let Some(k) = self.cur().filter(|_| self.pre) {
                let Some(p) = self.t.pre(k) else { break };
                let v = self.take();
                wait.push((X::Pre(k), v, p as u32));
            }
            let mut v = vec![];
            match self.cur() {
                Some(1) => v = self.take(),
                Some(2) => {
                    v = self.take();
                    v.push(self.expr(0));
                    if self.cur() == Some(3) {
                        v.extend(self.take());
                    }
                }
                _ => {}
            }
            operands.push(G::N(X::Atom, v));
            loop {
                let suf = self.cur().and_then(|k| self.t.suf(k));
                let p = match suf {
                    Some(R::Inf(o)) => Some(o.precedence as u32),
                    Some(R::Post(p)) => Some(p as u32),
                    None => None,
                };
                while wait.last().is_some_and(|w| p.is_none_or(|p| p < w.2)) {
                    let (x, mut v, _) = wait.pop().unwrap();
                    let r = operands.pop().unwrap();
                    v.push(r);
                    operands.push(G::N(x, v));
                }
                let k = match p {
                    Some(p) if !wait.is_empty() || p >= min as u32 => self.cur().unwrap(),
                    _ => return operands.pop().unwrap(),
                };
                let mut v = vec![operands.pop().unwrap()];
                v.extend(self.take());
                match suf.unwrap() {
                    R::Post(_) => operands.push(G::N(X::Post(k), v)),
                    R::Inf(o) => {
                        wait.push((X::Bin(k), v, if o.associativity == Associativity::Right { o.precedence as u32 } else { o.precedence as u32 + 1 }));
                        continue 'operand;
                    }
                }
            }
        }
    }
}
fn run(t: &Table, pre: bool, min: u8, toks: &[(u8, usize)]) -> Result<(), String> {
    let mut p = 0;
    let v: Vec<Token<K>> = toks
        .iter()
        .map(|&(k, n)| {
            p += n;
            Token { kind: K(k), span: (p - n..p).into() }
        })
        .collect();
    let src = SourceText::new("x".repeat(p));
    let arena = SyntaxArena::new(64);
    let mut st: St = ParserState::new(&arena, OakDiagnostics { result: Ok(v.into()), diagnostics: vec![] }, &src, 16);
    let mut m = Model { t, pre, toks, i: 0 };
    let mut all = m.blanks();
    all.push(m.expr(min));
    let node = if pre { PrattParser::new(Full(t)).parse_expr(&mut st, min) } else { PrattParser::parse(&mut st, min, &Plain(t)) };
    ckeq!(shape(&GreenTree::Node(node)), *all.last().unwrap(), "grouping");
    ckeq!(st.peek_kind().map(|k| k.0), m.cur(), "token the expression stops at");
    ckeq!(st.tokens.index(), m.i, "position behind the expression");
    let root = st.finish_at((0, 0), X::Atom);
    ckeq!(root.children().iter().map(shape).collect::<Vec<_>>(), all, "tree under construction");
    Ok(())
}
fn table(r: &mut Rng, ops: u8, top: usize) -> Table {
    let mut t = Table { pre: vec![None; 5], suf: vec![None; 5] };
    let prec = |r: &mut Rng| if r.chance(1, 8) { r.range(250, 254) as u8 } else { r.below(top) as u8 };
    for _ in 0..ops {
        let p = prec(r);
        t.pre.push(r.chance(1, 2).then_some(p));
        let p = prec(r);
        t.suf.push(match r.below(6) {
            0 => None,
            1 => Some(R::Post(p)),
            2 => Some(R::Inf(OperatorInfo::none(p))),
            3 => Some(R::Inf(OperatorInfo::right(p))),
            _ => Some(R::Inf(OperatorInfo::left(p))),
        });
    }
    t
}
pub fn p11(c: &mut Ctx) {
    c.family("infix-exhaustive");
    // three operators of every associativity and relative precedence, five operands
    let ass = [Associativity::Left, Associativity::Right, Associativity::None];
    for code in 0..27usize * 27 {
        let mut t = Table { pre: vec![None; 5], suf: vec![None; 5] };
        let mut x = code;
        for _ in 0..3 {
            t.pre.push(None);
            t.suf.push(Some(R::Inf(OperatorInfo { precedence: 1 + (x % 3) as u8, associativity: ass[x / 3 % 3] })));
            x /= 9;
        }
        for ops in 0..81usize {
            let mut toks = vec![(1, 1)];
            for i in 0..4u32 {
                toks.push((5 + (ops / 3usize.pow(i) % 3) as u8, 1));
                toks.push((1, 1));
            }
            let min = (ops % 4) as u8;
            c.case(|| format!("{t:?} min {min} {toks:?}"), || run(&t, ops % 2 == 0, min, &toks));
        }
    }
    let (short, long) = (c.n(400_000, 4_000_000), c.n(2000, 20_000));
    let mut r = c.rng("random");
    for i in 0..short + long {
        if i == 0 || i == short {
            c.family(if i == 0 { "random" } else { "long" });
        }
        let ops = if i < short { r.range(1, 6) as u8 } else { r.range(1, 40) as u8 };
        let top = if i < short { r.range(1, 6) } else { r.range(1, 250) };
        let t = table(&mut r, ops, top);
        let n = if i < short { r.below(14) } else { r.range(20, 300) };
        let mut toks: Vec<(u8, usize)> = vec![];
        let mut behind = false;
        for _ in 0..n {
            if r.chance(1, 5) {
                toks.push((0, r.range(1, 3)));
                continue;
            }
            let k = if r.chance(1, 12) {
                r.below(5 + ops as usize) as u8
            }
            else if behind || r.chance(1, 3) {
                if r.chance(1, 8) { 3 } else { 5 + r.below(ops as usize) as u8 }
            }
            else if r.chance(1, 6) { 2 } else { 1 };
            behind = k == 1 || k == 3;
            toks.push((k, r.range(1, 3)));
        }
        let min = if r.chance(1, 2) { 0 } else { r.below(top + 2) as u8 };
        let pre = r.chance(4, 5);
        c.case(|| format!("{t:?} prefix {pre} min {min} {toks:?}"), || run(&t, pre, min, &toks));
    }
}
