//! P22: walking a tree meets every element once, in order; symbol lists and reference searches follow from it.
use crate::common::*;
use core::range::Range;
use oak_core::{
    ElementType, GreenTree, Language, TokenRole, TokenType, UniversalElementRole, UniversalTokenRole,
    language::{ElementRole, LanguageCategory},
    memory::arena::SyntaxArena,
    source::{RopeBuffer, Source, SourceText},
    tree::{GreenLeaf, GreenNode, RedLeaf, RedNode, RedTree},
    visitor::{PreOrder, Visitor},
};
use oak_navigation::SimpleReferenceFinder;
use oak_symbols::{SymbolInformation, SymbolProvider, UniversalSymbolProvider};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct K(u8);
const ROLES: &[UniversalTokenRole] = &[UniversalTokenRole::Name, UniversalTokenRole::Keyword, UniversalTokenRole::Literal, UniversalTokenRole::Whitespace, UniversalTokenRole::Name, UniversalTokenRole::Comment, UniversalTokenRole::Punctuation, UniversalTokenRole::None];
impl K {
    fn name(self) -> bool {
        self.0 % 4 == 0
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct R(u8);
impl TokenRole for R {
    fn universal(&self) -> UniversalTokenRole {
        ROLES[self.0 as usize % 8]
    }
    fn name(&self) -> &str {
        "any"
    }
}
impl TokenType for K {
    const END_OF_STREAM: Self = K(255);
    type Role = R;
    fn role(&self) -> R {
        R(self.0)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum N {
    Tok(K),
    Root,
    Block,
    Function,
    Class(u8),
    Call,
}
impl From<K> for N {
    fn from(k: K) -> N {
        N::Tok(k)
    }
}
impl N {
    fn def(self) -> bool {
        matches!(self, N::Function | N::Class(_))
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct E(N);
impl ElementRole for E {
    fn universal(&self) -> UniversalElementRole {
        match self.0 {
            N::Root => UniversalElementRole::Root,
            N::Block => UniversalElementRole::Container,
            N::Function | N::Class(_) => UniversalElementRole::Definition,
            N::Call => UniversalElementRole::Call,
            _ => UniversalElementRole::None,
        }
    }
    fn name(&self) -> &str {
        "any"
    }
}
impl ElementType for N {
    type Role = E;
    fn role(&self) -> E {
        E(*self)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct W;
impl Language for W {
    const NAME: &'static str = "w";
    const CATEGORY: LanguageCategory = LanguageCategory::Programming;
    type TokenType = K;
    type ElementType = N;
    type TypedRoot = ();
}
#[derive(Debug, Clone)]
enum T {
    N(N, Vec<T>),
    L(K, String),
}
impl T {
    fn len(&self) -> usize {
        match self {
            T::N(_, c) => c.iter().map(|x| x.len()).sum(),
            T::L(_, s) => s.len(),
        }
    }
    fn text(&self, o: &mut String) {
        match self {
            T::N(_, c) => c.iter().for_each(|x| x.text(o)),
            T::L(_, s) => o.push_str(s),
        }
    }
    /// Everything met, in order, from `at` on.
    fn met(&self, at: usize, o: &mut Vec<Met>) {
        match self {
            T::N(k, c) => {
                o.push(Met::N(*k, at, at + self.len()));
                let mut p = at;
                for x in c {
                    x.met(p, o);
                    p += x.len();
                }
            }
            T::L(k, s) => o.push(Met::L(*k, at, at + s.len())),
        }
    }
    fn uses(&self, at: usize, name: &str, o: &mut Vec<(usize, usize)>) {
        match self {
            T::N(_, c) => {
                let mut p = at;
                for x in c {
                    x.uses(p, name, o);
                    p += x.len();
                }
            }
            T::L(k, s) => {
                if k.name() && s == name {
                    o.push((at, at + s.len()))
                }
            }
        }
    }
    fn syms(&self, at: usize, inside: Option<&str>, o: &mut Vec<(String, usize, usize, Option<String>)>) {
        let T::N(k, c) = self else { return };
        let own = if k.def() {
            let name = c.iter().find_map(|x| match x {
                T::L(k, s) if k.name() => Some(s.clone()),
                _ => None,
            });
            let name = name.unwrap_or(format!("<{k:?}>"));
            o.push((name.clone(), at, at + self.len(), inside.map(str::to_string)));
            Some(name)
        }
        else {
            inside.map(str::to_string)
        };
        let mut p = at;
        for x in c {
            x.syms(p, own.as_deref(), o);
            p += x.len();
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Met {
    N(N, usize, usize),
    L(K, usize, usize),
}
fn build<'a>(t: &T, a: &'a SyntaxArena) -> GreenTree<'a, W> {
    match t {
        T::L(k, s) => GreenTree::Leaf(GreenLeaf::new(*k, s.len() as u32)),
        T::N(k, c) => {
            let kids: Vec<_> = c.iter().map(|x| build(x, a)).collect();
            let s = a.alloc_slice_copy(&kids);
            GreenTree::Node(a.alloc(GreenNode::new(*k, s)))
        }
    }
}
fn seen(r: &RedTree<W>) -> Met {
    match r {
        RedTree::Node(n) => Met::N(n.green.kind, n.span().start, n.span().end),
        RedTree::Leaf(l) => Met::L(l.kind, l.span.start, l.span.end),
    }
}
/// Notes every element on its way down.
struct Down(Vec<Met>);
impl<'a> Visitor<'a, W> for Down {
    fn visit_node(&mut self, node: RedNode<'a, W>) {
        self.0.push(seen(&RedTree::Node(node)));
        self.walk_node(node)
    }
    fn visit_token(&mut self, token: RedLeaf<W>) {
        self.0.push(Met::L(token.kind, token.span.start, token.span.end))
    }
}
fn same_syms<S: Source + ?Sized>(t: &T, at: usize, root: &RedNode<W>, src: &S, how: &str) -> Result<(), String> {
    let mut want = vec![];
    t.syms(at, None, &mut want);
    let got: Vec<SymbolInformation> = UniversalSymbolProvider::new().document_symbols("file:///a b/ü.w", root, src);
    for g in &got {
        ckeq!(&*g.uri, "file:///a b/ü.w", "uri of a symbol ({how})");
        ck!(g.role == UniversalElementRole::Definition, "role {:?} of {} ({how})", g.role, g.name);
    }
    ckeq!(got.into_iter().map(|g| (g.name, g.range.start, g.range.end, g.container_name)).collect::<Vec<_>>(), want, "symbols ({how})");
    Ok(())
}
fn check(t: &T, at: usize, names: &[&str]) -> Result<(), String> {
    let a = SyntaxArena::new(64);
    let GreenTree::Node(g) = build(t, &a) else { return Ok(()) };
    // what stands before the tree: characters of the text, none of them a name of it
    let mut text = "·é".repeat(at / 4);
    text.push_str(&"%".repeat(at % 4));
    t.text(&mut text);
    let root = RedNode::new(g, at);
    let mut want = vec![];
    t.met(at, &mut want);
    ckeq!(PreOrder::new(RedTree::Node(root)).map(|r| seen(&r)).take(want.len() + 5).collect::<Vec<_>>(), want, "pre-order walk");
    let mut d = Down(vec![]);
    d.visit_node(root);
    ckeq!(d.0, want, "visitor");
    // and from every child, which may be a leaf
    let T::N(_, kids) = t else { unreachable!() };
    let mut o = at;
    for (k, c) in kids.iter().zip(root.children()) {
        let mut w = vec![];
        k.met(o, &mut w);
        ckeq!(PreOrder::new(c).map(|r| seen(&r)).take(w.len() + 5).collect::<Vec<_>>(), w, "pre-order walk from a child");
        o += k.len();
    }
    same_syms(t, at, &root, text.as_str(), "str")?;
    same_syms(t, at, &root, &SourceText::new(text.clone()), "SourceText")?;
    same_syms(t, at, &root, &RopeBuffer::new(text.clone()), "RopeBuffer")?;
    for n in names {
        let mut want = vec![];
        t.uses(at, n, &mut want);
        let got = SimpleReferenceFinder::find(&root, n, &text, "u:1");
        for g in &got {
            ckeq!(&*g.uri, "u:1", "uri of a reference");
        }
        ckeq!(got.iter().map(|l| (l.range.start, l.range.end)).collect::<Vec<_>>(), want, "references to {n:?}");
    }
    Ok(())
}
const WORDS: &[&str] = &["a", "b", "ab", "f", "é", "日本", "", "A", "x y", "a b", "🦀"];
fn tree(r: &mut Rng, depth: usize, width: usize) -> T {
    if depth == 0 || r.chance(2, 5) {
        return T::L(K(r.below(9) as u8), r.pick(WORDS).to_string());
    }
    node(r, depth, width)
}
fn node(r: &mut Rng, depth: usize, width: usize) -> T {
    let k = *r.pick(&[N::Root, N::Block, N::Function, N::Function, N::Class(1), N::Class(7), N::Call]);
    let n = r.below(width + 1);
    T::N(k, (0..n).map(|_| tree(r, depth - 1, width)).collect())
}
/// All trees with at most `n` elements below the root over a few kinds.
fn small(n: usize) -> Vec<Vec<T>> {
    // forests by size
    let mut f: Vec<Vec<Vec<T>>> = vec![vec![vec![]]];
    for k in 1..=n {
        let mut v = vec![];
        for first in 1..=k {
            let mut heads = vec![];
            if first == 1 {
                heads.extend([T::L(K(0), "a".into()), T::L(K(1), "a".into()), T::L(K(4), "é".into())]);
            }
            for kids in &f[first - 1] {
                heads.push(T::N(N::Function, kids.clone()));
                heads.push(T::N(N::Block, kids.clone()));
            }
            for h in &heads {
                for rest in &f[k - first] {
                    let mut x = vec![h.clone()];
                    x.extend(rest.iter().cloned());
                    v.push(x);
                }
            }
        }
        f.push(v);
    }
    f.concat()
}
pub fn p22(c: &mut Ctx) {
    c.family("small");
    let n = if c.thorough { 4 } else { 3 };
    for kids in small(n) {
        for top in [N::Root, N::Class(3)] {
            let t = T::N(top, kids.clone());
            c.case(|| format!("{t:?}"), || check(&t, 0, &["a", "é", "b"]));
        }
    }
    c.family("random");
    let mut r = c.rng("random");
    for _ in 0..c.n(3000, 40000) {
        let (d, w) = (r.range(1, 6), r.range(1, 6));
        let t = node(&mut r, d, w);
        let at = if r.chance(1, 2) { 0 } else { r.below(40) };
        c.case(|| format!("at {at}: {t:?}"), || check(&t, at, WORDS));
    }
    c.family("long");
    let mut r = c.rng("long");
    for i in 0..c.n(6, 60) {
        // wide, deep, and both
        let t = match i % 3 {
            0 => T::N(N::Root, (0..r.range(200, 3000)).map(|_| tree(&mut r, 2, 3)).collect()),
            1 => {
                let mut t = tree(&mut r, 2, 3);
                for _ in 0..r.range(50, 300) {
                    let k = *r.pick(&[N::Block, N::Function, N::Class(2), N::Call]);
                    let mut v = vec![tree(&mut r, 1, 2), t, tree(&mut r, 1, 2)];
                    if r.chance(1, 3) {
                        v.swap(0, 1)
                    }
                    t = T::N(k, v);
                }
                T::N(N::Root, vec![t])
            }
            _ => T::N(N::Class(0), (0..40).map(|_| node(&mut r, 7, 4)).collect()),
        };
        c.case(|| format!("{} bytes, {:.300}", t.len(), format!("{t:?}")), || check(&t, i % 5, &["a", "日本", "x y"]));
    }
    c.family("roles");
    for k in 0..8u8 {
        c.case(
            || format!("K({k})"),
            || {
                for u in ROLES {
                    ckeq!(K(k).is_universal(*u), ROLES[k as usize] == *u, "is_universal({u:?})");
                }
                for e in [N::Root, N::Block, N::Function, N::Class(k), N::Call, N::Tok(K(k))] {
                    for u in [UniversalElementRole::Root, UniversalElementRole::Container, UniversalElementRole::Definition, UniversalElementRole::Call, UniversalElementRole::None] {
                        ckeq!(e.is_universal(u), E(e).universal() == u, "is_universal({u:?}) of {e:?}");
                    }
                }
                Ok(())
            },
        );
    }
}
