//! P24: a formatter writes every node and leaf by the first rule that has something to say about it.
use crate::{common::*, layout};
use oak_core::{
    ElementType, GreenTree, Language, TokenRole, TokenType, UniversalElementRole, UniversalTokenRole,
    errors::OakError,
    language::{ElementRole, LanguageCategory},
    memory::arena::SyntaxArena,
    tree::{GreenLeaf, GreenNode, RedLeaf, RedNode},
};
use oak_pretty_print::{Document, FormatConfig, FormatContext, FormatResult, FormatRule, Formatter, RuleSet};
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct K(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct R(u8);
impl TokenRole for R {
    fn universal(&self) -> UniversalTokenRole {
        match self.0 % 4 {
            0 => UniversalTokenRole::Punctuation,
            1 => UniversalTokenRole::Name,
            2 => UniversalTokenRole::Whitespace,
            _ => UniversalTokenRole::Operator,
        }
    }
    fn name(&self) -> &str {
        "any"
    }
}
impl TokenType for K {
    const END_OF_STREAM: Self = K(255);
    type Role = R;
    fn role(&self) -> R {
        R(self.0)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct N(u8);
impl From<K> for N {
    fn from(k: K) -> N {
        N(100 + k.0)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct E(u8);
impl ElementRole for E {
    fn universal(&self) -> UniversalElementRole {
        match self.0 % 4 {
            0 => UniversalElementRole::Root,
            1 => UniversalElementRole::Container,
            2 => UniversalElementRole::Statement,
            _ => UniversalElementRole::Expression,
        }
    }
    fn name(&self) -> &str {
        "any"
    }
}
impl ElementType for N {
    type Role = E;
    fn role(&self) -> E {
        E(self.0)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct F;
impl Language for F {
    const NAME: &'static str = "f";
    const CATEGORY: LanguageCategory = LanguageCategory::Programming;
    type TokenType = K;
    type ElementType = N;
    type TypedRoot = ();
}
#[derive(Debug, Clone)]
enum T {
    N(u8, Vec<T>),
    L(u8, String),
}
impl T {
    fn text(&self, o: &mut String) {
        match self {
            T::N(_, c) => c.iter().for_each(|x| x.text(o)),
            T::L(_, s) => o.push_str(s),
        }
    }
    fn len(&self) -> usize {
        let mut s = String::new();
        self.text(&mut s);
        s.len()
    }
}
fn build<'a>(t: &T, a: &'a SyntaxArena) -> GreenTree<'a, F> {
    match t {
        T::L(k, s) => GreenTree::Leaf(GreenLeaf::new(K(*k), s.len() as u32)),
        T::N(k, c) => {
            let kids: Vec<_> = c.iter().map(|x| build(x, a)).collect();
            let s = a.alloc_slice_copy(&kids);
            GreenTree::Node(a.alloc(GreenNode::new(N(*k), s)))
        }
    }
}
/// What a rule does with a node or leaf it applies to.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Act {
    Pass,
    Fail,
    /// The children (the text), broken after and indented.
    Keep,
    /// The children twice.
    Twice,
    /// A word of its own.
    Say,
    /// Where it stands.
    Show,
    /// Only below a node of kind 3, or directly in one of kind 5.
    Inside,
}
#[derive(Debug, Clone)]
struct Rule {
    id: u8,
    prio: Option<u8>,
    nodes: Vec<u8>,
    leaves: Vec<u8>,
    node: Act,
    leaf: Act,
    enemies: Vec<u8>,
}
impl Rule {
    fn hurt(&self) -> OakError {
        OakError::format_error(format!("rule {}", self.id))
    }
    fn show(&self, c: &FormatContext<F>, kind: u8, from: usize, to: usize, src: &str) -> String {
        let mut path = vec![];
        let mut p = c.path.as_ref();
        while let Some(x) = p {
            path.push(x.kind.0);
            p = x.parent.as_ref();
        }
        place(self.id, c.depth, &path, kind, from, to, c.source.as_deref() == Some(src), c.config.max_width)
    }
}
fn place(id: u8, depth: usize, path: &[u8], kind: u8, from: usize, to: usize, same: bool, width: usize) -> String {
    format!("<{id}:{depth}:{path:?}:{kind}:{from}-{to}:{same}:{width}>")
}
/// As a trait object; two kinds, so that one uses the defaults of the trait.
struct Full(Rule);
struct Bare(Rule);
fn node_act<'a>(r: &Rule, n: &RedNode<F>, c: &FormatContext<F>, src: &'a str, kids: &dyn Fn(&RedNode<F>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
    Ok(match r.node {
        Act::Pass => None,
        Act::Fail => return Err(r.hurt()),
        Act::Keep => Some(Document::indent(Document::concat(vec![kids(n)?, Document::Line]))),
        Act::Twice => Some(Document::concat(vec![kids(n)?, Document::text("|"), kids(n)?])),
        Act::Say => Some(Document::text(format!("R{}", r.id))),
        Act::Show => {
            let s = n.span();
            Some(Document::concat(vec![Document::text(r.show(c, n.green.kind.0, s.start, s.end, src)), kids(n)?]))
        }
        Act::Inside => match c.is_inside(N(3)) || c.parent_kind() == Some(N(5)) {
            true => Some(Document::text(format!("I{}", r.id))),
            false => None,
        },
    })
}
fn leaf_act<'a>(r: &Rule, t: &RedLeaf<F>, c: &FormatContext<F>, src: &'a str) -> FormatResult<Option<Document<'a>>> {
    let text = &src[t.span.start..t.span.end];
    Ok(match r.leaf {
        Act::Pass => None,
        Act::Fail => return Err(r.hurt()),
        Act::Keep => Some(Document::indent(Document::concat(vec![Document::text(text), Document::Line]))),
        Act::Twice => Some(Document::concat(vec![Document::text(text), Document::text("|"), Document::text(text)])),
        Act::Say => Some(Document::text(format!("R{}", r.id))),
        Act::Show => Some(Document::concat(vec![Document::text(r.show(c, t.kind.0, t.span.start, t.span.end, src)), Document::text(text)])),
        Act::Inside => match c.is_inside(N(3)) || c.parent_kind() == Some(N(5)) {
            true => Some(Document::text(format!("I{}", r.id))),
            false => None,
        },
    })
}
impl FormatRule<F> for Full {
    fn name(&self) -> &str {
        ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"][self.0.id as usize % 8]
    }
    fn priority(&self) -> u8 {
        self.0.prio.unwrap()
    }
    fn applies_to_node(&self, n: &RedNode<F>) -> bool {
        self.0.nodes.contains(&n.green.kind.0)
    }
    fn applies_to_token(&self, t: &RedLeaf<F>) -> bool {
        self.0.leaves.contains(&t.kind.0)
    }
    fn apply_node<'a>(&self, n: &RedNode<F>, c: &FormatContext<F>, s: &'a str, f: &dyn Fn(&RedNode<F>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        node_act(&self.0, n, c, s, f)
    }
    fn apply_token<'a>(&self, t: &RedLeaf<F>, c: &FormatContext<F>, s: &'a str) -> FormatResult<Option<Document<'a>>> {
        leaf_act(&self.0, t, c, s)
    }
    fn conflicts_with(&self, o: &dyn FormatRule<F>) -> bool {
        self.0.enemies.iter().any(|e| o.name() == format!("r{e}"))
    }
}
impl FormatRule<F> for Bare {
    fn name(&self) -> &str {
        ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"][self.0.id as usize % 8]
    }
    fn apply_node<'a>(&self, n: &RedNode<F>, c: &FormatContext<F>, s: &'a str, f: &dyn Fn(&RedNode<F>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        node_act(&self.0, n, c, s, f)
    }
    fn apply_token<'a>(&self, t: &RedLeaf<F>, c: &FormatContext<F>, s: &'a str) -> FormatResult<Option<Document<'a>>> {
        leaf_act(&self.0, t, c, s)
    }
}
fn boxed(r: &Rule) -> Box<dyn FormatRule<F>> {
    match r.prio {
        Some(_) => Box::new(Full(r.clone())),
        None => Box::new(Bare(r.clone())),
    }
}
/// The rules in force, first the one to be asked first. Numbers above 100 are the built-in ones.
#[derive(Clone)]
struct Model {
    rules: Vec<Rc<Rule>>,
}
fn builtin() -> Vec<Rc<Rule>> {
    [(101, 10), (103, 6), (102, 5)].map(|(id, p)| Rc::new(Rule { id, prio: Some(p), nodes: vec![], leaves: vec![], node: Act::Pass, leaf: Act::Pass, enemies: vec![] })).to_vec()
}
impl Model {
    fn add(&mut self, r: &Rule) -> Result<(), u8> {
        for o in &self.rules {
            if r.enemies.contains(&o.id) || o.enemies.contains(&r.id) {
                return Err(o.id);
            }
        }
        let at = self.rules.iter().position(|o| o.prio.unwrap_or(0) < r.prio.unwrap_or(0)).unwrap_or(self.rules.len());
        self.rules.insert(at, Rc::new(r.clone()));
        Ok(())
    }
    /// The document of a tree; the rule that fails first.
    fn doc(&self, t: &T, at: usize, path: &[u8], w: usize) -> Result<Document<'static>, u8> {
        let text = |t: &T| {
            let mut s = String::new();
            t.text(&mut s);
            s
        };
        match t {
            T::L(k, s) => {
                for r in &self.rules {
                    match r.id {
                        103 if *k % 4 == 0 => {
                            if s == "," {
                                return Ok(Document::Concat(vec![Document::Text(",".into()), Document::SoftLineSpace]));
                            }
                        }
                        101.. => {}
                        _ if !r.leaves.contains(k) => {}
                        _ => match r.leaf {
                            Act::Pass => {}
                            Act::Fail => return Err(r.id),
                            Act::Keep => return Ok(Document::Indent(Box::new(Document::Concat(vec![Document::Text(s.clone().into()), Document::Line])))),
                            Act::Twice => return Ok(Document::Text(format!("{s}|{s}").into())),
                            Act::Say => return Ok(Document::Text(format!("R{}", r.id).into())),
                            Act::Show => return Ok(Document::Text((place(r.id, path.len(), path, *k, at, at + s.len(), true, w) + s).into())),
                            Act::Inside if path.contains(&3) || path.get(1) == Some(&5) => return Ok(Document::Text(format!("I{}", r.id).into())),
                            Act::Inside => {}
                        },
                    }
                }
                Ok(Document::Text(text(t).into()))
            }
            T::N(k, c) => {
                let path: Vec<u8> = [*k].iter().chain(path).copied().collect();
                let kids = || {
                    let (mut v, mut p) = (vec![], at);
                    for x in c {
                        v.push(self.doc(x, p, &path, w)?);
                        p += x.len();
                    }
                    Ok(Document::Concat(v))
                };
                for r in &self.rules {
                    match r.id {
                        101 if *k % 4 == 1 => return Ok(Document::Group(Box::new(Document::Indent(Box::new(Document::Concat(vec![Document::Line, kids()?])))))),
                        102 if *k % 4 == 2 => return Ok(Document::Concat(vec![kids()?, Document::Line])),
                        101.. => {}
                        _ if !r.nodes.contains(k) => {}
                        _ => match r.node {
                            Act::Pass => {}
                            Act::Fail => return Err(r.id),
                            Act::Keep => return Ok(Document::Indent(Box::new(Document::Concat(vec![kids()?, Document::Line])))),
                            Act::Twice => return Ok(Document::Concat(vec![kids()?, Document::Text("|".into()), kids()?])),
                            Act::Say => return Ok(Document::Text(format!("R{}", r.id).into())),
                            Act::Show => return Ok(Document::Concat(vec![Document::Text(place(r.id, path.len(), &path, *k, at, at + t.len(), true, w).into()), kids()?])),
                            Act::Inside if path.contains(&3) || path.get(1) == Some(&5) => return Ok(Document::Text(format!("I{}", r.id).into())),
                            Act::Inside => {}
                        },
                    }
                }
                kids()
            }
        }
    }
}
fn told(e: &OakError) -> String {
    format!("{e:?}")
}
/// Formats trees in turn with one formatter; `pre` stands before the tree.
fn check(trees: &[(String, T)], rules: &[Rule], cfg: &FormatConfig) -> Result<(), String> {
    let mut f: Formatter<F> = Formatter::new(cfg.clone());
    let mut m = Model { rules: builtin() };
    for r in rules {
        let (got, want) = (f.add_rule(boxed(r)), m.add(r));
        ck!(got.is_err() == want.is_err(), "adding rule {}: {:?}, expected {want:?}", r.id, got.err().map(|e| told(&e)));
        if let (Err(e), Err(o)) = (got, want) {
            ck!(told(&e).contains(&format!("'r{o}' and 'r{}'", r.id)), "conflict of rule {} with {o}: {}", r.id, told(&e));
        }
    }
    let faithful = m.rules.iter().all(|r| [r.node, r.leaf].iter().all(|a| matches!(a, Act::Pass | Act::Fail | Act::Keep)));
    for (pre, t) in trees {
        let a = SyntaxArena::new(64);
        let GreenTree::Node(g) = build(t, &a) else { continue };
        let mut text = String::new();
        t.text(&mut text);
        let src = format!("{pre}{text}«");
        let src = if pre.is_empty() { text.clone() } else { src };
        let got = f.format(&RedNode::new(g, pre.len()), &src);
        match (got, m.doc(t, pre.len(), &[], cfg.max_width)) {
            (Err(e), Err(r)) => ck!(told(&e).contains(&format!("rule {r}\"")) || told(&e).contains(&format!("rule {r}")), "failed with {}, expected rule {r}", told(&e)),
            (Ok(o), Ok(d)) => {
                let want = layout::printed(&d, cfg);
                ckeq!(o.content, want, "formatted {src:?}");
                ck!(o.changed == (o.content != src), "changed is {}, {src:?} became {:?}", o.changed, o.content);
                if faithful {
                    ckeq!(layout::ink(&o.content), layout::ink(&text), "code of {src:?}");
                }
            }
            (g, w) => return Err(format!("formatting {src:?} gave {:?}, expected {w:?}", g.map(|o| o.content).map_err(|e| told(&e)))),
        }
        ck!(f.context.source.as_deref() == Some(src.as_str()) && f.context.depth == 0 && f.context.path.is_none(), "context after formatting");
    }
    Ok(())
}
/// Rule sets on their own.
fn check_set(rules: &[Rule], batches: usize) -> Result<(), String> {
    let (mut s, mut m): (RuleSet<F>, _) = (RuleSet::new(), Model { rules: vec![] });
    for b in rules.chunks(batches.max(1)) {
        let got = s.add_rules(b.iter().map(boxed).collect());
        let want = b.iter().try_for_each(|r| m.add(r));
        ck!(got.is_err() == want.is_err(), "adding {b:?}: expected {want:?}");
        let a = SyntaxArena::new(64);
        for k in 0..7u8 {
            let GreenTree::Node(g) = build(&T::N(k, vec![T::L(k, "x".into())]), &a) else { continue };
            let n = RedNode::new(g, 0);
            let leaf = RedLeaf { kind: K(k), span: (0..1).into() };
            let names: Vec<String> = s.applicable_rules_for_node(&n).map(|r| r.name().to_string()).collect();
            ckeq!(names, m.rules.iter().filter(|r| r.prio.is_some() && r.nodes.contains(&k)).map(|r| format!("r{}", r.id)).collect::<Vec<_>>(), "rules for nodes of kind {k}");
            let names: Vec<String> = s.applicable_rules_for_token(&leaf).map(|r| r.name().to_string()).collect();
            ckeq!(names, m.rules.iter().filter(|r| r.prio.is_some() && r.leaves.contains(&k)).map(|r| format!("r{}", r.id)).collect::<Vec<_>>(), "rules for leaves of kind {k}");
        }
    }
    Ok(())
}
const WORDS: &[&str] = &["a", ",", " ", "\n", ";", "fé", "日本 語", ",,", "", "x = 1", "\t", "🦀", "a very long word indeed"];
fn tree(r: &mut Rng, depth: usize, width: usize) -> T {
    if depth == 0 || r.chance(2, 5) {
        return if r.chance(1, 4) { T::L(0, ",".into()) } else { T::L(r.below(7) as u8, r.pick(WORDS).to_string()) };
    }
    T::N(r.below(7) as u8, (0..r.below(width + 1)).map(|_| tree(r, depth - 1, width)).collect())
}
fn rule(r: &mut Rng, id: u8, kept: bool) -> Rule {
    let acts: &[Act] = if kept { &[Act::Pass, Act::Keep] } else { &[Act::Pass, Act::Pass, Act::Keep, Act::Twice, Act::Say, Act::Show, Act::Show, Act::Inside, Act::Inside, Act::Fail] };
    let prio = if r.chance(1, 6) { None } else { Some(*r.pick(&[0, 4, 5, 6, 7, 10, 11, 11, 200, 255])) };
    let mut some = |_| (0..7u8).filter(|_| r.chance(2, 5)).collect::<Vec<_>>();
    let (mut nodes, mut leaves) = (some(0), some(1));
    if prio.is_none() {
        (nodes, leaves) = (vec![], vec![]);
    }
    let enemies = if r.chance(1, 4) && prio.is_some() { vec![r.below(7) as u8] } else { vec![] };
    Rule { id, prio, nodes, leaves, node: *r.pick(acts), leaf: *r.pick(acts), enemies: enemies.into_iter().filter(|e| *e != id).collect() }
}
pub fn p24(c: &mut Ctx) {
    c.family("built-in");
    let cfgs: Vec<FormatConfig> = [0, 4, 80].iter().map(|w| FormatConfig::new().with_max_width(*w)).collect();
    for k in 0..4u8 {
        for j in 0..4u8 {
            for s in [",", "a", " ", ",,", "é\n"] {
                let t = T::N(k, vec![T::L(1, "x".into()), T::N(j, vec![T::L(0, s.into()), T::L(1, "y".into())]), T::L(3, s.into())]);
                for cfg in &cfgs {
                    c.case(|| format!("{t:?} width {}", cfg.max_width), || check(&[(String::new(), t.clone())], &[], cfg));
                }
            }
        }
    }
    c.family("two rules");
    for (p, q) in [(0, 0), (11, 12), (12, 11), (5, 10), (10, 5), (11, 11), (10, 10), (6, 6)] {
        for (x, y) in [(Act::Say, Act::Say), (Act::Pass, Act::Show), (Act::Show, Act::Fail), (Act::Fail, Act::Say), (Act::Inside, Act::Keep), (Act::Twice, Act::Show)] {
            for war in [vec![], vec![0u8], vec![5]] {
                let mk = |id, prio, a, e: &Vec<u8>| Rule { id, prio: Some(prio), nodes: vec![0, 1, 2, 3, 5], leaves: vec![0, 1], node: a, leaf: a, enemies: e.clone() };
                let rules = [mk(0, p, x, &vec![]), mk(1, q, y, &war)];
                let back = [mk(0, p, x, &war.iter().map(|e| e + 1).collect()), mk(1, q, y, &vec![])];
                let t = T::N(0, vec![T::L(0, ",".into()), T::N(3, vec![T::N(5, vec![T::L(1, "é".into())]), T::L(2, " ".into())]), T::N(5, vec![T::N(1, vec![]), T::L(4, "z".into())])]);
                for rs in [&rules, &back] {
                    c.case(|| format!("{rs:?}"), || check(&[(String::new(), t.clone()), ("·é".into(), t.clone())], rs, &cfgs[2]).and_then(|_| check_set(rs, 1)).and_then(|_| check_set(rs, 2)));
                }
            }
        }
    }
    c.family("random");
    let mut r = c.rng("random");
    for _ in 0..c.n(4000, 40000) {
        let (d, w) = (r.range(1, 6), r.range(1, 6));
        let n = r.below(3) + 1;
        let trees: Vec<(String, T)> = (0..n).map(|_| (r.pick(&["", "", "ab", "·é "]).to_string(), T::N(r.below(7) as u8, (0..r.below(w + 1)).map(|_| tree(&mut r, d - 1, w)).collect()))).collect();
        let kept = r.chance(1, 3);
        let rules: Vec<Rule> = (0..r.below(7)).map(|i| rule(&mut r, i as u8, kept)).collect();
        let cfg = layout::config(&mut r);
        let b = r.range(1, 4);
        c.case(|| format!("{trees:?} by {rules:?} under {cfg:?}"), || check(&trees, &rules, &cfg).and_then(|_| check_set(&rules, b)));
    }
}
