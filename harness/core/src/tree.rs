//! P09: green trees, red trees and the cursor against a plain tree.
use crate::{common::*, toy::*};
use oak_core::{
    memory::arena::SyntaxArena,
    source::SourceText,
    tree::{Cursor, GreenLeaf, GreenNode, GreenTree, RedNode, RedTree},
};

#[derive(Debug, Clone, PartialEq)]
pub enum M {
    N(E, Vec<M>),
    L(T, u32),
}
impl M {
    pub fn len(&self) -> usize {
        match self {
            M::N(_, c) => c.iter().map(|x| x.len()).sum(),
            M::L(_, n) => *n as usize,
        }
    }
    fn kids(&self) -> &[M] {
        match self {
            M::N(_, c) => c,
            M::L(..) => &[],
        }
    }
    fn at(&self, p: &[usize]) -> &M {
        p.iter().fold(self, |m, &i| &m.kids()[i])
    }
    fn off(&self, p: &[usize]) -> usize {
        let mut o = 0;
        let mut m = self;
        for &i in p {
            o += m.kids()[..i].iter().map(|x| x.len()).sum::<usize>();
            m = &m.kids()[i];
        }
        o
    }
    fn leaves(&self, at: usize, out: &mut Vec<(T, usize, usize)>) {
        match self {
            M::L(t, n) => out.push((*t, at, at + *n as usize)),
            M::N(_, c) => {
                let mut o = at;
                for x in c {
                    x.leaves(o, out);
                    o += x.len();
                }
            }
        }
    }
}
pub fn build<'a>(m: &M, a: &'a SyntaxArena) -> GreenTree<'a, Toy> {
    match m {
        M::L(t, n) => GreenTree::Leaf(GreenLeaf::new(*t, *n)),
        M::N(k, c) => {
            let kids: Vec<_> = c.iter().map(|x| build(x, a)).collect();
            let s = a.alloc_slice_copy(&kids);
            GreenTree::Node(a.alloc(GreenNode::new(*k, s)))
        }
    }
}
pub fn same(m: &M, g: &GreenTree<Toy>) -> bool {
    match (m, g) {
        (M::L(t, n), GreenTree::Leaf(l)) => l.kind == *t && l.length == *n,
        (M::N(k, c), GreenTree::Node(n)) => n.kind == *k && n.children().len() == c.len() && c.iter().zip(n.children()).all(|(m, g)| same(m, g)),
        _ => false,
    }
}
fn spanned(m: &M, r: &RedTree<Toy>, at: usize) -> bool {
    let s = r.span();
    s.start == at
        && s.end == at + m.len()
        && match (m, r) {
            (M::L(t, _), RedTree::Leaf(l)) => l.kind == *t,
            (M::N(k, c), RedTree::Node(n)) => n.element_type() == *k && n.green().children_count() == c.len() && n.offset == at,
            _ => false,
        }
}
fn check(root: &M, base: usize, moves: &[u8]) -> Result<(), String> {
    let arena = SyntaxArena::new(64);
    let g = build(root, &arena);
    let GreenTree::Node(gn) = g
    else { return Ok(()) };
    let total = root.len();
    let text: String = (0..base + total).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let src = SourceText::new(text.clone());
    // every node, at its place
    let mut todo: Vec<(Vec<usize>, RedTree<Toy>)> = vec![(vec![], RedTree::Node(RedNode::new(gn, base)))];
    while let Some((p, r)) = todo.pop() {
        let m = root.at(&p);
        let at = base + root.off(&p);
        ck!(spanned(m, &r, at), "element at {p:?}: {r:?} instead of {m:?} at {at}");
        ckeq!(&*r.text(&src), &text[at..at + m.len()], "text at {p:?}");
        let kids: Vec<_> = r.children().collect();
        ckeq!(kids.len(), m.kids().len(), "number of children at {p:?}");
        let mut o = at;
        for (k, c) in kids.iter().zip(m.kids()) {
            ck!(spanned(c, k, o), "child of {p:?}: {k:?} instead of {c:?} at {o}");
            o += c.len();
        }
        let Some(n) = r.as_node()
        else {
            ck!(r.as_leaf().is_some(), "as_leaf");
            continue;
        };
        ckeq!(n.green().text_len() as usize, m.len(), "text_len at {p:?}");
        ckeq!(GreenTree::Node(n.green()).len() as usize, m.len(), "len at {p:?}");
        ckeq!(n.green().has_children(), !m.kids().is_empty(), "has_children");
        ck!(n.green().child_at(m.kids().len()).is_none(), "child_at past the end");
        for i in 0..m.kids().len() {
            ck!(same(&m.kids()[i], n.green().child_at(i).unwrap()), "green child_at({i}) of {p:?}");
            let c = n.child_at(i);
            ckeq!(c, kids[i], "child_at({i}) of {p:?}");
        }
        let mut ls = vec![];
        m.leaves(at, &mut ls);
        for o in at.saturating_sub(2)..=at + m.len() + 2 {
            let mut e = at;
            let want = m.kids().iter().position(|c| {
                e += c.len();
                o >= at && o < e
            });
            ckeq!(n.child_index_at_offset(o), want, "child_index_at_offset({o}) of {p:?}");
            ckeq!(n.child_at_offset(o), want.map(|i| kids[i]), "child_at_offset({o}) of {p:?}");
            let l = ls.iter().find(|l| l.1 <= o && o < l.2).copied();
            ckeq!(n.leaf_at_offset(o).map(|l| (l.kind, l.span.start, l.span.end)), l, "leaf_at_offset({o}) of {p:?}");
        }
        for (i, k) in kids.into_iter().enumerate() {
            let mut q = p.clone();
            q.push(i);
            todo.push((q, k));
        }
    }
    // the cursor
    for mode in 0..2 {
        let mut c = Cursor::new(gn);
        let mut p: Vec<usize> = vec![];
        let mut full = 0;
        for k in 0.. {
            let m = root.at(&p);
            ck!(same(m, &c.current()), "cursor at {p:?} shows {:?}", c.current());
            ckeq!((c.offset(), c.len(), c.end_offset()), (root.off(&p), m.len(), root.off(&p) + m.len()), "cursor offsets at {p:?}");
            ckeq!(c.as_node().is_some(), matches!(m, M::N(..)), "as_node at {p:?}");
            let mv = if mode == 0 { 3 } else if k < moves.len() { moves[k] } else { break };
            let into = if m.kids().is_empty() { None } else { Some([&p[..], &[0]].concat()) };
            let sib = |q: &[usize]| match q.split_last() {
                Some((l, up)) if l + 1 < root.at(up).kids().len() => Some([up, &[l + 1]].concat()),
                _ => None,
            };
            let next = (0..=p.len()).rev().find_map(|n| sib(&p[..n]));
            let (r, want) = match mv {
                0 => (c.step_into(), into),
                1 => (c.step_over(), sib(&p)),
                2 => (c.step_out(), if p.is_empty() { None } else { Some(p[..p.len() - 1].to_vec()) }),
                3 => (c.step(), into.or(next)),
                _ => (c.step_next(), next),
            };
            ckeq!(r, want.is_some(), "move {mv} from {p:?}");
            let end = want.is_none() && mv >= 3;
            p = match want {
                Some(q) => q,
                None if mv >= 3 => vec![],
                None => p,
            };
            full += 1;
            if mode == 0 && end {
                let mut n = 0;
                let mut st = vec![root];
                while let Some(x) = st.pop() {
                    n += 1;
                    st.extend(x.kids());
                }
                ckeq!(full, n, "steps of a full walk");
                ckeq!(c.offset(), 0, "offset after a full walk");
                break;
            }
        }
    }
    Ok(())
}
/// All nodes with `n` descendants, leaves of the given lengths.
fn shapes(n: usize, lens: &[u32]) -> Vec<M> {
    fn forests(n: usize, lens: &[u32]) -> Vec<Vec<M>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut o = vec![];
        for k in 1..=n {
            let mut firsts = shapes(k - 1, lens);
            if k == 1 {
                firsts.extend(lens.iter().enumerate().map(|(i, &l)| M::L([T::Id, T::Ws, T::Num][i % 3], l)))
            }
            let rest = forests(n - k, lens);
            for f in &firsts {
                for r in &rest {
                    o.push([&[f.clone()], &r[..]].concat())
                }
            }
        }
        o
    }
    forests(n, lens).into_iter().map(|f| M::N(E::Item, f)).collect()
}
pub fn random(r: &mut Rng, depth: usize) -> M {
    let n = r.below(5);
    M::N(
        *r.pick(&[E::Root, E::List, E::Item, E::Expr]),
        (0..n).map(|_| if depth > 0 && r.chance(2, 5) { random(r, depth - 1) } else { M::L(*r.pick(&[T::Id, T::Num, T::Ws, T::Op]), if r.chance(1, 5) { 0 } else { r.below(7) as u32 }) }).collect(),
    )
}
/// Many levels, or many siblings.
fn tall(r: &mut Rng, depth: usize, width: usize) -> M {
    let leaf = |r: &mut Rng| M::L(*r.pick(&[T::Id, T::Num, T::Ws, T::Op]), r.below(4) as u32);
    let mut m = random(r, 0);
    for _ in 0..depth {
        let mut kids: Vec<M> = (0..r.below(2)).map(|_| leaf(r)).collect();
        kids.push(m);
        kids.extend((0..if r.chance(1, 6) { 1 } else { 0 }).map(|_| leaf(r)));
        m = M::N(*r.pick(&[E::List, E::Item, E::Expr]), kids);
    }
    let mut kids: Vec<M> = (0..r.below(width)).map(|_| if r.chance(1, 4) { random(r, 0) } else { leaf(r) }).collect();
    let at = r.below(kids.len() + 1);
    kids.insert(at, m);
    M::N(E::Root, kids)
}
pub fn p09(c: &mut Ctx) {
    c.family("exhaustive");
    let mut r = c.rng("moves");
    for n in 0..=if c.thorough { 7 } else { 6 } {
        for m in shapes(n, &[0, 1, 3]) {
            let base = r.below(3) * 5;
            let moves: Vec<u8> = (0..24).map(|_| r.below(5) as u8).collect();
            c.case(|| format!("{m:?} at {base} moves {moves:?}"), || check(&m, base, &moves));
        }
    }
    c.family("random");
    let mut r = c.rng("p09");
    for _ in 0..c.n(20000, 200000) {
        let m = random(&mut r, 4);
        let base = r.below(200);
        let moves: Vec<u8> = (0..60).map(|_| r.below(5) as u8).collect();
        c.case(|| format!("{m:?} at {base} moves {moves:?}"), || check(&m, base, &moves));
    }
    c.family("tall and wide");
    for i in 0..c.n(150, 1500) {
        let (d, w) = [(70, 2), (20, 20), (2, 150), (1, 400)][i % 4];
        let d = 1 + r.below(d);
        let m = tall(&mut r, d, w);
        let moves: Vec<u8> = (0..300).map(|_| if r.chance(3, 5) { 3 } else { r.below(5) as u8 }).collect();
        let base = r.below(100);
        c.case(|| format!("{m:?} at {base} moves {moves:?}"), || check(&m, base, &moves));
    }
}
