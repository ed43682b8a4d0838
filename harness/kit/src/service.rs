//! P26: a language service's stock answers follow the file system, the trees and the symbol index.
use crate::{common::*, mcp::block};
use core::range::Range;
use oak_core::{
    ElementType, GreenTree, Language, TokenRole, TokenType, UniversalElementRole, UniversalTokenRole,
    language::{ElementRole, LanguageCategory},
    memory::arena::SyntaxArena,
    source::{SourceId, SourceText},
    tree::{GreenLeaf, GreenNode, RedNode},
};
use oak_lsp::{
    service::LanguageService,
    types::{StructureItem, SymbolKind, WorkspaceSymbol},
    workspace::WorkspaceManager,
};
use oak_resolver::ModuleResolver;
use oak_symbols::SymbolInformation;
use oak_vfs::{FileMetadata, FileType, Vfs, WritableVfs};
use std::{
    collections::BTreeMap,
    future::Future,
    sync::{Arc, Mutex},
    task::Poll,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct K;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct R;
impl TokenRole for R {
    fn universal(&self) -> UniversalTokenRole {
        UniversalTokenRole::Name
    }
    fn name(&self) -> &str {
        "any"
    }
}
impl TokenType for K {
    const END_OF_STREAM: Self = K;
    type Role = R;
    fn role(&self) -> R {
        R
    }
}
use UniversalElementRole as U;
const ROLES: &[(U, SymbolKind)] = &[
    (U::Reference, SymbolKind::Variable),
    (U::Root, SymbolKind::File),
    (U::Container, SymbolKind::Module),
    (U::Definition, SymbolKind::Function),
    (U::Binding, SymbolKind::Variable),
    (U::Typing, SymbolKind::Class),
    (U::Statement, SymbolKind::Function),
    (U::Expression, SymbolKind::Variable),
    (U::Call, SymbolKind::Function),
    (U::Metadata, SymbolKind::Property),
    (U::Attribute, SymbolKind::Property),
    (U::Documentation, SymbolKind::String),
    (U::Value, SymbolKind::Constant),
    (U::Error, SymbolKind::Null),
    (U::None, SymbolKind::Function),
    (U::Detail, SymbolKind::Function),
    (U::Name, SymbolKind::Function),
];
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct N(u8);
impl From<K> for N {
    fn from(_: K) -> N {
        N(14)
    }
}
impl ElementRole for N {
    fn universal(&self) -> U {
        ROLES[self.0 as usize].0
    }
    fn name(&self) -> &str {
        "any"
    }
}
impl ElementType for N {
    type Role = N;
    fn role(&self) -> N {
        *self
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct L;
impl Language for L {
    const NAME: &'static str = "l";
    const CATEGORY: LanguageCategory = LanguageCategory::Programming;
    type TokenType = K;
    type ElementType = N;
    type TypedRoot = ();
}
/// A file, a directory (unreadable ones list nothing), or something else.
#[derive(Debug, Clone)]
enum Place {
    File(String),
    Dir(Option<Vec<String>>),
    Other,
}
#[derive(Default, Debug)]
pub struct Tree(BTreeMap<String, Place>);
impl Vfs for Tree {
    type Source = SourceText;
    fn get_source(&self, uri: &str) -> Option<SourceText> {
        match self.0.get(uri)? {
            Place::File(t) => Some(SourceText::new(t.clone())),
            _ => None,
        }
    }
    fn get_uri(&self, _: SourceId) -> Option<oak_core::Arc<str>> {
        None
    }
    fn get_id(&self, _: &str) -> Option<SourceId> {
        None
    }
    fn exists(&self, uri: &str) -> bool {
        self.0.contains_key(uri)
    }
    fn metadata(&self, uri: &str) -> Option<FileMetadata> {
        let (file_type, len) = match self.0.get(uri)? {
            Place::File(t) => (FileType::File, t.len() as u64),
            Place::Dir(_) => (FileType::Directory, 0),
            Place::Other => (FileType::Other, 0),
        };
        Some(FileMetadata { file_type, len, modified: None })
    }
    fn read_dir(&self, uri: &str) -> Option<Vec<oak_core::Arc<str>>> {
        match self.0.get(uri)? {
            Place::Dir(Some(v)) => Some(v.iter().map(|x| x.as_str().into()).collect()),
            Place::Other => Some(vec!["/loop".into()]),
            _ => None,
        }
    }
}
impl WritableVfs for Tree {
    fn write_file(&self, _: &str, _: oak_core::Arc<str>) {}
    fn remove_file(&self, _: &str) {}
}
struct Service {
    vfs: Tree,
    work: WorkspaceManager,
    trees: BTreeMap<String, (&'static GreenNode<'static, L>, usize, usize)>,
}
/// Not ready for a while.
async fn later(mut n: usize) {
    std::future::poll_fn(move |c| {
        if n > 0 {
            n -= 1;
            c.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    })
    .await
}
impl LanguageService for Service {
    type Lang = L;
    type Vfs = Tree;
    fn vfs(&self) -> &Tree {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.work
    }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, L>>> + Send + '_ {
        let t = self.trees.get(uri).copied();
        async move {
            let (g, at, wait) = t?;
            later(wait).await;
            Some(RedNode::new(g, at))
        }
    }
}
fn files_below(v: &Tree, u: &str, o: &mut Vec<String>) {
    match v.0.get(u) {
        Some(Place::File(_)) => o.push(u.to_string()),
        Some(Place::Dir(Some(es))) => es.iter().for_each(|e| files_below(v, e, o)),
        _ => {}
    }
}
fn kind(r: U) -> SymbolKind {
    ROLES.iter().find(|(u, _)| *u == r).unwrap().1
}
fn item_ok(i: &StructureItem, s: &SymbolInformation) -> bool {
    i.name == s.name && i.role == s.role && i.kind == kind(s.role) && i.range == s.range && i.selection_range == s.range && i.detail.is_none() && !i.deprecated && i.children.is_empty()
}
fn sym_ok(i: &WorkspaceSymbol, s: &SymbolInformation) -> bool {
    i.name == s.name && i.kind == kind(s.role) && i.location.uri == s.uri && i.location.range == s.range && i.container_name == s.container_name
}
/// One file: its text, the first byte of its tree, the children of its root: the kind of a node (or
/// none for a leaf) and its text; the kind of the root.
#[derive(Debug, Clone)]
struct File {
    uri: String,
    text: bool,
    tree: bool,
    root: u8,
    kids: Vec<(Option<u8>, String)>,
    wait: usize,
}
#[derive(Debug, Clone)]
struct World {
    files: Vec<File>,
    syms: Vec<(String, Vec<(String, Option<String>, u8, usize)>)>,
}
fn check(w: &World) -> Result<(), String> {
    let arena = Box::leak(Box::new(SyntaxArena::new(64)));
    let mut s = Service { vfs: Tree::default(), work: WorkspaceManager::new(), trees: BTreeMap::new() };
    for f in &w.files {
        if f.text {
            s.vfs.0.insert(f.uri.clone(), Place::File(f.kids.iter().map(|k| k.1.as_str()).collect()));
        }
        let kids: Vec<GreenTree<L>> = f
            .kids
            .iter()
            .map(|(k, t)| {
                let leaf = GreenTree::Leaf(GreenLeaf::new(K, t.len() as u32));
                match k {
                    None => leaf,
                    Some(k) => GreenTree::Node(arena.alloc(GreenNode::new(N(*k), arena.alloc_slice_copy(&[leaf])))),
                }
            })
            .collect();
        if f.tree {
            s.trees.insert(f.uri.clone(), (arena.alloc(GreenNode::new(N(f.root), arena.alloc_slice_copy(&kids))), 0, f.wait));
        }
    }
    for (u, l) in &w.syms {
        let l = l.iter().map(|(n, c, r, at)| SymbolInformation { name: n.clone(), role: ROLES[*r as usize].0, uri: u.as_str().into(), range: (*at..at + n.len()).into(), container_name: c.clone() }).collect();
        s.work.symbols.update_file_symbols(u.clone(), l);
    }
    // trees
    let uris: Vec<String> = w.files.iter().map(|f| f.uri.clone()).chain(["/nowhere".to_string()]).collect();
    let seen = Arc::new(Mutex::new(vec![]));
    let note = seen.clone();
    let got = block(s.with_roots(uris.clone(), move |n| {
        note.lock().unwrap().push(n.green as *const _ as usize);
        (n.green as *const _ as usize, n.offset)
    }));
    let mut want: Vec<(usize, usize)> = uris.iter().filter_map(|u| s.trees.get(u)).map(|(g, at, _)| (*g as *const _ as usize, *at)).collect();
    ckeq!(got, want, "with_roots({uris:?})");
    let mut seen = seen.lock().unwrap().clone();
    seen.sort();
    want.sort();
    ckeq!(seen, want.iter().map(|x| x.0).collect::<Vec<_>>(), "the trees with_roots handed over");
    for u in &uris {
        let got = block(s.with_root(u, |n| n.green as *const _ as usize));
        ckeq!(got, s.trees.get(u).map(|(g, ..)| *g as *const _ as usize), "with_root({u:?})");
        let text = |t: &SourceText| t.text().to_string();
        ckeq!(s.get_source(u).as_ref().map(text), s.vfs.get_source(u).as_ref().map(text), "get_source({u:?})");
        let syms = if s.trees.contains_key(u) && s.vfs.exists(u) { s.work.symbols.query_file(u) } else { vec![] };
        let got = block(s.document_symbols(u));
        ck!(got.len() == syms.len() && got.iter().zip(&syms).all(|(i, y)| item_ok(i, y)), "document_symbols({u:?}): {got:?}, known {syms:?}");
    }
    for q in ["", "a", "b::a", "é", "zz"] {
        let (got, syms) = (block(s.workspace_symbols(q.into())), s.work.symbols.query(q));
        ck!(got.len() == syms.len() && got.iter().all(|i| syms.iter().any(|y| sym_ok(i, y))) && syms.iter().all(|y| got.iter().any(|i| sym_ok(i, y))), "workspace_symbols({q:?}): {got:?}, known {syms:?}");
    }
    // definitions
    for f in &w.files {
        let all: usize = f.kids.iter().map(|k| k.1.len()).sum();
        let text: String = f.kids.iter().map(|k| k.1.as_str()).collect();
        for at in 0..all + 2 {
            let mut p = 0;
            let hit = f.kids.iter().find_map(|(k, t)| {
                p += t.len();
                (at < p).then_some((*k, p - t.len(), p))
            });
            let (k, from, to) = hit.unwrap_or((Some(f.root), 0, all));
            let want: Vec<(String, Range<usize>)> = match k {
                _ if !f.text || !f.tree => vec![],
                None => vec![(f.uri.clone(), (from..to).into())],
                Some(k) if ROLES[k as usize].0 == U::Reference => match (s.work.symbols.lookup(&text[from..to]), s.work.resolver.resolve(&f.uri, &text[from..to])) {
                    (Some(y), _) => vec![(y.uri.to_string(), y.range)],
                    (None, Some(m)) => vec![(m, (0..0).into())],
                    _ => vec![],
                },
                _ => vec![],
            };
            for end in [at, at + 1, all] {
                let got: Vec<_> = block(s.definition(&f.uri, (at..end).into())).into_iter().map(|l| (l.uri.to_string(), l.range)).collect();
                ckeq!(got, want, "definition of {at}..{end} in {:?}", f.uri);
            }
        }
    }
    Ok(())
}
fn check_list(v: Tree, roots: &[&str]) -> Result<(), String> {
    let s = Service { vfs: v, work: WorkspaceManager::new(), trees: BTreeMap::new() };
    for u in roots {
        let mut want = vec![];
        files_below(&s.vfs, u, &mut want);
        let mut got = block(s.list_all_files(u));
        want.sort();
        got.sort();
        ckeq!(got, want, "list_all_files({u:?})");
    }
    Ok(())
}
pub fn p26(c: &mut Ctx) {
    c.family("kinds");
    for (u, k) in ROLES {
        c.case(|| format!("{u:?}"), || Ok(ckeq!(SymbolKind::from(*u), *k, "kind of {u:?}")));
    }
    c.family("listings");
    let mut r = c.rng("listings");
    for _ in 0..c.n(2000, 40000) {
        // children come after their directories, now and then twice
        let n = 1 + r.below(12);
        let name = |i: usize| if i % 3 == 0 { format!("mem:/d{i}") } else { format!("/é {i}") };
        let mut v = Tree::default();
        for i in 0..n {
            let p = match r.below(8) {
                0..=3 => {
                    let mut es = vec![];
                    for j in i + 1..n + 1 {
                        if r.chance(1, 3) {
                            es.push(name(j));
                            if r.chance(1, 12) {
                                es.push(name(j))
                            }
                        }
                    }
                    Place::Dir(Some(es))
                }
                4 => Place::Dir(if r.chance(1, 2) { None } else { Some(vec![]) }),
                5 if r.chance(1, 3) => Place::Other,
                _ => Place::File("x".into()),
            };
            v.0.insert(name(i), p);
        }
        v.0.insert("/loop".into(), Place::File(String::new()));
        let roots: Vec<String> = (0..n + 2).map(name).collect();
        let d = format!("{v:?}");
        c.case(|| d.clone(), || check_list(v, &roots.iter().map(|x| x.as_str()).collect::<Vec<_>>()));
    }
    c.family("answers");
    let mut r = c.rng("answers");
    for _ in 0..c.n(2500, 40000) {
        let words = ["a", "b", "é", "lib", "a::b", "bin", "zz", " ", "b::a", "share/doc"];
        let uris = ["file:///usr/x.l", "file:///a.l", "mem:b", "", "file:///etc/é.l"];
        let named: Vec<&str> = uris.into_iter().filter(|_| r.chance(1, 2)).collect();
        let files = named
            .iter()
            .map(|u| {
                let kids = (0..r.below(5)).map(|_| (if r.chance(1, 3) { None } else { Some(if r.chance(2, 3) { 0 } else { r.below(17) as u8 }) }, r.pick(&words).to_string())).collect();
                File { uri: u.to_string(), text: r.chance(7, 8), tree: r.chance(7, 8), root: if r.chance(1, 3) { 0 } else { r.below(17) as u8 }, kids, wait: r.below(4) }
            })
            .collect();
        let syms = (0..r.below(4))
            .map(|_| {
                let l = (0..r.below(4)).map(|_| (r.pick(&words).to_string(), r.chance(1, 3).then(|| r.pick(&words).to_string()), r.below(17) as u8, r.below(20))).collect();
                (r.pick(&uris).to_string(), l)
            })
            .collect();
        let w = World { files, syms };
        c.case(|| format!("{w:?}"), || check(&w));
    }
}
