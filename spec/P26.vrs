#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::multiset::Multiset;
verus! {
//@include text_out.vrs
// ---- the language pieces used here (assumed) -----------------------------------------------------
//@src projects/oak-core/src/language/mod.rs
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item UniversalTokenRole
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@item UniversalElementRole
pub trait TokenRole: Sized { spec fn uni(&self) -> UniversalTokenRole; fn universal(&self) -> (r: UniversalTokenRole) ensures r == self.uni(); }
pub trait ElementRole: Sized { spec fn uni(&self) -> UniversalElementRole; fn universal(&self) -> (r: UniversalElementRole) ensures r == self.uni(); }
pub trait TokenType: Copy { type Role: TokenRole; spec fn rl(&self) -> Self::Role; fn role(&self) -> (r: Self::Role) ensures r == self.rl(); }
pub trait ElementType: Copy { type Role: ElementRole; spec fn rl(&self) -> Self::Role; fn role(&self) -> (r: Self::Role) ensures r == self.rl(); }
pub trait Language: Sized { type TokenType: TokenType; type ElementType: ElementType; }
pub mod num { pub struct NonZeroU32(pub u32); impl Clone for NonZeroU32 { fn clone(&self) -> Self { NonZeroU32(self.0) } } impl Copy for NonZeroU32 {} }
//@import tree_green.vrs
//@import tree_red.vrs
//@gsubclear
//@gsub /oak_core::tree::RedTree;/ => self::RedTree;
//@gsub /use self::RedTree;/ =>
//@gsub /Range<usize>/ => RangeU
//@gsub /core::range::RangeU/ => RangeU
//@gsub /\(0\.\.0\)\.into\(\)/ => RangeU { start: 0, end: 0 }
//@gsub /(?:oak_core::)?Arc<str>/ => Arcstr
//@gsub /impl Future<Output = ((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*)> \+ Send(?: \+ '\w+)?/ => \1
//@gsub /async move \{/ => {
//@gsub /async \{/ => {
//@gsub /\.await/ =>
//@gsub /(self\.get_root\([^()]*\))\.map\(\|(\w+)\| f\(\2\)\)/ => (match \1 { Some(\2) => Some(f(\2)), None => None })
//@gsub /oak_core::language::(UniversalElementRole)/ => \1
//@gsub /oak_symbols::(SymbolInformation)/ => \1
//@gsub /(\w+)\.to_string\(\)/ => \1.to_string_v()
//@gsub /(\w+)\.child_at_offset\(/ => child_at(\1, 
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /\.into_iter\(\)\.map\((\w+)::from\)\.collect\(\)/ => .each::<\1>()
//@gsub /\.into_iter\(\)\.map\(\|(\w+)\| (\w+)::from\(\1\)\)\.collect\(\)/ => .each::<\2>()
/// `Arc<str>`: a shared text.
pub struct Arcstr { pub t: String }
impl Arcstr { pub fn as_str(&self) -> (r: &str) ensures r@ == self.t@ { self.t.as_str() } }
impl Disp for Arcstr { open spec fn ds(&self) -> Seq<char> { self.t@ } #[verifier::external_body] fn to_string_v(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn arc_of(s: &str) -> (r: Arcstr) ensures r.t@ == s@ { unimplemented!() }
pub trait Same: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl Same for String { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
impl Same for RangeU { fn clone_v(&self) -> (r: Self) { *self } }
//@src projects/oak-symbols/src/lib.rs
//@item SymbolInformation
//@src projects/oak-lsp/src/types.rs
//@item LocationRange
#[derive(PartialEq, Eq, Structural)]
//@item SymbolKind
//@item WorkspaceSymbol
//@item StructureItem
// ---- what clients are told about a symbol -----------------------------------------------------------
pub open spec fn kind_of(r: UniversalElementRole) -> SymbolKind {
    match r {
        UniversalElementRole::Root => SymbolKind::File, UniversalElementRole::Container => SymbolKind::Module,
        UniversalElementRole::Binding => SymbolKind::Variable, UniversalElementRole::Reference => SymbolKind::Variable, UniversalElementRole::Expression => SymbolKind::Variable,
        UniversalElementRole::Typing => SymbolKind::Class, UniversalElementRole::Metadata => SymbolKind::Property, UniversalElementRole::Attribute => SymbolKind::Property,
        UniversalElementRole::Documentation => SymbolKind::String, UniversalElementRole::Value => SymbolKind::Constant, UniversalElementRole::Error => SymbolKind::Null,
        _ => SymbolKind::Function,
    }
}
impl SymbolKind {
//@fn From for SymbolKind::from -> r
    ensures r == kind_of(role),
//@end
}
pub trait OfSymbol: Sized { spec fn tells(&self, s: SymbolInformation) -> bool; fn from(s: SymbolInformation) -> (r: Self) ensures r.tells(s); }
impl OfSymbol for WorkspaceSymbol {
    /// Its name, kind, place and container.
    open spec fn tells(&self, s: SymbolInformation) -> bool { self.name == s.name && self.kind == kind_of(s.role) && self.location.uri == s.uri && self.location.range == s.range && self.container_name == s.container_name }
//@fn From for WorkspaceSymbol::from -> r
//@end
}
impl OfSymbol for StructureItem {
    open spec fn tells(&self, s: SymbolInformation) -> bool { self.name == s.name && self.role == s.role && self.kind == kind_of(s.role) && self.range == s.range && self.selection_range == s.range && self.detail is None && !self.deprecated && self.children@.len() == 0 }
//@fn From for StructureItem::from -> r
//@end
}
pub open spec fn told<T: OfSymbol>(r: Seq<T>, s: Seq<SymbolInformation>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).tells(s[i]) }
/// `into_iter().map(from).collect()` (assumed: std's iterators call the function once on each element, in order).
pub struct Syms { pub v: Vec<SymbolInformation> }
impl Syms {
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
    #[verifier::external_body] pub fn each<T: OfSymbol>(self) -> (r: Vec<T>) ensures told(r@, self.v@) { unimplemented!() }
}
// ---- what the service works with (assumed; their own properties are P14, P15, P20 and P01) ----------
pub struct Text { pub t: String }
impl Text { pub fn as_str(&self) -> (r: &str) ensures r@ == self.t@ { self.t.as_str() } }
pub trait Source: Sized { spec fn part(&self, from: int, to: int) -> Seq<char>; fn get_text_in(&self, range: RangeU) -> (r: Text) ensures r.t@ == self.part(range.start as int, range.end as int); }
pub trait Vfs: Sized {
    type Source: Source;
    spec fn source_of(&self, u: Seq<char>) -> Option<Self::Source>;
    spec fn file(&self, u: Seq<char>) -> bool;
    spec fn dir(&self, u: Seq<char>) -> bool;
    spec fn listed(&self, u: Seq<char>) -> Option<Seq<Arcstr>>;
    /// How many levels there are below.
    spec fn height(&self, u: Seq<char>) -> nat;
    fn get_source(&self, uri: &str) -> (r: Option<Self::Source>) ensures r == self.source_of(uri@);
    fn is_file(&self, uri: &str) -> (r: bool) ensures r == self.file(uri@);
    fn is_dir(&self, uri: &str) -> (r: bool) ensures r == self.dir(uri@);
    fn read_dir(&self, uri: &str) -> (r: Option<Vec<Arcstr>>) ensures r is Some == self.listed(uri@) is Some, r is Some ==> r->0@ == self.listed(uri@)->0;
}
#[verifier::external_body] pub struct GlobalSymbolTable { s: u8 }
impl GlobalSymbolTable {
    /// The symbols of the latest version of a file; the definition a name leads to; the definitions whose names match.
    pub uninterp spec fn of_file(&self, u: Seq<char>) -> Seq<SymbolInformation>;
    pub uninterp spec fn last(&self, n: Seq<char>) -> Option<SymbolInformation>;
    pub uninterp spec fn found(&self, q: Seq<char>) -> Seq<SymbolInformation>;
    #[verifier::external_body] pub fn query_file(&self, uri: &str) -> (r: Syms) ensures r.v@ == self.of_file(uri@) { unimplemented!() }
    #[verifier::external_body] pub fn lookup(&self, n: &str) -> (r: Option<SymbolInformation>) ensures r == self.last(n@) { unimplemented!() }
    #[verifier::external_body] pub fn query(&self, q: &str) -> (r: Syms) ensures r.v@ == self.found(q@) { unimplemented!() }
}
#[verifier::external_body] pub struct StandardResolver { r: u8 }
impl StandardResolver {
    pub uninterp spec fn module(&self, base: Seq<char>, import: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn resolve(&self, base: &str, import: &str) -> (r: Option<String>) ensures r is Some == self.module(base@, import@) is Some, r is Some ==> r->0@ == self.module(base@, import@)->0 { unimplemented!() }
}
pub struct WorkspaceManager { pub symbols: GlobalSymbolTable, pub resolver: StandardResolver }
// ---- the files below a directory --------------------------------------------------------------------
/// Every directory lies above what it lists: the file system is a tree.
pub open spec fn tree<V: Vfs>(v: V) -> bool { forall|u: Seq<char>, i: int| #![trigger v.listed(u)->0[i]] v.dir(u) && v.listed(u) is Some && 0 <= i < v.listed(u)->0.len() ==> v.height(v.listed(u)->0[i].t@) < v.height(u) }
/// The files at or below u, each as often as directories list it.
pub open spec fn below<V: Vfs>(v: V, u: Seq<char>) -> Multiset<Seq<char>> decreases v.height(u), 1nat, 0nat {
    if v.file(u) { Multiset::singleton(u) } else if v.dir(u) && v.listed(u) is Some { below_kids(v, u, v.listed(u)->0.len()) } else { Multiset::empty() }
}
pub open spec fn below_kids<V: Vfs>(v: V, u: Seq<char>, k: nat) -> Multiset<Seq<char>> decreases v.height(u), 0nat, k {
    if k == 0 || k > v.listed(u)->0.len() { Multiset::empty() } else { let e = v.listed(u)->0[k - 1].t@; below_kids(v, u, (k - 1) as nat).add(if v.height(e) < v.height(u) { below(v, e) } else { Multiset::empty() }) }
}
/// How many steps it takes to list u.
pub open spec fn steps<V: Vfs>(v: V, u: Seq<char>) -> nat decreases v.height(u), 1nat, 0nat {
    if !v.file(u) && v.dir(u) && v.listed(u) is Some { 1 + steps_kids(v, u, v.listed(u)->0.len()) } else { 1 }
}
pub open spec fn steps_kids<V: Vfs>(v: V, u: Seq<char>, k: nat) -> nat decreases v.height(u), 0nat, k {
    if k == 0 || k > v.listed(u)->0.len() { 0 } else { let e = v.listed(u)->0[k - 1].t@; steps_kids(v, u, (k - 1) as nat) + if v.height(e) < v.height(u) { steps(v, e) } else { 0 } }
}
pub open spec fn pending<V: Vfs>(v: V, s: Seq<Arcstr>) -> Multiset<Seq<char>> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { pending(v, s.drop_last()).add(below(v, s.last().t@)) } }
pub open spec fn work<V: Vfs>(v: V, s: Seq<Arcstr>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { work(v, s.drop_last()) + steps(v, s.last().t@) } }
proof fn lemma_kids<V: Vfs>(v: V, s: Seq<Arcstr>, u: Seq<char>, k: nat)
    requires tree(v), v.dir(u), v.listed(u) is Some, k <= v.listed(u)->0.len(),
    ensures pending(v, s + v.listed(u)->0.take(k as int)) == pending(v, s).add(below_kids(v, u, k)), work(v, s + v.listed(u)->0.take(k as int)) == work(v, s) + steps_kids(v, u, k),
    decreases k,
{
    let es = v.listed(u)->0;
    if k == 0 { assert(s + es.take(0) =~= s); assert(pending(v, s).add(below_kids(v, u, 0)) =~= pending(v, s)); }
    else {
        lemma_kids(v, s, u, (k - 1) as nat);
        let a = s + es.take(k as int);
        assert(a.drop_last() =~= s + es.take(k - 1)); assert(a.last() == es[k - 1]);
        assert(v.height(v.listed(u)->0[k - 1].t@) < v.height(u));
        assert(pending(v, a) =~= pending(v, s).add(below_kids(v, u, k)));
    }
}
/// `Vec::extend` with a vector (assumed: std).
pub trait Extend { fn extend_v(&mut self, v: Vec<Arcstr>); }
pub fn extend_v(a: &mut Vec<Arcstr>, b: Vec<Arcstr>) ensures final(a)@ == old(a)@ + b@ { let mut b = b; a.append(&mut b); }
pub open spec fn names(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// ---- definitions --------------------------------------------------------------------------------------
/// The child of a node at an offset, if the offset is inside.
pub open spec fn at_child<'a, L: Language>(n: RedNode<'a, L>, o: usize, t: Option<RedTree<'a, L>>) -> bool {
    (t is Some <==> n.offset <= o < n.offset + n.green.text_len)
    && (t is Some ==> rspan(t->0).0 <= o < rspan(t->0).1 && exists|i: int| #![trigger n.green.children@[i]] 0 <= i < n.green.children@.len() && placed(t->0, n.green.children@[i], n.offset + before(n.green.children@, i)))
}
pub open spec fn only(r: Seq<LocationRange>, u: Seq<char>, g: RangeU) -> bool { r.len() == 1 && r[0].uri.t@ == u && r[0].range == g }
/// Where the element `t` of the tree with root n is defined.
pub open spec fn defined<'a, L: Language, S: Source>(w: WorkspaceManager, u: Seq<char>, n: RedNode<'a, L>, s: S, t: Option<RedTree<'a, L>>, r: Seq<LocationRange>) -> bool {
    match t {
        Some(RedTree::Leaf(l)) => only(r, u, l.span),
        _ => { let m = match t { Some(RedTree::Node(m)) => m, _ => n };
            if m.green.kind.rl().uni() == UniversalElementRole::Reference {
                let name = s.part(m.offset as int, m.offset + m.green.text_len);
                match w.symbols.last(name) {
                    Some(y) => only(r, y.uri.t@, y.range),
                    None => match w.resolver.module(u, name) { Some(p) => only(r, p, RangeU { start: 0, end: 0 }), None => r.len() == 0 },
                }
            } else { r.len() == 0 } }
    }
}
pub fn child_at<'a, L: Language>(n: RedNode<'a, L>, o: usize) -> (r: Option<RedTree<'a, L>>)
    requires wf(*n.green), ok(n),
    ensures at_child(n, o, r), r is Some && r->0 is Node ==> wf(*r->0->Node_0.green) && ok(r->0->Node_0),
{
    let r = n.child_at_offset(o);
    proof { if r is Some { lemma_hit(n, r->0); } }
    r
}
/// The trees of those files that have one, in the order asked for.
pub open spec fn roots<'a, L: Language>(g: spec_fn(Seq<char>) -> Option<RedNode<'a, L>>, u: Seq<String>) -> Seq<RedNode<'a, L>> decreases u.len() {
    if u.len() == 0 { Seq::empty() } else { match g(u.last()@) { Some(n) => roots(g, u.drop_last()).push(n), None => roots(g, u.drop_last()) } }
}
/// `join_all` over futures made in order, then `flatten` (assumed: the answers come in the order of the futures).
#[verifier::external_body] pub fn answers<R>(v: Vec<Option<R>>) -> (r: Vec<R>) ensures r@ == flat(v@) { v.into_iter().flatten().collect() }
pub open spec fn flat<R>(v: Seq<Option<R>>) -> Seq<R> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v.last() { Some(x) => flat(v.drop_last()).push(x), None => flat(v.drop_last()) } } }
pub open spec fn applied<'a, L: Language, R, F: Fn(RedNode<'a, L>) -> R>(f: F, n: Seq<RedNode<'a, L>>, r: Seq<R>) -> bool { r.len() == n.len() && forall|i: int| 0 <= i < r.len() ==> f.ensures((n[i],), #[trigger] r[i]) }
// ---- the service ----------------------------------------------------------------------------------------
//@src projects/oak-lsp/src/service.rs
pub trait LanguageService: Sized {
    type Lang: Language;
    type Vfs: Vfs;
    spec fn files(&self) -> Self::Vfs;
    spec fn work(&self) -> WorkspaceManager;
    spec fn root_of<'b>(&'b self, u: Seq<char>) -> Option<RedNode<'b, Self::Lang>>;
    fn vfs(&self) -> (r: &Self::Vfs) ensures *r == self.files();
    fn workspace(&self) -> (r: &WorkspaceManager) ensures *r == self.work();
    fn get_root<'b>(&'b self, uri: &str) -> (r: Option<RedNode<'b, Self::Lang>>) ensures r == self.root_of(uri@), r is Some ==> wf(*r->0.green) && ok(r->0);
//@fn trait LanguageService::get_source -> r
    ensures r == self.files().source_of(uri@),
//@sub /<Self::Vfs as Vfs>/ => <Self::Vfs as Vfs>
//@end
//@fn trait LanguageService::with_root -> r
    requires self.root_of(uri@) is Some ==> f.requires((self.root_of(uri@)->0,)),
    ensures r is Some == self.root_of(uri@) is Some, r is Some ==> f.ensures((self.root_of(uri@)->0,), r->0),
//@sub /R: Send,/ =>
//@sub /-> R \+ Send \+ 'a/ => -> R
//@end
//@fn trait LanguageService::with_roots -> r
    requires forall|n: RedNode<'a, Self::Lang>| f.requires((n,)),
    // the function runs once on every tree there is; the answers come in the order asked for
    ensures applied(f, roots(|u: Seq<char>| self.root_of(u), uris@), r@),
//@sub /R: Send \+ 'static,/ =>
//@sub /-> R \+ Send \+ Sync \+ 'a/ => -> R
//@sub /let f = std::sync::Arc::new\(f\);/ =>
//@sub /let f = f\.clone\(\);/ =>
//@sub /for uri in uris \{/ => let mut k = 0; while k < uris.len() { let uri = uris[k].as_str(); k = k + 1;
//@sub /&uri/ => uri
//@sub /futures::future::join_all\(futures\)(?:\.await)?\.into_iter\(\)\.flatten\(\)\.collect\(\)/ => answers(futures)
//@loop 1
    invariant 0 <= k <= uris@.len(), forall|n: RedNode<'a, Self::Lang>| f.requires((n,)), applied(f, roots(|u: Seq<char>| self.root_of(u), uris@.take(k as int)), flat(futures@)),
    decreases uris@.len() - k,
//@loopstart 1
    let ghost had = futures@;
//@loopend 1
    proof { assert(uris@.take(k as int).drop_last() =~= uris@.take(k - 1)); assert(futures@.drop_last() =~= had); }
//@afterloop 1
    proof { assert(uris@.take(k as int) =~= uris@); }
//@end
//@fn trait LanguageService::document_symbols -> r
    ensures self.files().source_of(uri@) is Some && self.root_of(uri@) is Some ==> told(r@, self.work().symbols.of_file(uri@)),
        self.files().source_of(uri@) is None || self.root_of(uri@) is None ==> r@.len() == 0,
//@sub /&uri/ => uri.as_str()
//@end
//@fn trait LanguageService::workspace_symbols -> r
    ensures told(r@, self.work().symbols.found(query@)),
//@sub /&query/ => query.as_str()
//@end
//@fn trait LanguageService::list_all_files -> r
    requires tree(self.files()),
    ensures names(r@).to_multiset() == below(self.files(), root_uri@),
//@sub /(\w+)\.into\(\)/ => arc_of(\1)
//@sub /&uri/ => uri.as_str()
//@sub /let mut files = Vec::new\(\);/ => let mut files: Vec<String> = Vec::new();
//@sub /stack\.extend\(entries\)/ => extend_v(&mut stack, entries)
//@loop 1
    invariant tree(self.files()), names(files@).to_multiset().add(pending(self.files(), stack@)) == below(self.files(), root),
    ensures stack@.len() == 0,
    decreases work(self.files(), stack@),
//@body
    let ghost root = root_uri@;
//@before /while let Some/
    proof { let v = self.files(); assert(stack@.drop_last() =~= Seq::empty()); assert(pending(v, Seq::<Arcstr>::empty()) =~= Multiset::empty()); reveal_with_fuel(pending, 2); reveal_with_fuel(work, 2);
        assert(names(files@) =~= Seq::empty()); names(files@).to_multiset_ensures(); assert(names(files@).to_multiset() =~= Multiset::empty());
        assert(names(files@).to_multiset().add(pending(v, stack@)) =~= below(v, root)); }
//@loopstart 1
    let ghost todo = stack@; let ghost had = names(files@); let ghost m0 = had.to_multiset().add(pending(self.files(), todo).add(below(self.files(), uri.t@)));
    proof { let v = self.files(); assert(v.dir(uri.t@) && v.listed(uri.t@) is Some ==> v.listed(uri.t@)->0.take(v.listed(uri.t@)->0.len() as int) =~= v.listed(uri.t@)->0);
        assert(todo.push(uri).drop_last() =~= todo);
        if v.dir(uri.t@) && v.listed(uri.t@) is Some { lemma_kids(v, todo, uri.t@, v.listed(uri.t@)->0.len()); } }
//@loopend 1
    proof { let v = self.files();
        if v.file(uri.t@) { assert(names(files@) =~= had.push(uri.t@)); had.to_multiset_ensures(); }
        assert(names(files@).to_multiset().add(pending(v, stack@)) =~= m0); }
//@afterloop 1
    proof { assert(names(files@).to_multiset().add(pending(self.files(), stack@)) =~= names(files@).to_multiset()); }
//@end
//@fn trait LanguageService::definition -> r
    ensures self.files().source_of(uri@) is None || self.root_of(uri@) is None ==> r@.len() == 0,
        self.files().source_of(uri@) is Some && self.root_of(uri@) is Some ==> exists|t: Option<RedTree<'a, Self::Lang>>| #[trigger] at_child(self.root_of(uri@)->0, range.start, t) && defined(self.work(), uri@, self.root_of(uri@)->0, self.files().source_of(uri@)->0, t, r@),
//@sub /&uri/ => uri.as_str()
//@sub /uri\.clone\(\)\.into\(\)/ => arc_of(uri.as_str())
//@sub /resolved_uri\.into\(\)/ => arc_of(resolved_uri.as_str())
//@sub /let name = &source/ => let name = source
//@sub /let name: &str = &text;/ => let name = text;
//@sub /lookup\(name\)/ => lookup(name.as_str())
//@sub /uri\.as_str\(\), name\)/ => uri.as_str(), name.as_str())
//@end
}
fn main() {}
}
