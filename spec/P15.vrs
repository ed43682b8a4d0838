use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- maps and strings (assumed: dashmap, std) -------------------------------------------------
/// A DashMap with string keys, used by one thread at a time: operations are those of a map.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct MapS<V> { m: std::collections::HashMap<String, V> }
impl<V> MapS<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { MapS { m: Default::default() } }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { self.m.insert(k, v) }
    #[verifier::external_body] pub fn remove(&mut self, k: &String) -> (r: Option<(String, V)>) ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.dom().contains(k@), r is Some ==> (r->0).0@ == k@ && (r->0).1 == old(self)@[k@] { self.m.remove_entry(k) }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k@), r is Some ==> *r->0 == self@[k@] { self.m.get(k) }
}
impl<T> MapS<Vec<T>> {
    /// `entry(k).or_default().push(x)`
    #[verifier::external_body] pub fn push_v(&mut self, k: String, x: T)
        ensures final(self)@.dom() == old(self)@.dom().insert(k@), forall|n: Seq<char>| n != k@ && #[trigger] final(self)@.dom().contains(n) ==> final(self)@[n] == old(self)@[n],
            final(self)@[k@]@ == (if old(self)@.dom().contains(k@) { old(self)@[k@]@ } else { seq![] }).push(x) { self.m.entry(k).or_default().push(x) }
}
#[verifier::external_body] pub fn same_s(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// `Vec::retain`
#[verifier::external_body] pub fn retain_v<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F, p: Ghost<spec_fn(T) -> bool>)
    requires forall|x: &T| #[trigger] call_requires(f, (x,)), forall|x: &T, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p@(*x),
    ensures final(v)@ == kept(old(v)@, p@) { v.retain(f) }
pub open spec fn kept<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else if p(s.last()) { kept(s.drop_last(), p).push(s.last()) } else { kept(s.drop_last(), p) } }
pub trait Same: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl Same for String { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { self.clone() } }
impl Same for SymbolInformation { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
impl Same for Vec<SymbolInformation> { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub fn concat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{a}{b}{c}") }
pub fn last_v<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some == (v@.len() > 0), r is Some ==> *r->0 == v@.last() { if v.len() == 0 { None } else { Some(&v[v.len() - 1]) } }
/// An entry met when walking over the table.
pub struct Entry<V> { pub k: String, pub v: V }
impl<V> Entry<V> { pub fn key(&self) -> (r: &String) ensures *r == self.k { &self.k } pub fn value(&self) -> (r: &V) ensures *r == self.v { &self.v } }
/// The entries of a table, each once, in some order.
pub open spec fn lists<V>(es: Seq<Entry<V>>, m: Map<Seq<char>, V>) -> bool {
    (forall|i: int| 0 <= i < es.len() ==> m.dom().contains((#[trigger] es[i]).k@) && m[es[i].k@] == es[i].v) && (forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).k@ == n) && (forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).k@ != (#[trigger] es[j]).k@)
}
impl<V> MapS<V> { #[verifier::external_body] pub fn entries(&self) -> (r: Vec<Entry<V>>) ensures lists(r@, self@) { unimplemented!() } }
/// `str::contains`
pub open spec fn infix(q: Seq<char>, k: Seq<char>) -> bool { exists|i: int| 0 <= i <= k.len() - q.len() && #[trigger] k.subrange(i, i + q.len()) == q }
pub trait HasV { fn has_v(&self, q: &str) -> bool; }
impl HasV for str { #[verifier::external_body] fn has_v(&self, q: &str) -> (r: bool) ensures r == infix(q@, self@) { self.contains(q) } }
impl HasV for String { #[verifier::external_body] fn has_v(&self, q: &str) -> (r: bool) ensures r == infix(q@, self@) { self.contains(q) } }
/// `filter`, `filter_map` and `collect`
pub open spec fn picked<E, T>(es: Seq<E>, p: spec_fn(E) -> bool, g: spec_fn(E) -> Option<T>) -> Seq<T> decreases es.len() {
    if es.len() == 0 { seq![] } else if p(es.last()) && g(es.last()) is Some { picked(es.drop_last(), p, g).push(g(es.last())->0) } else { picked(es.drop_last(), p, g) }
}
pub fn filter_map_v<E, T, F: Fn(&E) -> bool, G: Fn(&E) -> Option<T>>(es: Vec<E>, f: F, h: G, Ghost(p): Ghost<spec_fn(E) -> bool>, Ghost(g): Ghost<spec_fn(E) -> Option<T>>) -> (r: Vec<T>)
    requires forall|x: &E| #[trigger] call_requires(f, (x,)), forall|x: &E| #[trigger] call_requires(h, (x,)), forall|x: &E, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p(*x), forall|x: &E, o: Option<T>| #[trigger] call_ensures(h, (x,), o) ==> o == g(*x),
    ensures r@ == picked(es@, p, g),
{
    let mut r = Vec::new(); let mut i = 0;
    while i < es.len()
        invariant i <= es@.len(), r@ == picked(es@.take(i as int), p, g), forall|x: &E| #[trigger] call_requires(f, (x,)), forall|x: &E| #[trigger] call_requires(h, (x,)), forall|x: &E, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == p(*x), forall|x: &E, o: Option<T>| #[trigger] call_ensures(h, (x,), o) ==> o == g(*x),
        decreases es.len() - i,
    {
        proof { assert(es@.take(i + 1).drop_last() =~= es@.take(i as int)); assert(es@.take(i + 1).last() == es@[i as int]); }
        if f(&es[i]) { if let Some(x) = h(&es[i]) { r.push(x); } }
        i += 1;
    }
    proof { assert(es@.take(i as int) =~= es@); }
    r
}
pub struct UniversalElementRole { pub r: u8 }
pub struct Range<T> { pub start: T, pub end: T }
pub type Arcstr = u64;
//@gsub /Arc<str>/ => Arcstr
//@gsub /DashMap</ => MapS<
//@gsub /DashMap::new\(\)/ => MapS::new()
//@gsub /MapS<String, / => MapS<
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /format!\("\{\}::\{\}", container, sym\.name\)/ => concat3(container.as_str(), "::", sym.name.as_str())
//@gsub /\.entry\(fqn\)\.or_default\(\)\.push\(/ => .push_v(fqn, 
//@gsub /self\.qualified_symbols\.remove_if_mut\(&fqn, \|_, defs\| \{(.*?)\}\)/ => { if let Some((key, mut defs)) = self.qualified_symbols.remove(&fqn) { let gone = {\1}; if !gone { self.qualified_symbols.insert(fqn, defs); } } }
//@gsub /defs\.retain\(\|\(from, _\)\| \*from != uri\)/ => retain_v(&mut defs, |d: &(String, SymbolInformation)| -> (b: bool) ensures b == (d.0@ != uri@) { !same_s(&d.0, &uri) }, Ghost(not_from(uri@)))
//@gsub /defs\.retain\(\|\(from, _\)\| \*from == uri\)/ => retain_v(&mut defs, |d: &(String, SymbolInformation)| -> (b: bool) ensures b == (d.0@ == uri@) { same_s(&d.0, &uri) }, Ghost(|d: (String, SymbolInformation)| d.0@ == uri@))
//@gsub /(\S+)\.get\((\w+)\)\.and_then\(\|r\| r\.value\(\)\.last\(\)\.map\(\|\(_, sym\)\| sym\.clone_v\(\)\)\)/ => (match \1.get(\2) { Some(r) => (match last_v(r) { Some(d) => Some(d.1.clone_v()), None => None }), None => None })
//@gsub /(\S+)\.get\((\w+)\)\.map\(\|r\| r\.value\(\)\.clone_v\(\)\)\.unwrap_or_default\(\)/ => (match \1.get(\2) { Some(r) => r.clone_v(), None => Vec::new() })
//@gsub /self\.qualified_symbols\.iter\(\)\.filter\(\|r\| (.*?)\)\.filter_map\(\|r\| r\.value\(\)\.last\(\)\.map\(\|\(_, sym\)\| sym\.clone_v\(\)\)\)\.collect\(\)/ => filter_map_v(self.qualified_symbols.entries(), |r: &Entry<Vec<Def>>| -> (b: bool) ensures b == infix(query@, r.k@) { \1 }, |r: &Entry<Vec<Def>>| -> (o: Option<SymbolInformation>) ensures o == last_def(r.v@) { match last_v(r.value()) { Some(d) => Some(d.1.clone_v()), None => None } }, Ghost(|e: Entry<Vec<Def>>| infix(query@, e.k@)), Ghost(|e: Entry<Vec<Def>>| last_def(e.v@)))
//@gsub /\.contains\((query|"(?:[^"\\]|\\.)*")\)/ => .has_v(\1)
//@src projects/oak-symbols/src/lib.rs
//@item SymbolInformation
// ---- what the table means ----------------------------------------------------------------------
pub type Def = (String, SymbolInformation);
pub open spec fn last_def(q: Seq<Def>) -> Option<SymbolInformation> { if q.len() > 0 { Some(q.last().1) } else { None } }
/// The fully qualified name of a symbol.
pub open spec fn full(s: SymbolInformation) -> Seq<char> { match s.container_name { Some(c) => c@ + "::"@ + s.name@, None => s.name@ } }
/// The symbols of name n, in order.
pub open spec fn named(s: Seq<SymbolInformation>, n: Seq<char>) -> Seq<SymbolInformation> decreases s.len() { if s.len() == 0 { seq![] } else if full(s.last()) == n { named(s.drop_last(), n).push(s.last()) } else { named(s.drop_last(), n) } }
/// The definitions that come from file u, in order.
pub open spec fn from(q: Seq<Def>, u: Seq<char>) -> Seq<SymbolInformation> decreases q.len() { if q.len() == 0 { seq![] } else if q.last().0@ == u { from(q.drop_last(), u).push(q.last().1) } else { from(q.drop_last(), u) } }
pub open spec fn not_from(u: Seq<char>) -> spec_fn(Def) -> bool { |d: Def| d.0@ != u }
/// q is a followed by the symbols s, all from file u.
pub open spec fn extended(q: Seq<Def>, a: Seq<Def>, u: Seq<char>, s: Seq<SymbolInformation>) -> bool { q.len() == a.len() + s.len() && q.take(a.len() as int) == a && forall|i: int| a.len() <= i < q.len() ==> (#[trigger] q[i]).0@ == u && q[i].1 == s[i - a.len()] }
pub proof fn lemma_kept_from(q: Seq<Def>, u: Seq<char>, v: Seq<char>)
    ensures from(kept(q, not_from(u)), v) == (if u == v { seq![] } else { from(q, v) }), from(q, u).len() == 0 ==> kept(q, not_from(u)) == q, from(kept(q, not_from(u)), u).len() == 0,
    decreases q.len(),
{
    if q.len() > 0 {
        let p = q.drop_last(); lemma_kept_from(p, u, v); let k = kept(p, not_from(u));
        assert(k.push(q.last()).drop_last() =~= k); assert(p.push(q.last()) =~= q); lemma_kept_from(p, u, u);
    } else { assert(q =~= seq![]); }
}
pub proof fn lemma_extended(q: Seq<Def>, a: Seq<Def>, u: Seq<char>, s: Seq<SymbolInformation>, v: Seq<char>)
    requires extended(q, a, u, s), 
    ensures u != v ==> from(q, v) == from(a, v), from(a, u).len() == 0 ==> from(q, u) == s, s.len() == 0 ==> q == a, s.len() > 0 ==> q.last().1 == s.last() && q.last().0@ == u,
    decreases s.len(),
{
    if s.len() == 0 { assert(q =~= a); assert(from(a, u) =~= seq![] || from(a, u).len() > 0); assert(s =~= seq![]); } else {
        assert(q.drop_last().take(a.len() as int) =~= a);
        assert forall|i: int| a.len() <= i < q.len() - 1 implies (#[trigger] q.drop_last()[i]).0@ == u && q.drop_last()[i].1 == s.drop_last()[i - a.len()] by { assert(q[i].0@ == u); }
        lemma_extended(q.drop_last(), a, u, s.drop_last(), v);
        assert(q[q.len() - 1].0@ == u && q[q.len() - 1].1 == s[s.len() - 1]);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_extend(q: Seq<Def>, a: Seq<Def>, u: Seq<char>, s: Seq<SymbolInformation>, d: Def)
    requires extended(q, a, u, s), d.0@ == u,
    ensures extended(q.push(d), a, u, s.push(d.1)),
{ assert(q.push(d).take(a.len() as int) =~= a); }
pub proof fn lemma_named(s: Seq<SymbolInformation>, n: Seq<char>)
    ensures named(s, n).len() > 0 <==> exists|i: int| 0 <= i < s.len() && full(#[trigger] s[i]) == n,
        forall|i: int| 0 <= i < named(s, n).len() ==> full(#[trigger] named(s, n)[i]) == n && s.contains(named(s, n)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last(); lemma_named(p, n);
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] == s[i]); assert(s[s.len() - 1] == s.last());
        assert forall|i: int| 0 <= i < named(s, n).len() implies full(#[trigger] named(s, n)[i]) == n && s.contains(named(s, n)[i]) by {
            if i < named(p, n).len() { assert(named(s, n)[i] == named(p, n)[i]); let j = choose|j: int| 0 <= j < p.len() && p[j] == named(p, n)[i]; assert(s[j] == named(s, n)[i]); }
        }
    }
}
pub proof fn lemma_from(q: Seq<Def>, u: Seq<char>, i: int)
    requires 0 <= i < q.len(), q[i].0@ == u,
    ensures from(q, u).contains(q[i].1),
    decreases q.len(),
{
    if i < q.len() - 1 { lemma_from(q.drop_last(), u, i); let a = from(q.drop_last(), u); let k = choose|k: int| 0 <= k < a.len() && a[k] == q[i].1; assert(from(q, u)[k] == q[i].1); }
    else { let a = from(q.drop_last(), u); assert(from(q, u)[a.len() as int] == q[i].1); }
}
//@src projects/oak-resolver/src/lib.rs
//@item GlobalSymbolTable
impl GlobalSymbolTable {
    /// The latest version of a file (none: no symbols).
    pub open spec fn file(&self, u: Seq<char>) -> Seq<SymbolInformation> { if self.file_symbols@.dom().contains(u) { self.file_symbols@[u]@ } else { seq![] } }
    pub open spec fn defs(&self, n: Seq<char>) -> Seq<Def> { if self.qualified_symbols@.dom().contains(n) { self.qualified_symbols@[n]@ } else { seq![] } }
    /// For every name and file: the definitions filed under the name that come from that file are exactly the symbols of that name in its latest version.
    pub open spec fn at(&self, n: Seq<char>, u: Seq<char>) -> bool { from(self.defs(n), u) == named(self.file(u), n) }
    pub open spec fn inv(&self) -> bool { forall|n: Seq<char>, u: Seq<char>| #[trigger] self.at(n, u) }
//@fn GlobalSymbolTable::new -> r
    ensures r.inv(), forall|u: Seq<char>| r.file(u).len() == 0,
//@end
//@fn GlobalSymbolTable::make_qualified_name -> r
    ensures r@ == full(*sym),
//@end
//@fn GlobalSymbolTable::update_file_symbols
//@sub /\(&self,/ => (&mut self,
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).file_symbols@ == old(self).file_symbols@.insert(uri@, symbols),
        // a definition from the updated file is filed last, those of other files keep their order
        forall|n: Seq<char>| extended(#[trigger] final(self).defs(n), kept(old(self).defs(n), not_from(uri@)), uri@, named(symbols@, n)),
//@body
    let ghost s0 = *self; let ghost nf = not_from(uri@); let ghost olds: Seq<SymbolInformation> = s0.file(uri@);
    let ghost u = uri@;
    proof { assert forall|n: Seq<char>| named(olds, n).len() == 0 implies kept(s0.defs(n), nf) == s0.defs(n) by { assert(s0.at(n, uri@)); lemma_kept_from(s0.defs(n), uri@, uri@); } }
//@iter 1 it
//@loop 1
    invariant
        it.seq() == olds, uri@ == u, nf == not_from(u), self.file_symbols@ == s0.file_symbols@.remove(u),
        forall|n: Seq<char>| #[trigger] self.defs(n) == (if named(olds.take(it.index@ as int), n).len() > 0 { kept(s0.defs(n), nf) } else { s0.defs(n) }),
//@loopstart 1
    let ghost s1 = *self; let ghost k = it.index@ as int;
    proof { assert(olds.take(k + 1).drop_last() =~= olds.take(k)); assert(sym == olds[k]);
        assert forall|n: Seq<char>| kept(kept(s0.defs(n), nf), nf) == kept(s0.defs(n), nf) by { lemma_kept_from(s0.defs(n), u, u); lemma_kept_from(kept(s0.defs(n), nf), u, u); } }
//@loopend 1
    proof {
        let m = full(sym);
        assert(kept(Seq::<Def>::empty(), nf) =~= Seq::<Def>::empty());
        assert(self.defs(m) =~= kept(s1.defs(m), nf));
        assert(forall|n: Seq<char>| n != m ==> #[trigger] self.defs(n) == s1.defs(n));
        assert(olds.take(k + 1).last() == olds[k]);
        assert forall|n: Seq<char>| #[trigger] self.defs(n) == (if named(olds.take(k + 1), n).len() > 0 { kept(s0.defs(n), nf) } else { s0.defs(n) }) by {
            if n == m { lemma_kept_from(s0.defs(n), u, u); lemma_kept_from(kept(s0.defs(n), nf), u, u); assert(named(olds.take(k + 1), n).len() > 0); }
            else { assert(self.defs(n) == s1.defs(n)); assert(named(olds.take(k + 1), n) == named(olds.take(k), n)); }
        }
    }
//@before /for sym in &symbols/
    proof {
        assert forall|n: Seq<char>| #[trigger] self.defs(n) == kept(s0.defs(n), nf) by { assert(olds.take(olds.len() as int) =~= olds); assert(named(olds.take(0), n) =~= seq![]); }
        assert forall|n: Seq<char>| extended(#[trigger] self.defs(n), kept(s0.defs(n), nf), u, named(symbols@.take(0), n)) by { assert(self.defs(n).take(self.defs(n).len() as int) =~= self.defs(n)); }
    }
//@iter 2 it2
//@loop 2
    invariant
        it2.seq().len() == symbols@.len(), forall|i: int| 0 <= i < symbols@.len() ==> *#[trigger] it2.seq()[i] == symbols@[i], uri@ == u, self.file_symbols@ == s0.file_symbols@.remove(u),
        forall|n: Seq<char>| extended(#[trigger] self.defs(n), kept(s0.defs(n), nf), u, named(symbols@.take(it2.index@ as int), n)),
//@loopstart 2
    let ghost s1 = *self; let ghost k = it2.index@ as int;
    proof { assert(symbols@.take(k + 1).drop_last() =~= symbols@.take(k)); assert(*sym == symbols@[k]); }
//@loopend 2
    proof {
        let m = full(*sym); let d = self.defs(m).last();
        assert(self.defs(m) == s1.defs(m).push(d)); assert(d.0@ == u && d.1 == *sym);
        lemma_extend(s1.defs(m), kept(s0.defs(m), nf), u, named(symbols@.take(k), m), d);
        assert(forall|n: Seq<char>| n != m ==> #[trigger] self.defs(n) == s1.defs(n));
    }
//@before /self\.file_symbols\.insert\(uri/
    let ghost s2 = *self; let ghost syms = symbols;
    proof { assert(symbols@.take(symbols@.len() as int) =~= symbols@); }
//@after /self\.file_symbols\.insert\(uri, symbols\);/
    proof {
        assert forall|n: Seq<char>, v: Seq<char>| #[trigger] self.at(n, v) by {
            assert(s0.at(n, v)); assert(s0.at(n, u)); assert(self.defs(n) == s2.defs(n)); lemma_kept_from(s0.defs(n), u, v); lemma_kept_from(s0.defs(n), u, u);
            lemma_extended(self.defs(n), kept(s0.defs(n), nf), u, named(syms@, n), v);
            if v != u { assert(self.file(v) == s0.file(v)); } else { assert(self.file(v) == syms@); }
        }
        assert forall|n: Seq<char>| extended(#[trigger] self.defs(n), kept(s0.defs(n), nf), u, named(syms@, n)) by { assert(self.defs(n) == s2.defs(n)); }
    }
//@end
//@fn GlobalSymbolTable::lookup -> r
//@sub /-> Option<SymbolInformation> \{/ => -> Option<SymbolInformation> {
    requires self.inv(),
    ensures r == (if self.defs(fqn@).len() > 0 { Some(self.defs(fqn@).last().1) } else { None }),
        // some file's latest version has that symbol
        r is Some ==> exists|u: Seq<char>| self.file(u).contains(r->0) && full(r->0) == fqn@,
        // a name that some file's latest version defines is found
        forall|u: Seq<char>| #[trigger] named(self.file(u), fqn@).len() > 0 ==> r is Some,
//@body
    proof {
        let q = self.defs(fqn@);
        if q.len() > 0 { let u = q.last().0@; assert(self.at(fqn@, u)); lemma_from(q, u, q.len() - 1); let i = choose|i: int| 0 <= i < from(q, u).len() && from(q, u)[i] == q.last().1; lemma_named(self.file(u), fqn@); }
        assert forall|u: Seq<char>| #[trigger] named(self.file(u), fqn@).len() > 0 implies q.len() > 0 by { assert(self.at(fqn@, u)); }
    }
//@end
//@fn GlobalSymbolTable::query_file -> r
    ensures r@ == self.file(uri@),
//@end
//@fn GlobalSymbolTable::query -> r
    requires self.inv(),
    ensures
        // what is listed is what looking the name up gives, and the name matches
        forall|i: int| 0 <= i < r@.len() ==> infix(query@, full(#[trigger] r@[i])) && last_def(self.defs(full(r@[i]))) == Some(r@[i]),
        // every known name that matches is listed
        forall|n: Seq<char>| infix(query@, n) && #[trigger] self.defs(n).len() > 0 ==> exists|i: int| 0 <= i < r@.len() && full(#[trigger] r@[i]) == n,
        // once
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> full(#[trigger] r@[i]) != full(#[trigger] r@[j]),
//@body
    proof {
        assert forall|es: Seq<Entry<Vec<Def>>>| #[trigger] lists(es, self.qualified_symbols@) implies found(self, picked(es, |e: Entry<Vec<Def>>| infix(query@, e.k@), |e: Entry<Vec<Def>>| last_def(e.v@)), query@) by { lemma_query(self, es, query@); }
    }
//@end
}
pub open spec fn found(t: &GlobalSymbolTable, r: Seq<SymbolInformation>, q: Seq<char>) -> bool {
    (forall|i: int| 0 <= i < r.len() ==> infix(q, full(#[trigger] r[i])) && last_def(t.defs(full(r[i]))) == Some(r[i]))
    && (forall|n: Seq<char>| infix(q, n) && #[trigger] t.defs(n).len() > 0 ==> exists|i: int| 0 <= i < r.len() && full(#[trigger] r[i]) == n)
    && (forall|i: int, j: int| 0 <= i < j < r.len() ==> full(#[trigger] r[i]) != full(#[trigger] r[j]))
}
/// What is filed under a name last has that name.
pub proof fn lemma_last(t: &GlobalSymbolTable, n: Seq<char>)
    requires t.inv(), t.defs(n).len() > 0,
    ensures full(t.defs(n).last().1) == n,
{
    let q = t.defs(n); let u = q.last().0@; assert(t.at(n, u)); lemma_from(q, u, q.len() - 1); let i = choose|i: int| 0 <= i < from(q, u).len() && from(q, u)[i] == q.last().1; lemma_named(t.file(u), n);
}
pub proof fn lemma_picked(t: &GlobalSymbolTable, es: Seq<Entry<Vec<Def>>>, q: Seq<char>)
    requires t.inv(), forall|i: int| 0 <= i < es.len() ==> t.qualified_symbols@.dom().contains((#[trigger] es[i]).k@) && t.qualified_symbols@[es[i].k@] == es[i].v, forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).k@ != (#[trigger] es[j]).k@,
    ensures ({ let r = picked(es, |e: Entry<Vec<Def>>| infix(q, e.k@), |e: Entry<Vec<Def>>| last_def(e.v@));
        (forall|i: int| 0 <= i < r.len() ==> infix(q, full(#[trigger] r[i])) && last_def(t.defs(full(r[i]))) == Some(r[i]) && exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).k@ == full(r[i]))
        && (forall|j: int| 0 <= j < es.len() && infix(q, (#[trigger] es[j]).k@) && es[j].v@.len() > 0 ==> exists|i: int| 0 <= i < r.len() && full(#[trigger] r[i]) == es[j].k@)
        && (forall|i: int, j: int| 0 <= i < j < r.len() ==> full(#[trigger] r[i]) != full(#[trigger] r[j])) }),
    decreases es.len(),
{
    let p = |e: Entry<Vec<Def>>| infix(q, e.k@); let g = |e: Entry<Vec<Def>>| last_def(e.v@);
    let r = picked(es, p, g);
    if es.len() > 0 {
        let a = es.drop_last(); let e = es.last(); let ra = picked(a, p, g);
        assert(forall|i: int| 0 <= i < a.len() ==> a[i] == es[i]); assert(es[es.len() - 1] == e);
        lemma_picked(t, a, q);
        assert(t.defs(e.k@) == e.v@);
        if p(e) && g(e) is Some { lemma_last(t, e.k@); assert(r == ra.push(e.v@.last().1)); assert(r[ra.len() as int] == e.v@.last().1); }
        assert(forall|i: int| 0 <= i < ra.len() ==> ra[i] == r[i]);
        assert forall|i: int| 0 <= i < r.len() implies infix(q, full(#[trigger] r[i])) && last_def(t.defs(full(r[i]))) == Some(r[i]) && exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).k@ == full(r[i]) by {
            if i < ra.len() { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).k@ == full(ra[i]); assert(es[j].k@ == full(r[i])); }
        }
        assert forall|j: int| 0 <= j < es.len() && infix(q, (#[trigger] es[j]).k@) && es[j].v@.len() > 0 implies exists|i: int| 0 <= i < r.len() && full(#[trigger] r[i]) == es[j].k@ by {
            if j < a.len() { assert(a[j] == es[j]); let i = choose|i: int| 0 <= i < ra.len() && full(#[trigger] ra[i]) == a[j].k@; assert(full(r[i]) == es[j].k@); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies full(#[trigger] r[i]) != full(#[trigger] r[j]) by {
            if j >= ra.len() { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).k@ == full(ra[i]); assert(a[k] == es[k]); assert(full(ra[i]) == full(r[i])); }
            else { assert(ra[i] == r[i] && ra[j] == r[j]); }
        }
    }
}
pub proof fn lemma_query(t: &GlobalSymbolTable, es: Seq<Entry<Vec<Def>>>, q: Seq<char>)
    requires t.inv(), lists(es, t.qualified_symbols@),
    ensures found(t, picked(es, |e: Entry<Vec<Def>>| infix(q, e.k@), |e: Entry<Vec<Def>>| last_def(e.v@)), q),
{
    lemma_picked(t, es, q);
    let r = picked(es, |e: Entry<Vec<Def>>| infix(q, e.k@), |e: Entry<Vec<Def>>| last_def(e.v@));
    assert forall|n: Seq<char>| infix(q, n) && #[trigger] t.defs(n).len() > 0 implies exists|i: int| 0 <= i < r.len() && full(#[trigger] r[i]) == n by {
        assert(t.qualified_symbols@.dom().contains(n)); let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).k@ == n; assert(es[j].v@ == t.defs(n));
    }
}
}
fn main() {}
