use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- maps, locks and strings (assumed: std) ----------------------------------------------------
pub type SourceId = u32;
/// An `Arc<str>`.
#[verifier::external_body] pub struct AStr { s: std::sync::Arc<str> }
impl AStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn of(s: &str) -> (r: AStr) ensures r@ == s@ { AStr { s: s.into() } }
    #[verifier::external_body] pub fn clone_v(&self) -> (r: AStr) ensures r == *self { AStr { s: self.s.clone() } }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == blen(self@) { self.s.len() }
}
pub uninterp spec fn blen(s: Seq<char>) -> nat;
pub trait Name { spec fn nm(&self) -> Seq<char>; }
impl Name for AStr { open spec fn nm(&self) -> Seq<char> { self@ } }
impl Name for str { open spec fn nm(&self) -> Seq<char> { self@ } }
/// A `HashMap` behind its lock, keyed by text.
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct MapN<V> { m: std::collections::HashMap<String, V> }
impl<V> MapN<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: AStr, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove<K: Name + ?Sized>(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.nm()), r is Some == old(self)@.dom().contains(k.nm()), r is Some ==> r->0 == old(self)@[k.nm()] { unimplemented!() }
    #[verifier::external_body] pub fn get<K: Name + ?Sized>(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.nm()), r is Some ==> *r->0 == self@[k.nm()] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<K: Name + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.nm()) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct MapI<V> { m: std::collections::HashMap<u32, V> }
impl<V> MapI<V> {
    pub uninterp spec fn view(&self) -> Map<u32, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: u32, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &u32) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some == old(self)@.dom().contains(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &u32) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
}
/// `fetch_add` of an atomic counter.
pub fn fetch_add_v(n: &mut u32, d: u32) -> (r: u32) requires *old(n) + d <= u32::MAX ensures r == *old(n), *final(n) == *old(n) + d { let r = *n; *n = *n + d; r }
pub fn copied_id(o: Option<&u32>) -> (r: Option<u32>) ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(*x), None => None } }
pub fn cloned_name(o: Option<&AStr>) -> (r: Option<AStr>) ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(x.clone_v()), None => None } }
/// Contiguous source text with its identifier (its contents are the subject of P01).
pub struct SourceText { pub raw: AStr, pub source_id: Option<u32> }
impl SourceText { pub fn new_with_id(input: AStr, id: u32) -> (r: Self) ensures r.raw == input, r.source_id == Some(id) { SourceText { raw: input, source_id: Some(id) } } }
//@src projects/oak-vfs/src/lib.rs
#[derive(PartialEq, Eq, Structural)]
//@item FileType
//@item FileMetadata
/// The line map of a text (its conversions are the subject of P05).
pub struct LineMap { pub of: Ghost<Seq<char>> }
impl LineMap { pub fn from_source(s: &SourceText) -> (r: LineMap) ensures r.of@ == s.raw@ { LineMap { of: Ghost(s.raw@) } } }
/// `HashMap::keys`, collected.
#[verifier::external_body] pub fn keys_v<V>(m: &MapN<V>) -> (r: Vec<AStr>) ensures lists(r@, |u: Seq<char>| m@.dom().contains(u)) { unimplemented!() }
/// l names every element of d, once each, and nothing else.
pub open spec fn lists(l: Seq<AStr>, d: spec_fn(Seq<char>) -> bool) -> bool { (forall|i: int| 0 <= i < l.len() ==> d(#[trigger] l[i]@)) && (forall|u: Seq<char>| #[trigger] d(u) ==> exists|i: int| 0 <= i < l.len() && #[trigger] l[i]@ == u) && (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i])@ != (#[trigger] l[j])@) }
#[verifier::external_body] pub fn clock() -> u64 { 0 }
//@gsub /std::sync::Arc<RwLock<HashMap<Arc<str>, (\w+)>>>/ => MapN<\1>
//@gsub /std::sync::Arc<RwLock<HashMap<SourceId, Arc<str>>>>/ => MapI<AStr>
//@gsub /std::sync::Arc<RwLock<HashMap<Arc<str>, SourceId>>>/ => MapN<SourceId>
//@gsub /std::sync::Arc<AtomicU32>/ => u32
//@gsub /content: impl Into<Arc<str>>/ => content: AStr
//@gsub /content\.into\(\)/ => content
//@gsub /Arc<str>/ => AStr
//@gsub /(?:AStr|Arc)::from\(uri\)/ => AStr::of(uri)
//@gsub /let mut (\w+) = self\.(\w+)\.write\(\)\.unwrap\(\)/ => let \1 = &mut self.\2
//@gsub /let (\w+) = self\.(\w+)\.read\(\)\.unwrap\(\)/ => let \1 = &self.\2
//@gsub /self\.(\w+)\.read\(\)\.unwrap\(\)/ => self.\1
//@gsub /self\.next_id\.fetch_add\((\w+), Ordering::\w+\)/ => fetch_add_v(&mut self.next_id, \1)
//@gsub /Self::now\(\)/ => clock()
//@gsub /ids\.get\(&id\)\.cloned\(\)/ => cloned_name(ids.get(&id))
//@gsub /uri_to_id\.get\(uri\)\.(?:cloned|copied)\(\)/ => copied_id(uri_to_id.get(uri))
//@gsub /(\w+)\.get\(uri\)\.map\(\|entry\| (.*?)\)\s*\}$/ => (match \1.get(uri) { Some(entry) => Some(\2), None => None }) }
//@gsub /(\w+)\.keys\(\)\.cloned\(\)\.collect\(\)/ => keys_v(\1)
//@gsub /self\.(\w+)\(uri\)\.map\(\|(\w+)\| ((?:[^()]|\([^()]*\))*)\)\.unwrap_or\((\w+)\)/ => (match self.\1(uri) { Some(\2) => \3, None => \4 })
//@gsub /self\.(\w+)\(uri\)\.map\(\|(\w+)\| ((?:[^()]|\([^()]*\))*)\)/ => (match self.\1(uri) { Some(\2) => Some(\3), None => None })
//@gsub /Self::default\(\)/ => default_vfs()
//@gsub /\.clone\(\)/ => .clone_v()
//@src projects/oak-vfs/src/vfs/memory.rs
//@item FileEntry
//@item MemoryVfs
/// The derived `Default`.
#[verifier::external_body] pub fn default_vfs() -> (r: MemoryVfs) ensures r.files@ == Map::<Seq<char>, FileEntry>::empty(), r.ids@ == Map::<u32, AStr>::empty(), r.uri_to_id@ == Map::<Seq<char>, SourceId>::empty(), r.next_id == 0 { unimplemented!() }
impl MemoryVfs {
    /// The documents: latest content of every path.
    pub open spec fn doc(&self, u: Seq<char>) -> Option<Seq<char>> { if self.files@.dom().contains(u) { Some(self.files@[u].content@) } else { None } }
    /// The identifier of a document.
    pub open spec fn id(&self, u: Seq<char>) -> Option<u32> { if self.files@.dom().contains(u) { Some(self.files@[u].id) } else { None } }
    /// The three maps describe the same documents; identifiers are distinct, below the next one.
    pub open spec fn inv(&self) -> bool {
        &&& forall|u: Seq<char>| #[trigger] self.uri_to_id@.dom().contains(u) <==> self.files@.dom().contains(u)
        &&& forall|u: Seq<char>| #[trigger] self.files@.dom().contains(u) ==> self.uri_to_id@[u] == self.files@[u].id && self.files@[u].id < self.next_id && self.ids@.dom().contains(self.files@[u].id) && self.ids@[self.files@[u].id]@ == u
        &&& forall|i: u32| #[trigger] self.ids@.dom().contains(i) ==> self.files@.dom().contains(self.ids@[i]@) && self.files@[self.ids@[i]@].id == i
    }
    /// Everything but path u is as before.
    pub open spec fn else_same(&self, o: &Self, u: Seq<char>) -> bool { forall|v: Seq<char>| #![trigger self.doc(v)] #![trigger self.id(v)] v != u ==> self.doc(v) == o.doc(v) && self.id(v) == o.id(v) }
//@fn MemoryVfs::new -> r
    ensures r.inv(), r.next_id == 0, forall|u: Seq<char>| #![trigger r.doc(u)] #![trigger r.id(u)] r.doc(u) is None && r.id(u) is None,
//@end
//@fn MemoryVfs::write_file
//@sub /\(&self,/ => (&mut self,
    requires old(self).inv(), old(self).next_id < u32::MAX,
    ensures final(self).inv(), final(self).doc(uri@) == Some(content@), final(self).else_same(old(self), uri@),
        final(self).next_id >= old(self).next_id,
        // a document keeps its identifier; a new one gets an identifier never handed out before
        match old(self).id(uri@) { Some(i) => final(self).id(uri@) == Some(i), None => final(self).id(uri@) == Some(old(self).next_id) && final(self).next_id > old(self).next_id },
//@end
//@fn MemoryVfs::remove_file
//@sub /\(&self,/ => (&mut self,
    requires old(self).inv(),
    ensures final(self).inv(), final(self).doc(uri@) is None, final(self).else_same(old(self), uri@), final(self).next_id == old(self).next_id,
//@end
//@gsub /Option<Self::Source>/ => Option<SourceText>
//@fn Vfs for MemoryVfs::get_source -> r
    requires self.inv(),
    ensures r is Some == self.doc(uri@) is Some, r is Some ==> r->0.raw@ == self.doc(uri@)->0 && r->0.source_id == self.id(uri@),
//@end
//@fn Vfs for MemoryVfs::get_uri -> r
    requires self.inv(),
    ensures r is Some ==> self.id(r->0@) == Some(id), forall|u: Seq<char>| #[trigger] self.id(u) == Some(id) ==> r is Some && r->0@ == u,
//@end
//@fn Vfs for MemoryVfs::get_id -> r
    requires self.inv(),
    ensures r == self.id(uri@),
//@end
//@fn Vfs for MemoryVfs::exists -> r
    ensures r == self.doc(uri@) is Some,
//@end
//@fn Vfs for MemoryVfs::metadata -> r
    ensures r is Some == self.doc(uri@) is Some, r is Some ==> r->0.file_type is File && r->0.len == blen(self.doc(uri@)->0),
//@end
//@fn Vfs for MemoryVfs::read_dir -> r
    ensures r is Some, lists(r->0@, |u: Seq<char>| self.doc(u) is Some),
//@body
    proof { let m = &self.files; assert((|u: Seq<char>| m@.dom().contains(u)) =~= (|u: Seq<char>| self.doc(u) is Some)); }
//@end
//@src projects/oak-vfs/src/lib.rs
//@fn trait Vfs::is_file -> r
    ensures r == self.doc(uri@) is Some,
//@end
//@fn trait Vfs::is_dir -> r
    ensures !r,
//@end
//@fn trait Vfs::line_map -> r
    requires self.inv(),
    ensures r is Some == self.doc(uri@) is Some, r is Some ==> r->0.of@ == self.doc(uri@)->0,
//@end
}
//@src projects/oak-vfs/src/vfs/memory.rs
pub trait WritableVfs: Sized {
    spec fn changed(&self, o: &Self, u: Seq<char>, c: Option<Seq<char>>) -> bool;
    spec fn ready(&self) -> bool;
    fn write_file(&mut self, uri: &str, content: AStr) requires old(self).ready() ensures final(self).changed(old(self), uri@, Some(content@));
    fn remove_file(&mut self, uri: &str) requires old(self).ready() ensures final(self).changed(old(self), uri@, None);
}
impl WritableVfs for MemoryVfs {
    open spec fn changed(&self, o: &Self, u: Seq<char>, c: Option<Seq<char>>) -> bool { self.inv() && self.doc(u) == c && self.else_same(o, u) && (c is Some && o.id(u) is Some ==> self.id(u) == o.id(u)) }
    open spec fn ready(&self) -> bool { self.inv() && self.next_id < u32::MAX }
//@fn WritableVfs for MemoryVfs::write_file
//@sub /\(&self,/ => (&mut self,
//@end
//@fn WritableVfs for MemoryVfs::remove_file
//@sub /\(&self,/ => (&mut self,
//@end
}
/// What histories of the operations above amount to, whatever identifiers were handed out: two documents never share one.
pub proof fn theorem_ids(s: &MemoryVfs, u: Seq<char>, v: Seq<char>)
    requires s.inv(), s.id(u) is Some, s.id(u) == s.id(v),
    ensures u == v,
{ }
}
fn main() {}
