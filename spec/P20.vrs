use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- maps, URLs and paths (assumed: dashmap, url, std::path) -----------------------------------
/// A path is the sequence of its components.
#[verifier::external_body] pub struct PathBuf { p: std::path::PathBuf }
pub struct Components { pub n: Ghost<Seq<Seq<char>>>, pub k: usize }
impl PathBuf {
    pub uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn clone_v(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    /// `Path::starts_with` compares whole components.
    #[verifier::external_body] pub fn starts_with(&self, o: &PathBuf) -> (r: bool) ensures r == is_prefix(o.parts(), self.parts()) { unimplemented!() }
    #[verifier::external_body] pub fn components(&self) -> (r: Components) ensures r.n@ == self.parts() { unimplemented!() }
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: OsStr) { unimplemented!() }
}
#[verifier::external_body] pub struct OsStr { p: std::ffi::OsString }
impl OsStr { #[verifier::external_body] pub fn len(&self) -> (r: usize) { self.p.len() } }
impl Components { #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.n@.len() { self.k } }
pub open spec fn is_prefix(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
/// The local path a URI stands for, if any.
pub uninterp spec fn path_of(uri: Seq<char>) -> Option<PathBuf>;
pub uninterp spec fn url_ok(uri: Seq<char>) -> bool;
#[verifier::external_body] pub struct Url { u: u8 }
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Url, ()>) ensures r is Ok == url_ok(s@), r is Ok ==> r->Ok_0.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_file_path(&self) -> (r: Result<PathBuf, ()>) ensures r is Ok == (path_of(self.text()) is Some), r is Ok ==> r->Ok_0 == path_of(self.text())->0 { unimplemented!() }
}
pub open spec fn local(uri: Seq<char>) -> Option<PathBuf> { if url_ok(uri) { path_of(uri) } else { None } }
/// A DashMap with string keys, used by one thread at a time.
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct MapS<V> { m: std::collections::HashMap<String, V> }
pub struct Entry<V> { pub k: String, pub v: V }
impl<V> Entry<V> { pub fn key(&self) -> (r: &String) ensures *r == self.k { &self.k } pub fn value(&self) -> (r: &V) ensures *r == self.v { &self.v } }
impl<V> MapS<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<(String, V)>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    /// All entries, in some order.
    #[verifier::external_body] pub fn iter(&self) -> (r: Vec<Entry<V>>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).k@) && self@[r@[i].k@] == r@[i].v,
            forall|n: Seq<char>| #[trigger] self@.dom().contains(n) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).k@ == n { unimplemented!() }
}
pub trait Same: Sized { fn clone_v(&self) -> (r: Self) ensures r == *self; }
impl Same for String { #[verifier::external_body] fn clone_v(&self) -> (r: Self) { self.clone() } }
pub struct GlobalSymbolTable { pub s: u8 }
impl GlobalSymbolTable { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct StandardResolver { r: u8 }
impl StandardResolver { #[verifier::external_body] pub fn new(d: Vec<PathBuf>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn set_root_dirs(&self, d: Vec<PathBuf>) { unimplemented!() } }
pub struct WorkspaceFolder { pub uri: String, pub name: String }
pub struct InitializeParams { pub root_uri: Option<String>, pub workspace_folders: Vec<WorkspaceFolder> }
//@gsub /DashMap<String, / => MapS<
//@gsub /DashMap::new\(\)/ => MapS::new()
//@gsub /\.clone\(\)/ => .clone_v()
//@gsub /Url::parse\(&(\w+\.uri)\)/ => Url::parse(\1.as_str())
//@gsub /Url::parse\(&uri\)/ => Url::parse(uri.as_str())
//@gsub /Url::parse\(uri_str\)/ => Url::parse(uri_str.as_str())
//@gsub /best_match\.as_ref\(\)\.map_or\(true, \|\(_, best_len\)\| (.*?)\) \{/ => (match &best_match { Some((_, best_len)) => \1, None => true }) {
//@gsub /best_match\.map\(\|\(uri, _\)\| uri\)/ => (match best_match { Some((uri, _)) => Some(uri), None => None })
//@src projects/oak-lsp/src/workspace.rs
//@item WorkspaceManager
impl WorkspaceManager {
    /// Folder f encloses the path p.
    pub open spec fn encloses(&self, f: Seq<char>, p: PathBuf) -> bool { self.folders@.dom().contains(f) && is_prefix(self.folders@[f].parts(), p.parts()) }
    /// The folders after one was added: nothing changes unless its URI stands for a local path.
    pub open spec fn added(o: Map<Seq<char>, PathBuf>, uri: Seq<char>) -> Map<Seq<char>, PathBuf> { match local(uri) { Some(p) => o.insert(uri, p), None => o } }
    pub open spec fn added_all(o: Map<Seq<char>, PathBuf>, v: Seq<WorkspaceFolder>) -> Map<Seq<char>, PathBuf> decreases v.len() { if v.len() == 0 { o } else { Self::added(Self::added_all(o, v.drop_last()), v.last().uri@) } }
//@fn WorkspaceManager::new -> r
    ensures r.folders@ == Map::<Seq<char>, PathBuf>::empty(),
//@end
//@fn WorkspaceManager::initialize
//@sub /\(&self,/ => (&mut self,
    ensures final(self).folders@ == Self::added_all(match params.root_uri { Some(u) => Self::added(old(self).folders@, u@), None => old(self).folders@ }, params.workspace_folders@),
//@iter 1 it
//@before /for folder in/
    let ghost f0 = self.folders@;
    proof { assert(params.workspace_folders@.take(0) =~= seq![]); }
//@loop 1
    invariant
        it.seq().len() == params.workspace_folders@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == params.workspace_folders@[i],
        self.folders@ == Self::added_all(f0, params.workspace_folders@.take(it.index@ as int)),
//@loopstart 1
    proof { let k = it.index@ as int; assert(params.workspace_folders@.take(k + 1).drop_last() =~= params.workspace_folders@.take(k)); assert(params.workspace_folders@.take(k + 1).last() == *folder); }
//@before /self\.resolver\.set_root/
    proof { assert(params.workspace_folders@.take(params.workspace_folders@.len() as int) =~= params.workspace_folders@); }
//@end
//@fn WorkspaceManager::add_folder
//@sub /\(&self,/ => (&mut self,
    ensures final(self).folders@ == Self::added(old(self).folders@, uri@),
//@end
//@fn WorkspaceManager::remove_folder
//@sub /\(&self,/ => (&mut self,
    ensures final(self).folders@ == old(self).folders@.remove(uri@),
//@end
//@fn WorkspaceManager::get_path -> r
    ensures r is Some == (local(uri@) is Some), r is Some ==> r->0 == local(uri@)->0,
//@end
//@fn WorkspaceManager::find_root -> r
    ensures
        local(uri@) is None ==> r is None,
        // the answer encloses the path, and no other enclosing folder is deeper
        r is Some ==> self.encloses(r->0@, local(uri@)->0) && forall|f: Seq<char>| #[trigger] self.encloses(f, local(uri@)->0) ==> self.folders@[f].parts().len() <= self.folders@[r->0@].parts().len(),
        r is None && local(uri@) is Some ==> forall|f: Seq<char>| !#[trigger] self.encloses(f, local(uri@)->0),
//@iter 1 it
//@loop 1
    invariant
        local(uri@) == Some(path),
        forall|i: int| 0 <= i < it.seq().len() ==> self.folders@.dom().contains((#[trigger] it.seq()[i]).k@) && self.folders@[it.seq()[i].k@] == it.seq()[i].v,
        forall|n: Seq<char>| #[trigger] self.folders@.dom().contains(n) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).k@ == n,
        best_match is Some ==> self.encloses((best_match->0).0@, path) && (best_match->0).1 == self.folders@[(best_match->0).0@].parts().len(),
        forall|i: int| 0 <= i < it.index@ && is_prefix((#[trigger] it.seq()[i]).v.parts(), path.parts()) ==> best_match is Some && it.seq()[i].v.parts().len() <= (best_match->0).1,
//@end
//@fn WorkspaceManager::is_within_workspace -> r
    ensures r == (local(uri@) is Some && exists|f: Seq<char>| #[trigger] self.encloses(f, local(uri@)->0)),
//@end
}
}
fn main() {}
