use vstd::prelude::*;
verus! {
// ---- memory (assumed): nodes lie in arenas ------------------------------------------------------
pub type Arena = int;
/// An arena; its nodes are there until it is dropped (the subject of P08). `id` tells arenas apart.
#[verifier::external_body] pub struct SyntaxArena { p: u8 }
impl SyntaxArena { pub uninterp spec fn id(&self) -> Arena; #[verifier::external_body] pub fn new(capacity: usize) -> SyntaxArena { unimplemented!() } }
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
pub trait Language: Sized { type TokenType: Copy; type ElementType; }
/// A node at its place; `home` is the arena it was made in.
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct GreenNode<'a, L: Language> { p: &'a L }
impl<'a, L: Language> GreenNode<'a, L> { pub uninterp spec fn home(&self) -> Arena; #[verifier::external_body] pub fn width(&self) -> usize { unimplemented!() } }
/// `NonNull<()>` made from a reference to a node.
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct Ptr<'a, L: Language> { p: &'a GreenNode<'a, L> }
impl<'a, L: Language> Clone for Ptr<'a, L> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<'a, L: Language> Copy for Ptr<'a, L> {}
impl<'a, L: Language> Ptr<'a, L> { pub uninterp spec fn target(&self) -> GreenNode<'a, L>; }
#[verifier::external_body] pub fn ptr_to<'a, L: Language>(root: &GreenNode<'a, L>) -> (r: Ptr<'a, L>) ensures r.target() == *root { unimplemented!() }
/// Dereferencing is an error unless the arena the node was made in still exists.
#[verifier::external_body] pub fn deref_ptr<'a, 's, L: Language>(p: Ptr<'a, L>, Ghost(live): Ghost<Set<Arena>>) -> (r: &'s GreenNode<'a, L>) requires live.contains(p.target().home()) ensures *r == p.target() { unimplemented!() }
// ---- tokens ----------------------------------------------------------------------------------------
#[derive(Clone, Copy)] pub struct RangeU { pub start: usize, pub end: usize }
//@gsub /Range<usize>/ => RangeU
//@src projects/oak-core/src/lexer/mod.rs
#[derive(Copy)]
//@item Token
impl<K: Copy> Clone for Token<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::external_body] pub struct OakError { k: u8 }
#[verifier::reject_recursive_types(L)] pub struct Tokens<L: Language> { pub v: Vec<Token<L::TokenType>> }
impl<L: Language> Tokens<L> {
    pub open spec fn view(&self) -> Seq<Token<L::TokenType>> { self.v@ }
    pub fn get(&self, i: usize) -> (r: Option<&Token<L::TokenType>>) ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { self.v.get(i) }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn as_slice(&self) -> (r: &[Token<L::TokenType>]) ensures r@ == self@ { self.v.as_slice() }
}
pub struct OakDiagnostics<T> { pub result: Result<T, OakError>, pub diagnostics: Vec<OakError> }
#[verifier::reject_recursive_types(L)] pub struct LexOutput<L: Language> { pub result: Result<Tokens<L>, OakError>, pub diagnostics: Vec<OakError> }
impl<L: Language> LexOutput<L> { #[verifier::external_body] pub fn clone_v(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The tokens there are: those of the last output, if it was a success.
pub open spec fn have<L: Language>(o: Option<LexOutput<L>>) -> Option<Seq<Token<L::TokenType>>> { match o { Some(x) => match x.result { Ok(t) => Some(t@), Err(_) => None }, None => None } }
pub open spec fn tok_count<L: Language>(o: Option<LexOutput<L>>) -> int { match have(o) { Some(t) => t.len() as int, None => 0 } }
// ---- the contract of a cache -----------------------------------------------------------------------
pub trait LexerCache<'a, L: Language>: Sized {
    spec fn lexed(&self) -> Option<LexOutput<L>>;
    /// Everything but the lexer's output.
    spec fn rest_same(&self, o: &Self) -> bool;
    fn set_lex_output(&mut self, output: LexOutput<L>) ensures (*final(self)).lexed() == Some(output), (*final(self)).rest_same(&*old(self));
    fn get_token(&self, index: usize) -> (r: Option<Token<L::TokenType>>) ensures r == (match have(self.lexed()) { Some(t) => if index < t.len() { Some(t[index as int]) } else { None }, None => None });
    fn count_tokens(&self) -> (r: usize) ensures r == tok_count(self.lexed());
    fn has_tokens(&self) -> (r: bool) ensures r == (tok_count(self.lexed()) > 0);
    fn get_tokens(&self) -> (r: Option<&[Token<L::TokenType>]>) ensures r is Some == have(self.lexed()) is Some, r is Some ==> r->0@ == have(self.lexed())->0;
}
pub trait ParseCache<'a, L: Language>: LexerCache<'a, L> {
    /// The root of the last committed parse.
    spec fn root(&self) -> Option<GreenNode<'a, L>>;
    /// The arena trees are built in.
    spec fn now(&self) -> Arena;
    spec fn live(&self) -> Set<Arena>;
    /// Whether a generation was prepared.
    spec fn ready(&self) -> bool;
    spec fn inv(&self) -> bool;
    /// The last committed tree exists as long as the cache.
    proof fn root_lives(&self) requires self.inv() ensures self.root() is Some ==> self.live().contains(self.root()->0.home()), self.live().contains(self.now());
    /// A new lexer output leaves the trees alone.
    proof fn unmoved(&self, o: &Self) requires self.rest_same(o), o.inv() ensures self.inv(), self.root() == o.root(), self.now() == o.now(), self.live() == o.live(), self.ready() == o.ready();
    fn arena<'s>(&'s self) -> (r: &'s SyntaxArena) ensures r.id() == self.now();
    fn old_tree<'s>(&'s self) -> (r: Option<&'s GreenNode<'a, L>>) requires self.inv() ensures r is Some == (self.root() is Some && self.ready()), r is Some ==> *r->0 == self.root()->0;
    fn lex_output<'s>(&'s self) -> (r: Option<&'s LexOutput<L>>) ensures r is Some == self.lexed() is Some, r is Some ==> *r->0 == self.lexed()->0;
    fn prepare_generation(&mut self) requires (*old(self)).inv() ensures (*final(self)).inv(), (*final(self)).root() == (*old(self)).root(), (*final(self)).ready(), (*final(self)).lexed() is None;
    fn commit_generation(&mut self, root: &GreenNode<'a, L>) requires (*old(self)).inv(), root.home() == (*old(self)).now() ensures (*final(self)).inv(), (*final(self)).root() == Some(*root), (*final(self)).lexed() == (*old(self)).lexed(), (*final(self)).now() == (*old(self)).now(), (*final(self)).live() == (*old(self)).live();
}
//@src projects/oak-core/src/parser/session.rs
//@gsub /Cell<Option<NonNull<\(\)>>>/ => Option<Ptr<'a, L>>
//@gsub /Cell<bool>/ => bool
//@gsub /Cell::new\((\w+)\)/ => \1
//@gsub /ParseSession<L: Language \+ Send \+ Sync>/ => ParseSession<'a, L: Language>
//@gsub /self\.last_root\.get\(\)/ => self.last_root
//@gsub /unsafe \{ Some\(&\*\(ptr\.as_ptr\(\) as \*const GreenNode<'_, L>\)\) \}/ => Some(deref_ptr(ptr, Ghost(self.live())))
//@gsub /&GreenNode<'_, L>/ => &GreenNode<'a, L>
//@gsub /&GreenNode<L>/ => &GreenNode<'a, L>
//@gsub /unsafe \{ self\.last_root\.set\(Some\(NonNull::new_unchecked\(root as \*const _ as \*mut \(\)\)\)\) \}/ => self.last_root = Some(ptr_to(root));
//@gsub /self\.committed\.set\(true\)/ => self.committed = true
//@gsub /self\.committed\.replace\(false\)/ => std::mem::replace(&mut self.committed, false)
#[verifier::reject_recursive_types(L)]
//@item ParseSession
impl<'a, L: Language> ParseSession<'a, L> {
    /// The last root lies in the arena that the last commit was made in, and that one is kept.
    pub open spec fn valid(&self) -> bool { self.last_root is Some ==> ({ let h = self.last_root->0.target().home(); if self.committed { h == self.arena_active.id() } else { self.arena_old is Some && h == self.arena_old->0.id() } }) }
//@fn ParseSession::new -> r
    ensures r.inv(), r.root() is None, r.lexed() is None,
//@end
//@fn ParseSession::last_root -> r
    requires self.inv(),
    ensures r is Some == self.root() is Some, r is Some ==> *r->0 == self.root()->0,
//@end
}
impl<'a, L: Language> ParseCache<'a, L> for ParseSession<'a, L> {
    open spec fn root(&self) -> Option<GreenNode<'a, L>> { match self.last_root { Some(p) => Some(p.target()), None => None } }
    open spec fn now(&self) -> Arena { self.arena_active.id() }
    open spec fn live(&self) -> Set<Arena> { match self.arena_old { Some(a) => set![self.arena_active.id(), a.id()], None => set![self.arena_active.id()] } }
    open spec fn ready(&self) -> bool { self.arena_old is Some }
    open spec fn inv(&self) -> bool { self.valid() }
    proof fn root_lives(&self) { }
    proof fn unmoved(&self, o: &Self) { }
//@fn ParseCache for ParseSession::arena
//@end
//@fn ParseCache for ParseSession::old_tree
//@end
//@fn ParseCache for ParseSession::lex_output
//@end
//@fn ParseCache for ParseSession::prepare_generation
//@end
//@fn ParseCache for ParseSession::commit_generation
//@sub /&self, root/ => &mut self, root
//@end
}
impl<'a, L: Language> LexerCache<'a, L> for ParseSession<'a, L> {
    open spec fn lexed(&self) -> Option<LexOutput<L>> { self.last_lex }
    open spec fn rest_same(&self, o: &Self) -> bool { self.arena_active == o.arena_active && self.arena_old == o.arena_old && self.last_root == o.last_root && self.committed == o.committed }
//@fn LexerCache for ParseSession::set_lex_output
//@end
//@fn LexerCache for ParseSession::get_token
//@sub /self\.last_lex\.as_ref\(\)\?\.result\.as_ref\(\)\.ok\(\)\?\.get\(index\)\.cloned\(\)/ => match self.last_lex.as_ref()?.result.as_ref().ok()?.get(index) { Some(t) => Some(*t), None => None }
//@end
//@fn LexerCache for ParseSession::count_tokens
//@sub /self\.last_lex\.as_ref\(\)\.and_then\(\|out\| out\.result\.as_ref\(\)\.ok\(\)\)\.map\(\|tokens\| (.*?)\)\.unwrap_or\((\w+)\)/ => match self.last_lex.as_ref() { Some(out) => match out.result.as_ref().ok() { Some(tokens) => \1, None => \2 }, None => \2 }
//@end
//@fn LexerCache for ParseSession::has_tokens
//@sub /self\.last_lex\.as_ref\(\)\.and_then\(\|out\| out\.result\.as_ref\(\)\.ok\(\)\)\.map\(\|tokens\| (.*?)\)\.unwrap_or\((\w+)\)/ => match self.last_lex.as_ref() { Some(out) => match out.result.as_ref().ok() { Some(tokens) => \1, None => \2 }, None => \2 }
//@end
//@fn LexerCache for ParseSession::get_tokens
//@sub /self\.last_lex\.as_ref\(\)\?\.result\.as_ref\(\)\.ok\(\)\.map\(\|tokens\| &\*\*tokens\)/ => match self.last_lex.as_ref()?.result.as_ref().ok() { Some(tokens) => Some(tokens.as_slice()), None => None }
//@end
}
// ---- a borrowed cache is the cache ------------------------------------------------------------------
impl<'c, 'a, L: Language, C: ParseCache<'a, L>> ParseCache<'a, L> for &'c mut C {
    open spec fn root(&self) -> Option<GreenNode<'a, L>> { (**self).root() }
    open spec fn now(&self) -> Arena { (**self).now() }
    open spec fn live(&self) -> Set<Arena> { (**self).live() }
    open spec fn ready(&self) -> bool { (**self).ready() }
    open spec fn inv(&self) -> bool { (**self).inv() }
    proof fn root_lives(&self) { (**self).root_lives(); }
    proof fn unmoved(&self, o: &Self) { (**self).unmoved(&**o); }
//@fn ParseCache for C::arena
//@end
//@fn ParseCache for C::old_tree
//@end
//@fn ParseCache for C::lex_output
//@end
//@fn ParseCache for C::prepare_generation
//@end
//@fn ParseCache for C::commit_generation
//@sub /&self, root/ => &mut self, root
//@end
}
//@src projects/oak-core/src/lexer/mod.rs
impl<'c, 'a, L: Language, C: LexerCache<'a, L>> LexerCache<'a, L> for &'c mut C {
    open spec fn lexed(&self) -> Option<LexOutput<L>> { (**self).lexed() }
    open spec fn rest_same(&self, o: &Self) -> bool { (**self).rest_same(&**o) }
//@fn LexerCache for C::set_lex_output
//@end
//@fn LexerCache for C::get_token
//@end
//@fn LexerCache for C::count_tokens
//@end
//@fn LexerCache for C::has_tokens
//@end
//@fn LexerCache for C::get_tokens
//@end
}
//@src projects/oak-core/src/parser/session.rs
// ---- a parse (the parser state by the contracts proved in P10 and P12) -----------------------------
pub trait Source { }
#[verifier::external_body] pub struct TextEdit { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(L)] #[verifier::reject_recursive_types(S)] pub struct ParserState<'a, L: Language, S: Source + ?Sized> { l: &'a L, s: &'a S }
impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
    pub uninterp spec fn arena_id(&self) -> Arena;
    pub uninterp spec fn given(&self) -> LexOutput<L>;
    pub uninterp spec fn text(&self) -> &'a S;
    pub uninterp spec fn old_tree(&self) -> Option<GreenNode<'a, L>>;
    pub uninterp spec fn edits(&self) -> Seq<TextEdit>;
    #[verifier::external_body] pub fn new(arena: &'a SyntaxArena, lex: LexOutput<L>, text: &'a S, capacity: usize) -> (r: Self) ensures r.arena_id() == arena.id(), r.given() == lex, r.text() == text, r.old_tree() is None { unimplemented!() }
    #[verifier::external_body] pub fn set_incremental(&mut self, old_root: &'a GreenNode<'a, L>, edits: &[TextEdit]) ensures (*final(self)).arena_id() == (*old(self)).arena_id(), (*final(self)).given() == (*old(self)).given(), (*final(self)).text() == (*old(self)).text(), (*final(self)).old_tree() == Some(*old_root), (*final(self)).edits() == edits@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self, result: Result<&'a GreenNode<'a, L>, OakError>) -> (r: OakDiagnostics<&'a GreenNode<'a, L>>) ensures r.result == result { unimplemented!() }
}
pub trait Lexer<L: Language>: Sized {
    spec fn makes<S: Source + ?Sized>(&self, text: &S, edits: Seq<TextEdit>, out: LexOutput<L>) -> bool;
    fn lex<'a, S: Source + ?Sized, C: LexerCache<'a, L>>(&self, text: &S, edits: &[TextEdit], cache: &mut C) -> (r: LexOutput<L>) ensures self.makes(text, edits@, r), (*final(cache)).rest_same(&*old(cache));
}
/// The grammar: the closure given to the parse. The trees it builds lie in the arena it is given.
pub trait Run<'a, L: Language, S: Source + ?Sized>: Sized {
    spec fn ready(&self, st: &ParserState<'a, L, S>) -> bool;
    fn call(self, st: &mut ParserState<'a, L, S>) -> (r: Result<&'a GreenNode<'a, L>, OakError>) requires self.ready(old(st)) ensures r is Ok ==> r->Ok_0.home() == old(st).arena_id();
}
/// References into the cache that outlive its borrow: right as long as the generation is not prepared again.
#[verifier::external_body] pub fn arena_of<'a, L: Language, C: ParseCache<'a, L>>(c: &C) -> (r: &'a SyntaxArena) ensures r.id() == c.now() { unimplemented!() }
#[verifier::external_body] pub fn outlive<'a, 's, L: Language>(n: &'s GreenNode<'a, L>) -> (r: &'a GreenNode<'a, L>) ensures *r == *n { unimplemented!() }
//@src projects/oak-core/src/parser/mod.rs
//@fn parse_with_lexer -> out
//@sub /parse_with_lexer<'a, L, S, Lex>/ => parse_with_lexer<'a, L, S, Lex, C, R>
//@sub /cache: &'a mut impl ParseCache<L>/ => cache: &mut C
//@sub /run: impl FnOnce\(&mut ParserState<'a, L, S>\) -> Result<&'a GreenNode<'a, L>, OakError>/ => run: R
//@sub /ParseOutput<'a, L>/ => OakDiagnostics<&'a GreenNode<'a, L>>
//@sub /where\s*L: Language \+ Send \+ Sync,\s*L::ElementType: From<L::TokenType>,/ => where C: ParseCache<'a, L>, R: Run<'a, L, S>, L: Language,
//@sub /out\.clone\(\)/ => out.clone_v()
//@sub /let capacity_hint = [^;]*;/ => let capacity_hint = match cache.old_tree() { Some(old) => old.width(), None => 1024 };
//@sub /unsafe \{ std::mem::transmute\(cache\.arena\(\)\) \}/ => arena_of(&*cache)
//@sub /&'a crate::memory::arena::SyntaxArena/ => &'a SyntaxArena
//@sub /unsafe \{ std::mem::transmute\(old\) \}/ => outlive(old)
//@sub /run\(&mut st\)/ => run.call(&mut st)
    requires (*old(cache)).inv(),
        // the grammar is run on the tokens of the new text, with the last committed tree at hand if there is one
        forall|st: ParserState<'a, L, S>| #![trigger run.ready(&st)] st.text() == text && lexer.makes(text, edits@, st.given()) && st.old_tree() == (*old(cache)).root() && (st.old_tree() is Some ==> st.edits() == edits@) ==> run.ready(&st),
    ensures (*final(cache)).inv(),
        // committed exactly if it succeeded
        out.result is Ok ==> (*final(cache)).root() == Some(*out.result->Ok_0) && (*final(cache)).live().contains(out.result->Ok_0.home()),
        out.result is Err ==> (*final(cache)).root() == (*old(cache)).root(),
        (*final(cache)).lexed() is Some && lexer.makes(text, edits@, (*final(cache)).lexed()->0),
//@after /cache\.prepare_generation\(\);/
    let ghost c1 = *cache;
//@after /lexer\.lex\(text, edits, cache\);/
            proof { (*cache).unmoved(&c1); } let ghost c2 = *cache;
//@after /cache\.set_lex_output\(out\.clone_v\(\)\);/
            proof { (*cache).unmoved(&c2); }
//@before /output\s*\}\s*$/
    proof { (*cache).root_lives(); }
//@end
}
fn main() {}
