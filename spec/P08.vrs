use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- memory (assumed) ------------------------------------------------------------------------------
/// One byte of memory, initialised or not.
#[verifier::external_body] pub struct Byte { p: u8 }
/// The blocks the global allocator has given out (start to size) and the contents of memory.
pub ghost struct Heap { pub live: Map<usize, usize>, pub mem: spec_fn(int) -> Byte }
/// What the arena code acts on: the heap, and the pool of the current thread (`None` once it was torn down).
pub struct Thread { pub pool: Option<ChunkPool>, pub heap: Ghost<Heap> }
pub uninterp spec fn width<T>() -> nat;
pub uninterp spec fn align<T>() -> nat;
pub uninterp spec fn bytes_of<T>(v: T) -> Seq<Byte>;
/// Rust's layout rules: alignments are powers of two (those up to 8 spelled out), sizes multiples of them.
#[verifier::external_body] pub proof fn layout_facts<T>() ensures align::<T>() <= 8 ==> align::<T>() == 1 || align::<T>() == 2 || align::<T>() == 4 || align::<T>() == 8, width::<T>() % align::<T>() == 0, width::<T>() <= isize::MAX { }
#[verifier::external_body] pub proof fn bytes_len<T>(v: T) ensures bytes_of(v).len() == width::<T>() { }
/// `v` stands at address `a`.
pub open spec fn at<T>(mem: spec_fn(int) -> Byte, a: int, v: T) -> bool { forall|k: int| 0 <= k < width::<T>() ==> #[trigger] bytes_of(v)[k] == mem(a + k) }
pub open spec fn inside(x: int, s: usize, n: usize) -> bool { s <= x < s + n }
/// No address at or above this one is ever given out (user space of the 64-bit platforms).
pub spec const TOP: int = 0x1_0000_0000_0000;
impl Heap {
    pub open spec fn ok(self) -> bool {
        &&& forall|s: usize| #[trigger] self.live.contains_key(s) ==> s % 8 == 0 && 8 <= s && 0 < self.live[s] && s + self.live[s] <= TOP
        &&& forall|s: usize, t: usize| #[trigger] self.live.contains_key(s) && #[trigger] self.live.contains_key(t) && s < t ==> s + self.live[s] <= t
    }
}
#[derive(Clone, Copy)] pub struct Layout { pub size: usize, pub align: usize }
impl Layout {
    pub fn size(&self) -> (r: usize) ensures r == self.size { self.size }
    pub fn align(&self) -> (r: usize) ensures r == self.align { self.align }
    #[verifier::external_body] pub fn new<T>() -> (r: Layout) ensures r.size == width::<T>(), r.align == align::<T>() { unimplemented!() }
    #[verifier::external_body] pub fn for_value<T>(s: &[T]) -> (r: Layout) ensures r.size == s@.len() * width::<T>(), r.align == align::<T>() { unimplemented!() }
    /// A panic if there is no such layout.
    #[verifier::external_body] pub fn array_or_panic<T>(n: usize) -> (r: Layout) ensures r.size == n * width::<T>(), r.align == align::<T>(), r.size <= isize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn from_size_align(size: usize, align: usize) -> (r: Result<Layout, ()>) requires align == 8 ensures r is Ok == (size <= isize::MAX - 7), r is Ok ==> r->Ok_0 == (Layout { size, align }) { unimplemented!() }
    #[verifier::external_body] pub fn from_size_align_or_panic(size: usize, align: usize) -> (r: Layout) requires align == 8 ensures r == (Layout { size, align }) { unimplemented!() }
}
pub fn debug_check(b: bool) requires b { }
pub fn likely(b: bool) -> (r: bool) ensures r == b { b }
pub fn nonnull(a: usize) -> (r: usize) requires a != 0 ensures r == a { a }
pub fn ok_or_false(r: Result<bool, ()>) -> (b: bool) ensures b == (r == Ok::<bool, ()>(true)) { match r { Ok(b) => b, Err(_) => false } }
/// `std::alloc::alloc`, an abort if memory is exhausted: a block apart from all others.
#[verifier::external_body] pub fn alloc_or_abort(l: Layout, th: &mut Thread) -> (r: usize)
    requires old(th).heap@.ok(), l.size > 0, l.align == 8
    ensures !old(th).heap@.live.contains_key(r), final(th).heap@.live == old(th).heap@.live.insert(r, l.size), final(th).heap@.ok(), final(th).heap@.mem == old(th).heap@.mem, final(th).pool == old(th).pool
{ unimplemented!() }
/// `std::alloc::dealloc`: the very block, once.
#[verifier::external_body] pub fn dealloc(p: usize, l: Layout, th: &mut Thread)
    requires old(th).heap@.live.contains_key(p), old(th).heap@.live[p] == l.size, l.align == 8
    ensures final(th).heap@.live == old(th).heap@.live.remove(p), final(th).pool == old(th).pool, final(th).heap@.mem == old(th).heap@.mem
{ unimplemented!() }
/// All of `n` bytes at `a` belong to one block in use.
pub open spec fn owned_mem(h: Heap, a: int, n: int) -> bool { n == 0 || exists|s: usize| #[trigger] h.live.contains_key(s) && s <= a && a + n <= s + h.live[s] }
pub open spec fn same_but(m0: spec_fn(int) -> Byte, m1: spec_fn(int) -> Byte, a: int, n: int) -> bool { forall|x: int| !(a <= x < a + n) ==> #[trigger] m1(x) == m0(x) }
/// `ptr.write(v)`.
#[verifier::external_body] pub fn write<T>(p: usize, v: T, th: &mut Thread)
    requires p != 0, p as int % align::<T>() as int == 0, owned_mem(old(th).heap@, p as int, width::<T>() as int)
    ensures final(th).heap@.live == old(th).heap@.live, final(th).pool == old(th).pool, same_but(old(th).heap@.mem, final(th).heap@.mem, p as int, width::<T>() as int), at(final(th).heap@.mem, p as int, v)
{ unimplemented!() }
/// `base.add(i)`.
#[verifier::external_body] pub fn offset<T>(p: usize, i: usize) -> (r: usize) requires p + i * width::<T>() <= TOP ensures r == p + i * width::<T>() { unimplemented!() }
/// `copy_nonoverlapping` from a slice into the arena.
#[verifier::external_body] pub fn copy_from<T: Copy>(s: &[T], p: usize, n: usize, th: &mut Thread)
    requires p != 0, p as int % align::<T>() as int == 0, n == s@.len(), owned_mem(old(th).heap@, p as int, n * width::<T>())
    ensures final(th).heap@.live == old(th).heap@.live, final(th).pool == old(th).pool, same_but(old(th).heap@.mem, final(th).heap@.mem, p as int, n * width::<T>()), holds(final(th).heap@.mem, p as int, s@)
{ unimplemented!() }
/// The elements `v` stand one behind the other from `a` on.
pub open spec fn holds<T>(mem: spec_fn(int) -> Byte, a: int, v: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> at(mem, a + i * width::<T>(), #[trigger] v[i]) }
/// `&mut [T]` at an address; every element must have been written.
pub struct Slots<T> { pub addr: usize, pub len: usize, pub v: Ghost<Seq<T>> }
pub fn slots<T>(addr: usize, len: usize, Ghost(v): Ghost<Seq<T>>, th: &Thread) -> (r: Slots<T>) requires v.len() == len, holds(th.heap@.mem, addr as int, v), addr != 0, addr as int % align::<T>() as int == 0, owned_mem(th.heap@, addr as int, len * width::<T>()) ensures r.addr == addr, r.len == len, r.v@ == v { Slots { addr, len, v: Ghost(v) } }
#[verifier::external_body] pub fn no_slots<T>() -> (r: Slots<T>) ensures r.addr != 0, r.addr as int % align::<T>() as int == 0, r.len == 0, r.v@ == Seq::<T>::empty() { unimplemented!() }
/// `&mut T` at an address.
pub fn slot<T>(addr: usize, Ghost(v): Ghost<T>, th: &Thread) -> (r: usize) requires at(th.heap@.mem, addr as int, v), addr != 0, addr as int % align::<T>() as int == 0, owned_mem(th.heap@, addr as int, width::<T>() as int) ensures r == addr { addr }
// ---- the pool ------------------------------------------------------------------------------------------
//@src projects/oak-core/src/memory/arena.rs
//@gsub /UnsafeCell<NonNull<u8>>/ => usize
//@gsub /UnsafeCell<Vec<\(NonNull<u8>, usize\)>>/ => Vec<(usize, usize)>
//@gsub /UnsafeCell<Vec<Box<TokenProvenance>>>/ => Vec<Boxed>
//@gsub /ChunkPool\(Vec<NonNull<u8>>\)/ => ChunkPool(pub Vec<usize>)
//@gsub /NonNull<u8>/ => usize
//@gsub /NonNull::dangling\(\)/ => 1usize
//@gsub /unsafe \{ NonNull::new_unchecked\(ALIGN as \*mut u8\) \}/ => nonnull(ALIGN)
//@gsub /NonNull::new_unchecked\((\(?[\w +]+\)?) as \*mut u8\)/ => nonnull(\1)
//@gsub /UnsafeCell::new\(((?:[^()]|\([^()]*\))*)\)/ => \1
//@gsub /\(\*self\.end\.get\(\)\)\.as_ptr\(\) as usize/ => self.end
//@gsub /\(\*self\.(\w+)\.get\(\)\)/ => self.\1
//@gsub /unsafe \{ &(mut )?\*self\.(\w+)\.get\(\) \}/ => &\1self.\2
//@gsub /\*self\.(\w+)\.get\(\)/ => self.\1
//@gsub /\.as_ptr\(\) as usize/ => 
//@gsub /unsafe fn/ => fn
//@gsub /unsafe \{/ => {
//@gsub /std::intrinsics::likely/ => likely
//@gsub /debug_assert!/ => debug_check
//@item CHUNK_SIZE
//@item ALIGN
pub struct ChunkPool(pub Vec<usize>);
impl Thread {
    pub open spec fn pooled(&self) -> Seq<usize> { match self.pool { Some(p) => p.0@, None => Seq::empty() } }
    /// The pool holds chunks of the standard size, at most 64, none of them twice.
    pub open spec fn ok(&self) -> bool {
        &&& self.heap@.ok()
        &&& self.pooled().no_duplicates() && self.pooled().len() <= 64
        &&& forall|i: int| 0 <= i < self.pooled().len() ==> self.heap@.live.contains_key(#[trigger] self.pooled()[i]) && self.heap@.live[self.pooled()[i]] == CHUNK_SIZE
    }
    /// The blocks in use outside the pool.
    pub open spec fn out(&self) -> Map<usize, usize> { self.heap@.live.remove_keys(self.pooled().to_set()) }
    /// Address `x` lies in a block in use outside the pool.
    pub open spec fn taken(&self, x: int) -> bool { exists|s: usize| #[trigger] self.out().contains_key(s) && inside(x, s, self.out()[s]) }
}
pub proof fn pool_pop(live: Map<usize, usize>, p: Seq<usize>) requires p.no_duplicates(), p.len() > 0, live.contains_key(p.last())
    ensures p.drop_last().no_duplicates(), live.remove_keys(p.drop_last().to_set()) =~= live.remove_keys(p.to_set()).insert(p.last(), live[p.last()]), !live.remove_keys(p.to_set()).contains_key(p.last())
{
    let q = p.drop_last();
    assert forall|x: usize| p.contains(x) == (q.contains(x) || x == p.last()) by { if p.contains(x) && x != p.last() { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(q[k] == x); } else if q.contains(x) { let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(p[k] == x); } }
    assert(!q.contains(p.last()));
}
pub proof fn pool_push(live: Map<usize, usize>, p: Seq<usize>, x: usize) requires p.no_duplicates(), live.remove_keys(p.to_set()).contains_key(x)
    ensures p.push(x).no_duplicates(), live.remove_keys(p.push(x).to_set()) =~= live.remove_keys(p.to_set()).remove(x)
{
    let q = p.push(x);
    assert(!p.contains(x));
    assert forall|y: usize| q.contains(y) == (p.contains(y) || y == x) by { if q.contains(y) && y != x { let k = choose|k: int| 0 <= k < q.len() && q[k] == y; assert(p[k] == y); } else if p.contains(y) { let k = choose|k: int| 0 <= k < p.len() && p[k] == y; assert(q[k] == y); } else { assert(q[p.len() as int] == x); } }
}
impl ChunkPool {
//@fn Drop for ChunkPool::drop
//@sub /\(&mut self\)/ => (&mut self, th: &mut Thread)
//@sub /for ptr in &self\.0 \{/ => for i in 0..self.0.len() { let ptr = &self.0[i];
//@sub /dealloc\(ptr\.as_ptr\(\), layout\)/ => dealloc(*ptr, layout, th)
    requires old(th).heap@.ok(), old(th).pool is None, old(self).0@.no_duplicates(), forall|i: int| 0 <= i < old(self).0@.len() ==> old(th).heap@.live.contains_key(#[trigger] old(self).0@[i]) && old(th).heap@.live[old(self).0@[i]] == CHUNK_SIZE,
    // every pooled chunk is freed, and nothing else
    ensures final(th).heap@.live =~= old(th).heap@.live.remove_keys(old(self).0@.to_set()), final(th).pool is None, final(th).heap@.mem == old(th).heap@.mem,
//@loop 1
        invariant layout == (Layout { size: CHUNK_SIZE, align: 8 }), *self == *old(self), self.0@.no_duplicates(), th.pool is None, th.heap@.mem == old(th).heap@.mem,
            forall|k: int| i <= k < self.0@.len() ==> th.heap@.live.contains_key(#[trigger] self.0@[k]) && th.heap@.live[self.0@[k]] == CHUNK_SIZE,
            th.heap@.live =~= old(th).heap@.live.remove_keys(self.0@.take(i as int).to_set()),
//@loopstart 1
            proof { assert(self.0@.take(i + 1) =~= self.0@.take(i as int).push(self.0@[i as int])); assert forall|x: usize| self.0@.take(i + 1).to_set().contains(x) == (self.0@.take(i as int).to_set().contains(x) || x == self.0@[i as int]) by { if x == self.0@[i as int] { assert(self.0@.take(i + 1)[i as int] == x); } else if self.0@.take(i as int).contains(x) { let k = choose|k: int| 0 <= k < i && self.0@.take(i as int)[k] == x; assert(self.0@.take(i + 1)[k] == x); } } }
//@afterloop 1
        proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
//@end
}
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub proof fn round_up(x: usize) ensures (x & !7usize) % 8 == 0, (x & !7usize) <= x, x - (x & !7usize) < 8 { assert((x & !7usize) % 8 == 0 && (x & !7usize) <= x && x - (x & !7usize) < 8) by(bit_vector); }
/// Blocks do not overlap.
pub broadcast proof fn no_overlap(t: Thread, s: usize, c: usize, x: int)
    requires t.heap@.ok(), t.heap@.live.contains_key(s), t.heap@.live.contains_key(c), #[trigger] inside(x, s, t.heap@.live[s]), #[trigger] inside(x, c, t.heap@.live[c]) ensures s == c
{ if s < c { } else if c < s { } }
// ---- the arena -----------------------------------------------------------------------------------------
/// A `Box`; `place` is where its contents stand, whatever becomes of the box itself.
pub struct Boxed { pub v: TokenProvenance, pub place: Ghost<int> }
/// A reference, with the place it points to.
pub struct Placed<'s> { pub v: &'s TokenProvenance, pub place: Ghost<int> }
#[verifier::external_body] pub struct TokenProvenance { p: u8 }
pub fn boxed(v: TokenProvenance) -> (r: Boxed) ensures r.v == v { Boxed { v, place: Ghost(0) } }
impl Boxed { pub fn target(&self) -> (r: Placed<'_>) ensures *r.v == self.v, r.place == self.place { Placed { v: &self.v, place: self.place } } }
pub struct NonZeroU32 { pub n: u32 }
impl NonZeroU32 {
    /// A panic at zero.
    #[verifier::external_body] pub fn new_or_panic(n: u32) -> (r: NonZeroU32) ensures r.n == n, n > 0 { unimplemented!() }
    #[verifier::external_body] pub fn get(&self) -> (r: u32) ensures r == self.n, r > 0 { unimplemented!() }
}
//@item SyntaxArena
impl SyntaxArena {
    pub open spec fn started(&self) -> bool { self.current_chunk_start != 1 }
    /// This arena's chunk that starts at `s` has size `n`.
    pub open spec fn has(&self, s: usize, n: int) -> bool { (self.started() && s == self.current_chunk_start && n == self.end - s) || exists|i: int| 0 <= i < self.full_chunks@.len() && #[trigger] self.full_chunks@[i].0 == s && self.full_chunks@[i].1 == n }
    pub open spec fn owns(&self, s: usize) -> bool { (self.started() && s == self.current_chunk_start) || exists|i: int| 0 <= i < self.full_chunks@.len() && #[trigger] self.full_chunks@[i].0 == s }
    /// Address `x` may have been handed out.
    pub open spec fn used(&self, x: int) -> bool { (self.started() && self.current_chunk_start <= x < self.ptr) || exists|i: int| 0 <= i < self.full_chunks@.len() && inside(x, #[trigger] self.full_chunks@[i].0, self.full_chunks@[i].1) }
    /// Address `x` is still to be handed out.
    pub open spec fn free(&self, x: int) -> bool { self.ptr <= x < self.end }
    /// Every chunk is a block of the very size, none is listed twice, none is pooled.
    pub open spec fn ok(&self, th: Thread) -> bool {
        &&& self.ptr % 8 == 0 && 8 <= self.ptr <= self.end && self.end <= TOP
        &&& self.started() ==> th.out().contains_key(self.current_chunk_start) && self.current_chunk_start <= self.ptr && self.end == self.current_chunk_start + th.out()[self.current_chunk_start]
        &&& !self.started() ==> self.ptr == 8 && self.end == 8 && self.full_chunks@.len() == 0
        &&& forall|i: int| 0 <= i < self.full_chunks@.len() ==> #[trigger] th.out().contains_key(self.full_chunks@[i].0) && th.out()[self.full_chunks@[i].0] == self.full_chunks@[i].1 && self.full_chunks@[i].0 != self.current_chunk_start
        &&& forall|i: int, j: int| 0 <= i < j < self.full_chunks@.len() ==> #[trigger] self.full_chunks@[i].0 != #[trigger] self.full_chunks@[j].0
    }
    /// From `(a, s)` to `(self, t)` the arena only grew: chunks were taken from those nobody had, nothing but the free
    /// part of the arena changed, and what was free afterwards was free before or new.
    pub open spec fn grew(&self, t: Thread, a: SyntaxArena, s: Thread) -> bool {
        &&& forall|c: usize| #[trigger] a.owns(c) ==> self.owns(c)
        &&& forall|c: usize| #[trigger] t.out().contains_key(c) == (s.out().contains_key(c) || self.owns(c))
        &&& forall|c: usize| #[trigger] s.out().contains_key(c) ==> t.out()[c] == s.out()[c]
        &&& forall|c: usize| #[trigger] self.owns(c) && !a.owns(c) ==> !s.out().contains_key(c)
        &&& forall|x: int| #[trigger] a.used(x) ==> self.used(x)
        &&& forall|x: int| #[trigger] self.free(x) ==> a.free(x) || !s.taken(x)
        &&& forall|x: int| s.taken(x) && !a.free(x) ==> #[trigger] (t.heap@.mem)(x) == (s.heap@.mem)(x)
        &&& self.metadata == a.metadata
        &&& (t.pool is Some) == (s.pool is Some)
    }
    /// `[r, r + n)` is new memory of this arena.
    pub open spec fn fresh(&self, t: Thread, a: SyntaxArena, s: Thread, r: int, n: int) -> bool {
        &&& r % 8 == 0 && 8 <= r && r + n <= TOP
        &&& forall|x: int| r <= x < r + n ==> #[trigger] self.used(x) && !a.used(x) && (a.free(x) || !s.taken(x))
        &&& n > 0 ==> exists|c: usize| #[trigger] self.owns(c) && t.out().contains_key(c) && c <= r && r + n <= c + t.out()[c]
    }
//@fn SyntaxArena::new -> r
    ensures forall|th: Thread| r.ok(th), !r.started(), r.metadata@.len() == 0,
//@end
//@fn SyntaxArena::add_metadata -> r
//@sub /&self/ => &mut self
//@sub /Box::new/ => boxed
//@sub /std::num::NonZeroU32::new\((.*?)\)\.expect\(".*?"\)/ => NonZeroU32::new_or_panic(\1)
//@sub /std::num::NonZeroU32/ => NonZeroU32
    requires old(self).metadata@.len() < u32::MAX,
    // the entry can be found by the number, and the ones before stay where they are
    ensures final(self).metadata@.len() == old(self).metadata@.len() + 1, final(self).metadata@.take(old(self).metadata@.len() as int) =~= old(self).metadata@, r.n == final(self).metadata@.len(), final(self).metadata@.last().v == provenance,
        final(self).ptr == old(self).ptr, final(self).end == old(self).end, final(self).current_chunk_start == old(self).current_chunk_start, final(self).full_chunks == old(self).full_chunks,
//@end
//@fn SyntaxArena::get_metadata -> r
//@sub /Option<&TokenProvenance>/ => Option<Placed<'_>>
//@sub /std::num::NonZeroU32/ => NonZeroU32
//@sub /metadata\.get\((index.*?) - 1\)\.map\(\|p\| &\*\*p\)/ => match metadata.get(\1 - 1) { Some(p) => Some(p.target()), None => None }
    ensures index.n > 0, r is Some == (index.n <= self.metadata@.len()), r is Some ==> *r->0.v == self.metadata@[index.n - 1].v && r->0.place == self.metadata@[index.n - 1].place,
//@end
//@fn SyntaxArena::alloc_chunk -> r
//@sub /\(size: usize\)/ => (size: usize, th: &mut Thread)
//@sub /CHUNK_POOL\.try_with\(\|pool\| (.*?)\);/ => match &mut th.pool { Some(pool) => Ok(\1), None => Err(()) };
//@sub /pool\.borrow_mut\(\)/ => pool
//@sub /from_size_align\((.*?)\)\.unwrap\(\)/ => from_size_align_or_panic(\1)
//@sub /let ptr = alloc\(layout\);\s*if ptr\.is_null\(\) \{\s*std::alloc::handle_alloc_error\(layout\)\s*\}\s*NonNull::new_unchecked\(ptr\)/ => alloc_or_abort(layout, th)
    requires old(th).ok(), size > 0,
    // a block nobody had
    ensures final(th).ok(), !old(th).out().contains_key(r), final(th).out().contains_key(r), final(th).out() =~= old(th).out().insert(r, size), final(th).heap@.mem == old(th).heap@.mem, (final(th).pool is Some) == (old(th).pool is Some),
//@body
        proof { if th.pooled().len() > 0 { pool_pop(th.heap@.live, th.pooled()); } }
//@end
//@fn SyntaxArena::recycle_chunk
//@sub /size: usize\)/ => size: usize, th: &mut Thread)
//@sub /CHUNK_POOL\.try_with\(\|pool\| \{(.*?)\n            \}\);/ => match &mut th.pool { Some(pool) => Ok({\1 }), None => Err(()) };
//@sub /&mut pool\.borrow_mut\(\)\.0/ => &mut pool.0
//@sub /pooled\.unwrap_or\(false\)/ => ok_or_false(pooled)
//@sub /dealloc\(ptr\.as_ptr\(\), layout\)/ => dealloc(ptr, layout, th)
    requires old(th).ok(), old(th).out().contains_key(ptr), old(th).out()[ptr] == size,
    // the chunk goes back, and no other
    ensures final(th).ok(), final(th).out() =~= old(th).out().remove(ptr), final(th).heap@.mem == old(th).heap@.mem, (final(th).pool is Some) == (old(th).pool is Some),
//@body
        proof { pool_push(th.heap@.live, th.pooled(), ptr); assert(th.heap@.live.contains_key(ptr) && th.heap@.live[ptr] == size); }
//@before /let layout/
        proof { assert(th.heap == old(th).heap); assert(th.pooled() =~= old(th).pooled()); }
//@end
    /// A new chunk `c` of `n` bytes became the current one, and its first `size` bytes were handed out.
    pub proof fn took_chunk(self, t: Thread, a: SyntaxArena, s: Thread, c: usize, n: usize, size: usize)
        requires s.ok(), t.ok(), a.ok(s), !s.out().contains_key(c), t.out() =~= s.out().insert(c, n), t.heap@.mem == s.heap@.mem, (t.pool is Some) == (s.pool is Some), self.metadata == a.metadata,
            self.full_chunks@ =~= (if a.started() { a.full_chunks@.push((a.current_chunk_start, (a.end - a.current_chunk_start) as usize)) } else { a.full_chunks@ }),
            self.current_chunk_start == c, self.end == c + n, c + size <= self.ptr <= self.end, self.ptr % 8 == 0,
        ensures self.ok(t), self.grew(t, a, s), self.fresh(t, a, s, c as int, size as int)
    {
        broadcast use no_overlap;
        assert(t.out() == s.out().insert(c, n)); assert(t.out().contains_key(c) && t.out()[c] == n); assert(t.heap@.live.contains_key(c) && t.heap@.live[c] == n); assert(self.started());
        if a.started() { let l = a.full_chunks@.len() as int; assert(self.full_chunks@[l].0 == a.current_chunk_start); assert(t.out().contains_key(a.current_chunk_start)); }
        assert forall|i: int| 0 <= i < self.full_chunks@.len() implies #[trigger] t.out().contains_key(self.full_chunks@[i].0) && t.out()[self.full_chunks@[i].0] == self.full_chunks@[i].1 && self.full_chunks@[i].0 != c by { if i < a.full_chunks@.len() { assert(s.out().contains_key(a.full_chunks@[i].0)); } }
        assert forall|i: int, j: int| 0 <= i < j < self.full_chunks@.len() implies #[trigger] self.full_chunks@[i].0 != #[trigger] self.full_chunks@[j].0 by { assert(s.out().contains_key(a.full_chunks@[i].0)); }
        assert forall|k: usize| #[trigger] a.owns(k) implies self.owns(k) by { if !(a.started() && k == a.current_chunk_start) { let i = choose|i: int| 0 <= i < a.full_chunks@.len() && #[trigger] a.full_chunks@[i].0 == k; assert(self.full_chunks@[i].0 == k); } }
        assert forall|k: usize| #[trigger] self.owns(k) implies k == c || a.owns(k) by { if k != c { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && #[trigger] self.full_chunks@[i].0 == k; if i < a.full_chunks@.len() { assert(a.full_chunks@[i].0 == k); } } }
        assert forall|k: usize| #[trigger] a.owns(k) implies s.out().contains_key(k) by { if !(a.started() && k == a.current_chunk_start) { let i = choose|i: int| 0 <= i < a.full_chunks@.len() && #[trigger] a.full_chunks@[i].0 == k; assert(s.out().contains_key(a.full_chunks@[i].0)); } }
        assert forall|x: int| #[trigger] a.used(x) implies self.used(x) by { if a.started() && a.current_chunk_start <= x < a.ptr { assert(inside(x, self.full_chunks@[a.full_chunks@.len() as int].0, self.full_chunks@[a.full_chunks@.len() as int].1)); } else { let i = choose|i: int| 0 <= i < a.full_chunks@.len() && inside(x, #[trigger] a.full_chunks@[i].0, a.full_chunks@[i].1); assert(inside(x, self.full_chunks@[i].0, self.full_chunks@[i].1)); } }
        assert forall|x: int| c <= x < c + n implies !s.taken(x) by { if s.taken(x) { let k = choose|k: usize| #[trigger] s.out().contains_key(k) && inside(x, k, s.out()[k]); assert(t.out().contains_key(k) && t.out()[k] == s.out()[k] && t.heap@.live[k] == t.out()[k]); assert(inside(x, k, t.heap@.live[k])); assert(inside(x, c, t.heap@.live[c])); } }
        assert forall|x: int| #[trigger] a.used(x) implies s.taken(x) by { a.used_taken(s, x); }
        assert(self.owns(c));
    }
    pub proof fn used_taken(self, s: Thread, x: int) requires self.ok(s), self.used(x) ensures s.taken(x)
    {
        if self.started() && self.current_chunk_start <= x < self.ptr { assert(s.out().contains_key(self.current_chunk_start)); assert(inside(x, self.current_chunk_start, s.out()[self.current_chunk_start])); }
        else { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && inside(x, #[trigger] self.full_chunks@[i].0, self.full_chunks@[i].1); assert(s.out().contains_key(self.full_chunks@[i].0)); assert(inside(x, self.full_chunks@[i].0, s.out()[self.full_chunks@[i].0])); }
    }
    /// The pointer moved on by at least `size` bytes within the current chunk.
    pub proof fn bumped(self, t: Thread, a: SyntaxArena, size: usize)
        requires t.ok(), a.ok(t), self.full_chunks == a.full_chunks, self.metadata == a.metadata, self.current_chunk_start == a.current_chunk_start, self.end == a.end, a.ptr + size <= self.ptr <= self.end, self.ptr % 8 == 0,
        ensures self.ok(t), self.grew(t, a, t), self.fresh(t, a, t, a.ptr as int, size as int)
    {
        broadcast use no_overlap;
        assert forall|x: int| a.ptr <= x < a.ptr + size implies !a.used(x) by { if a.used(x) { let i = choose|i: int| 0 <= i < a.full_chunks@.len() && inside(x, #[trigger] a.full_chunks@[i].0, a.full_chunks@[i].1); let k = a.full_chunks@[i].0; let c = a.current_chunk_start; assert(t.out().contains_key(k) && t.out().contains_key(c)); assert(inside(x, k, t.heap@.live[k]) && inside(x, c, t.heap@.live[c])); } }
        assert forall|k: usize| #[trigger] a.owns(k) implies self.owns(k) && t.out().contains_key(k) by { if !(a.started() && k == a.current_chunk_start) { let i = choose|i: int| 0 <= i < a.full_chunks@.len() && #[trigger] a.full_chunks@[i].0 == k; assert(self.full_chunks@[i].0 == k); assert(t.out().contains_key(a.full_chunks@[i].0)); } }
        assert forall|k: usize| #[trigger] self.owns(k) implies a.owns(k) by { if !(a.started() && k == a.current_chunk_start) { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && #[trigger] self.full_chunks@[i].0 == k; assert(a.full_chunks@[i].0 == k); } }
        assert forall|x: int| #[trigger] a.used(x) implies self.used(x) by { if !(a.started() && a.current_chunk_start <= x < a.ptr) { let i = choose|i: int| 0 <= i < a.full_chunks@.len() && inside(x, #[trigger] a.full_chunks@[i].0, a.full_chunks@[i].1); assert(inside(x, self.full_chunks@[i].0, self.full_chunks@[i].1)); } }
        if self.started() { assert(self.owns(self.current_chunk_start)); assert(t.out().contains_key(self.current_chunk_start)); }
    }
//@fn SyntaxArena::alloc_slow -> r
//@sub /&self, size: usize\)/ => &mut self, size: usize, th: &mut Thread)
//@sub /alloc_chunk\(alloc_size\)/ => alloc_chunk(alloc_size, th)
//@sub /usize::max\(/ => vmax(
    requires old(th).ok(), old(self).ok(*old(th)), size <= isize::MAX,
    ensures final(th).ok(), final(self).ok(*final(th)), final(self).grew(*final(th), *old(self), *old(th)), final(self).fresh(*final(th), *old(self), *old(th), r as int, size as int),
//@after /let chunk_ptr = .*?;/
            proof { assert(th.heap@.live.contains_key(chunk_ptr)); round_up((chunk_ptr + size + 7) as usize); }
//@before /result_ptr\s*\}\s*\}/
            proof { self.took_chunk(*th, *old(self), *old(th), chunk_ptr, alloc_size, size); }
//@end
//@fn SyntaxArena::alloc_raw -> r
//@sub /&self, size: usize\)/ => &mut self, size: usize, th: &mut Thread)
//@sub /alloc_slow\(size\)/ => alloc_slow(size, th)
    requires old(th).ok(), old(self).ok(*old(th)), size <= isize::MAX,
    ensures final(th).ok(), final(self).ok(*final(th)), final(self).grew(*final(th), *old(self), *old(th)), final(self).fresh(*final(th), *old(self), *old(th), r as int, size as int),
//@before /let next_addr/
            proof { round_up((current_addr + size + 7) as usize); }
//@before /return ptr;/
                proof { self.bumped(*th, *old(self), size); }
//@end
    pub proof fn used_not_free(self, s: Thread, x: int) requires s.ok(), self.ok(s), self.used(x) ensures !self.free(x)
    {
        broadcast use no_overlap;
        if self.free(x) { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && inside(x, #[trigger] self.full_chunks@[i].0, self.full_chunks@[i].1); let k = self.full_chunks@[i].0; let c = self.current_chunk_start; assert(s.out().contains_key(k) && s.out().contains_key(c)); assert(inside(x, k, s.heap@.live[k]) && inside(x, c, s.heap@.live[c])); }
    }
    pub proof fn grew_trans(self, u: Thread, b: SyntaxArena, t: Thread, a: SyntaxArena, s: Thread)
        requires s.ok(), t.ok(), u.ok(), a.ok(s), b.ok(t), self.ok(u), b.grew(t, a, s), self.grew(u, b, t)
        ensures self.grew(u, a, s)
    {
        assert forall|x: int| s.taken(x) implies t.taken(x) by { let k = choose|k: usize| #[trigger] s.out().contains_key(k) && inside(x, k, s.out()[k]); assert(t.out().contains_key(k) && t.out()[k] == s.out()[k]); }
        assert forall|c: usize| #[trigger] self.owns(c) && !a.owns(c) implies !s.out().contains_key(c) by { if !b.owns(c) { assert(!t.out().contains_key(c)); } }
        assert forall|c: usize| #[trigger] s.out().contains_key(c) implies u.out()[c] == s.out()[c] by { assert(t.out().contains_key(c)); }
        assert forall|c: usize| #[trigger] u.out().contains_key(c) == (s.out().contains_key(c) || self.owns(c)) by { assert(u.out().contains_key(c) == (t.out().contains_key(c) || self.owns(c))); assert(t.out().contains_key(c) == (s.out().contains_key(c) || b.owns(c))); if b.owns(c) { assert(self.owns(c)); } }
        assert forall|x: int| s.taken(x) && !a.free(x) implies #[trigger] (u.heap@.mem)(x) == (s.heap@.mem)(x) by { assert(t.taken(x) && !b.free(x)); assert((t.heap@.mem)(x) == (s.heap@.mem)(x)); }
    }
    /// What was handed out stays so while the arena grows, with its contents.
    pub proof fn fresh_stays(self, u: Thread, b: SyntaxArena, t: Thread, a: SyntaxArena, s: Thread, r: int, n: int)
        requires t.ok(), b.ok(t), b.fresh(t, a, s, r, n), self.grew(u, b, t)
        ensures self.fresh(u, a, s, r, n), forall|x: int| r <= x < r + n ==> #[trigger] (u.heap@.mem)(x) == (t.heap@.mem)(x)
    {
        assert forall|x: int| r <= x < r + n implies #[trigger] self.used(x) && !a.used(x) && (a.free(x) || !s.taken(x)) by { assert(b.used(x)); }
        assert forall|x: int| r <= x < r + n implies #[trigger] (u.heap@.mem)(x) == (t.heap@.mem)(x) by { assert(b.used(x)); b.used_taken(t, x); b.used_not_free(t, x); }
        if n > 0 { let c = choose|c: usize| #[trigger] b.owns(c) && t.out().contains_key(c) && c <= r && r + n <= c + t.out()[c]; assert(self.owns(c)); assert(t.out().contains_key(c)); assert(u.out().contains_key(c) && u.out()[c] == t.out()[c]); }
    }
    /// Writing to what has just been handed out.
    pub proof fn wrote(self, u: Thread, t: Thread, a: SyntaxArena, s: Thread, r: int, n: int, p: int, k: int)
        requires t.ok(), self.ok(t), self.grew(t, a, s), self.fresh(t, a, s, r, n), r <= p, p + k <= r + n, u.heap@.live == t.heap@.live, u.pool == t.pool, same_but(t.heap@.mem, u.heap@.mem, p, k)
        ensures u.ok(), self.ok(u), self.grew(u, a, s), self.fresh(u, a, s, r, n)
    {
        assert(u.out() == t.out()); assert(u.pooled() == t.pooled());
        assert forall|x: int| s.taken(x) && !a.free(x) implies #[trigger] (u.heap@.mem)(x) == (s.heap@.mem)(x) by { if p <= x < p + k { assert(self.used(x)); } assert((u.heap@.mem)(x) == (t.heap@.mem)(x)); }
    }
    pub proof fn fresh_owned(self, t: Thread, a: SyntaxArena, s: Thread, r: int, n: int, p: int, k: int)
        requires self.fresh(t, a, s, r, n), r <= p, p + k <= r + n, k >= 0, n >= 0
        ensures owned_mem(t.heap@, p, k)
    {
        if n > 0 { let c = choose|c: usize| #[trigger] self.owns(c) && t.out().contains_key(c) && c <= r && r + n <= c + t.out()[c]; assert(t.heap@.live.contains_key(c) && t.heap@.live[c] == t.out()[c]); }
    }
//@fn SyntaxArena::alloc -> r
//@sub /&self, value: T\) -> &mut T/ => &mut self, value: T, th: &mut Thread) -> usize
//@sub /alloc_raw\(layout\.size\(\)\)/ => alloc_raw(layout.size(), th)
//@sub /let ptr = ptr\.as_ptr\(\) as \*mut T;/ => 
//@sub /ptr\.write\(value\)/ => write(ptr, value, th)
//@sub /&mut \*ptr/ => slot(ptr, Ghost(value), th)
    requires old(th).ok(), old(self).ok(*old(th)), align::<T>() <= 8,
    ensures final(th).ok(), final(self).ok(*final(th)), final(self).grew(*final(th), *old(self), *old(th)), final(self).fresh(*final(th), *old(self), *old(th), r as int, width::<T>() as int),
        r as int % align::<T>() as int == 0, at(final(th).heap@.mem, r as int, value),
//@body
        proof { layout_facts::<T>(); }
//@before /write\(ptr/
            let ghost t1 = *th;
            proof { self.fresh_owned(t1, *old(self), *old(th), ptr as int, width::<T>() as int, ptr as int, width::<T>() as int); }
//@before /slot\(ptr/
            proof { self.wrote(*th, t1, *old(self), *old(th), ptr as int, width::<T>() as int, ptr as int, width::<T>() as int); self.fresh_owned(*th, *old(self), *old(th), ptr as int, width::<T>() as int, ptr as int, width::<T>() as int); }
//@end
//@fn SyntaxArena::alloc_slice_copy -> r
//@sub /&self, slice: &\[T\]\) -> &mut \[T\]/ => &mut self, slice: &[T], th: &mut Thread) -> Slots<T>
//@sub /return &mut \[\]/ => return no_slots()
//@sub /slice\.is_empty\(\)/ => slice.len() == 0
//@sub /alloc_raw\(layout\.size\(\)\)/ => alloc_raw(layout.size(), th)
//@sub /let ptr = ptr\.as_ptr\(\) as \*mut T;/ => 
//@sub /copy_nonoverlapping\(slice\.as_ptr\(\), ptr, (.*?)\);/ => copy_from(slice, ptr, \1, th);
//@sub /std::slice::from_raw_parts_mut\(ptr, (.*?)\)\n/ => slots(ptr, \1, Ghost(slice@), th)\n
    requires old(th).ok(), old(self).ok(*old(th)), align::<T>() <= 8,
        // a slice is never larger than this
        slice@.len() * width::<T>() <= isize::MAX,
    ensures final(th).ok(), final(self).ok(*final(th)), final(self).grew(*final(th), *old(self), *old(th)), r.len == slice@.len(), r.v@ =~= slice@, r.addr as int % align::<T>() as int == 0, holds(final(th).heap@.mem, r.addr as int, slice@),
        slice@.len() > 0 ==> final(self).fresh(*final(th), *old(self), *old(th), r.addr as int, (slice@.len() * width::<T>()) as int),
//@body
        proof { layout_facts::<T>(); self.grew_self(*th); }
//@before /copy_from\(slice/
            let ghost t1 = *th; let ghost n = (slice@.len() * width::<T>()) as int;
            proof { self.fresh_owned(t1, *old(self), *old(th), ptr as int, n, ptr as int, n); }
//@before /slots\(ptr/
            proof { self.wrote(*th, t1, *old(self), *old(th), ptr as int, n, ptr as int, n); self.fresh_owned(*th, *old(self), *old(th), ptr as int, n, ptr as int, n); }
//@end
    pub proof fn grew_self(self, s: Thread) ensures self.ok(s) ==> self.grew(s, self, s)
    {
        if self.ok(s) { assert forall|c: usize| #[trigger] self.owns(c) implies s.out().contains_key(c) by { if !(self.started() && c == self.current_chunk_start) { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && #[trigger] self.full_chunks@[i].0 == c; assert(s.out().contains_key(self.full_chunks@[i].0)); } } }
    }
//@fn SyntaxArena::alloc_slice_fill_iter -> r
//@sub /&self, count: usize, iter: I\) -> &mut \[T\]/ => &mut self, count: usize, iter: I, th: &mut Thread) -> Slots<T>
//@sub /I: IntoIterator<Item = T>/ => I: Yields<T>
//@sub /return &mut \[\]/ => return no_slots()
//@sub /Layout::array::<T>\(count\)\.unwrap\(\)/ => Layout::array_or_panic::<T>(count)
//@sub /alloc_raw\(layout\.size\(\)\)/ => alloc_raw(layout.size(), th)
//@sub /ptr\.as_ptr\(\) as \*mut T/ => ptr
//@sub /let mut i = 0;/ => let mut i: usize = 0;
//@sub /for item in iter \{/ => let mut iter = iter; loop { let got = iter.next(self, th); let item = match got { Some(item) => item, None => { break; } };
//@sub /base_ptr\.add\((.*?)\)\.write\(item\)/ => write(offset::<T>(base_ptr, \1), item, th)
//@sub /debug_assert_eq!\(i, count, .*?\)/ => debug_check(i == count)
//@sub /std::slice::from_raw_parts_mut\(base_ptr, (.*?)\)\n/ => slots(base_ptr, \1, Ghost(items.take(count as int)), th)\n
    requires old(th).ok(), old(self).ok(*old(th)), align::<T>() <= 8, iter.items().len() >= count,
    ensures final(th).ok(), final(self).ok(*final(th)), final(self).grew(*final(th), *old(self), *old(th)), r.len == count, r.v@ =~= iter.items().take(count as int), r.addr as int % align::<T>() as int == 0, holds(final(th).heap@.mem, r.addr as int, r.v@),
        count > 0 ==> final(self).fresh(*final(th), *old(self), *old(th), r.addr as int, count * width::<T>()),
//@body
        let ghost items = iter.items(); let ghost w = width::<T>() as int;
        proof { layout_facts::<T>(); self.grew_self(*th); }
//@loop 1
        invariant_except_break
            iter.items() =~= items.skip(i as int),
        invariant
            i <= count, count > 0, items.len() >= count, w == width::<T>(), align::<T>() == 1 || align::<T>() == 2 || align::<T>() == 4 || align::<T>() == 8, w % align::<T>() as int == 0,
            th.ok(), self.ok(*th), self.grew(*th, *old(self), *old(th)), self.fresh(*th, *old(self), *old(th), base_ptr as int, count * w), old(th).ok(), old(self).ok(*old(th)),
            holds(th.heap@.mem, base_ptr as int, items.take(i as int)),
        ensures i == count,
        decreases count - i,
//@loopstart 1
            let ghost a0 = *self; let ghost t0 = *th;
//@after /let got = .*?;/
            proof { assert((i as int) * w <= (count as int) * w) by(nonlinear_arith) requires i <= count, w >= 0; self.grew_trans(*th, a0, t0, *old(self), *old(th)); self.fresh_stays(*th, a0, t0, *old(self), *old(th), base_ptr as int, count * w); stays(t0.heap@.mem, th.heap@.mem, base_ptr as int, items.take(i as int), count * w); }
            let ghost t1 = *th; let ghost m1 = th.heap@.mem;
//@before /write\(offset/
                proof { slot_of(base_ptr as int, i as int, w, count as int, align::<T>() as int); self.fresh_owned(t1, *old(self), *old(th), base_ptr as int, count * w, base_ptr + i * w, w); }
//@before /i \+= 1/
                proof {
                    self.wrote(*th, t1, *old(self), *old(th), base_ptr as int, count * w, base_ptr + i * w, w);
                    let v = items.take(i + 1);
                    assert forall|j: int| 0 <= j < v.len() implies at(th.heap@.mem, base_ptr + j * width::<T>(), #[trigger] v[j]) by { if j < i { assert(v[j] == items.take(i as int)[j]); assert(j * w + w <= i * w) by(nonlinear_arith) requires j < i, w >= 0; assert(j * w >= 0) by(nonlinear_arith) requires j >= 0, w >= 0; at_stays(m1, th.heap@.mem, base_ptr + j * w, v[j]); } }
                }
//@before /slots\(base_ptr/
            proof { self.fresh_owned(*th, *old(self), *old(th), base_ptr as int, count * w, base_ptr as int, count * w); assert(count * w >= 0) by(nonlinear_arith) requires count > 0, w >= 0; }
//@end
//@fn Drop for SyntaxArena::drop
//@sub /\(&mut self\)/ => (&mut self, th: &mut Thread)
//@sub /recycle_chunk\(([^()]*)\)/ => recycle_chunk(\1, th)
//@sub /for \(ptr, size\) in \(\*self\.full_chunks\.get\(\)\)\.iter\(\) \{/ => for i in 0..self.full_chunks.len() { let (ptr, size) = &self.full_chunks[i];
    requires old(th).ok(), old(self).ok(*old(th)),
    // every chunk of the arena goes back, and no other
    ensures final(th).ok(), final(th).heap@.mem == old(th).heap@.mem, (final(th).pool is Some) == (old(th).pool is Some),
        forall|c: usize| #[trigger] final(th).out().contains_key(c) == (old(th).out().contains_key(c) && !old(self).owns(c)), forall|c: usize| #[trigger] final(th).out().contains_key(c) ==> final(th).out()[c] == old(th).out()[c],
//@body
        let ghost o = *old(self); let ghost full = old(self).full_chunks@;
//@loop 1
        invariant *self == *old(self), o == *old(self), full == o.full_chunks@, o.ok(*old(th)), th.ok(), th.heap@.mem == old(th).heap@.mem, (th.pool is Some) == (old(th).pool is Some),
            forall|c: usize| #[trigger] th.out().contains_key(c) == (old(th).out().contains_key(c) && !(o.started() && c == o.current_chunk_start) && !(exists|j: int| 0 <= j < i && #[trigger] full[j].0 == c)),
            forall|c: usize| #[trigger] th.out().contains_key(c) ==> th.out()[c] == old(th).out()[c],
//@loopstart 1
            proof { assert(old(th).out().contains_key(full[i as int].0)); assert(forall|j: int| 0 <= j < i ==> #[trigger] full[j].0 != full[i as int].0); assert(th.out().contains_key(full[i as int].0)); }
            let ghost was = th.out();
//@loopend 1
            proof { assert forall|c: usize| #[trigger] th.out().contains_key(c) == (old(th).out().contains_key(c) && !(o.started() && c == o.current_chunk_start) && !(exists|j: int| 0 <= j < i + 1 && #[trigger] full[j].0 == c)) by { assert(th.out().contains_key(c) == (was.contains_key(c) && c != full[i as int].0)); } }
//@end
}
/// An iterator that may itself allocate from the arena while it runs; `items` are those still to come.
pub trait Yields<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn next(&mut self, arena: &mut SyntaxArena, th: &mut Thread) -> (r: Option<T>)
        requires old(th).ok(), old(arena).ok(*old(th)),
        ensures final(th).ok(), final(arena).ok(*final(th)), final(arena).grew(*final(th), *old(arena), *old(th)), r is Some == (old(self).items().len() > 0), r is Some ==> r->0 == old(self).items()[0] && final(self).items() == old(self).items().skip(1);
}
pub proof fn at_stays<T>(m0: spec_fn(int) -> Byte, m1: spec_fn(int) -> Byte, a: int, v: T) requires at(m0, a, v), forall|x: int| a <= x < a + width::<T>() ==> #[trigger] m1(x) == m0(x) ensures at(m1, a, v)
{ assert forall|k: int| 0 <= k < width::<T>() implies #[trigger] bytes_of(v)[k] == m1(a + k) by { assert(m1(a + k) == m0(a + k)); } }
pub proof fn stays<T>(m0: spec_fn(int) -> Byte, m1: spec_fn(int) -> Byte, a: int, v: Seq<T>, n: int) requires holds(m0, a, v), v.len() * width::<T>() <= n, forall|x: int| a <= x < a + n ==> #[trigger] m1(x) == m0(x) ensures holds(m1, a, v)
{ assert forall|i: int| 0 <= i < v.len() implies at(m1, a + i * width::<T>(), #[trigger] v[i]) by { let w = width::<T>() as int; let l = v.len() as int; assert(0 <= i * w && i * w + w <= l * w) by(nonlinear_arith) requires 0 <= i < l, w >= 0; at_stays(m0, m1, a + i * w, v[i]); } }
pub proof fn slot_of(base: int, i: int, w: int, n: int, al: int) requires 0 <= i < n, w >= 0, base % 8 == 0, al == 1 || al == 2 || al == 4 || al == 8, w % al == 0 ensures i * w >= 0, i * w + w <= n * w, (base + i * w) % al == 0
{
    assert(0 <= i * w && i * w + w <= n * w) by(nonlinear_arith) requires 0 <= i < n, w >= 0;
    let q = w / al; assert(w == q * al) by(nonlinear_arith) requires w % al == 0, q == w / al, al > 0;
    assert(i * w == (i * q) * al) by(nonlinear_arith) requires w == q * al;
    let m = i * q; assert((base + m * al) % al == 0) by { if al == 1 { } else if al == 2 { } else if al == 4 { } else { } }
}
// ---- any history -----------------------------------------------------------------------------------
/// What a thread may do: make an arena, allocate, look up and add metadata, drop an arena.
pub enum Op<A, B, Y> { New(usize), One(usize, A), Slice(usize, Vec<B>), Fill(usize, usize, Y), Note(usize, TokenProvenance), Drop(usize), End }
pub trait Program<A, B: Copy, Y: Yields<B>> { fn next(&mut self) -> (r: Op<A, B, Y>) ensures r is Fill ==> r->Fill_2.items().len() >= r->Fill_1; #[verifier::external_body] fn room(&self, a: &SyntaxArena) -> (r: bool) ensures r ==> a.metadata@.len() < u32::MAX { a.metadata.len() < u32::MAX as usize } }
/// The contents an arena has promised: what was handed out, with the last bytes written to it.
pub type Kept = spec_fn(int) -> Option<Byte>;
pub open spec fn kept_ok(p: Kept, a: SyntaxArena, th: Thread) -> bool { forall|x: int| #[trigger] p(x) is Some ==> a.used(x) && p(x)->0 == (th.heap@.mem)(x) }
pub open spec fn keep(p: Kept, r: int, n: int, th: Thread) -> Kept { |x: int| if r <= x < r + n { Some((th.heap@.mem)(x)) } else { p(x) } }
/// Every arena is sound, no two own the same chunk, together with the chunks out before they own all that are out, and all that was handed out is still there.
pub open spec fn world(v: Seq<SyntaxArena>, p: Seq<Kept>, th: Thread, before: Map<usize, usize>) -> bool {
    &&& th.ok() && v.len() == p.len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ok(th) && kept_ok(p[i], v[i], th)
    &&& forall|i: int, j: int, c: usize| 0 <= i < v.len() && 0 <= j < v.len() && i != j && #[trigger] v[i].owns(c) ==> !#[trigger] v[j].owns(c)
    &&& forall|i: int, c: usize| 0 <= i < v.len() && #[trigger] v[i].owns(c) ==> !before.contains_key(c)
    &&& forall|c: usize| #[trigger] th.out().contains_key(c) == (before.contains_key(c) || exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).owns(c))
    &&& forall|c: usize| #[trigger] before.contains_key(c) ==> th.out()[c] == before[c]
}
impl SyntaxArena {
    pub proof fn owns_out(self, s: Thread, c: usize) requires self.ok(s), self.owns(c) ensures s.out().contains_key(c)
    { if !(self.started() && c == self.current_chunk_start) { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && #[trigger] self.full_chunks@[i].0 == c; assert(s.out().contains_key(self.full_chunks@[i].0)); } }
    /// An address handed out lies in a chunk of the arena.
    pub proof fn used_owns(self, s: Thread, x: int) -> (c: usize) requires self.ok(s), self.used(x) || self.free(x) ensures self.owns(c), s.out().contains_key(c), inside(x, c, s.out()[c])
    {
        if self.started() && self.current_chunk_start <= x < self.end { assert(s.out().contains_key(self.current_chunk_start)); self.current_chunk_start }
        else { let i = choose|i: int| 0 <= i < self.full_chunks@.len() && inside(x, #[trigger] self.full_chunks@[i].0, self.full_chunks@[i].1); assert(s.out().contains_key(self.full_chunks@[i].0)); self.full_chunks@[i].0 }
    }
    /// Another arena is not touched.
    pub proof fn others(o: SyntaxArena, b: SyntaxArena, t: Thread, a: SyntaxArena, s: Thread)
        requires s.ok(), t.ok(), a.ok(s), b.ok(t), o.ok(s), b.grew(t, a, s), forall|c: usize| #[trigger] o.owns(c) ==> !a.owns(c)
        ensures o.ok(t), forall|c: usize| #[trigger] o.owns(c) ==> !b.owns(c), forall|x: int| #[trigger] o.used(x) ==> (t.heap@.mem)(x) == (s.heap@.mem)(x)
    {
        broadcast use no_overlap;
        assert forall|c: usize| #[trigger] o.owns(c) implies !b.owns(c) by { o.owns_out(s, c); }
        if o.started() { assert(o.owns(o.current_chunk_start)); assert(s.out().contains_key(o.current_chunk_start)); assert(t.out().contains_key(o.current_chunk_start)); }
        assert forall|i: int| 0 <= i < o.full_chunks@.len() implies #[trigger] t.out().contains_key(o.full_chunks@[i].0) && t.out()[o.full_chunks@[i].0] == o.full_chunks@[i].1 && o.full_chunks@[i].0 != o.current_chunk_start by { assert(s.out().contains_key(o.full_chunks@[i].0)); }
        assert forall|x: int| #[trigger] o.used(x) implies (t.heap@.mem)(x) == (s.heap@.mem)(x) by {
            o.used_taken(s, x); let c = o.used_owns(s, x);
            if a.free(x) { let d = a.used_owns(s, x); assert(inside(x, c, s.heap@.live[c]) && inside(x, d, s.heap@.live[d])); }
        }
    }
}
/// One arena grew and handed out `[r, r + n)`.
pub proof fn world_grew(v: Seq<SyntaxArena>, p: Seq<Kept>, s: Thread, before: Map<usize, usize>, k: int, b: SyntaxArena, t: Thread, r: int, n: int)
    requires world(v, p, s, before), 0 <= k < v.len(), t.ok(), b.ok(t), b.grew(t, v[k], s), n <= 0 || b.fresh(t, v[k], s, r, n)
    ensures world(v.update(k, b), p.update(k, keep(p[k], r, n, t)), t, before), forall|x: int| #[trigger] p[k](x) is Some ==> keep(p[k], r, n, t)(x) == p[k](x)
{
    let a = v[k]; let v1 = v.update(k, b); let q = keep(p[k], r, n, t); let p1 = p.update(k, q);
    assert forall|x: int| #[trigger] p[k](x) is Some implies q(x) == p[k](x) && b.used(x) && q(x)->0 == (t.heap@.mem)(x) by { assert(a.used(x)); a.used_taken(s, x); a.used_not_free(s, x); if r <= x < r + n { assert(b.used(x) && !a.used(x)); } assert((t.heap@.mem)(x) == (s.heap@.mem)(x)); }
    assert forall|x: int| #[trigger] q(x) is Some implies b.used(x) && q(x)->0 == (t.heap@.mem)(x) by { if !(r <= x < r + n) { assert(p[k](x) is Some); } }
    assert forall|i: int| 0 <= i < v.len() && i != k implies (#[trigger] v[i]).ok(t) && kept_ok(p[i], v[i], t) && (forall|c: usize| #[trigger] v[i].owns(c) ==> !b.owns(c)) by { SyntaxArena::others(v[i], b, t, a, s); assert forall|x: int| #[trigger] p[i](x) is Some implies v[i].used(x) && p[i](x)->0 == (t.heap@.mem)(x) by { assert(v[i].used(x)); } }
    assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).ok(t) && kept_ok(p1[i], v1[i], t) by { if i != k { assert(v[i].ok(t)); } }
    assert forall|i: int, j: int, c: usize| 0 <= i < v1.len() && 0 <= j < v1.len() && i != j && #[trigger] v1[i].owns(c) implies !#[trigger] v1[j].owns(c) by { if i == k { assert(v[j].ok(t)); if v[j].owns(c) { assert(!b.owns(c)); } } else if j == k { assert(v[i].ok(t)); assert(v[i].owns(c)); } else { assert(v[i].owns(c)); } }
    assert forall|i: int, c: usize| 0 <= i < v1.len() && #[trigger] v1[i].owns(c) implies !before.contains_key(c) by { if i == k { if a.owns(c) { } else if before.contains_key(c) { assert(s.out().contains_key(c)); } } else { assert(v[i].owns(c)); } }
    assert forall|c: usize| #[trigger] t.out().contains_key(c) == (before.contains_key(c) || exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c)) by {
        assert(t.out().contains_key(c) == (s.out().contains_key(c) || b.owns(c)));
        if b.owns(c) { assert(v1[k].owns(c)); }
        if s.out().contains_key(c) && !before.contains_key(c) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).owns(c); if i == k { assert(b.owns(c)); } assert(v1[i].owns(c)); }
        if exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c) { let i = choose|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c); if i != k { assert(v[i].owns(c)); assert(s.out().contains_key(c)); } }
    }
    assert forall|c: usize| #[trigger] before.contains_key(c) implies t.out()[c] == before[c] by { assert(s.out().contains_key(c)); assert(t.out()[c] == s.out()[c]); }
}
/// An arena was dropped.
pub proof fn world_dropped(v: Seq<SyntaxArena>, p: Seq<Kept>, s: Thread, before: Map<usize, usize>, k: int, t: Thread)
    requires world(v, p, s, before), 0 <= k < v.len(), t.ok(), t.heap@.mem == s.heap@.mem, forall|c: usize| #[trigger] t.out().contains_key(c) == (s.out().contains_key(c) && !v[k].owns(c)), forall|c: usize| #[trigger] t.out().contains_key(c) ==> t.out()[c] == s.out()[c],
    ensures world(v.remove(k), p.remove(k), t, before)
{
    let v1 = v.remove(k); let p1 = p.remove(k);
    assert forall|i: int| 0 <= i < v.len() && i != k implies (#[trigger] v[i]).ok(t) by {
        let o = v[i];
        assert(forall|c: usize| #[trigger] o.owns(c) ==> !v[k].owns(c));
        if o.started() { assert(o.owns(o.current_chunk_start)); assert(s.out().contains_key(o.current_chunk_start)); assert(t.out().contains_key(o.current_chunk_start)); }
        assert forall|j: int| 0 <= j < o.full_chunks@.len() implies #[trigger] t.out().contains_key(o.full_chunks@[j].0) && t.out()[o.full_chunks@[j].0] == o.full_chunks@[j].1 && o.full_chunks@[j].0 != o.current_chunk_start by { assert(s.out().contains_key(o.full_chunks@[j].0)); assert(o.owns(o.full_chunks@[j].0)); }
    }
    assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).ok(t) && kept_ok(p1[i], v1[i], t) by { if i < k { assert(v[i].ok(t) && kept_ok(p[i], v[i], t)); } else { assert(v[i + 1].ok(t) && kept_ok(p[i + 1], v[i + 1], t)); } }
    assert forall|c: usize| #[trigger] t.out().contains_key(c) == (before.contains_key(c) || exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c)) by {
        if t.out().contains_key(c) && !before.contains_key(c) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).owns(c); if i < k { assert(v1[i].owns(c)); } else { assert(v1[i - 1].owns(c)); } }
        if before.contains_key(c) { assert(s.out().contains_key(c)); }
        if exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c) { let i = choose|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c); let j = if i < k { i } else { i + 1 }; assert(v[j].owns(c)); assert(s.out().contains_key(c)); assert(!v[k].owns(c)); }
    }
    assert forall|i: int, j: int, c: usize| 0 <= i < v1.len() && 0 <= j < v1.len() && i != j && #[trigger] v1[i].owns(c) implies !#[trigger] v1[j].owns(c) by { let x = if i < k { i } else { i + 1 }; let y = if j < k { j } else { j + 1 }; assert(v[x].owns(c) && v1[j] == v[y]); }
    assert forall|i: int, c: usize| 0 <= i < v1.len() && #[trigger] v1[i].owns(c) implies !before.contains_key(c) by { let x = if i < k { i } else { i + 1 }; assert(v[x].owns(c)); }
    assert forall|c: usize| #[trigger] before.contains_key(c) implies t.out()[c] == before[c] by { assert(s.out().contains_key(c)); assert(t.out().contains_key(c)); }
}
pub proof fn world_new(v: Seq<SyntaxArena>, p: Seq<Kept>, th: Thread, before: Map<usize, usize>, b: SyntaxArena)
    requires world(v, p, th, before), b.ok(th), !b.started() ensures world(v.push(b), p.push(|x: int| None), th, before)
{
    let v1 = v.push(b); let l = v.len() as int;
    assert forall|c: usize| !#[trigger] b.owns(c) by { }
    let q: Kept = |x: int| None; let p1 = p.push(q);
    assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).ok(th) && kept_ok(p1[i], v1[i], th) by { if i < l { assert(v[i].ok(th)); } }
    assert forall|c: usize| #[trigger] th.out().contains_key(c) == (before.contains_key(c) || exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c)) by {
        if th.out().contains_key(c) && !before.contains_key(c) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).owns(c); assert(v1[i].owns(c)); }
        if exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c) { let i = choose|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c); assert(v[i].owns(c)); }
    }
}
#[verifier::exec_allows_no_decreases_clause]
pub fn history<A, B: Copy, Y: Yields<B>, G: Program<A, B, Y>>(g: &mut G, th: &mut Thread)
    requires old(th).ok(), align::<A>() <= 8, align::<B>() <= 8,
    // once the arenas are gone, exactly the chunks that were out before are out
    ensures final(th).ok(), final(th).out() =~= old(th).out(),
{
    let ghost before = th.out();
    let mut arenas: Vec<SyntaxArena> = Vec::new(); let mut kept: Ghost<Seq<Kept>> = Ghost(Seq::empty());
    loop invariant world(arenas@, kept@, *th, before), align::<A>() <= 8, align::<B>() <= 8 {
        match g.next() {
            Op::End => { break; }
            Op::New(n) => { let b = SyntaxArena::new(n); proof { world_new(arenas@, kept@, *th, before, b); } arenas.push(b); proof { kept@ = kept@.push(|x: int| None); } }
            Op::One(i, v) => if i < arenas.len() {
                let ghost (v0, p0, t0) = (arenas@, kept@, *th); let w = Ghost(width::<A>() as int);
                let r = arenas[i].alloc(v, th);
                proof { world_grew(v0, p0, t0, before, i as int, arenas@[i as int], *th, r as int, w@); assert(arenas@ =~= v0.update(i as int, arenas@[i as int])); kept@ = p0.update(i as int, keep(p0[i as int], r as int, w@, *th)); }
            },
            Op::Slice(i, v) => if i < arenas.len() {
                let ghost (v0, p0, t0) = (arenas@, kept@, *th);
                let s = v.as_slice(); proof { slice_size(s); }
                let r = arenas[i].alloc_slice_copy(s, th); let ghost n = (s@.len() * width::<B>()) as int;
                proof { assert(s@.len() == 0 ==> n == 0) by(nonlinear_arith) requires n == s@.len() * width::<B>(); world_grew(v0, p0, t0, before, i as int, arenas@[i as int], *th, r.addr as int, n); assert(arenas@ =~= v0.update(i as int, arenas@[i as int])); kept@ = p0.update(i as int, keep(p0[i as int], r.addr as int, n, *th)); }
            },
            Op::Fill(i, count, y) => if i < arenas.len() {
                let ghost (v0, p0, t0) = (arenas@, kept@, *th);
                let r = arenas[i].alloc_slice_fill_iter(count, y, th); let ghost n = (count * width::<B>()) as int;
                proof { assert(count == 0 ==> n == 0) by(nonlinear_arith) requires n == count * width::<B>(); world_grew(v0, p0, t0, before, i as int, arenas@[i as int], *th, r.addr as int, n); assert(arenas@ =~= v0.update(i as int, arenas@[i as int])); kept@ = p0.update(i as int, keep(p0[i as int], r.addr as int, n, *th)); }
            },
            Op::Note(i, m) => if i < arenas.len() { if g.room(&arenas[i]) {
                let ghost v0 = arenas@;
                arenas[i].add_metadata(m);
                proof { let b = arenas@[i as int]; assert(arenas@ =~= v0.update(i as int, b)); noted(v0, kept@, *th, before, i as int, b); }
            } },
            Op::Drop(i) => if i < arenas.len() {
                let ghost (v0, t0) = (arenas@, *th);
                let mut a = arenas.remove(i); a.drop(th);
                proof { world_dropped(v0, kept@, t0, before, i as int, *th); kept@ = kept@.remove(i as int); }
            },
        }
    }
    while arenas.len() > 0 invariant world(arenas@, kept@, *th, before) decreases arenas.len() {
        let ghost (v0, t0) = (arenas@, *th); let i = arenas.len() - 1;
        let mut a = arenas.remove(i); a.drop(th);
        proof { world_dropped(v0, kept@, t0, before, i as int, *th); kept@ = kept@.remove(i as int); }
    }
    proof { assert forall|c: usize| #[trigger] th.out().contains_key(c) == before.contains_key(c) by { } }
}
pub proof fn noted(v: Seq<SyntaxArena>, p: Seq<Kept>, th: Thread, before: Map<usize, usize>, k: int, b: SyntaxArena)
    requires world(v, p, th, before), 0 <= k < v.len(), b.ptr == v[k].ptr, b.end == v[k].end, b.current_chunk_start == v[k].current_chunk_start, b.full_chunks == v[k].full_chunks
    ensures world(v.update(k, b), p, th, before)
{
    let v1 = v.update(k, b); let a = v[k];
    assert forall|c: usize| #[trigger] b.owns(c) == a.owns(c) by { }
    assert forall|x: int| #[trigger] b.used(x) == a.used(x) by { }
    assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).ok(th) && kept_ok(p[i], v1[i], th) by { assert(v[i].ok(th) && kept_ok(p[i], v[i], th)); if i == k { assert forall|x: int| #[trigger] p[i](x) is Some implies b.used(x) && p[i](x)->0 == (th.heap@.mem)(x) by { assert(a.used(x)); } } }
    assert forall|i: int, c: usize| 0 <= i < v1.len() implies #[trigger] v1[i].owns(c) == v[i].owns(c) by { }
    assert forall|c: usize| #[trigger] th.out().contains_key(c) == (before.contains_key(c) || exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c)) by {
        if th.out().contains_key(c) && !before.contains_key(c) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).owns(c); assert(v1[i].owns(c)); }
        if exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c) { let i = choose|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).owns(c); assert(v[i].owns(c)); }
    }
}
/// No slice is larger than `isize::MAX` bytes.
#[verifier::external_body] pub proof fn slice_size<T>(s: &[T]) ensures s@.len() * width::<T>() <= isize::MAX { }
/// The thread ends: its pool is dropped, and with nothing else out nothing is left.
pub fn thread_end(th: &mut Thread)
    requires old(th).ok(),
    ensures final(th).heap@.live =~= old(th).out(),
{
    if let Some(mut pool) = th.pool.take() { pool.drop(th); }
}
}
fn main() {}
