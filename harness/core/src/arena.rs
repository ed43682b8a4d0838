//! P08: syntax arenas over a global allocator that watches every chunk: sizes on return, second
//! returns, chunks that are never returned; chunks in use are disjoint by what the allocator knows.
use crate::common::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::{ProvenancePart, TokenProvenance};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::BTreeMap,
    num::NonZeroU32,
    sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
};

const CHUNK: usize = 64 * 1024;
const SLOTS: usize = 4096;
/// Chunk-sized blocks handed out while a thread is watched: start, size; state 1 in use, 2 returned.
struct Watch {
    lock: AtomicBool,
    n: AtomicUsize,
    blocks: std::cell::UnsafeCell<[(usize, usize, u8); SLOTS]>,
    /// 1: returned with another size; 2: returned twice; 4: too many blocks to watch
    bad: AtomicUsize,
}
unsafe impl Sync for Watch {}
static WATCH: Watch = Watch { lock: AtomicBool::new(false), n: AtomicUsize::new(0), blocks: std::cell::UnsafeCell::new([(0, 0, 0); SLOTS]), bad: AtomicUsize::new(0) };
thread_local! { static ON: Cell<bool> = const { Cell::new(false) } }
impl Watch {
    fn with<R>(&self, f: impl FnOnce(&mut [(usize, usize, u8)]) -> R) -> R {
        while self.lock.swap(true, SeqCst) {
            std::hint::spin_loop()
        }
        let r = f(unsafe { &mut (&mut *self.blocks.get())[..self.n.load(SeqCst)] });
        self.lock.store(false, SeqCst);
        r
    }
    fn add(&self, p: usize, size: usize) {
        while self.lock.swap(true, SeqCst) {
            std::hint::spin_loop()
        }
        let n = self.n.load(SeqCst);
        if n == SLOTS {
            self.bad.fetch_or(4, SeqCst);
        }
        else {
            unsafe { (*self.blocks.get())[n] = (p, size, 1) };
            self.n.store(n + 1, SeqCst)
        }
        self.lock.store(false, SeqCst);
    }
}
pub struct Watched;
unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if l.size() >= CHUNK && l.align() == 8 && !p.is_null() && ON.with(|c| c.get()) {
            unsafe { p.write_bytes(0x5A, l.size()) };
            WATCH.add(p as usize, l.size())
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if WATCH.n.load(SeqCst) > 0 {
            let mine = WATCH.with(|b| {
                for x in b.iter_mut() {
                    if x.0 == p as usize {
                        if x.2 == 2 {
                            WATCH.bad.fetch_or(2, SeqCst);
                        }
                        if x.1 != l.size() || l.align() != 8 {
                            WATCH.bad.fetch_or(1, SeqCst);
                        }
                        x.2 = 2;
                        return Some(x.1);
                    }
                }
                None
            });
            if let Some(n) = mine {
                // kept until the case is over, spoilt
                unsafe { p.write_bytes(0xDD, n) };
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}
/// Runs `f` in a thread of its own and checks what is left of its chunks when it has ended.
fn watched(f: impl FnOnce() -> Result<(), String> + Send) -> Result<(), String> {
    WATCH.n.store(0, SeqCst);
    WATCH.bad.store(0, SeqCst);
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            ON.with(|c| c.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            r.unwrap_or_else(|e| Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
        })
        .join()
    });
    let all: Vec<(usize, usize, u8)> = {
        let mut v = Vec::with_capacity(SLOTS);
        WATCH.with(|b| v.extend_from_slice(b));
        v
    };
    let bad = WATCH.bad.load(SeqCst);
    WATCH.n.store(0, SeqCst);
    for b in &all {
        unsafe { System.dealloc(b.0 as *mut u8, Layout::from_size_align(b.1, 8).unwrap()) }
    }
    r.map_err(|_| "thread".to_string())??;
    ck!(bad & 4 == 0, "harness: more than {SLOTS} chunks");
    ck!(bad & 2 == 0, "a chunk was freed twice");
    ck!(bad & 1 == 0, "a chunk was freed with another size or alignment than it was allocated with");
    let left = all.iter().filter(|b| b.2 == 1).count();
    ck!(left == 0, "{left} of {} chunks are never freed", all.len());
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Wide(u64, u32, u32);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Odd([u8; 3]);

/// What an arena handed out: where, and which bytes must be there.
struct Given {
    at: usize,
    bytes: Vec<u8>,
}
struct Owner<'a> {
    arena: &'a SyntaxArena,
    given: Vec<Given>,
}
struct All {
    /// start to end of everything handed out by arenas that still exist
    spans: BTreeMap<usize, usize>,
}
impl All {
    fn take(&mut self, at: usize, len: usize) -> Result<(), String> {
        if len == 0 {
            return Ok(());
        }
        if let Some((s, e)) = self.spans.range(..at + len).next_back() {
            ck!(*e <= at, "{len} bytes at {at:#x} overlap the {} bytes at {s:#x} handed out before", e - s);
        }
        let inside = WATCH.with(|b| b.iter().any(|b| b.2 == 1 && b.0 <= at && at + len <= b.0 + b.1));
        ck!(inside, "{len} bytes at {at:#x} lie in no chunk in use");
        self.spans.insert(at, at + len);
        Ok(())
    }
}
impl Owner<'_> {
    fn note(&mut self, all: &mut All, at: usize, bytes: Vec<u8>, align: usize) -> Result<(), String> {
        ck!(at % align == 0, "address {at:#x} is not aligned to {align}");
        all.take(at, bytes.len())?;
        self.given.push(Given { at, bytes });
        Ok(())
    }
    fn check(&self) -> Result<(), String> {
        for (i, g) in self.given.iter().enumerate() {
            let now = unsafe { std::slice::from_raw_parts(g.at as *const u8, g.bytes.len()) };
            if now != &g.bytes[..] {
                let k = now.iter().zip(&g.bytes).position(|(a, b)| a != b).unwrap();
                return Err(format!("allocation {i} ({} bytes at {:#x}) changed at byte {k}: {:#x} instead of {:#x}", g.bytes.len(), g.at, now[k], g.bytes[k]));
            }
        }
        Ok(())
    }
    /// One allocation of the sort `kind`, with contents from `r`.
    fn give(&mut self, all: &mut All, r: &mut Rng, kind: usize, len: usize) -> Result<(), String> {
        let a = self.arena;
        match kind {
            0 => {
                let v = r.next() as u8;
                let p = a.alloc(v);
                ckeq!(*p, v, "value");
                self.note(all, p as *mut u8 as usize, vec![v], 1)
            }
            1 => {
                let v = r.next() as u16;
                let p = a.alloc(v);
                ckeq!(*p, v, "value");
                self.note(all, p as *mut u16 as usize, v.to_ne_bytes().to_vec(), 2)
            }
            2 => {
                let v = r.next();
                let p = a.alloc(v);
                ckeq!(*p, v, "value");
                self.note(all, p as *mut u64 as usize, v.to_ne_bytes().to_vec(), 8)
            }
            3 => {
                let v = Wide(r.next(), r.next() as u32, r.next() as u32);
                let p = a.alloc(v);
                ckeq!(*p, v, "value");
                let at = p as *mut Wide as usize;
                // the bytes as they are now
                let b = unsafe { std::slice::from_raw_parts(at as *const u8, std::mem::size_of::<Wide>()) }.to_vec();
                self.note(all, at, b, std::mem::align_of::<Wide>())
            }
            4 => {
                let v: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
                let p = a.alloc_slice_copy(&v);
                ckeq!(&p[..], &v[..], "copied slice");
                self.note(all, p.as_ptr() as usize, v, 1)
            }
            5 => {
                let v: Vec<u32> = (0..len / 4).map(|_| r.next() as u32).collect();
                let p = a.alloc_slice_copy(&v);
                ckeq!(&p[..], &v[..], "copied slice");
                self.note(all, p.as_ptr() as usize, v.iter().flat_map(|x| x.to_ne_bytes()).collect(), 4)
            }
            6 => {
                let v: Vec<Odd> = (0..len / 3).map(|_| Odd([r.next() as u8, r.next() as u8, r.next() as u8])).collect();
                let p = a.alloc_slice_fill_iter(v.len(), v.iter().copied());
                ckeq!(&p[..], &v[..], "filled slice");
                self.note(all, p.as_ptr() as usize, v.iter().flat_map(|x| x.0).collect(), 1)
            }
            7 => {
                let p = a.alloc(());
                ck!(!(p as *mut ()).is_null(), "null");
                Ok(())
            }
            // an iterator that allocates from the same arena, as cloning a tree does
            _ => {
                let n = len / 8;
                let mut inner: Vec<(usize, Vec<u8>)> = vec![];
                let sizes: Vec<usize> = (0..n).map(|_| if r.chance(1, 40) { r.range(1, 70_000) } else { r.range(0, 24) }).collect();
                let p = a.alloc_slice_fill_iter(n, sizes.iter().enumerate().map(|(i, s)| {
                    let v = vec![i as u8 ^ 0x33; *s];
                    let q = a.alloc_slice_copy(&v);
                    inner.push((q.as_ptr() as usize, v));
                    (i as u64) << 8 | *s as u64
                }));
                let v: Vec<u64> = sizes.iter().enumerate().map(|(i, s)| (i as u64) << 8 | *s as u64).collect();
                ckeq!(&p[..], &v[..], "filled slice");
                let at = p.as_ptr() as usize;
                self.note(all, at, v.iter().flat_map(|x| x.to_ne_bytes()).collect(), 8)?;
                for (q, v) in inner {
                    self.note(all, q, v, 1)?
                }
                Ok(())
            }
        }
    }
}
fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => CHUNK - 8 + r.below(17) - 8,
        1 => 2 * CHUNK + r.below(17),
        2 => r.range(20_000, 40_000),
        3 => r.range(1000, 9000),
        4 => 0,
        _ => r.below(80),
    }
}
/// A program over several arenas, dropped in any order.
fn program(seed: u64, steps: usize, most: usize) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut all = All { spans: BTreeMap::new() };
    let mut owners: Vec<Owner<'static>> = vec![];
    let drop_one = |owners: &mut Vec<Owner<'static>>, all: &mut All, k: usize| -> Result<(), String> {
        let o = owners.remove(k);
        o.check()?;
        for g in &o.given {
            all.spans.remove(&g.at);
        }
        drop(unsafe { Box::from_raw(o.arena as *const SyntaxArena as *mut SyntaxArena) });
        Ok(())
    };
    let mut go = || -> Result<(), String> {
        for _ in 0..steps {
            if owners.is_empty() || (owners.len() < most && r.chance(1, 8)) {
                owners.push(Owner { arena: Box::leak(Box::new(SyntaxArena::new(r.below(3)))), given: vec![] });
            }
            else if r.chance(1, 12) {
                let k = r.below(owners.len());
                drop_one(&mut owners, &mut all, k)?
            }
            else {
                let k = r.below(owners.len());
                let kind = r.below(9);
                let len = size(&mut r);
                let mut q = Rng::new(r.next());
                owners[k].give(&mut all, &mut q, kind, if kind > 7 { len.min(2000) } else { len })?
            }
        }
        for o in &owners {
            o.check()?
        }
        Ok(())
    };
    let e = go();
    while !owners.is_empty() {
        let k = r.below(owners.len());
        if let Err(x) = drop_one(&mut owners, &mut all, k) {
            return e.and(Err(x));
        }
    }
    e
}
thread_local! { static KEEP: RefCell<Vec<SyntaxArena>> = const { RefCell::new(Vec::new()) } }

pub fn p08(c: &mut Ctx) {
    c.family("programs");
    let mut r = c.rng("programs");
    for _ in 0..c.n(600, 20_000) {
        let seed = r.next();
        c.case(|| format!("program {seed:#x}"), || watched(|| program(seed, 60, 4)));
    }
    c.family("sizes");
    for before in [0usize, 1, 7, 8, 40, CHUNK - 64, CHUNK - 16, CHUNK - 9, CHUNK - 8] {
        for len in (0..40).chain(CHUNK - 48..CHUNK + 24).chain([CHUNK * 2 - 8, CHUNK * 2, CHUNK * 2 + 1, CHUNK * 3 + 5]) {
            c.case(
                || format!("{before} bytes, then {len}, then 1, 8 and {len} more"),
                || {
                    watched(|| {
                        let mut r = Rng::new(len as u64);
                        let mut all = All { spans: BTreeMap::new() };
                        let a = SyntaxArena::new(0);
                        let mut o = Owner { arena: &a, given: vec![] };
                        o.give(&mut all, &mut r, 4, before)?;
                        o.give(&mut all, &mut r, 4, len)?;
                        o.give(&mut all, &mut r, 0, 0)?;
                        o.give(&mut all, &mut r, 2, 0)?;
                        o.give(&mut all, &mut r, 4, len)?;
                        o.check()
                    })
                },
            );
        }
    }
    c.family("pool");
    for chunks in [1usize, 2, 63, 64, 65, 66, 80, 130, 200] {
        for order in 0..3 {
            c.case(
                || format!("{chunks} chunks in several arenas, dropped in order {order}, then used again"),
                || {
                    watched(|| {
                        for round in 0..3 {
                            let mut all = All { spans: BTreeMap::new() };
                            let arenas: Vec<Box<SyntaxArena>> = (0..1 + chunks / 7).map(|_| Box::new(SyntaxArena::new(1))).collect();
                            let mut owners: Vec<Owner> = arenas.iter().map(|a| Owner { arena: a, given: vec![] }).collect();
                            let mut r = Rng::new(chunks as u64 + round);
                            for i in 0..chunks {
                                let k = i % owners.len();
                                owners[k].give(&mut all, &mut r, 4, if i % 9 == 8 { 100_000 } else { 40_000 })?
                            }
                            for o in &owners {
                                o.check()?
                            }
                            drop(owners);
                            let mut arenas = arenas;
                            match order {
                                0 => drop(arenas),
                                1 => {
                                    while let Some(a) = arenas.pop() {
                                        drop(a)
                                    }
                                }
                                _ => {
                                    while !arenas.is_empty() {
                                        let k = r.below(arenas.len());
                                        drop(arenas.remove(k))
                                    }
                                }
                            }
                            // nothing is in use: what is left is the thread's pool
                            let (mut kept, mut wide) = (0, 0);
                            WATCH.with(|b| {
                                for x in b.iter().filter(|x| x.2 == 1) {
                                    kept += 1;
                                    wide += (x.1 != CHUNK) as usize
                                }
                            });
                            ck!(kept <= 64, "{kept} chunks are kept in the pool");
                            ck!(wide == 0, "{wide} chunks of other sizes are kept");
                        }
                        Ok(())
                    })
                },
            );
        }
    }
    c.family("end of thread");
    for first in [false, true] {
        for n in [1usize, 3, 70] {
            c.case(
                || format!("{n} arenas live in a thread-local made {} the chunk pool", if first { "before" } else { "after" }),
                || {
                    watched(|| {
                        if first {
                            KEEP.with(|k| k.borrow_mut().reserve(1))
                        }
                        for _ in 0..n {
                            let a = SyntaxArena::new(1);
                            a.alloc_slice_copy(&[7u8; 50_000]);
                            a.alloc_slice_copy(&[8u8; 50_000]);
                            KEEP.with(|k| k.borrow_mut().push(a))
                        }
                        Ok(())
                    })
                },
            );
        }
    }
    c.family("another thread");
    for n in [1usize, 3, 70] {
        c.case(
            || format!("{n} arenas filled in one thread and dropped in another"),
            || {
                watched(|| {
                    let arenas: Vec<SyntaxArena> = (0..n)
                        .map(|_| {
                            let a = SyntaxArena::new(1);
                            a.alloc_slice_copy(&[7u8; 50_000]);
                            a
                        })
                        .collect();
                    std::thread::scope(|s| s.spawn(move || drop(arenas)).join()).map_err(|_| "thread".to_string())
                })
            },
        );
    }
    c.family("provenance");
    let mut r = c.rng("provenance");
    for _ in 0..c.n(60, 600) {
        let n = r.range(1, 300);
        let seed = r.next();
        c.case(
            || format!("{n} provenance entries, references to them held meanwhile (seed {seed:#x})"),
            || {
                let mut r = Rng::new(seed);
                let a = SyntaxArena::new(1);
                let mut refs: Vec<(NonZeroU32, &TokenProvenance, TokenProvenance)> = vec![];
                for i in 0..n {
                    let v = TokenProvenance { parts: (0..r.below(3)).map(|k| if r.chance(1, 2) { ProvenancePart::Source((i..i + k).into()) } else { ProvenancePart::Synthesized(format!("s{i}")) }).collect() };
                    let id = a.add_metadata(v.clone());
                    a.alloc_slice_copy(&vec![1u8; r.below(500)]);
                    refs.push((id, a.get_metadata(id).ok_or("entry not found")?, v));
                }
                for (i, (id, p, v)) in refs.iter().enumerate() {
                    ckeq!(id.get() as usize, i + 1, "number");
                    ckeq!(a.get_metadata(*id), Some(v), "entry {}", i);
                    ck!(std::ptr::eq(*p, a.get_metadata(*id).unwrap()), "entry {i} of {n} moved while a reference to it was held");
                }
                ck!(a.get_metadata(NonZeroU32::new(n as u32 + 1).unwrap()).is_none(), "entry past the end");
                Ok(())
            },
        );
    }
}
