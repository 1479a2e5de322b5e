//! C09: the syntax arena hands out aligned, disjoint, stable memory and returns all of it.
use oak_core::{memory::arena::SyntaxArena, tree::{ProvenancePart, TokenProvenance}};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    num::NonZeroU32,
    sync::{Arc, Barrier, atomic::Ordering},
};
use vcommon::*;

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
struct Pod {
    a: u64,
    b: u8,
    c: u32,
    d: [u16; 3],
}
fn pod(x: u64) -> Pod {
    Pod { a: x, b: x as u8, c: (x >> 8) as u32, d: [x as u16, (x >> 16) as u16, (x >> 32) as u16] }
}

enum Held<'a> {
    U8(&'a u8, u8),
    U16(&'a u16, u16),
    U64(&'a u64, u64),
    Pod(&'a Pod, Pod),
    Bytes(&'a [u8], Vec<u8>),
    Str(&'a str, String),
    U32s(&'a [u32], Vec<u32>),
    Pods(&'a [Pod], Vec<Pod>),
    Ref(&'a &'a Pod, Pod),
    Meta(&'a TokenProvenance, TokenProvenance),
}
impl Held<'_> {
    fn ok(&self) -> bool {
        match self {
            Held::U8(a, b) => *a == b,
            Held::U16(a, b) => *a == b,
            Held::U64(a, b) => *a == b,
            Held::Pod(a, b) => *a == b,
            Held::Bytes(a, b) => *a == &b[..],
            Held::Str(a, b) => *a == &b[..],
            Held::U32s(a, b) => *a == &b[..],
            Held::Pods(a, b) => *a == &b[..],
            Held::Ref(a, b) => **a == b,
            Held::Meta(a, b) => *a == b,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Held::U8(..) => "u8",
            Held::U16(..) => "u16",
            Held::U64(..) => "u64",
            Held::Pod(..) => "struct",
            Held::Bytes(..) => "bytes",
            Held::Str(..) => "str",
            Held::U32s(..) => "u32 slice",
            Held::Pods(..) => "struct slice",
            Held::Ref(..) => "reference",
            Held::Meta(..) => "metadata",
        }
    }
    /// Address range in arena chunks (metadata lives elsewhere).
    fn range(&self) -> Option<(usize, usize, usize)> {
        fn r<T>(p: *const T, n: usize) -> Option<(usize, usize, usize)> {
            Some((p as usize, n * size_of::<T>(), align_of::<T>()))
        }
        match self {
            Held::U8(a, _) => r(*a, 1),
            Held::U16(a, _) => r(*a, 1),
            Held::U64(a, _) => r(*a, 1),
            Held::Pod(a, _) => r(*a, 1),
            Held::Bytes(a, _) => r(a.as_ptr(), a.len()),
            Held::Str(a, _) => r(a.as_ptr(), a.len()),
            Held::U32s(a, _) => r(a.as_ptr(), a.len()),
            Held::Pods(a, _) => r(a.as_ptr(), a.len()),
            Held::Ref(a, _) => r(*a, 1),
            Held::Meta(..) => None,
        }
    }
}

fn provenance(r: &mut Rng) -> TokenProvenance {
    let n = r.below(3);
    TokenProvenance {
        parts: (0..n)
            .map(|_| match r.below(3) {
                0 => {
                    let a = r.below(1000);
                    ProvenancePart::Source((a..a + r.below(9)).into())
                }
                1 => ProvenancePart::Synthesized(format!("syn{}", r.below(1 << 20))),
                _ => ProvenancePart::OpaqueTag("x".repeat(r.below(40))),
            })
            .collect(),
    }
}

/// A length that is often next to a chunk boundary.
fn length(r: &mut Rng, big: bool) -> usize {
    const C: usize = 64 * 1024;
    if cfg!(miri) {
        return if big && r.chance(1, 25) { C - 16 + r.below(3) * 8 } else { r.below(20) };
    }
    match r.below(if big { 12 } else { 8 }) {
        0 => 0,
        1..=5 => r.below(40),
        6 | 7 => r.below(2000),
        8 => C - 24 + r.below(48),
        9 => C / 2 - 8 + r.below(16),
        10 => r.below(2 * C),
        _ => r.below(C),
    }
}

/// One arena and the model of what it holds.
struct Lane<'a> {
    arena: &'a SyntaxArena,
    held: Vec<Held<'a>>,
    spans: BTreeMap<usize, usize>,
    metas: Vec<TokenProvenance>,
}
impl<'a> Lane<'a> {
    fn new(arena: &'a SyntaxArena) -> Self {
        Lane { arena, held: vec![], spans: BTreeMap::new(), metas: vec![] }
    }
    fn push(&mut self, h: Held<'a>, others: &[&BTreeMap<usize, usize>]) -> Check {
        ensure!(h.ok(), "fresh allocation does not hold the value stored", "{}", h.name());
        if let Some((a, n, al)) = h.range() {
            ensure!(a % al == 0, "misaligned allocation", "{} at {a:#x}", h.name());
            if n > 0 {
                ensure!(a % 8 == 0, "allocation not 8-byte aligned", "{} at {a:#x}", h.name());
                for m in std::iter::once(&self.spans).chain(others.iter().copied()) {
                    if let Some((b, e)) = m.range(..a + n).next_back() {
                        ensure!(*e <= a, "two live allocations overlap", "{} at {a:#x}+{n} overlaps {b:#x}..{e:#x}", h.name());
                    }
                }
                self.spans.insert(a, a + n);
            }
        }
        self.held.push(h);
        Ok(())
    }
    fn step(&mut self, r: &mut Rng, log: &mut String, big: bool, others: &[&BTreeMap<usize, usize>]) -> Check {
        let a = self.arena;
        let k = r.below(14);
        let x = r.next();
        let h = match k {
            0 => Held::U8(a.alloc(x as u8), x as u8),
            1 => Held::U16(a.alloc(x as u16), x as u16),
            2 => Held::U64(a.alloc(x), x),
            3 => Held::Pod(a.alloc(pod(x)), pod(x)),
            4 => {
                let p = &*a.alloc(pod(x));
                let rf = &*a.alloc(p);
                self.push(Held::Pod(p, pod(x)), others)?;
                Held::Ref(rf, pod(x))
            }
            5 | 6 => {
                let n = length(r, big);
                let mut v = vec![x as u8; n];
                for i in (0..n.min(64)).chain(n.saturating_sub(64)..n) {
                    v[i] = (x as usize + i * 7) as u8;
                }
                log.push_str(&format!(" bytes{n}"));
                Held::Bytes(a.alloc_slice_copy(&v), v)
            }
            7 => {
                let s: String = "aß→🦀".chars().cycle().take(r.below(30)).collect();
                let b = a.alloc_slice_copy(s.as_bytes());
                Held::Str(unsafe { std::str::from_utf8_unchecked(b) }, s)
            }
            8 | 9 => {
                // exact, short or long iterator
                let count = length(r, big && !cfg!(miri)) / 4;
                let give = match r.below(3) {
                    0 => count,
                    1 => r.below(count + 1),
                    _ => count + r.below(9),
                };
                log.push_str(&format!(" fill{count}/{give}"));
                let want: Vec<u32> = (0..give.min(count)).map(|i| x as u32 ^ i as u32).collect();
                let got = &*a.alloc_slice_fill_iter(count, (0..give).map(|i| x as u32 ^ i as u32));
                ensure_eq!(got.len(), want.len(), "slice filled from an iterator has the wrong length", "count {count}, iterator yields {give}");
                Held::U32s(got, want)
            }
            10 => {
                // The iterator allocates in the same arena while the slice is being filled.
                let n = r.below(30);
                log.push_str(&format!(" nested{n}"));
                let mut inner = vec![];
                let got: &[Pod] = a.alloc_slice_fill_iter(n, (0..n).map(|i| {
                    inner.push((&*a.alloc(x.wrapping_add(i as u64)), x.wrapping_add(i as u64)));
                    pod(x.wrapping_mul(i as u64 + 1))
                }));
                for (p, v) in inner {
                    self.push(Held::U64(p, v), others)?;
                }
                Held::Pods(got, (0..n).map(|i| pod(x.wrapping_mul(i as u64 + 1))).collect())
            }
            11 | 12 => {
                let p = provenance(r);
                let id = a.add_metadata(p.clone());
                self.metas.push(p.clone());
                ensure_eq!(id.get() as usize, self.metas.len(), "metadata index", "");
                let got = a.get_metadata(id);
                ensure!(got.is_some(), "metadata lost", "index {id}");
                Held::Meta(got.unwrap(), p)
            }
            _ => {
                let i = r.below(self.metas.len() + 3) + 1;
                let got = a.get_metadata(NonZeroU32::new(i as u32).unwrap());
                ensure_eq!(got, self.metas.get(i - 1), "metadata lookup", "index {i} of {}", self.metas.len());
                return Ok(());
            }
        };
        self.push(h, others)
    }
    fn verify(&self) -> Result<u64, Fail> {
        for h in &self.held {
            ensure!(h.ok(), "held allocation changed", "{} number of {} live", h.name(), self.held.len());
        }
        Ok(self.held.len() as u64)
    }
}

const CHUNK: i64 = 64 * 1024;

fn live() -> i64 {
    LIVE_BYTES.load(Ordering::SeqCst)
}

thread_local! {
    static PARKED: RefCell<Vec<SyntaxArena>> = const { RefCell::new(Vec::new()) };
}

pub fn memory(r: &mut Run) {
    // Several arenas in one thread: interleaved allocations, drops in random order, recycled chunks.
    r.family("interleaved arenas", 1500, 9000, |c| {
        let seed = c.rng.next();
        let mut log = String::new();
        let mut rng = Rng::new(seed);
        let big = rng.chance(1, 2);
        c.input(format!("rng {seed:#x}"));
        let mut checked = 0;
        let mut allocs = 0;
        for _round in 0..rng.range(1, 4) {
            let mut arenas: Vec<Option<Own>> = (0..rng.range(1, 4)).map(|_| Some(Own::new(SyntaxArena::new(rng.below(5))))).collect();
            // SAFETY: a lane is dropped before its boxed arena is.
            let mut lanes: Vec<Option<Lane<'static>>> = arenas.iter().map(|a| Some(Lane::new(a.as_ref().unwrap().get()))).collect();
            let steps = rng.range(1, if cfg!(miri) { 40 } else if c.thorough { 220 } else { 110 });
            for s in 0..steps {
                let i = rng.below(lanes.len());
                if rng.chance(1, 60) {
                    if let Some(l) = lanes[i].take() {
                        checked += l.verify()?;
                        drop(l);
                        arenas[i] = None;
                        log.push_str(" drop");
                        if rng.chance(1, 2) {
                            arenas[i] = Some(Own::new(SyntaxArena::default()));
                            lanes[i] = Some(Lane::new(arenas[i].as_ref().unwrap().get()));
                        }
                    }
                }
                else if let Some(mut l) = lanes[i].take() {
                    let others: Vec<&BTreeMap<usize, usize>> = lanes.iter().flatten().map(|l| &l.spans).collect();
                    let n = l.held.len();
                    l.step(&mut rng, &mut log, big, &others)?;
                    allocs += (l.held.len() - n) as u64;
                    lanes[i] = Some(l);
                }
                if s % 16 == 0 {
                    for l in lanes.iter().flatten() {
                        checked += l.verify()?;
                    }
                }
            }
            for l in lanes.iter().flatten() {
                checked += l.verify()?;
            }
            drop(lanes);
            drop(arenas);
        }
        c.seen("allocations made", allocs);
        c.seen("held allocations re-read", checked);
        c.distinct(&(log, allocs, checked));
        Ok(())
    });

    // Everything goes back: nothing beyond the bounded pool stays after drop, nothing at all after the thread.
    r.family("memory returned", 160, 1200, |c| {
        let seed = c.rng.next();
        c.input(format!("rng {seed:#x}"));
        let thorough = c.thorough;
        // Warm up whatever the runtime allocates once per process for threads.
        std::thread::spawn(|| {}).join().unwrap();
        let before = live();
        let res = std::thread::spawn(move || -> Result<(u64, i64, i64), Fail> {
            let mut rng = Rng::new(seed);
            let base = live();
            let mut peak = 0;
            let mut arenas_made = 0;
            let park = rng.chance(1, 3);
            if park && rng.chance(1, 2) {
                // Registers this thread-local's destructor before the pool's own.
                PARKED.with(|p| p.borrow_mut().reserve(1));
            }
            for _ in 0..rng.range(1, 6) {
                let mut group = vec![];
                for _ in 0..rng.range(1, 6) {
                    let a = SyntaxArena::new(rng.below(4));
                    for _ in 0..rng.below(if thorough { 60 } else { 30 }) {
                        let n = length(&mut rng, true);
                        let v = vec![rng.next() as u8; n];
                        let got = a.alloc_slice_copy(&v);
                        ensure!(got == &v[..], "fresh allocation does not hold the value stored", "slice of {n}");
                        if rng.chance(1, 4) {
                            let p = provenance(&mut rng);
                            a.add_metadata(p);
                        }
                    }
                    arenas_made += 1;
                    group.push(a);
                }
                peak = peak.max(live() - base);
                while !group.is_empty() {
                    let k = rng.below(group.len());
                    let a = group.swap_remove(k);
                    if park && rng.chance(1, 6) {
                        PARKED.with(|p| p.borrow_mut().push(a));
                    }
                }
            }
            let kept = live() - base;
            if !park {
                ensure!(kept <= 64 * CHUNK + 8192, "dropped arenas keep more than the bounded pool", "{kept} bytes kept after every arena was dropped (64 chunks are {})", 64 * CHUNK);
            }
            Ok((arenas_made, peak, kept))
        })
        .join()
        .map_err(|_| Fail { sig: "panic in a thread using arenas".into(), detail: "thread panicked".into() })??;
        let after = live();
        // Thread-local bookkeeping of the runtime may come and go; a lost chunk is 64 KB.
        ensure!(after - before < CHUNK / 2, "arena memory not returned when its thread ended", "{} bytes more than before the thread ran (peak {} inside it)", after - before, res.1);
        c.seen("arenas dropped", res.0);
        c.seen("bytes peak", res.1.max(0) as u64);
        c.distinct(&(seed, res.0));
        Ok(())
    });

    // The pool limit itself: many chunks at once, dropped together, then reused.
    r.family("pool bound", 24, 120, |c| {
        let n = c.rng.range(50, 200);
        let k = c.rng.range(1, 5);
        c.input(format!("{n} chunks in {k} arenas"));
        std::thread::spawn(|| {}).join().unwrap();
        let before = live();
        let kept = std::thread::spawn(move || {
            let base = live();
            let mut kept = vec![];
            for _ in 0..3 {
                let arenas: Vec<SyntaxArena> = (0..k).map(|_| SyntaxArena::default()).collect();
                for i in 0..n {
                    arenas[i % k].alloc_slice_copy(&[i as u8; 40_000]);
                }
                drop(arenas);
                kept.push(live() - base);
            }
            kept
        })
        .join()
        .unwrap();
        for b in &kept {
            ensure!(*b <= 64 * CHUNK + 8192, "dropped arenas keep more than the bounded pool", "{b} bytes kept after dropping {n} chunks");
        }
        let after = live();
        ensure!(after - before < CHUNK / 2, "arena memory not returned when its thread ended", "{} bytes more than before", after - before);
        c.seen("pool refills", 3);
        c.distinct(&(n, k));
        Ok(())
    });

    // Arenas that move between threads and are read from several at once.
    r.family("across threads", 120, 900, |c| {
        let seed = c.rng.next();
        c.input(format!("rng {seed:#x}"));
        let big = c.rng.chance(1, 2);
        std::thread::spawn(|| {}).join().unwrap();
        let before = live();
        let mut rng = Rng::new(seed);
        let hops = rng.range(2, 4);
        let mut arena = Some(Own::new(SyntaxArena::default()));
        struct Carry(Lane<'static>);
        // The lane only holds shared references into the arena, which is Sync, and plain values.
        unsafe impl Send for Carry {}
        let mut carry = Some(Carry(Lane::new(arena.as_ref().unwrap().get())));
        let mut events = 0;
        for h in 0..hops {
            let a = arena.take().unwrap();
            let cy = carry.take().unwrap();
            let s2 = rng.next();
            let (a, cy, n) = std::thread::spawn(move || -> Result<_, Fail> {
                let mut cy = cy;
                let Carry(lane) = &mut cy;
                let mut rng = Rng::new(s2);
                let mut log = String::new();
                // Chunks recycled in this thread must not be the ones the travelling arena still uses.
                let local = Own::new(SyntaxArena::default());
                let mut ll = Lane::new(local.get());
                for _ in 0..rng.below(40) {
                    lane.step(&mut rng, &mut log, big, &[&ll.spans])?;
                    ll.step(&mut rng, &mut log, big, &[&lane.spans])?;
                }
                let n = ll.verify()? + lane.verify()?;
                drop(ll);
                drop(local);
                Ok((a, cy, n))
            })
            .join()
            .map_err(|_| Fail { sig: "panic in a thread using arenas".into(), detail: format!("hop {h}") })??;
            arena = Some(a);
            carry = Some(cy);
            events += n;
        }
        let Carry(lane) = carry.take().unwrap();
        let shared: Arc<Carry2> = Arc::new(Carry2(lane));
        let bar = Arc::new(Barrier::new(3));
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let (s, b) = (shared.clone(), bar.clone());
                std::thread::spawn(move || {
                    b.wait();
                    let l = &s.0;
                    let mut n = l.verify()?;
                    for i in 1..=l.metas.len() + 1 {
                        ensure_eq!(l.arena.get_metadata(NonZeroU32::new(i as u32).unwrap()), l.metas.get(i - 1), "metadata lookup", "index {i} from another thread");
                        n += 1;
                    }
                    Ok(n)
                })
            })
            .collect();
        for h in hs {
            events += h.join().map_err(|_| Fail { sig: "panic in a thread using arenas".into(), detail: "reader".into() })??;
        }
        drop(shared);
        // Dropped on a thread that never allocated in it.
        let a = arena.take().unwrap();
        std::thread::spawn(move || drop(a)).join().unwrap();
        drop(bar);
        let after = live();
        ensure!(after - before < CHUNK / 2, "arena memory not returned when its thread ended", "{} bytes more than before, arena dropped on another thread", after - before);
        c.seen("cross-thread reads and allocations checked", events);
        c.distinct(&seed);
        Ok(())
    });
}

/// An arena owned through a raw pointer, so that the lanes' references into it survive moves of the owner.
struct Own(*mut SyntaxArena);
unsafe impl Send for Own {}
impl Own {
    fn new(a: SyntaxArena) -> Own {
        Own(Box::into_raw(Box::new(a)))
    }
    fn get(&self) -> &'static SyntaxArena {
        unsafe { &*self.0 }
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

struct Carry2(Lane<'static>);
unsafe impl Send for Carry2 {}
unsafe impl Sync for Carry2 {}
