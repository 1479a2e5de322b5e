//! C13: threads that parse, edit and read independently get what they would get alone.
use crate::{
    inc::valid,
    src::{boundaries, random_edits, rg},
    toy::{Toy, ToyLexer, ToyParser},
    tree::{M, PROGRAM, model_of, program},
};
use oak_core::{
    Lexer, LexerCache, ParseCache, ParseSession, Parser, Source, SourceText, TextEdit,
    source::{ChunkedBuffer, RopeBuffer},
};
use std::sync::{
    Arc, Barrier,
    atomic::{AtomicBool, Ordering},
    mpsc::{Receiver, Sender, channel},
};
use vcommon::*;

type Out = (Option<M>, String);

fn parse<S: Source + ?Sized>(s: &S, e: &[TextEdit], c: &mut impl ParseCache<Toy>) -> Out {
    let o = ToyParser.parse(s, e, c);
    (o.result.as_ref().ok().map(|r| model_of(r)), format!("{:?} {:?}", o.result.as_ref().err(), o.diagnostics))
}
fn fresh(t: &str) -> Out {
    parse(t, &[], &mut ParseSession::default())
}

/// Pseudo-random pauses, so that the threads of a case meet at different points each time.
fn jitter(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        2 => {
            for _ in 0..r.below(200) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

struct Job {
    text: String,
    steps: Vec<(Vec<TextEdit>, String)>,
    want: Vec<Out>,
}
fn job(r: &mut Rng, small: bool) -> Job {
    let text = if r.chance(2, 3) { let n = if small { 2 } else { r.range(1, 12) }; valid(r, n) } else { program(r, if small { 8 } else { 40 }) };
    let mut want = vec![fresh(&text)];
    let mut steps = vec![];
    let mut t = text.clone();
    for _ in 0..r.below(if small { 2 } else { 5 }) {
        let (e, n) = random_edits(r, &t, PROGRAM, 3);
        want.push(fresh(&n));
        t = n.clone();
        steps.push((e, n));
    }
    Job { text, steps, want }
}

fn joined<T>(h: std::thread::JoinHandle<Result<T, Fail>>) -> Result<T, Fail> {
    h.join().map_err(|_| Fail { sig: "panic in a worker thread".into(), detail: "a thread that parses or reads on its own panicked".into() })?
}

pub fn parallel(r: &mut Run) {
    let small = cfg!(miri);

    // Independent sessions, shared parser, lexer and source values.
    r.family("parallel-sessions", 260, 4000, |c| {
        let n = c.rng.range(2, if small { 2 } else { 6 });
        let jobs: Vec<Job> = (0..n).map(|_| job(&mut c.rng, small)).collect();
        let jobs = Arc::new(jobs);
        let shared: Vec<SourceText> = jobs.iter().map(|j| SourceText::new(j.text.clone())).collect();
        let ropes: Vec<_> = jobs.iter().map(|j| RopeBuffer::new(&j.text)).collect();
        let shared = Arc::new((shared, ropes));
        c.input(format!("{n} threads over {:?}", jobs.iter().map(|j| clip(&j.text, 120)).collect::<Vec<_>>()));
        let bar = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (jobs, bar, shared) = (jobs.clone(), bar.clone(), shared.clone());
                let mut r = Rng::new(c.rng.next());
                std::thread::spawn(move || -> Result<u64, Fail> {
                    bar.wait();
                    let mut n = 0;
                    // one history of its own
                    let j = &jobs[k];
                    let mut s = ParseSession::new(r.below(8));
                    let got = parse(&shared.0[k], &[], &mut s);
                    ensure!(got == j.want[0], "parse in parallel differs from the parse alone", "{:?}", clip(&j.text, 400));
                    for (i, (e, t)) in j.steps.iter().enumerate() {
                        jitter(&mut r);
                        let got = parse(&t[..], e, &mut s);
                        ensure!(got == j.want[i + 1], "parse in parallel differs from the parse alone", "{:?}", clip(t, 400));
                        n += 1;
                    }
                    // and everyone else's first text, through the shared sources
                    for m in 0..jobs.len() {
                        jitter(&mut r);
                        let q = (k + m) % jobs.len();
                        let mut s2 = ParseSession::default();
                        let got = if r.chance(1, 2) { parse(&shared.0[q], &[], &mut s2) } else { parse(&shared.1[q], &[], &mut s2) };
                        ensure!(got == jobs[q].want[0], "parse in parallel differs from the parse alone", "shared source {:?}", clip(&jobs[q].text, 400));
                        let lex = ToyLexer.lex(&shared.1[q], &[], &mut s2);
                        ensure!(lex.result.as_ref().is_ok_and(|t| t.last().is_some_and(|t| t.span.end == jobs[q].text.len())), "lex in parallel stops short", "");
                        n += 2;
                    }
                    Ok(n)
                })
            })
            .collect();
        for h in hs {
            let n = joined(h)?;
            c.seen("parallel parses compared with sequential ones", n);
        }
        c.distinct(&jobs.iter().map(|j| j.text.clone()).collect::<Vec<_>>());
        Ok(())
    });

    // A session's tree read from several threads at once while others parse.
    r.family("shared-trees", 160, 2500, |c| {
        let n = c.rng.range(2, if small { 2 } else { 5 });
        let j = job(&mut c.rng, small);
        c.input(format!("{n} readers of {:?}", clip(&j.text, 400)));
        let mut s = ParseSession::new(4);
        let want = parse(&j.text[..], &[], &mut s);
        let (s, j, want) = (Arc::new(s), Arc::new(j), Arc::new(want));
        let bar = Arc::new(Barrier::new(n + 1));
        let mut hs = vec![];
        for k in 0..=n {
            let (s, j, want, bar) = (s.clone(), j.clone(), want.clone(), bar.clone());
            let mut r = Rng::new(c.rng.next());
            hs.push(std::thread::spawn(move || -> Result<u64, Fail> {
                bar.wait();
                let mut nodes = 0;
                if k == n {
                    // keeps taking chunks from, and giving them back to, its own pool
                    for _ in 0..3 {
                        let mut o = ParseSession::new(1);
                        let got = parse(&j.text[..], &[], &mut o);
                        ensure!(got == *want, "parse in parallel differs from the parse alone", "");
                        jitter(&mut r);
                    }
                    return Ok(0);
                }
                for _ in 0..3 {
                    match (s.last_root(), &want.0) {
                        (Some(g), Some(m)) => {
                            ensure!(model_of(g) == *m, "tree read from another thread differs", "{:?}", clip(&j.text, 400));
                            crate::tree::same_red(oak_core::RedNode::new(g, 0), m, &mut r, &mut nodes)?;
                        }
                        (None, None) => {}
                        (g, m) => return fail("tree read from another thread differs", format!("present {} expected {}", g.is_some(), m.is_some())),
                    }
                    ensure_eq!(s.count_tokens(), s.get_tokens().map_or(0, |t| t.len()), "token count", "");
                    jitter(&mut r);
                }
                Ok(nodes)
            }));
        }
        for h in hs {
            let n = joined(h)?;
            c.seen("tree elements read from several threads", n);
        }
        c.distinct(&j.text);
        Ok(())
    });

    // Sessions handed from thread to thread; each thread continues the edit history.
    r.family("travelling-sessions", 120, 2000, |c| {
        let n = c.rng.range(2, if small { 2 } else { 4 });
        let k = c.rng.range(1, if small { 1 } else { 5 });
        struct Parcel {
            s: ParseSession<Toy>,
            j: Job,
            at: usize,
        }
        let mut parcels = vec![];
        for _ in 0..k {
            let j = job(&mut c.rng, small);
            parcels.push(Parcel { s: ParseSession::new(2), j, at: 0 });
        }
        c.input(format!("{n} threads, sessions over {:?}", parcels.iter().map(|p| clip(&p.j.text, 120)).collect::<Vec<_>>()));
        c.distinct(&parcels.iter().map(|p| p.j.text.clone()).collect::<Vec<_>>());
        let over = Arc::new(AtomicBool::new(false));
        let (done_tx, done_rx) = channel::<()>();
        let chans: Vec<(Sender<Parcel>, Receiver<Parcel>)> = (0..n).map(|_| channel()).collect();
        let txs: Vec<Sender<Parcel>> = chans.iter().map(|x| x.0.clone()).collect();
        for (i, p) in parcels.into_iter().enumerate() {
            txs[i % n].send(p).ok();
        }
        let mut hs = vec![];
        for (_, rx) in chans {
            let (txs, done, over) = (txs.clone(), done_tx.clone(), over.clone());
            let mut r = Rng::new(c.rng.next());
            hs.push(std::thread::spawn(move || -> Result<u64, Fail> {
                let mut n = 0;
                let mut res = Ok(());
                loop {
                    let mut p = match rx.recv_timeout(std::time::Duration::from_millis(if cfg!(miri) { 400 } else { 1 })) {
                        Ok(p) => p,
                        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
                        Err(_) => {
                            if over.load(Ordering::SeqCst) {
                                break;
                            }
                            continue;
                        }
                    };
                    // between hops the tree of the previous thread must still be there
                    if p.at > 0 {
                        if let (Some(g), Some(m)) = (p.s.last_root(), &p.j.want[p.at - 1].0) {
                            if model_of(g) != *m {
                                res = fail("a session's tree changed when it moved to another thread", clip(&p.j.text, 400));
                            }
                        }
                    }
                    let got = if p.at == 0 { parse(&p.j.text[..], &[], &mut p.s) } else { let (e, t) = &p.j.steps[p.at - 1]; parse(&t[..], e, &mut p.s) };
                    if got != p.j.want[p.at] && res.is_ok() {
                        res = fail("parse in a session moved between threads differs from the parse alone", clip(&p.j.text, 400));
                    }
                    n += 1;
                    p.at += 1;
                    jitter(&mut r);
                    if p.at > p.j.steps.len() {
                        drop(p);
                        done.send(()).ok();
                    }
                    else {
                        let k = r.below(txs.len());
                        txs[k].send(p).ok();
                    }
                }
                res.map(|_| n)
            }));
        }
        drop(txs);
        drop(done_tx);
        for _ in 0..k {
            if done_rx.recv_timeout(std::time::Duration::from_secs(60)).is_err() {
                break;
            }
        }
        over.store(true, Ordering::SeqCst);
        for h in hs {
            let n = joined(h)?;
            c.seen("parses in travelling sessions", n);
        }
        Ok(())
    });

    // Snapshots read in other threads while the buffer they came from is edited.
    r.family("snapshots-across-threads", 260, 4000, |c| {
        let t0 = program(&mut c.rng, if small { 10 } else { 60 });
        c.input(format!("snapshots of {:?}", clip(&t0, 400)));
        let mut rope = RopeBuffer::new(&t0);
        let mut chunked = ChunkedBuffer::new();
        let mut ctext = String::new();
        let mut t = t0.clone();
        let (tx, rx) = channel::<(bool, Box<dyn FnOnce(&mut Rng) -> Check + Send>)>();
        let rx = Arc::new(std::sync::Mutex::new(rx));
        let mut hs = vec![];
        for _ in 0..if small { 1 } else { 3 } {
            let rx = rx.clone();
            let mut r = Rng::new(c.rng.next());
            hs.push(std::thread::spawn(move || -> Result<u64, Fail> {
                let mut n = 0;
                loop {
                    let x = rx.lock().unwrap().recv();
                    match x {
                        Ok((_, f)) => {
                            f(&mut r)?;
                            n += 1;
                        }
                        Err(_) => return Ok(n),
                    }
                }
            }));
        }
        let steps = if small { 4 } else { c.rng.range(5, 25) };
        for _ in 0..steps {
            let snap = rope.snapshot();
            let want = t.clone();
            let reads = c.rng.range(1, 3);
            tx.send((true, Box::new(move |r: &mut Rng| {
                for _ in 0..reads {
                    jitter(r);
                    ensure_eq!(snap.length(), want.len(), "snapshot length changed under a concurrent edit", "");
                    ensure!(snap.get_text_in(rg(0, want.len())) == want, "snapshot text changed under a concurrent edit", "got {:?}", clip(&snap.get_text_in(rg(0, want.len())), 300));
                    let b = boundaries(&want);
                    let i = *r.pick(&b);
                    ensure_eq!(snap.get_char_at(i), want[i..].chars().next(), "snapshot character", "at {i}");
                }
                Ok(())
            })))
            .ok();
            let (e, n) = random_edits(&mut c.rng, &t, PROGRAM, 3);
            rope.apply_edits(&e);
            t = n;
            ensure!(rope.get_text_in(rg(0, t.len())) == t, "edited rope", "");
            let piece = program(&mut c.rng, 3);
            let csnap = chunked.snapshot();
            let cwant = ctext.clone();
            tx.send((false, Box::new(move |r: &mut Rng| {
                jitter(r);
                ensure_eq!(csnap.length(), cwant.len(), "chunk stream snapshot changed under a concurrent append", "");
                ensure!(csnap.get_text_in(rg(0, cwant.len())) == cwant, "chunk stream snapshot changed under a concurrent append", "");
                Ok(())
            })))
            .ok();
            chunked.push_str(&piece);
            ctext.push_str(&piece);
            jitter(&mut c.rng);
        }
        drop(tx);
        for h in hs {
            let n = joined(h)?;
            c.seen("snapshots checked from other threads", n);
        }
        c.distinct(&t0);
        Ok(())
    });

    // Many threads reading the same large snapshot at once, at their own places.
    r.family("one-snapshot-many-readers", 12, 150, |c| {
        let parts = if small { 300 } else { c.rng.range(3000, 12_000) };
        let t = program(&mut c.rng, parts);
        c.input(format!("readers of one snapshot of {} bytes {:?}", t.len(), clip(&t, 200)));
        let mut rope = RopeBuffer::new(&t);
        let mut chunked = ChunkedBuffer::new();
        let mut at = 0;
        while at < t.len() {
            let to = floor_char(&t, at + c.rng.range(4, 5000)).max(at + 1);
            let to = (to..).find(|i| t.is_char_boundary(*i)).unwrap();
            chunked.push_str(&t[at..to]);
            at = to;
        }
        // some cuts off the usual places
        let mut t = t;
        for _ in 0..4 {
            let (e, n) = random_edits(&mut c.rng, &t, PROGRAM, 3);
            rope.apply_edits(&e);
            t = n;
        }
        let (snap, csnap, st) = (Arc::new(rope.snapshot()), Arc::new(chunked.snapshot()), Arc::new(SourceText::new(t.clone())));
        let (ct, t) = (Arc::new(csnap.get_text_in(rg(0, csnap.length())).into_owned()), Arc::new(t));
        let n = if small { 2 } else { 4 };
        let reads: u64 = if small { 60 } else if cfg!(debug_assertions) { 150_000 } else { 400_000 };
        let go = Arc::new(Barrier::new(n));
        let mut hs = vec![];
        for _ in 0..n {
            let (snap, csnap, st, t, ct, go) = (snap.clone(), csnap.clone(), st.clone(), t.clone(), ct.clone(), go.clone());
            let mut r = Rng::new(c.rng.next());
            hs.push(std::thread::spawn(move || -> Result<u64, Fail> {
                fn look<S: Source + ?Sized>(s: &S, t: &str, o: usize, r: &mut Rng) -> Check {
                    let k = s.chunk_at(o);
                    let end = k.start + k.text.len();
                    ensure!(k.start <= o && o < end && end <= t.len(), "chunk read concurrently does not hold the offset", "{o}: {}..{end} of {}", k.start, t.len());
                    // the ends of the chunk are enough to tell it from another chunk, the whole of it now and then
                    let w = if r.chance(1, 500) { k.text.len() } else { k.text.len().min(12) };
                    ensure!(k.text.as_bytes()[..w] == t.as_bytes()[k.start..k.start + w], "chunk read concurrently has other text", "{o}");
                    ensure!(k.text.as_bytes()[k.text.len() - w..] == t.as_bytes()[end - w..end], "chunk read concurrently has other text", "{o}");
                    if t.is_char_boundary(o) {
                        ensure_eq!(s.get_char_at(o), t[o..].chars().next(), "character read concurrently", "{o}");
                    }
                    Ok(())
                }
                go.wait();
                for _ in 0..reads {
                    let o = r.below(t.len());
                    match r.below(16) {
                        0 => look(&*csnap, &ct, r.below(ct.len()), &mut r)?,
                        1 => look(&*st, &t, floor_char(&t, o), &mut r)?,
                        2 => {
                            let lo = floor_char(&t, o);
                            let hi = floor_char(&t, (o + r.below(9000)).min(t.len())).max(lo);
                            ensure!(snap.get_text_in(rg(lo, hi)) == t[lo..hi], "text read concurrently", "{lo}..{hi}");
                        }
                        _ => look(&*snap, &t, o, &mut r)?,
                    }
                }
                Ok(reads)
            }));
        }
        for h in hs {
            let n = joined(h)?;
            c.seen("concurrent reads of one snapshot", n);
        }
        c.distinct(&hash_of(&*t));
        Ok(())
    });
}
