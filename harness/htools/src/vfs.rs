//! C16: the in-memory file system is a linearizable map from names to contents with stable identities.
//! C17: line maps convert positions exactly.
use crate::src::{Views, boundaries, random_cuts, rg};
use oak_core::{
    Source, SourceText, TextEdit,
    source::RopeBuffer,
};
use oak_vfs::{FileType, LineMap, MemoryVfs, Vfs, WritableVfs};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{
        Barrier,
        atomic::{AtomicU64, Ordering},
    },
};
use vcommon::*;

const URIS: &[&str] = &["file:///a.txt", "file:///b.txt", "mem:é", "", "file:///a.txt ", "a/b/c", "File:///a.txt"];

#[derive(Clone)]
struct Entry {
    text: String,
    id: u32,
}

pub fn memory(run: &mut Run) {
    run.family("history", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        let base = MemoryVfs::new();
        let clones = [base.clone(), base.clone(), base];
        let mut m: BTreeMap<String, Entry> = BTreeMap::new();
        let mut ids: HashMap<u32, String> = HashMap::new();
        let mut log = String::new();
        let mut kept: Vec<(SourceText, String)> = vec![];
        let most = if g.chance(1, 10) { 200 } else { 30 };
        let n = g.range(1, most);
        for step in 0..n {
            let v = &clones[g.below(3)];
            let u = *g.pick(URIS);
            match g.below(9) {
                0..=2 => {
                    let t = match m.get(u) {
                        // as it is, or changed somewhere within
                        Some(e) if g.chance(1, 3) => {
                            let mut t: Vec<char> = e.text.chars().collect();
                            if !t.is_empty() {
                                let i = g.below(t.len());
                                t[i] = *g.pick(&['a', 'z', '\n', '\0', 'é', '漢']);
                            }
                            t.into_iter().collect()
                        }
                        _ if g.chance(1, 20) => "é\n".repeat(g.below(3000)),
                        _ if g.chance(1, 10) => g.string(&["a", "\n", "é", "𝄞", "zz"], 200),
                        _ => g.string(&["a", "\n", "é", "𝄞", "zz", "\r", "\0"], 8),
                    };
                    log.push_str(&format!("write({u:?},{}) ", clip(&t, 20)));
                    if g.chance(1, 2) { v.write_file(u, t.as_str()) } else { WritableVfs::write_file(v, u, t.as_str().into()) }
                    match m.get_mut(u) {
                        Some(e) => {
                            e.text = t;
                            ensure_eq!(v.get_id(u), Some(e.id), "identity changed by an overwrite", "{u:?} after {log}");
                        }
                        None => {
                            let Some(id) = v.get_id(u)
                            else {
                                return fail("written file has no identity", log);
                            };
                            if let Some(old) = ids.get(&id) {
                                ensure!(old == u && !m.values().any(|e| e.id == id), "identity given twice", "{u:?} got {id}, which belonged to {old:?}, after {log}");
                            }
                            ids.insert(id, u.to_string());
                            m.insert(u.to_string(), Entry { text: t, id });
                        }
                    }
                }
                3 => {
                    log.push_str(&format!("remove({u:?}) "));
                    if g.chance(1, 2) { v.remove_file(u) } else { WritableVfs::remove_file(v, u) }
                    m.remove(u);
                }
                4 => {
                    if let Some(s) = v.get_source(u) {
                        let t = s.get_text_in(rg(0, s.length())).to_string();
                        kept.push((s, t));
                    }
                }
                _ => {}
            }
            // the whole observable state, through any handle
            c.input(log.clone());
            let v = &clones[g.below(3)];
            let all = step + 1 == n || g.chance(1, 6);
            for u in URIS.iter().filter(|x| all || **x == u) {
                let e = m.get(*u);
                let s = v.get_source(u);
                ensure_eq!(s.as_ref().map(|s| s.get_text_in(rg(0, s.length())).to_string()), e.map(|e| e.text.clone()), "content", "{u:?} after {log}");
                ensure_eq!(s.as_ref().and_then(|s| s.source_id()), e.map(|e| e.id), "identity in the source", "{u:?} after {log}");
                ensure_eq!(v.get_id(u), e.map(|e| e.id), "get_id", "{u:?} after {log}");
                ensure_eq!(v.exists(u), e.is_some(), "exists", "{u:?} after {log}");
                ensure_eq!((v.is_file(u), v.is_dir(u)), (e.is_some(), false), "is_file/is_dir", "{u:?} after {log}");
                let md = v.metadata(u);
                ensure_eq!(md.as_ref().map(|x| x.len), e.map(|e| e.text.len() as u64), "metadata length", "{u:?} after {log}");
                ensure!(md.as_ref().is_none_or(|x| x.file_type == FileType::File && x.modified.is_some()), "metadata", "{u:?}: {md:?}");
                ensure_eq!(v.line_map(u).map(|l| l.line_count()), e.map(|e| e.text.matches('\n').count() + 1), "line map", "{u:?} after {log}");
            }
            for (id, u) in &ids {
                let want = m.get(u).filter(|e| e.id == *id).map(|_| u.clone());
                ensure_eq!(v.get_uri(*id).map(|x| x.to_string()), want, "get_uri", "id {id} of {u:?} after {log}");
            }
            ensure_eq!(v.get_uri(4_000_000_000), None, "get_uri of an unknown id", "{log}");
            let dir: BTreeSet<String> = v.read_dir("file:///").unwrap_or_default().iter().map(|x| x.to_string()).collect();
            ensure_eq!(dir, m.keys().cloned().collect::<BTreeSet<_>>(), "listing", "after {log}");
            c.seen("states compared", 1);
        }
        for (s, t) in &kept {
            ensure_eq!(s.get_text_in(rg(0, s.length())), *t, "a source changed after it was handed out", "{log}");
        }
        c.seen("operations", n as u64);
        c.distinct(&log);
        Ok(())
    });
    run.family("concurrent", 6000, 20000, |c| concurrent(c));
}

// ---------------------------------------------------------------- linearizability

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Write(u64),
    Remove,
    Source(Option<(u64, u32)>),
    Id(Option<u32>),
    Exists(bool),
    Len(Option<u64>),
    Uri(u32, bool),
}
#[derive(Clone, Debug)]
struct Ev {
    call: u64,
    ret: u64,
    uri: usize,
    op: Op,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    tag: Option<u64>,
    id: Option<u32>,
    dead: Vec<u32>,
}
impl St {
    fn learn(&self, x: u32) -> Option<St> {
        match self.id {
            Some(i) if i == x => Some(self.clone()),
            Some(_) => None,
            None if self.dead.contains(&x) => None,
            None => Some(St { id: Some(x), ..self.clone() }),
        }
    }
    fn step(&self, op: &Op) -> Option<St> {
        match op {
            Op::Write(t) => Some(St { tag: Some(*t), ..self.clone() }),
            Op::Remove => {
                let mut s = self.clone();
                s.tag = None;
                if let Some(i) = s.id.take() {
                    s.dead.push(i);
                    s.dead.sort();
                }
                Some(s)
            }
            Op::Source(None) | Op::Id(None) | Op::Exists(false) | Op::Len(None) => self.tag.is_none().then(|| self.clone()),
            Op::Exists(true) => self.tag.is_some().then(|| self.clone()),
            Op::Len(Some(n)) => (self.tag == Some(*n)).then(|| self.clone()),
            Op::Source(Some((t, i))) => if self.tag == Some(*t) { self.learn(*i) } else { None },
            Op::Id(Some(i)) => if self.tag.is_some() { self.learn(*i) } else { None },
            Op::Uri(i, true) => if self.tag.is_some() { self.learn(*i) } else { None },
            Op::Uri(i, false) => {
                if self.tag.is_some() && self.id == Some(*i) {
                    return None;
                }
                let mut s = self.clone();
                if !s.dead.contains(i) {
                    s.dead.push(*i);
                    s.dead.sort();
                }
                Some(s)
            }
        }
    }
}

/// Wing & Gong search with memoisation; None when the budget runs out.
fn linearizable(h: &[Ev]) -> Option<bool> {
    fn go(h: &[Ev], mask: u64, st: &St, memo: &mut HashSet<(u64, St)>, budget: &mut u64) -> Option<bool> {
        if mask == (1u64 << h.len()) - 1 {
            return Some(true);
        }
        if !memo.insert((mask, st.clone())) {
            return Some(false);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let first_ret = h.iter().enumerate().filter(|(i, _)| mask & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if mask & (1 << i) == 0 && e.call <= first_ret {
                if let Some(n) = st.step(&e.op) {
                    if go(h, mask | (1 << i), &n, memo, budget)? {
                        return Some(true);
                    }
                }
            }
        }
        Some(false)
    }
    go(h, 0, &St { tag: None, id: None, dead: vec![] }, &mut HashSet::new(), &mut 200_000)
}

fn concurrent(c: &mut Case) -> Check {
    let g = &mut c.rng.clone();
    let threads = g.range(2, 4);
    let per = g.range(4, 60 / threads / 1);
    let nuris = g.range(1, 3);
    let vfs = MemoryVfs::new();
    let clock = AtomicU64::new(0);
    let tags = AtomicU64::new(0);
    let bar = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| g.next()).collect();
    let mix = g.below(3);
    c.input(format!("{threads} threads, {per} operations each, {nuris} files, mix {mix}, thread seeds {seeds:?}"));
    type Out = (Vec<Ev>, Vec<(u64, u64, BTreeSet<usize>)>, BTreeMap<u32, usize>);
    let outs: Vec<Result<Out, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&sd| {
                let vfs = vfs.clone();
                let (clock, tags, bar) = (&clock, &tags, &bar);
                sc.spawn(move || {
                    catch(|| {
                        let mut g = Rng::new(sd);
                        let mut evs = vec![];
                        let mut dirs = vec![];
                        let mut owned: BTreeMap<u32, usize> = BTreeMap::new();
                        bar.wait();
                        for _ in 0..per {
                            for _ in 0..g.below(4) * 20 {
                                std::hint::spin_loop();
                            }
                            if g.chance(1, 6) {
                                std::thread::yield_now();
                            }
                            let ui = g.below(nuris);
                            let u = URIS[ui];
                            let k = match mix {
                                0 => g.below(10),
                                1 => *g.pick(&[0, 0, 2, 2, 3, 4, 5]),
                                _ => *g.pick(&[0, 2, 6, 7, 8, 3, 3]),
                            };
                            let call = clock.fetch_add(1, Ordering::SeqCst);
                            let op = match k {
                                0 | 1 => {
                                    let t = tags.fetch_add(1, Ordering::SeqCst) + 1;
                                    vfs.write_file(u, "x".repeat(t as usize));
                                    Op::Write(t)
                                }
                                2 => {
                                    vfs.remove_file(u);
                                    Op::Remove
                                }
                                3 | 4 => Op::Source(vfs.get_source(u).map(|s| (s.length() as u64, s.source_id().unwrap_or(u32::MAX)))),
                                5 => Op::Id(vfs.get_id(u)),
                                6 => Op::Exists(vfs.exists(u)),
                                7 => Op::Len(vfs.metadata(u).map(|m| m.len)),
                                8 if !owned.is_empty() => {
                                    let ks: Vec<u32> = owned.keys().copied().collect();
                                    let id = *g.pick(&ks);
                                    let got = vfs.get_uri(id);
                                    if let Some(x) = &got {
                                        if **x != *URIS[owned[&id]] {
                                            panic!("identity {id} of {:?} now resolves to {x:?}", URIS[owned[&id]]);
                                        }
                                    }
                                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                                    evs.push(Ev { call, ret, uri: owned[&id], op: Op::Uri(id, got.is_some()) });
                                    continue;
                                }
                                _ => {
                                    let d: BTreeSet<usize> = vfs.read_dir("").unwrap_or_default().iter().filter_map(|x| URIS.iter().position(|u| **u == **x)).collect();
                                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                                    dirs.push((call, ret, d));
                                    continue;
                                }
                            };
                            let ret = clock.fetch_add(1, Ordering::SeqCst);
                            match op {
                                Op::Source(Some((_, i))) | Op::Id(Some(i)) => {
                                    owned.insert(i, ui);
                                }
                                _ => {}
                            }
                            evs.push(Ev { call, ret, uri: ui, op });
                        }
                        (evs, dirs, owned)
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let mut evs = vec![];
    let mut dirs = vec![];
    let mut owner: BTreeMap<u32, usize> = BTreeMap::new();
    for o in outs {
        match o {
            Err(p) => return fail("concurrent panic", p),
            Ok((e, d, w)) => {
                evs.extend(e);
                dirs.extend(d);
                for (i, u) in w {
                    if let Some(x) = owner.insert(i, u) {
                        ensure_eq!(x, u, "one identity names two files", "id {i}");
                    }
                }
            }
        }
    }
    let mut overlap = 0u64;
    for (i, a) in evs.iter().enumerate() {
        overlap += evs[..i].iter().filter(|b| b.uri == a.uri && a.call < b.ret && b.call < a.ret).count() as u64;
    }
    for u in 0..nuris {
        let mut h: Vec<Ev> = evs.iter().filter(|e| e.uri == u).cloned().collect();
        h.sort_by_key(|e| e.call);
        if h.len() > 60 {
            h.truncate(60);
        }
        match linearizable(&h) {
            Some(true) => c.seen("histories linearized", 1),
            Some(false) => return fail("history is not linearizable", format!("file {u}: {:?}", h.iter().map(|e| (e.call, e.ret, &e.op)).collect::<Vec<_>>())),
            None => c.seen("histories beyond the search budget", 1),
        }
    }
    // listings: a file present (absent) throughout the call must (must not) be listed
    for (a, b, d) in &dirs {
        for u in 0..nuris {
            let h: Vec<&Ev> = evs.iter().filter(|e| e.uri == u && matches!(e.op, Op::Write(_) | Op::Remove)).collect();
            let before = h.iter().filter(|e| e.ret < *a).max_by_key(|e| e.call);
            // decided only when the last mutation before the call is not concurrent with another one and none overlaps the call
            if h.iter().any(|e| e.call < *b && e.ret > *a) {
                continue;
            }
            let want = match before {
                None => false,
                Some(e) => {
                    if h.iter().any(|x| x.call != e.call && x.ret > e.call && x.call < e.ret) {
                        continue;
                    }
                    matches!(e.op, Op::Write(_))
                }
            };
            ensure_eq!(d.contains(&u), want, "listing during concurrent changes", "file {u} in the listing of {a}..{b}");
            c.seen("listings decided", 1);
        }
    }
    c.seen("operations", evs.len() as u64);
    c.seen("overlapping operation pairs", overlap);
    let mut order: Vec<(u64, usize, String)> = evs.iter().map(|e| (e.call, e.uri, format!("{:?}", e.op))).collect();
    order.sort();
    c.distinct(&order);
    Ok(())
}

// ---------------------------------------------------------------- C17

const LTEXT: &[&str] = &["a", "bc", "\n", "\n\n", "\r\n", "é", "中", "𝄞", " ", "\u{2028}", "\r", "x𝄞y\n", "\u{301}", "👩‍👩"];

fn check_map(name: &str, lm: &LineMap, s: &dyn Source, t: &str, offs: &[usize]) -> Result<u64, Fail> {
    let starts: Vec<usize> = std::iter::once(0).chain(t.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect();
    ensure_eq!(lm.line_count(), starts.len(), "line count", "{name}");
    for (i, st) in starts.iter().enumerate() {
        ensure_eq!(lm.line_start(i as u32), Some(*st), "line start", "{name}: line {i}");
        ensure_eq!(lm.line_end(i as u32), Some(starts.get(i + 1).copied().unwrap_or(t.len())), "line end", "{name}: line {i}");
    }
    for d in [0u32, 1, 1000] {
        let l = starts.len() as u32 + d;
        ensure_eq!((lm.line_start(l), lm.line_end(l)), (None, None), "line past the last", "{name}: line {l}");
        ensure_eq!(lm.line_col_utf16_to_offset(s, l, 3), t.len(), "position past the last line", "{name}: line {l}");
    }
    let mut n = 0;
    for &o in offs {
        let line = t[..o].bytes().filter(|b| *b == b'\n').count();
        let col = t[starts[line]..o].chars().map(|c| c.len_utf16()).sum::<usize>();
        let want = (line as u32, col as u32);
        ensure_eq!(lm.offset_to_line_col_utf16(s, o), want, "offset to position", "{name}: offset {o}");
        ensure_eq!(lm.line_col_utf16_to_offset(s, want.0, want.1), o, "position to offset", "{name}: {want:?}");
        n += 1;
    }
    let end = lm.offset_to_line_col_utf16(s, t.len());
    for d in [1usize, 9, 1 << 30] {
        ensure_eq!(lm.offset_to_line_col_utf16(s, t.len() + d), end, "offset past the end", "{name}: len+{d}");
    }
    Ok(n)
}

pub fn lines(run: &mut Run) {
    run.family("texts", 20000, 60000, |c| {
        let g = &mut c.rng.clone();
        let n = if g.chance(1, 40) { 1500 } else { 24 };
        let t = g.string(LTEXT, n);
        let cuts = random_cuts(g, &t, 8);
        c.input(format!("cuts {cuts:?} text {t:?}"));
        let v = Views::new(&t, &cuts, 7);
        let b = boundaries(&t);
        let offs: Vec<usize> = if b.len() <= 60 { b.clone() } else { (0..60).map(|_| *g.pick(&b)).collect() };
        let mut k = 0;
        v.each(|name, s| {
            k += check_map(name, &LineMap::from_source(s), s, &t, &offs)?;
            Ok(())
        })?;
        // a map made from one representation serves the others
        let lm = LineMap::from_source(&v.rope_frag);
        k += check_map("map of the rope on the string", &lm, &v.st, &t, &offs)?;
        let lm2 = LineMap::from_source(&&v.text[..]).clone();
        k += check_map("map of the string on the rope", &lm2, &v.rope_snap, &t, &offs)?;
        c.seen("positions converted", k);
        c.distinct(&t);
        Ok(())
    });
    run.family("large", 160, 400, |c| {
        let g = &mut c.rng.clone();
        let t = g.string(LTEXT, 20_000);
        c.input(format!("text of {} bytes: {:?}", t.len(), clip(&t, 200)));
        let v = Views::new(&t, &random_cuts(g, &t, 40), 7);
        let b = boundaries(&t);
        let offs: Vec<usize> = (0..30).map(|_| *g.pick(&b)).collect();
        v.each(|name, s| check_map(name, &LineMap::from_source(s), s, &t, &offs).map(|_| ()))?;
        c.seen("large texts", 1);
        c.distinct(&t);
        Ok(())
    });
    run.family("edits", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        let mut t = g.string(LTEXT, 20);
        let mut rope = RopeBuffer::new(t.as_str());
        let mut buf = SourceText::new(t.as_str());
        let mut log = format!("{t:?}");
        for _ in 0..g.range(1, 5) {
            let b = boundaries(&t);
            let i = g.below(b.len());
            let j = (i + g.below(6)).min(b.len() - 1);
            let ins = g.string(LTEXT, 4);
            let e = || TextEdit { span: rg(b[i], b[j]), text: ins.clone().into() };
            log.push_str(&format!(" {}..{}→{ins:?}", b[i], b[j]));
            rope.apply_edits(&[e()]);
            buf.apply_edits(&[e()]);
            t.replace_range(b[i]..b[j], &ins);
            c.input(log.clone());
            let offs = boundaries(&t);
            let mut k = check_map("edited rope", &LineMap::from_source(&rope), &rope, &t, &offs)?;
            k += check_map("edited buffer", &LineMap::from_source(&buf), &buf, &t, &offs)?;
            c.seen("positions converted after edits", k);
        }
        c.distinct(&log);
        Ok(())
    });
}
