//! C18: the workspace symbol table is the union of the files' current symbols.
//! C19: workspace folders own the files below them. C20: module resolution order.
//! C27: document symbols, references and structure items reflect the tree.
use crate::{
    src::rg,
    toy::{E, T, Toy, ToyParser},
    tree::{M, build, model_of},
};
use oak_core::{ParseSession, Parser, RedNode, SourceText, language::UniversalElementRole, memory::arena::SyntaxArena};
use oak_lsp::{
    WorkspaceManager,
    types::{InitializeParams, StructureItem, WorkspaceFolder, WorkspaceSymbol},
};
use oak_navigation::SimpleReferenceFinder;
use oak_resolver::{GlobalSymbolTable, ModuleResolver, StandardResolver};
use oak_symbols::{SymbolInformation, SymbolProvider, UniversalSymbolProvider};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    sync::{
        Barrier,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
};
use vcommon::*;

type Key = (String, Option<String>, String, usize, usize, String);
fn key(s: &SymbolInformation) -> Key {
    (s.name.clone(), s.container_name.clone(), s.uri.to_string(), s.range.start, s.range.end, format!("{:?}", s.role))
}
fn fqn(s: &SymbolInformation) -> String {
    s.container_name.as_ref().map(|c| format!("{c}::{}", s.name)).unwrap_or_else(|| s.name.clone())
}
fn keys(v: &[SymbolInformation]) -> Vec<Key> {
    let mut v: Vec<Key> = v.iter().map(key).collect();
    v.sort();
    v
}

const NAMES: &[&str] = &["a", "b", "main", "A", "é", "b::c", "", "mainly"];
const CONT: &[&str] = &["a", "M", "a::b", "é", "m"];

fn symbols(g: &mut Rng, uri: &str, names: &[&str]) -> Vec<SymbolInformation> {
    (0..g.below(5))
        .map(|_| SymbolInformation {
            name: g.pick(names).to_string(),
            role: *g.pick(&[UniversalElementRole::Definition, UniversalElementRole::Statement]),
            uri: uri.into(),
            range: rg(g.below(100), 100 + g.below(100)),
            container_name: if g.chance(1, 2) { Some(g.pick(CONT).to_string()) } else { None },
        })
        .collect()
}

fn table_is(t: &GlobalSymbolTable, m: &BTreeMap<String, Vec<SymbolInformation>>, log: &str) -> Check {
    let all: Vec<SymbolInformation> = m.values().flatten().cloned().collect();
    for (u, v) in m {
        ensure_eq!(t.query_file(u).iter().map(key).collect::<Vec<_>>(), v.iter().map(key).collect::<Vec<_>>(), "symbols of a file", "{u} after {log}");
    }
    ensure_eq!(t.query_file("nowhere").len(), 0, "symbols of an unknown file", "{log}");
    for q in ["", "a", "::", "main", "é", "b::c", "zzz", "M::"] {
        let want: Vec<SymbolInformation> = all.iter().filter(|s| fqn(s).contains(q)).cloned().collect();
        ensure_eq!(keys(&t.query(q)), keys(&want), "query", "{q:?} after {log}");
    }
    let mut names: BTreeSet<String> = all.iter().map(fqn).collect();
    for n in NAMES {
        names.insert(n.to_string());
        for c in CONT {
            names.insert(format!("{c}::{n}"));
        }
    }
    for n in names {
        let got = t.lookup(&n);
        let want: BTreeSet<Key> = all.iter().filter(|s| fqn(s) == n).map(key).collect();
        match got {
            None => ensure!(want.is_empty(), "lookup lost a defined symbol", "{n:?}, defined by {want:?}, after {log}"),
            Some(s) => ensure!(want.contains(&key(&s)), "lookup found a symbol no file defines", "{n:?}: {:?} after {log}", key(&s)),
        }
    }
    Ok(())
}

pub fn table(run: &mut Run) {
    run.family("history", 5000, 15000, |c| {
        let g = &mut c.rng.clone();
        let t = if g.chance(1, 2) { GlobalSymbolTable::new() } else { GlobalSymbolTable::default() };
        let mut m: BTreeMap<String, Vec<SymbolInformation>> = BTreeMap::new();
        let mut log = String::new();
        for _ in 0..g.range(1, 10) {
            let u = *g.pick(&["u1", "u2", "u3", "u4"]);
            let s = symbols(g, u, NAMES);
            log.push_str(&format!("{u}:{:?} ", s.iter().map(|s| format!("{}@{}", fqn(s), s.range.start)).collect::<Vec<_>>()));
            c.input(log.clone());
            t.update_file_symbols(u.to_string(), s.clone());
            m.insert(u.to_string(), s);
            table_is(&t, &m, &log)?;
            c.seen("updates", 1);
            let shared = m.values().flatten().map(fqn).collect::<Vec<_>>();
            c.seen("names defined more than once", (shared.len() - shared.iter().collect::<BTreeSet<_>>().len()) as u64);
        }
        c.distinct(&log);
        Ok(())
    });
    run.family("concurrent", 2000, 6000, |c| {
        let g = &mut c.rng.clone();
        let n = g.range(2, 4);
        let same = g.chance(1, 2);
        let rounds = g.range(2, 8);
        let t = GlobalSymbolTable::new();
        let fixed = symbols(g, "fixed", NAMES);
        t.update_file_symbols("fixed".into(), fixed.clone());
        let plans: Vec<Vec<(String, Vec<SymbolInformation>)>> = (0..n)
            .map(|k| {
                (0..rounds)
                    .map(|_| {
                        let u = if same { format!("s{}", g.below(2)) } else { format!("t{k}") };
                        let s = symbols(g, &u, &NAMES[..4]);
                        (u, s)
                    })
                    .collect()
            })
            .collect();
        c.input(format!("{n} threads, {rounds} updates each, shared files: {same}"));
        let bar = Barrier::new(n + 1);
        let stop = AtomicBool::new(false);
        let res: Vec<Result<Check, String>> = std::thread::scope(|sc| {
            let mut hs = vec![];
            let reader = sc.spawn(|| {
                catch(|| {
                    bar.wait();
                    let mut k = 0;
                    while !stop.load(Ordering::Relaxed) || k < 3 {
                        for s in &fixed {
                            let n = fqn(s);
                            ensure!(t.lookup(&n).is_some(), "another file's update hid a symbol", "{n:?}");
                            ensure!(t.query("").iter().any(|x| key(x) == key(s)), "another file's update hid a symbol from queries", "{n:?}");
                        }
                        ensure_eq!(t.query_file("fixed").len(), fixed.len(), "another file's update changed a file's symbols", "");
                        k += 1;
                    }
                    Ok(())
                })
            });
            for p in &plans {
                let (t, bar) = (&t, &bar);
                let sd = g.next();
                hs.push(sc.spawn(move || {
                    catch(|| {
                        let mut g = Rng::new(sd);
                        bar.wait();
                        for (u, s) in p {
                            for _ in 0..g.below(60) {
                                std::hint::spin_loop();
                            }
                            t.update_file_symbols(u.clone(), s.clone());
                            if g.chance(1, 5) {
                                std::thread::yield_now();
                            }
                        }
                        Ok(())
                    })
                }));
            }
            let mut r: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            stop.store(true, Ordering::Relaxed);
            r.push(reader.join().unwrap());
            r
        });
        for r in res {
            match r {
                Ok(x) => x?,
                Err(p) => return fail("concurrent panic", p),
            }
        }
        // at rest: each file has one thread's last update of it, and the table is the union of what the files have
        let mut m: BTreeMap<String, Vec<SymbolInformation>> = BTreeMap::new();
        m.insert("fixed".into(), fixed.clone());
        for u in plans.iter().flatten().map(|p| p.0.clone()).collect::<BTreeSet<_>>() {
            let now = t.query_file(&u);
            let cands: Vec<&Vec<SymbolInformation>> = plans.iter().filter_map(|p| p.iter().rev().find(|x| x.0 == u).map(|x| &x.1)).collect();
            ensure!(cands.iter().any(|x| keys(x) == keys(&now)), "a file's symbols are nobody's last update", "{u}");
            m.insert(u, now);
        }
        table_is(&t, &m, "concurrent updates")?;
        c.seen("concurrent updates", (n * rounds) as u64);
        c.distinct(&(plans.iter().flatten().map(|p| (p.0.clone(), keys(&p.1))).collect::<Vec<_>>()));
        Ok(())
    });
}

// ---------------------------------------------------------------- C19

const SEGS: &[&str] = &["a", "ab", "b", "src", "é", "a b", "x.y", "%41", "A", "a%b"];

fn rand_path(g: &mut Rng, max: usize) -> PathBuf {
    let mut p = PathBuf::from("/");
    for _ in 0..g.below(max + 1) {
        p.push(g.pick(SEGS));
    }
    p
}
/// An independent percent-encoder for file URIs.
pub fn uri_of(p: &Path) -> String {
    let mut s = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) { s.push(b as char) } else { s.push_str(&format!("%{b:02X}")) }
    }
    s
}
/// Other spellings of the same file URI: more characters percent-encoded than necessary, or a slash at the end.
fn spelled(g: &mut Rng, p: &Path) -> String {
    if g.chance(2, 3) {
        return uri_of(p);
    }
    let mut s = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        let plain = b.is_ascii_alphanumeric() || b"/-_.~".contains(&b);
        if plain && (b == b'/' || b == b'.' || g.chance(1, 2)) { s.push(b as char) } else { s.push_str(&format!("%{b:02X}")) }
    }
    if g.chance(1, 4) && p != Path::new("/") {
        s.push('/');
    }
    s
}
fn comps(p: &Path) -> Vec<String> {
    p.to_str().unwrap().split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

pub fn workspace(run: &mut Run) {
    run.family("history", 12000, 40000, |c| {
        let g = &mut c.rng.clone();
        let w = WorkspaceManager::new();
        let mut m: BTreeMap<String, PathBuf> = BTreeMap::new();
        let mut log = String::new();
        for _ in 0..g.range(1, 8) {
            let p = rand_path(g, 4);
            let u = match g.below(12) {
                0 => "untitled:x".to_string(),
                1 => "not a uri".to_string(),
                2 => "http://h/a".to_string(),
                _ => spelled(g, &p),
            };
            let ok = u.starts_with("file:");
            match g.below(6) {
                0 => {
                    let fs: Vec<(String, PathBuf)> = (0..g.below(3))
                        .map(|_| {
                            let p = rand_path(g, 3);
                            (spelled(g, &p), p)
                        })
                        .collect();
                    log.push_str(&format!("init({u},{fs:?}) "));
                    let params = InitializeParams {
                        root_uri: if g.chance(1, 2) { Some(u.clone()) } else { None },
                        workspace_folders: fs.iter().map(|f| WorkspaceFolder { uri: f.0.clone(), name: "n".into() }).collect(),
                    };
                    w.initialize(&params);
                    if params.root_uri.is_some() && ok {
                        m.insert(u.clone(), p.clone());
                    }
                    for f in fs {
                        m.insert(f.0, f.1);
                    }
                }
                1 => {
                    let r = if g.chance(2, 3) && !m.is_empty() { let ks: Vec<&String> = m.keys().collect(); (*g.pick(&ks)).clone() } else { u.clone() };
                    log.push_str(&format!("remove({r}) "));
                    w.remove_folder(&r);
                    m.remove(&r);
                }
                _ => {
                    log.push_str(&format!("add({u}) "));
                    w.add_folder(u.clone(), "n".into());
                    if ok {
                        m.insert(u.clone(), p.clone());
                    }
                }
            }
            c.input(log.clone());
            let got: BTreeMap<String, PathBuf> = w.list_folders().into_iter().collect();
            ensure_eq!(got, m, "folders", "after {log}");
            let mut files: Vec<PathBuf> = (0..6).map(|_| rand_path(g, 6)).collect();
            for f in m.values() {
                let mut x = f.clone();
                x.push(g.pick(SEGS));
                files.push(x);
                files.push(f.clone());
                // a sibling whose name merely begins like the folder's
                if f != Path::new("/") {
                    files.push(PathBuf::from(format!("{}x/y", f.display())));
                }
            }
            for f in files {
                let u = uri_of(&f);
                ensure_eq!(w.get_path(&u), Some(f.clone()), "path of a file uri", "{u}");
                let back = w.path_to_uri(f.clone());
                ensure_eq!(back.as_ref().and_then(|b| w.get_path(b)), Some(f.clone()), "uri of a path and back", "{f:?} → {back:?}");
                let cs = comps(&f);
                // the deepest folder; a folder added under several spellings may be named by any of them
                let best = m.values().map(|p| comps(p)).filter(|p| cs.starts_with(p)).map(|p| p.len()).max();
                let u = spelled(g, &f);
                let got = w.find_root(&u);
                let depth = got.as_ref().map(|r| m.get(r).map(|p| (comps(p).len(), cs.starts_with(&comps(p)))));
                ensure_eq!(depth, best.map(|b| Some((b, true))), "root of a file", "{u}: {got:?} after {log}");
                ensure_eq!(w.is_within_workspace(&u), best.is_some(), "within the workspace", "{u} after {log}");
                c.seen(if best.is_some() { "files inside" } else { "files outside" }, 1);
            }
            for u in ["untitled:Untitled-1", "", "http://h/a/b", "not a uri"] {
                ensure_eq!((w.find_root(u), w.get_path(u), w.is_within_workspace(u)), (None, None, false), "not a file uri", "{u:?}");
            }
        }
        c.distinct(&log);
        Ok(())
    });
    run.family("folders-changed-while-asking", 1500, 5000, |c| {
        let g = &mut c.rng.clone();
        let w = WorkspaceManager::new();
        // the folders that stay, and the files below them with the folder that owns each
        let stay: BTreeSet<PathBuf> = (0..g.range(1, 3)).map(|_| rand_path(g, 3)).collect();
        for p in &stay {
            w.add_folder(uri_of(p), "n".into());
        }
        let files: Vec<(String, String)> = stay
            .iter()
            .map(|p| {
                let f = p.join(g.pick(SEGS)).join("f.x");
                let best = stay.iter().filter(|s| comps(&f).starts_with(&comps(s))).max_by_key(|s| comps(s).len()).unwrap();
                (uri_of(&f), uri_of(best))
            })
            .collect();
        let n = g.range(1, 3);
        let rounds = g.range(5, 40);
        c.input(format!("{stay:?} stay, {n} threads add and remove {rounds} others"));
        let bar = Barrier::new(n + 1);
        let left = AtomicUsize::new(n);
        let asked = AtomicU64::new(0);
        let res: Vec<Result<Check, String>> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for k in 0..n {
                let (w, bar, left) = (&w, &bar, &left);
                let sd = g.next();
                hs.push(sc.spawn(move || {
                    let r = catch(|| {
                        let mut g = Rng::new(sd);
                        bar.wait();
                        // beside the folders that stay: they own no file asked about
                        for i in 0..rounds {
                            let u = format!("file:///other{k}/{}", i % 7);
                            if g.chance(1, 6) {
                                let f = WorkspaceFolder { uri: u.clone(), name: "n".into() };
                                w.initialize(&InitializeParams { root_uri: None, workspace_folders: vec![f] });
                            }
                            else {
                                w.add_folder(u.clone(), "n".into());
                            }
                            ensure!(w.is_within_workspace(&format!("{u}/x")), "a folder just added owns nothing", "{u}");
                            if g.chance(2, 3) {
                                w.remove_folder(&u);
                            }
                        }
                        Ok(())
                    });
                    left.fetch_sub(1, Ordering::SeqCst);
                    r
                }));
            }
            let (w, bar, left, asked, files) = (&w, &bar, &left, &asked, &files);
            hs.push(sc.spawn(move || {
                catch(|| {
                    bar.wait();
                    let mut k = 0;
                    while left.load(Ordering::SeqCst) > 0 || k < 2 {
                        for (f, owner) in files {
                            ensure_eq!(w.find_root(f), Some(owner.clone()), "another folder's change moved a file", "{f}");
                            let l: Vec<String> = w.list_folders().into_iter().map(|x| x.0).collect();
                            ensure!(l.iter().filter(|x| *x == owner).count() == 1, "another folder's change lost a folder", "{owner} in {l:?}");
                            asked.fetch_add(1, Ordering::Relaxed);
                        }
                        k += 1;
                    }
                    Ok(())
                })
            }));
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in res {
            match r {
                Ok(x) => x?,
                Err(p) => return fail("concurrent panic", p),
            }
        }
        c.seen("questions asked while folders changed", asked.load(Ordering::Relaxed));
        c.distinct(&(stay, n, rounds));
        Ok(())
    });
}

// ---------------------------------------------------------------- C20

pub fn resolver(run: &mut Run) {
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir()).join(format!("resolve-{}-{}", std::process::id(), run.shard));
    std::fs::create_dir_all(&base).unwrap();
    run.family("resolve", 3000, 10000, |c| {
        let g = &mut c.rng.clone();
        let top = base.join(format!("c{}", c.index));
        let dirs: Vec<PathBuf> = ["p", "p/q", "r1", "r2", "r1/sub", "r 3é", "p/q/%41"].iter().map(|d| top.join(d)).collect();
        for d in &dirs {
            std::fs::create_dir_all(d).unwrap();
        }
        let names = ["m.x", "n", "é.x", "a b.x", "sub/m.x", "q/m.x", "%41/n", "100%.x", "d", "q", "sub"];
        let mut files: BTreeSet<PathBuf> = BTreeSet::new();
        for d in &dirs {
            for n in names {
                let f = d.join(n);
                if f.exists() {
                    continue;
                }
                // a name can be a directory in one place and a file in another
                if g.chance(1, 10) && f.parent().unwrap().is_dir() {
                    std::fs::create_dir_all(&f).unwrap();
                }
                else if g.chance(1, 4) && f.parent().unwrap().is_dir() {
                    std::fs::write(&f, "x").unwrap();
                    files.insert(f);
                }
            }
        }
        let mut roots: Vec<PathBuf> = (0..g.below(4)).map(|_| g.pick(&dirs).clone()).collect();
        let mut asked: Vec<(String, PathBuf, String)> = vec![];
        let r = if g.chance(1, 2) {
            StandardResolver::new(roots.clone())
        }
        else {
            let r = StandardResolver::new(vec![g.pick(&dirs).clone()]);
            r.set_root_dirs(roots.clone());
            r
        };
        let w = WorkspaceManager::new();
        w.initialize(&InitializeParams { root_uri: roots.first().map(|p| uri_of(p)), workspace_folders: roots.iter().skip(1).map(|p| WorkspaceFolder { uri: uri_of(p), name: String::new() }).collect() });
        for _ in 0..16 {
            // the disk and the roots change between questions
            if g.chance(1, 3) {
                let f = g.pick(&dirs).join(g.pick(&names));
                if f.is_file() {
                    std::fs::remove_file(&f).unwrap();
                    files.remove(&f);
                    c.seen("files removed between imports", 1);
                }
                else if !f.exists() && f.parent().unwrap().is_dir() {
                    std::fs::write(&f, "x").unwrap();
                    files.insert(f);
                    c.seen("files created between imports", 1);
                }
            }
            if g.chance(1, 8) {
                roots = (0..g.below(4)).map(|_| g.pick(&dirs).clone()).collect();
                if g.chance(1, 3) {
                    roots.clear();
                }
                r.set_root_dirs(roots.clone());
                w.resolver.set_root_dirs(roots.clone());
            }
            let from = g.pick(&dirs).clone();
            let (base_uri, from) = match g.below(10) {
                0 => ("untitled:1".to_string(), from),
                1 => ("nonsense".to_string(), from),
                // a document is named by its uri: its directory is what its path has before the last name, whatever is on the disk
                2 => (uri_of(&from), from.parent().unwrap().to_path_buf()),
                3 if !files.is_empty() => {
                    let f = files.iter().nth(g.below(files.len())).unwrap();
                    (uri_of(f), f.parent().unwrap().to_path_buf())
                }
                _ => (uri_of(&from.join("importer.x")), from),
            };
            let imp = match g.below(11) {
                8 => format!("./{}", g.pick(&names)),
                9 => format!("./../{}/./{}", g.pick(&["r1", "p", "r2"]), g.pick(&names)),
                10 => (*g.pick(&[".", "..", "./", "d/", "sub/"])).to_string(),
                0 => format!("../{}", g.pick(&names)),
                1 => "./m.x".to_string(),
                2 => "../../r1/m.x".to_string(),
                3 if !files.is_empty() => files.iter().nth(g.below(files.len())).unwrap().display().to_string(),
                4 => "missing.x".to_string(),
                _ => g.pick(&names).to_string(),
            };
            // often a question asked before
            let (base_uri, from, imp) = if !asked.is_empty() && g.chance(1, 2) { g.pick(&asked).clone() } else { (base_uri, from, imp) };
            asked.push((base_uri.clone(), from.clone(), imp.clone()));
            c.input(format!("from {base_uri} import {imp:?} roots {roots:?} files {files:?}").replace(top.to_str().unwrap(), "TOP"));
            let mut cands: Vec<PathBuf> = vec![];
            if base_uri.starts_with("file:") {
                cands.push(from.join(&imp));
            }
            cands.extend(roots.iter().map(|d| d.join(&imp)));
            let want = cands.iter().find(|p| std::fs::metadata(p).is_ok()).map(|p| std::fs::canonicalize(p).unwrap());
            for (name, got) in [("resolver", r.resolve(&base_uri, &imp)), ("workspace resolver", w.resolver.resolve(&base_uri, &imp))] {
                let path = match &got {
                    None => None,
                    Some(u) => {
                        ensure!(u.starts_with("file://"), "resolved name is not a file uri", "{name}: {u}");
                        let mut p = vec![];
                        let b = u["file://".len()..].as_bytes();
                        let mut i = 0;
                        while i < b.len() {
                            if b[i] == b'%' && i + 2 < b.len() + 0 {
                                p.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("zz"), 16).unwrap_or(b'?'));
                                i += 3;
                            }
                            else {
                                p.push(b[i]);
                                i += 1;
                            }
                        }
                        let p = PathBuf::from(String::from_utf8_lossy(&p).to_string());
                        ensure!(p.exists(), "resolved to a file that does not exist", "{name}: {u}");
                        Some(std::fs::canonicalize(&p).unwrap())
                    }
                };
                ensure_eq!(path, want, "resolution", "{name}: import {imp:?} from {base_uri}");
            }
            c.seen(if want.is_some() { "imports found" } else { "imports not found" }, 1);
            if cands.iter().filter(|p| p.exists()).count() > 1 {
                c.seen("imports with several candidates", 1);
            }
            c.distinct(&(imp, want.map(|w| w.strip_prefix(&top).map(|x| x.to_path_buf()).unwrap_or(w))));
        }
        std::fs::remove_dir_all(&top).unwrap();
        Ok(())
    });
    run.family("roots-replaced-while-resolving", 400, 1500, |c| {
        let g = &mut c.rng.clone();
        let top = base.join(format!("t{}", c.index));
        let dirs: Vec<PathBuf> = (0..g.range(2, 5)).map(|i| top.join(format!("r{i}"))).collect();
        for d in &dirs {
            std::fs::create_dir_all(d).unwrap();
        }
        // one file is in one root, another in several
        let only = g.below(dirs.len());
        std::fs::write(dirs[only].join("only.x"), "x").unwrap();
        let several: Vec<PathBuf> = dirs.iter().filter(|_| g.chance(1, 2)).map(|d| d.join("several.x")).collect();
        for f in &several {
            std::fs::write(f, "x").unwrap();
        }
        // every list of roots that is ever set has all the directories, in some order
        let mut orders: Vec<Vec<PathBuf>> = vec![];
        for _ in 0..4 {
            let mut o = dirs.clone();
            for i in (1..o.len()).rev() {
                o.swap(i, g.below(i + 1));
            }
            orders.push(o);
        }
        // what each of the lists would answer about the second file
        let firsts: BTreeSet<Option<String>> = orders.iter().map(|o| o.iter().map(|d| d.join("several.x")).find(|p| several.contains(p)).map(|p| uri_of(&p))).collect();
        let want = uri_of(&dirs[only].join("only.x"));
        let r = StandardResolver::new(orders[0].clone());
        let (n, rounds) = (g.range(1, 3), g.range(20, 120));
        c.input(format!("{} roots, only.x in r{only}, several.x in {}, {n} threads resolve while the order changes {rounds} times", dirs.len(), several.len()));
        let from = uri_of(&top.join("main.x"));
        let bar = Barrier::new(n + 1);
        let stop = AtomicBool::new(false);
        let asked = AtomicU64::new(0);
        let res: Vec<Result<Check, String>> = std::thread::scope(|sc| {
            let mut hs = vec![];
            for _ in 0..n {
                let (r, bar, stop, asked, from, want, firsts) = (&r, &bar, &stop, &asked, &from, &want, &firsts);
                hs.push(sc.spawn(move || {
                    catch(|| {
                        bar.wait();
                        let mut k = 0;
                        while !stop.load(Ordering::SeqCst) || k < 2 {
                            ensure_eq!(r.resolve(from, "only.x"), Some(want.clone()), "replacing the roots hid a module", "");
                            let got = r.resolve(from, "several.x");
                            ensure!(firsts.contains(&got), "a module resolved as no list of roots resolves it", "{got:?}");
                            ensure_eq!(r.resolve(from, "missing.x"), None, "a missing module resolved", "");
                            asked.fetch_add(3, Ordering::Relaxed);
                            k += 1;
                        }
                        Ok(())
                    })
                }));
            }
            bar.wait();
            for i in 0..rounds {
                r.set_root_dirs(orders[i % orders.len()].clone());
                if i % 5 == 0 {
                    std::thread::yield_now();
                }
            }
            stop.store(true, Ordering::SeqCst);
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in res {
            match x {
                Ok(x) => x?,
                Err(p) => return fail("concurrent panic", p),
            }
        }
        // at rest, the list set last
        let last = &orders[(rounds - 1) % orders.len()];
        let first = last.iter().map(|d| d.join("several.x")).find(|p| several.contains(p)).map(|p| uri_of(&p));
        ensure_eq!(r.resolve(&from, "several.x"), first, "the roots set last are not the ones searched", "");
        c.seen("modules resolved while the roots changed", asked.load(Ordering::Relaxed));
        c.distinct(&(dirs.len(), only, several.len(), n, rounds));
        std::fs::remove_dir_all(&top).unwrap();
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&base);
}

// ---------------------------------------------------------------- C27

#[derive(Debug, PartialEq, Clone)]
struct Sym {
    name: String,
    start: usize,
    end: usize,
    container: Option<String>,
}

fn model_symbols(m: &M, at: usize, t: &str, cont: Option<&str>, out: &mut Vec<Sym>) {
    let M::Node(k, kids) = m
    else { return };
    let mut inner = cont.map(|s| s.to_string());
    if *k == E::FnDecl {
        let mut p = at;
        let mut name = None;
        for x in kids {
            if let M::Leaf(T::Ident, n, _) = x {
                name = Some(t[p..p + n].to_string());
                break;
            }
            p += x.len();
        }
        let name = name.unwrap_or_else(|| "<FnDecl>".into());
        out.push(Sym { name: name.clone(), start: at, end: at + m.len(), container: cont.map(|s| s.to_string()) });
        inner = Some(name);
    }
    let mut p = at;
    for x in kids {
        model_symbols(x, p, t, inner.as_deref(), out);
        p += x.len();
    }
}

fn check_tree(c: &mut Case, root: RedNode<'_, Toy>, m: &M, t: &str, g: &mut Rng) -> Check {
    let src = SourceText::new(t);
    let got = UniversalSymbolProvider::new().document_symbols("mem:/f", &root, &src);
    let mut want = vec![];
    model_symbols(m, root.offset, t, None, &mut want);
    let g2: Vec<Sym> = got.iter().map(|s| Sym { name: s.name.clone(), start: s.range.start, end: s.range.end, container: s.container_name.clone() }).collect();
    ensure_eq!(g2, want, "document symbols", "{t:?}");
    for s in &got {
        ensure_eq!((&*s.uri, s.role), ("mem:/f", UniversalElementRole::Definition), "symbol uri and role", "");
        let w = WorkspaceSymbol::from(s.clone());
        ensure_eq!((w.name.clone(), &*w.location.uri, w.location.range, w.container_name.clone()), (s.name.clone(), &*s.uri, s.range, s.container_name.clone()), "workspace symbol of a symbol", "");
        let i = StructureItem::from(s.clone());
        ensure_eq!((i.name.clone(), i.range), (s.name.clone(), s.range), "structure item of a symbol", "");
    }
    c.seen("symbols", got.len() as u64);
    // references of names that occur, and of some that do not
    let mut leaves = vec![];
    m.leaves(root.offset, &mut leaves);
    let mut names: Vec<String> = leaves.iter().filter(|l| l.0 == T::Ident).map(|l| t[l.1..l.2].to_string()).collect();
    names.sort();
    names.dedup();
    while names.len() > 6 {
        let i = g.below(names.len());
        names.remove(i);
    }
    names.extend(["nosuch".to_string(), String::new()]);
    // also a text that occurs only in leaves of other kinds
    names.extend(leaves.iter().filter(|l| l.0 != T::Ident).take(2).map(|l| t[l.1..l.2].to_string()));
    for n in &names {
        let got = SimpleReferenceFinder::<Toy>::find(&root, n, t, "mem:/f");
        let want: Vec<(usize, usize)> = leaves.iter().filter(|l| l.0 == T::Ident && t[l.1..l.2] == **n).map(|l| (l.1, l.2)).collect();
        ensure_eq!(got.iter().map(|l| (l.range.start, l.range.end)).collect::<Vec<_>>(), want, "references", "{n:?} in {t:?}");
        ensure!(got.iter().all(|l| &*l.uri == "mem:/f"), "reference uri", "");
        c.seen("references", got.len() as u64);
    }
    Ok(())
}

pub fn navigation(run: &mut Run) {
    run.family("programs", 3000, 10000, |c| {
        let g = &mut c.rng.clone();
        let t = program(g);
        c.input(t.clone());
        let src = SourceText::new(t.as_str());
        let mut s: ParseSession<Toy> = ParseSession::default();
        let out = ToyParser.parse(&src, &[], &mut s);
        let Ok(root) = out.result.as_ref()
        else {
            c.seen("programs without a tree", 1);
            return Ok(());
        };
        let m = model_of(root);
        if m.len() == t.len() {
            check_tree(c, RedNode::new(root, 0), &m, &t, g)?;
        }
        c.distinct(&t);
        Ok(())
    });
    run.family("trees", 3000, 10000, |c| {
        let g = &mut c.rng.clone();
        let arena = SyntaxArena::new(64);
        let ops = g.range(2, 60);
        let b = build(g, &arena, ops)?;
        if b.model.len() > 200_000 {
            return Ok(());
        }
        let off = if g.chance(1, 3) { g.below(9) } else { 0 };
        let t: String = (0..off + b.model.len()).map(|_| *g.pick(&['a', 'b', 'x'])).collect();
        c.input(b.log.clone());
        check_tree(c, RedNode::new(b.root, off), &b.model, &t, g)?;
        c.distinct(&b.log);
        Ok(())
    });
}

/// Mostly valid toy programs with nested functions, repeated names and some damage.
pub fn program(g: &mut Rng) -> String {
    fn stmts(g: &mut Rng, d: usize, o: &mut String) {
        for _ in 0..g.below(4) {
            let n = *g.pick(&["f", "g", "x", "é1", "foo", "let1"]);
            match g.below(6) {
                0 | 1 if d < 4 => {
                    o.push_str(&format!("fn {n}({}) {{", *g.pick(&["", "x", "x, y", "f"])));
                    stmts(g, d + 1, o);
                    o.push_str("}\n");
                }
                2 => o.push_str(&format!("let {n} = {};\n", *g.pick(&["1", "x + f(2)", "\"fx\"", "(g)"]))),
                3 if d < 4 => {
                    o.push_str(&format!("if {n} {{"));
                    stmts(g, d + 1, o);
                    o.push_str("} else { x; }");
                }
                4 => o.push_str("// f x\n"),
                _ => o.push_str(&format!("{n}({}); ", *g.pick(&["", "x", "1, g"]))),
            }
        }
    }
    let mut o = String::new();
    stmts(g, 0, &mut o);
    if g.chance(1, 4) && !o.is_empty() {
        let i = floor_char(&o, g.below(o.len()));
        let ins = *g.pick(&["fn ", "{", "}", "fn (", "@", "\"", "fn x"]);
        o.insert_str(i, ins);
    }
    o
}
