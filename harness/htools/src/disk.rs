//! C29: the disk file system shows exactly what is on the disk, changes exactly what it is asked to change,
//! and its watcher reports every change of the watched files and of no others.
use oak_core::helpers::{create_file, open_file, source_from_path};
use oak_core::source::Source;
use oak_vfs::{DiskVfs, DiskWatcher, FileType, LineMap, Vfs, VfsEvent, VfsWatcher, WritableVfs};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::{Read, Write},
    path::{Component, Path, PathBuf},
    sync::{Arc, Mutex},
    time::{Duration, Instant, SystemTime},
};
use vcommon::*;

/// While it lives, this thread touches files as an unprivileged user: whatever the code under test does, only
/// files of that user (all in the scratch directory) can be changed.
struct Unprivileged;
impl Unprivileged {
    fn new() -> Self {
        unsafe {
            libc::setfsgid(65534);
            libc::setfsuid(65534);
        }
        Unprivileged
    }
}
impl Drop for Unprivileged {
    fn drop(&mut self) {
        unsafe {
            libc::setfsuid(libc::geteuid());
            libc::setfsgid(libc::getegid());
        }
    }
}

/// A scratch folder the unprivileged user can work in.
fn scratch(run: &Run) -> PathBuf {
    let places = std::env::var("VERIF_SCRATCH").map(PathBuf::from).into_iter().chain([std::env::temp_dir(), PathBuf::from("/dev/shm")]);
    for place in places {
        let base = place.join(format!("disk-{}-{}", std::process::id(), run.shard));
        if std::fs::create_dir_all(&base).is_err() {
            continue;
        }
        let base = std::fs::canonicalize(&base).unwrap();
        std::os::unix::fs::chown(&base, Some(65534), Some(65534)).ok();
        let usable = {
            let _u = Unprivileged::new();
            std::fs::write(base.join("probe"), "").and_then(|_| std::fs::remove_file(base.join("probe"))).is_ok()
        };
        if usable {
            return base;
        }
        std::fs::remove_dir_all(&base).ok();
    }
    panic!("no scratch folder for an unprivileged user");
}

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>),
}
type Tree = BTreeMap<String, Node>;

/// What is really below `top`.
fn walk(top: &Path, at: &Path, out: &mut Tree) {
    let mut es: Vec<_> = std::fs::read_dir(at).into_iter().flatten().flatten().collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let p = e.path();
        let name = p.strip_prefix(top).unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            out.insert(name, Node::Dir);
            walk(top, &p, out);
        }
        else {
            out.insert(name, Node::File(std::fs::read(&p).unwrap_or_default()));
        }
    }
}

fn parent(name: &str) -> Option<&str> {
    name.rsplit_once('/').map(|x| x.0)
}

/// The effect of writing a file, with the folders it needs.
fn write(t: &mut Tree, name: &str, data: &[u8]) {
    let mut dirs = vec![];
    let mut at = name;
    while let Some(p) = parent(at) {
        dirs.push(p.to_string());
        at = p;
    }
    // nothing can be put below a file
    for d in dirs.iter().rev() {
        match t.get(d) {
            Some(Node::File(_)) => return,
            Some(Node::Dir) => {}
            None => {
                t.insert(d.clone(), Node::Dir);
            }
        }
    }
    if t.get(name) != Some(&Node::Dir) && !name.is_empty() {
        t.insert(name.to_string(), Node::File(data.to_vec()));
    }
}

const NAMES: &[&str] = &["a", "b.txt", "é.rs", "sub", "sub/a", "sub/x y.md", "sub/deep/er/file", "A", "100%", "sub/..hidden", ".dot", "b.txt/under-a-file", "new/one", "a.tmp", "a~", "b.tmp", "b.txt.tmp", "b.txt~", ".b.txt.swp", "long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name"];
const PIECES: &[&str] = &["", "a", "line\n", "\r\n", "é", "𝕏", "  ", "let x = 1;\n", "\u{feff}", "\0", "\t"];

fn text(g: &mut Rng) -> String {
    if g.chance(1, 30) {
        return g.string(&["0123456789abcdef\n", "é", "word "], 20_000);
    }
    g.string(PIECES, 12)
}

fn relative(from: &Path, to: &Path) -> PathBuf {
    let mut p = PathBuf::new();
    for c in from.components() {
        if let Component::Normal(_) = c {
            p.push("..");
        }
    }
    for c in to.components() {
        if let Component::Normal(n) = c {
            p.push(n);
        }
    }
    p
}

/// Every answer of the file system about one name.
fn look(v: &DiskVfs, root: &Path, name: &str, uri: &str, t: &Tree) -> Check {
    let node = if name.is_empty() { Some(&Node::Dir) } else { t.get(name) };
    ensure_eq!(v.exists(uri), node.is_some(), "existence", "{uri}");
    ensure_eq!(v.is_file(uri), matches!(node, Some(Node::File(_))), "is_file", "{uri}");
    ensure_eq!(v.is_dir(uri), matches!(node, Some(Node::Dir)), "is_dir", "{uri}");
    let want = match node {
        Some(Node::File(d)) => std::str::from_utf8(d).ok(),
        _ => None,
    };
    let got = v.get_source(uri);
    ensure_eq!(got.as_ref().map(|s| s.get_text_in((0..s.length()).into()).to_string()), want.map(str::to_string), "text of a file", "{uri}");
    match (v.line_map(uri), want) {
        (Some(m), Some(w)) => {
            let lines = w.split('\n').count();
            ensure!(m.line_count() == LineMap::from_source(w).line_count() && m.line_start(0) == Some(0) && m.line_count() >= lines, "line map of a file", "{uri}: {} lines", m.line_count());
        }
        (None, None) => {}
        (g, _) => return fail("line map of a file", format!("{uri}: given {}", g.is_some())),
    }
    match (v.metadata(uri), node) {
        (None, None) => {}
        (Some(m), Some(n)) => {
            match n {
                Node::Dir => ensure!(m.file_type == FileType::Directory, "metadata: type", "{uri}: {m:?}"),
                Node::File(d) => ensure!(m.file_type == FileType::File && m.len == d.len() as u64, "metadata: type or length", "{uri}: {m:?} for {} bytes", d.len()),
            }
            let when = std::fs::metadata(root.join(name)).and_then(|m| m.modified()).ok().and_then(|t| t.duration_since(SystemTime::UNIX_EPOCH).ok()).map(|d| d.as_secs());
            ensure_eq!(m.modified, when, "metadata: modification time", "{uri}");
        }
        (m, n) => return fail("metadata", format!("{uri}: {m:?} for {}", n.is_some())),
    }
    match (v.read_dir(uri), node) {
        (Some(es), Some(Node::Dir)) => {
            let mut names = BTreeSet::new();
            for e in &es {
                let p = if Path::new(&e[..]).is_absolute() { PathBuf::from(&e[..]) } else { root.join(&e[..]) };
                let Ok(n) = p.strip_prefix(root)
                else {
                    return fail("a listed entry lies outside the folder", format!("{uri}: {e}"));
                };
                let n = n.to_string_lossy().to_string();
                // the name given leads back to the entry
                ensure_eq!(v.exists(e), t.contains_key(&n), "a listed entry cannot be used", "{uri}: {e}");
                ensure_eq!(v.is_dir(e), t.get(&n) == Some(&Node::Dir), "a listed entry cannot be used", "{uri}: {e}");
                if let Some(Node::File(d)) = t.get(&n) {
                    ensure_eq!(v.get_source(e).map(|s| s.length()), std::str::from_utf8(d).ok().map(|s| s.len()), "a listed entry cannot be read", "{uri}: {e}");
                }
                ensure!(names.insert(n), "an entry is listed twice", "{uri}: {e}");
            }
            let want: BTreeSet<String> = t.keys().filter(|k| parent(k).unwrap_or("") == name).cloned().collect();
            ensure_eq!(names, want, "entries of a folder", "{uri}");
        }
        (None, Some(Node::File(_)) | None) => {}
        (es, _) => return fail("listing of a folder", format!("{uri}: listed {}", es.is_some())),
    }
    if let Some(id) = v.get_id(uri) {
        ensure_eq!(v.get_uri(id).map(|u| u.to_string()), Some(uri.to_string()), "id and uri", "");
    }
    Ok(())
}

fn history(c: &mut Case, base: &Path) -> Check {
    let _u = Unprivileged::new();
    let g = &mut c.rng.clone();
    let top = base.join(format!("c{}", c.index));
    let root = top.join(*g.pick(&["root", "r é", "r.d"]));
    std::fs::create_dir_all(&root).unwrap();
    let by = g.below(3);
    let cwd = std::env::current_dir().unwrap();
    let v = DiskVfs::new(match by {
        0 => root.clone(),
        1 => relative(&cwd, &root),
        // files named absolutely need no root
        _ => base.join("nowhere"),
    });
    let spell = |g: &mut Rng, name: &str| -> String { if by == 2 || g.chance(1, 3) { root.join(name).to_string_lossy().trim_end_matches('/').to_string() } else { name.to_string() } };
    let mut t = Tree::new();
    let mut log = format!("root {} ", ["absolute", "relative", "elsewhere"][by]);
    let steps = g.range(3, 14);
    for _ in 0..steps {
        let name = *g.pick(NAMES);
        let uri = spell(g, name);
        match g.below(10) {
            0..=3 => {
                let d = text(g);
                log.push_str(&format!("write {uri:?} {:?}; ", clip(&d, 60)));
                c.input(log.replace(top.to_str().unwrap(), "TOP"));
                v.write_file(&uri, oak_core::Arc::from(&d[..]));
                write(&mut t, name, d.as_bytes());
                c.seen("files written", 1);
            }
            4 | 5 => {
                log.push_str(&format!("remove {uri:?}; "));
                c.input(log.replace(top.to_str().unwrap(), "TOP"));
                v.remove_file(&uri);
                if let Some(Node::File(_)) = t.get(name) {
                    t.remove(name);
                    c.seen("files removed", 1);
                }
            }
            // somebody else changes the disk
            6 | 7 => {
                let mut d = text(g).into_bytes();
                if g.chance(1, 4) {
                    d.insert(g.below(d.len() + 1), 0xFF);
                }
                log.push_str(&format!("other program writes {name:?} {:?}; ", clip(&String::from_utf8_lossy(&d), 60)));
                let p = root.join(name);
                let mut n = t.clone();
                write(&mut n, name, &d);
                if n.get(name) == Some(&Node::File(d.clone())) {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(&p, &d).unwrap();
                    if g.chance(1, 2) {
                        let secs = *g.pick(&[0u64, 1, 86_400, 1_700_000_000, 4_000_000_000]);
                        let f = std::fs::File::options().write(true).open(&p).unwrap();
                        f.set_modified(SystemTime::UNIX_EPOCH + Duration::new(secs, 999_999_999)).ok();
                    }
                    t = n;
                    c.seen("changes by others", 1);
                }
            }
            8 => {
                log.push_str(&format!("other program removes {name:?}; "));
                match t.get(name) {
                    Some(Node::File(_)) => std::fs::remove_file(root.join(name)).unwrap(),
                    Some(Node::Dir) => std::fs::remove_dir_all(root.join(name)).unwrap(),
                    None => {}
                }
                let below = format!("{name}/");
                t.retain(|k, _| k != name && !k.starts_with(&below));
            }
            // the helpers for single files
            _ => {
                let p = root.join(name);
                log.push_str(&format!("helpers on {name:?}; "));
                c.input(log.replace(top.to_str().unwrap(), "TOP"));
                let want = match t.get(name) {
                    Some(Node::File(d)) => Some(d.clone()),
                    _ => None,
                };
                let got = source_from_path(&p);
                ensure_eq!(got.as_ref().ok().map(|s| s.text().to_string()), want.clone().and_then(|d| String::from_utf8(d).ok()), "source_from_path", "{log}");
                if let Err(e) = &got {
                    ensure!(e.to_string().contains(&p.display().to_string()), "the error does not name the file", "{e}");
                }
                match (open_file(&p), &want) {
                    (Ok(mut f), Some(d)) => {
                        let mut b = vec![];
                        f.read_to_end(&mut b).unwrap();
                        ensure_eq!(&b, d, "open_file", "{log}");
                    }
                    // a folder can be opened, but not read
                    (Ok(_), None) => ensure!(t.get(name) == Some(&Node::Dir), "open_file: opened nothing", "{log}"),
                    (Err(e), None) => ensure!(e.to_string().contains(&p.display().to_string()), "the error does not name the file", "{e}"),
                    (Err(e), Some(_)) => return fail("open_file", format!("{log}: {e}")),
                }
                if g.chance(1, 2) {
                    let d = text(g);
                    let mut n = t.clone();
                    write(&mut n, name, d.as_bytes());
                    let can = n.get(name) == Some(&Node::File(d.clone().into_bytes()));
                    match create_file(&p) {
                        Ok(mut f) => {
                            ensure!(can, "create_file made an impossible file", "{log}");
                            f.write_all(d.as_bytes()).unwrap();
                        }
                        Err(e) => ensure!(!can, "create_file", "{log}: {e}"),
                    }
                    t = n;
                }
                c.seen("helper calls", 1);
            }
        }
        c.input(log.replace(top.to_str().unwrap(), "TOP"));
        // the disk holds what was asked for, and nothing else changed, in the whole scratch folder
        let mut now = Tree::new();
        walk(&root, &root, &mut now);
        ensure!(now == t, "the disk does not hold what was written", "{log}: {}", first_difference(&now, &t));
        let around: Vec<String> = std::fs::read_dir(&top).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
        ensure!(around.len() == 1, "something was written outside the root", "{log}: {around:?}");
        for name in NAMES.iter().chain(&[""]) {
            if g.chance(1, 2) {
                let uri = spell(g, name);
                look(&v, &root, name, &uri, &t)?;
                c.seen("names compared", 1);
            }
        }
        c.distinct(&log);
    }
    std::fs::remove_dir_all(&top).ok();
    Ok(())
}

/// Names that are links, files somebody may not write, and things that are neither file nor folder: what a write or a
/// removal reaches is the file itself, with its other names, its rights and its owner.
fn links(c: &mut Case, base: &Path) -> Check {
    use std::os::unix::fs::{MetadataExt, PermissionsExt, symlink};
    let _u = Unprivileged::new();
    let g = &mut c.rng.clone();
    let top = base.join(format!("l{}", c.index));
    let root = top.join("root");
    std::fs::create_dir_all(root.join("d")).unwrap();
    let v = DiskVfs::new(root.clone());
    let spell = |g: &mut Rng, n: &str| if g.chance(1, 3) { root.join(n).to_string_lossy().to_string() } else { n.to_string() };
    let mut text_of: BTreeMap<&str, Option<String>> = BTreeMap::new();
    let mut log = String::new();
    // what the names stand for: "file" and its hard link "twin", "link" -> file, "d/up" -> ../other, "dangling" -> later,
    // "dir" -> d (with d/in), "shut" which nobody may write, "socket"
    for (n, t) in [("file", text(g)), ("other", text(g)), ("d/in", text(g)), ("shut", text(g))] {
        std::fs::write(root.join(n), &t).unwrap();
        text_of.insert(n, Some(t));
    }
    text_of.insert("later", None);
    std::fs::hard_link(root.join("file"), root.join("twin")).unwrap();
    symlink("file", root.join("link")).unwrap();
    symlink("../other", root.join("d/up")).unwrap();
    symlink(root.join("later"), root.join("dangling")).unwrap();
    symlink("d", root.join("dir")).unwrap();
    let mode = *g.pick(&[0o644, 0o600, 0o755, 0o664]);
    std::fs::set_permissions(root.join("file"), std::fs::Permissions::from_mode(mode)).unwrap();
    std::fs::set_permissions(root.join("shut"), std::fs::Permissions::from_mode(0o444)).unwrap();
    let socket = std::env::set_current_dir(&root).is_ok() && std::os::unix::net::UnixListener::bind("socket").is_ok();
    std::env::set_current_dir(base).unwrap();
    let inode = std::fs::metadata(root.join("file")).unwrap().ino();
    // name -> the file it stands for
    let mut stands: BTreeMap<&str, &str> = [("file", "file"), ("twin", "file"), ("link", "file"), ("other", "other"), ("d/up", "other"), ("dir/up", "other"), ("later", "later"), ("dangling", "later"), ("d/in", "d/in"), ("dir/in", "d/in"), ("shut", "shut")].into_iter().collect();
    let names: Vec<&str> = stands.keys().copied().collect();
    let mut file_name_gone = false;
    for _ in 0..g.range(1, 8) {
        let n = *g.pick(&names);
        let uri = spell(g, n);
        if g.chance(3, 4) {
            let d = text(g);
            log.push_str(&format!("write {n} {:?}; ", clip(&d, 40)));
            c.input(log.clone());
            // what is gone is not written again: a name's meaning would change
            if !stands.contains_key(n) || (n == "link" && file_name_gone) {
                continue;
            }
            v.write_file(&uri, oak_core::Arc::from(&d[..]));
            if stands[n] != "shut" {
                text_of.insert(stands[n], Some(d));
            }
        }
        else if ["twin", "link", "d/up", "dir/up", "dangling", "file", "dir"].contains(&n) && stands.contains_key(n) {
            log.push_str(&format!("remove {n}; "));
            c.input(log.clone());
            v.remove_file(&uri);
            // the name goes, the file it led to stays
            let gone: &[&str] = match n {
                "d/up" | "dir/up" => &["d/up", "dir/up"],
                "file" => {
                    file_name_gone = true;
                    &["file", "link"]
                }
                "twin" => &["twin"],
                "link" => &["link"],
                _ => &["dangling"],
            };
            for x in gone {
                stands.remove(x);
            }
            ensure!(std::fs::symlink_metadata(root.join(n)).is_err(), "a removed link is still there", "{log}");
        }
        for n in &names {
            let uri = spell(g, n);
            let want = stands.get(n).and_then(|f| text_of[f].clone());
            ensure_eq!(v.exists(&uri), want.is_some(), "existence", "{uri}: {log}");
            ensure_eq!(v.get_source(&uri).map(|s| s.text().to_string()), want, "text of a linked file", "{uri}: {log}");
            let real = std::fs::read_to_string(root.join(n)).ok();
            ensure_eq!(real, want, "the disk does not hold what was written", "{n}: {log}");
            match (v.metadata(&uri), &want) {
                (Some(m), Some(w)) => ensure!(m.file_type == FileType::File && m.len == w.len() as u64, "metadata: type or length", "{uri}: {m:?}: {log}"),
                (None, None) => {}
                (m, _) => return fail("metadata", format!("{uri}: {m:?}: {log}")),
            }
        }
        // links are still links, the file is still the same file with the same rights
        for (l, to) in [("link", "file"), ("d/up", "../other"), ("dangling", root.join("later").to_str().unwrap()), ("dir", "d")] {
            if stands.contains_key(l) || l == "dir" || (l == "link" && file_name_gone && std::fs::symlink_metadata(root.join(l)).is_ok()) {
                ensure_eq!(std::fs::read_link(root.join(l)).ok(), Some(PathBuf::from(to)), "a link is no longer what it was", "{l}: {log}");
            }
        }
        if let Some(n) = ["file", "twin"].iter().find(|n| stands.contains_key(**n)) {
            let m = std::fs::metadata(root.join(n)).unwrap();
            ensure_eq!(m.ino(), inode, "a write replaced the file by another", "{log}");
            ensure_eq!(m.permissions().mode() & 0o777, mode, "a write changed the file's rights", "{log}");
        }
        ensure!(v.is_dir("dir") && !v.is_file("dir"), "a link to a folder is a folder", "{log}");
        let mut got: Vec<String> = v.read_dir("dir").unwrap_or_default().iter().filter_map(|e| Path::new(&e[..]).file_name().map(|n| n.to_string_lossy().to_string())).collect();
        got.sort();
        let mut want = vec!["in".to_string()];
        if stands.contains_key("d/up") {
            want.push("up".into());
        }
        ensure_eq!(got, want, "entries of a linked folder", "{log}");
        if socket {
            let m = v.metadata("socket");
            ensure!(m.as_ref().is_some_and(|m| m.file_type == FileType::Other) && v.exists("socket") && !v.is_file("socket") && !v.is_dir("socket") && v.read_dir("socket").is_none(), "neither a file nor a folder", "{m:?}");
        }
        let mut all: Vec<String> = std::fs::read_dir(&root).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
        all.retain(|n| !["file", "other", "d", "shut", "twin", "link", "dangling", "dir", "socket", "later"].contains(&&n[..]));
        ensure!(all.is_empty(), "something else was written", "{all:?}: {log}");
        c.seen("linked names compared", names.len() as u64);
    }
    c.distinct(&log);
    std::fs::remove_dir_all(&top).ok();
    Ok(())
}

fn first_difference(a: &Tree, b: &Tree) -> String {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return format!("{k}: on disk {}, asked for {}", clip(&format!("{:?}", a.get(k)), 200), clip(&format!("{:?}", b.get(k)), 200));
        }
    }
    String::new()
}

// ------------------------------------------------------------------ watching

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Changed,
    Created,
    Removed,
}
type Log = Arc<Mutex<Vec<(Ev, String)>>>;

/// Waits until the watcher has reported the creation of a new file: events come in order, so all earlier ones are in.
fn flush(log: &Log, dir: &Path, n: &mut u32) -> Result<Vec<(Ev, String)>, Fail> {
    let p = dir.join(format!("flush{n}"));
    *n += 1;
    std::fs::write(&p, "").unwrap();
    let p = p.to_string_lossy().to_string();
    let t = Instant::now();
    loop {
        {
            let mut l = log.lock().unwrap();
            if l.iter().any(|e| e.0 == Ev::Created && e.1 == p) {
                let all = std::mem::take(&mut *l);
                return Ok(all.into_iter().filter(|e| !e.1.contains("/flush")).collect());
            }
        }
        if t.elapsed() > Duration::from_secs(20) {
            return fail("a created file was never reported", p);
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}

fn watching(c: &mut Case, base: &Path) -> Check {
    let _u = Unprivileged::new();
    let g = &mut c.rng.clone();
    let top = base.join(format!("w{}", c.index));
    let dirs: Vec<PathBuf> = ["one", "two é", "one/in", "three"].iter().map(|d| top.join(d)).collect();
    let beat = top.join("beat");
    for d in dirs.iter().chain([&beat]) {
        std::fs::create_dir_all(d).unwrap();
    }
    let log: Log = Default::default();
    let l2 = log.clone();
    let mut w = match DiskWatcher::new(move |e| {
        l2.lock().unwrap().push(match e {
            VfsEvent::Changed(u) => (Ev::Changed, u),
            VfsEvent::Created(u) => (Ev::Created, u),
            VfsEvent::Removed(u) => (Ev::Removed, u),
        })
    }) {
        Ok(w) => w,
        Err(e) => return fail("no watcher", e.to_string()),
    };
    let mut n = 0;
    let mut watched: BTreeSet<usize> = BTreeSet::new();
    // "one" is watched with what is in it
    let covered = |watched: &BTreeSet<usize>, d: usize| watched.contains(&d) || (d == 2 && watched.contains(&0));
    let mut files: BTreeSet<PathBuf> = BTreeSet::new();
    let mut hist = String::new();
    w.watch(beat.to_str().unwrap()).map_err(|e| Fail { sig: "watching a folder".into(), detail: e.to_string() })?;
    flush(&log, &beat, &mut n)?;
    for _ in 0..g.range(3, 10) {
        match g.below(9) {
            0..=3 => {
                let d = g.below(dirs.len());
                // watching a folder and one in it at the same time is the notifier's business
                if (d == 2 && watched.contains(&0)) || (d == 0 && watched.contains(&2)) {
                    continue;
                }
                hist.push_str(&format!("watch {d}; "));
                c.input(hist.clone());
                let r = w.watch(dirs[d].to_str().unwrap());
                ensure!(r.is_ok(), "watching a folder", "{hist}: {r:?}");
                watched.insert(d);
            }
            4 if !watched.is_empty() => {
                let d = *watched.iter().nth(g.below(watched.len())).unwrap();
                hist.push_str(&format!("unwatch {d}; "));
                c.input(hist.clone());
                let r = w.unwatch(dirs[d].to_str().unwrap());
                ensure!(r.is_ok(), "unwatching a folder", "{hist}: {r:?}");
                watched.remove(&d);
            }
            5 if g.chance(1, 2) => {
                hist.push_str("unwatch all; ");
                c.input(hist.clone());
                let r = w.unwatch_all();
                ensure!(r.is_ok(), "unwatching all", "{hist}: {r:?}");
                watched.clear();
                // not even the folder that carries the beat is watched any more
                log.lock().unwrap().clear();
                std::fs::write(beat.join("quiet"), "").unwrap();
                std::fs::write(dirs[0].join("quiet"), "").unwrap();
                let r = w.watch(beat.to_str().unwrap());
                ensure!(r.is_ok(), "watching a folder again", "{hist}: {r:?}");
                let got = flush(&log, &beat, &mut n)?;
                ensure!(got.is_empty(), "events after unwatching everything", "{hist}: {got:?}");
                std::fs::remove_file(dirs[0].join("quiet")).unwrap();
                c.seen("times everything was unwatched", 1);
            }
            _ => {}
        }
        flush(&log, &beat, &mut n)?;
        // a few changes, then what was reported of them
        let mut want: Vec<(Ev, String)> = vec![];
        let mut may: BTreeSet<String> = BTreeSet::new();
        for _ in 0..g.range(1, 9) {
            let d = if !watched.is_empty() && g.chance(2, 3) { *watched.iter().nth(g.below(watched.len())).unwrap() } else { g.below(dirs.len()) };
            let p = dirs[d].join(*g.pick(&["f", "g é"]));
            let s = p.to_string_lossy().to_string();
            let seen = covered(&watched, d);
            let mut tell = |e: Ev, s: &String| {
                if seen {
                    want.push((e, s.clone()));
                    may.insert(s.clone());
                }
            };
            if !files.contains(&p) {
                hist.push_str(&format!("create {d}/{}; ", p.file_name().unwrap().to_string_lossy()));
                std::fs::write(&p, "").unwrap();
                files.insert(p);
                tell(Ev::Created, &s);
            }
            else if g.chance(1, 2) {
                hist.push_str(&format!("change {d}/{}; ", p.file_name().unwrap().to_string_lossy()));
                let mut f = std::fs::File::options().append(true).open(&p).unwrap();
                f.write_all(b"more").unwrap();
                tell(Ev::Changed, &s);
            }
            else if g.chance(1, 2) {
                hist.push_str(&format!("remove {d}/{}; ", p.file_name().unwrap().to_string_lossy()));
                std::fs::remove_file(&p).unwrap();
                files.remove(&p);
                tell(Ev::Removed, &s);
            }
            c.input(hist.clone());
        }
        let got = flush(&log, &beat, &mut n)?;
        // every change is there, in order
        let mut i = 0;
        for e in &want {
            match got[i..].iter().position(|x| x == e) {
                Some(k) => i += k + 1,
                None => return fail("a change was not reported, or out of order", format!("{hist}: {e:?} not among {:?}", &got[i..])),
            }
        }
        // and nothing else
        for e in &got {
            ensure!(may.contains(&e.1), "a change nobody made was reported", "{hist}: {e:?}");
            // creating, changing and removing are what they are
            ensure!(want.contains(e) || e.0 == Ev::Changed, "a change was reported as another", "{hist}: {e:?}, made {want:?}");
        }
        c.seen("changes reported", want.len() as u64);
        c.seen("events received", got.len() as u64);
        c.distinct(&hist);
    }
    drop(w);
    std::fs::remove_dir_all(&top).ok();
    Ok(())
}

pub fn disk(run: &mut Run) {
    let base = scratch(run);
    // relative names lead nowhere but here
    let cwd = std::env::current_dir();
    std::env::set_current_dir(&base).unwrap();
    run.family("histories", 700, 15_000, |c| history(c, &base));
    run.family("links", 300, 3000, |c| links(c, &base));
    // no verdict about watching where the system offers none
    let fd = unsafe { libc::inotify_init() };
    if fd >= 0 {
        unsafe { libc::close(fd) };
        run.family("watching", 60, 800, |c| watching(c, &base));
    }
    if let Ok(d) = cwd {
        std::env::set_current_dir(d).ok();
    }
    std::fs::remove_dir_all(&base).ok();
}
