//! C34: the snapshot testers of oak-testing accept exactly the answer they recorded.
//!
//! The real testers run over scratch folders with the JSON lexer, parser and builder behind a wrapper ("twist") that can
//! alter what they answer. The monitor computes for itself what an answer looks like as a snapshot, and watches every file.
use oak_core::errors::{OakDiagnostics, OakError, OakErrorKind};
use oak_core::parser::{ParseCache, ParseOutput};
use oak_core::{Builder, BuilderCache, GreenNode, GreenTree, Lexer, LexerCache, ParseSession, Parser, Source, SourceText, TextEdit, Token, TokenType};
use oak_json::{JsonBuilder, JsonLanguage, JsonLexer, JsonParser, JsonTokenType};
use oak_testing::{building::BuilderTester, lexing::LexerTester, parsing::ParserTester};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use vcommon::*;

type L = JsonLanguage;

#[derive(Clone, Debug, PartialEq)]
enum Twist {
    Same,
    /// Answer for this text when asked for that one.
    Swap(String, String),
    Diag(String),
    Fatal(String),
    DropToken(usize),
    Kind(usize),
    Wider(usize),
    Slow(u64),
    /// Until told to stop.
    Endless,
    Panic,
}
static STOP: AtomicBool = AtomicBool::new(false);

fn lang() -> &'static L {
    static X: std::sync::OnceLock<L> = std::sync::OnceLock::new();
    X.get_or_init(L::default)
}
fn text_of<S: Source + ?Sized>(t: &S) -> String {
    t.get_text_in((0..t.length()).into()).to_string()
}

#[derive(Clone)]
struct W {
    t: Twist,
    /// The twist applies to this text only (None: to every text).
    on: Option<String>,
}
impl W {
    fn twist(&self, text: &str) -> Twist {
        match &self.on {
            Some(x) if x != text => Twist::Same,
            _ => {
                match self.t {
                    Twist::Slow(ms) => std::thread::sleep(Duration::from_millis(ms)),
                    Twist::Endless => {
                        while !STOP.load(Ordering::SeqCst) {
                            std::thread::sleep(Duration::from_millis(5));
                        }
                    }
                    Twist::Panic => panic!("the answer is a panic"),
                    _ => {}
                }
                self.t.clone()
            }
        }
    }
}
impl Lexer<L> for W {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _e: &[TextEdit], cache: &'a mut impl LexerCache<L>) -> oak_core::LexOutput<L> {
        let s = text_of(text);
        let mut o = JsonLexer::new(lang()).lex(text, &[], cache);
        match self.twist(&s) {
            Twist::Swap(a, b) => {
                // the tokens of another text, where they fit in this one
                let mut ss = ParseSession::<L>::default();
                let q = JsonLexer::new(lang()).lex(&SourceText::new(s.replacen(&a, &b, 1)), &[], &mut ss);
                if let Ok(t) = &q.result {
                    let v: Vec<Token<JsonTokenType>> = t.iter().filter(|t| t.span.end <= s.len() && s.is_char_boundary(t.span.start) && s.is_char_boundary(t.span.end)).cloned().collect();
                    o.result = Ok(v.into());
                }
                o.diagnostics = q.diagnostics;
            }
            Twist::Diag(m) => o.diagnostics.push(OakError::custom_error(m)),
            Twist::Fatal(m) => o.result = Err(OakError::custom_error(m)),
            Twist::DropToken(i) => {
                if let Ok(t) = &o.result {
                    let mut v: Vec<_> = t.iter().cloned().collect();
                    if !v.is_empty() {
                        v.remove(i % v.len());
                    }
                    o.result = Ok(v.into());
                }
            }
            Twist::Kind(i) => {
                if let Ok(t) = &o.result {
                    let mut v: Vec<_> = t.iter().cloned().collect();
                    if !v.is_empty() {
                        let k = i % v.len();
                        v[k].kind = if v[k].kind == JsonTokenType::Colon { JsonTokenType::Comma } else { JsonTokenType::Colon };
                    }
                    o.result = Ok(v.into());
                }
            }
            Twist::Wider(i) => {
                if let Ok(t) = &o.result {
                    let mut v: Vec<_> = t.iter().cloned().collect();
                    if !v.is_empty() {
                        let k = i % v.len();
                        // the next character belongs to the token as well (or its last one does not)
                        let e = v[k].span.end;
                        v[k].span.end = match s[e..].chars().next() {
                            Some(c) => e + c.len_utf8(),
                            None => s[..e].chars().next_back().map_or(e, |c| (e - c.len_utf8()).max(v[k].span.start)),
                        };
                    }
                    o.result = Ok(v.into());
                }
            }
            _ => {}
        }
        o
    }
}
fn add<T>(o: &mut OakDiagnostics<T>, t: &Twist) {
    match t {
        Twist::Diag(m) => o.diagnostics.push(OakError::custom_error(m.clone())),
        Twist::Fatal(m) => o.result = Err(OakError::custom_error(m.clone())),
        _ => {}
    }
}
impl Parser<L> for W {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, _e: &[TextEdit], cache: &'a mut impl ParseCache<L>) -> ParseOutput<'a, L> {
        let s = text_of(text);
        let t = self.twist(&s);
        let mut o = match &t {
            Twist::Swap(a, b) => JsonParser::new(lang()).parse(&*Box::leak(Box::new(SourceText::new(s.replacen(a, b, 1)))), &[], cache),
            _ => JsonParser::new(lang()).parse(text, &[], cache),
        };
        add(&mut o, &t);
        o
    }
}
impl Builder<L> for W {
    fn build<'a, S: Source + ?Sized>(&self, text: &S, _e: &[TextEdit], cache: &'a mut impl BuilderCache<L>) -> OakDiagnostics<oak_json::ast::JsonRoot> {
        let s = text_of(text);
        let t = self.twist(&s);
        let mut o = match &t {
            Twist::Swap(a, b) => JsonBuilder::new(lang()).build(&SourceText::new(s.replacen(a, b, 1)), &[], cache),
            _ => JsonBuilder::new(lang()).build(text, &[], cache),
        };
        add(&mut o, &t);
        o
    }
}

// ------------------------------------------------------------------ what a snapshot has to say

fn tree(n: &GreenNode<L>) -> Value {
    let mut kids = vec![];
    let (mut leaves, mut len) = (0u64, 0u64);
    for c in n.children {
        match c {
            GreenTree::Node(n) => kids.push(tree(n)),
            GreenTree::Leaf(l) => {
                leaves += 1;
                len += l.length as u64;
            }
        }
    }
    if leaves > 0 {
        kids.push(json!({"kind": format!("Leaves({leaves})"), "children": [], "text_length": len, "is_leaf": true}));
    }
    json!({"kind": format!("{:?}", n.kind), "children": kids, "text_length": n.text_len as u64, "is_leaf": false})
}
fn nodes(v: &Value) -> u64 {
    1 + v["children"].as_array().unwrap().iter().map(nodes).sum::<u64>()
}
/// The snapshot of what `w` answers for `text`, by the monitor's own reading.
fn want(kind: Kind, w: &W, text: &str) -> Value {
    let src = SourceText::new(text.to_string());
    let mut s = ParseSession::<L>::new(1024);
    fn errs<T>(o: &OakDiagnostics<T>) -> Vec<String> {
        let mut v: Vec<String> = o.diagnostics.iter().map(|e| e.to_string()).collect();
        if let Err(e) = &o.result {
            v.push(e.to_string());
        }
        v
    }
    match kind {
        Kind::Lex => {
            let o = w.lex(&src, &[], &mut s);
            let e = errs(&o);
            let toks: Vec<Value> = match &o.result {
                Ok(t) => t.iter().filter(|t| !t.kind.is_ignored()).map(|t| json!({"kind": format!("{:?}", t.kind), "text": &text[t.span.start..t.span.end], "start": t.span.start, "end": t.span.end})).collect(),
                Err(_) => vec![],
            };
            json!({"success": e.is_empty(), "count": toks.len(), "tokens": toks, "errors": e})
        }
        Kind::Parse => {
            let o = w.parse(&src, &[], &mut s);
            let e = errs(&o);
            let t = match &o.result {
                Ok(r) => tree(r),
                Err(_) => json!({"kind": "Error", "children": [], "text_length": 0, "is_leaf": true}),
            };
            json!({"success": o.result.is_ok(), "node_count": nodes(&t), "ast_structure": t, "errors": e})
        }
        Kind::Build => {
            let o = w.build(&src, &[], &mut s);
            let e = errs(&o);
            let t = match &o.result {
                Ok(r) => json!({"type_name": std::any::type_name::<oak_json::ast::JsonRoot>(), "content": serde_json::to_value(r).unwrap()}),
                Err(_) => Value::Null,
            };
            json!({"success": o.result.is_ok(), "typed_root": t, "errors": e})
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Lex,
    Parse,
    Build,
}
impl Kind {
    fn suffix(self) -> &'static str {
        match self {
            Kind::Lex => "lexed.json",
            Kind::Parse => "parsed.json",
            Kind::Build => "built.json",
        }
    }
}
fn run(kind: Kind, root: &Path, exts: &[&str], timeout: Duration, w: &W) -> Result<(), OakError> {
    macro_rules! go {
        ($t:ident) => {{
            let mut t = $t::new(root).with_timeout(timeout);
            for e in exts {
                t = t.with_extension(e);
            }
            t.run_tests::<L, W>(w)
        }};
    }
    match kind {
        Kind::Lex => go!(LexerTester),
        Kind::Parse => go!(ParserTester),
        Kind::Build => go!(BuilderTester),
    }
}
fn files(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                todo.push(p);
            } else {
                let b = std::fs::read(&p).unwrap();
                m.insert(p, b);
            }
        }
    }
    m
}
fn diff(a: &BTreeMap<PathBuf, Vec<u8>>, b: &BTreeMap<PathBuf, Vec<u8>>) -> String {
    let mut s = String::new();
    for (p, x) in a {
        match b.get(p) {
            None => s += &format!("{} is gone; ", p.display()),
            Some(y) if x != y => s += &format!("{} changed; ", p.display()),
            _ => {}
        }
    }
    for p in b.keys().filter(|p| !a.contains_key(*p)) {
        s += &format!("{} is new; ", p.display());
    }
    s
}

fn json_text(g: &mut Rng, depth: usize) -> String {
    match g.below(if depth == 0 { 6 } else { 9 }) {
        0 => g.pick(&["true", "false", "null"]).to_string(),
        1 => format!("{}", g.next() as i64 >> g.below(60)),
        2 => format!("{:?}", f64::from_bits(g.next() & 0xFFEF_FFFF_FFFF_FFFF)),
        3 => format!("{}", (g.next() % 100_000_000) as f64 / *g.pick(&[10.0, 1000.0, 7.0, 3e9])),
        4 | 5 => {
            let mut s = String::from("\"");
            for _ in 0..g.below(6) {
                s += *g.pick(&["a", "key", "\\n", "\\\"", "\\u00e9", "é", "😀", " ", "//", "\t", "\u{0}", "\\\\", "\\/", "\u{7f}", "{", "]"]);
            }
            s + if g.chance(1, 30) { "" } else { "\"" }
        }
        6 => {
            let n = g.below(4);
            let v: Vec<String> = (0..n).map(|_| json_text(g, depth - 1)).collect();
            format!("[{}]", v.join(*g.pick(&[",", ", ", " ,\n", ",,"])))
        }
        _ => {
            let n = g.below(4);
            let v: Vec<String> = (0..n).map(|i| format!("\"k{i}\"{}{}", g.pick(&[":", ": ", " :", ""]), json_text(g, depth - 1))).collect();
            format!("{{{}}}", v.join(*g.pick(&[",", ", ", ",\r\n"])))
        }
    }
}
fn doc(g: &mut Rng) -> String {
    let d = g.below(4);
    let mut s = json_text(g, d);
    if g.chance(1, 4) {
        s += *g.pick(&["\n", " ", "}", " // c", "\u{feff}", "@"]);
    }
    if g.chance(1, 12) {
        s.clear();
    }
    s
}

pub fn c34(r: &mut Run) {
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir()).join(format!("snapshots-{}-{}", std::process::id(), r.shard));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    unsafe { std::env::remove_var("REGENERATE_TESTS") };
    r.family("snapshots", 400, 12_000, |c| history(c, &base));
    r.family_exact("endless", 3, |c| endless(c, &base));
    let _ = std::fs::remove_dir_all(&base);
}

/// The limit is there for answers that never come.
fn endless(c: &mut Case, base: &Path) -> Check {
    let kind = [Kind::Lex, Kind::Parse, Kind::Build][c.index as usize % 3];
    let root = base.join(format!("e{}", c.index));
    std::fs::create_dir_all(&root).unwrap();
    std::fs::write(root.join("a.json"), "[1]").unwrap();
    c.input(format!("{kind:?} tester, limit 50 ms, over something that never answers"));
    c.distinct(&format!("{kind:?}"));
    STOP.store(false, Ordering::SeqCst);
    let (tx, rx) = std::sync::mpsc::channel();
    let r2 = root.clone();
    let h = std::thread::spawn(move || {
        let t = Instant::now();
        let r = run(kind, &r2, &["json"], Duration::from_millis(50), &W { t: Twist::Endless, on: None });
        let _ = tx.send((r, t.elapsed()));
    });
    let got = rx.recv_timeout(Duration::from_secs(5));
    STOP.store(true, Ordering::SeqCst);
    let _ = h.join();
    let now = files(&root);
    let _ = std::fs::remove_dir_all(&root);
    match got {
        Err(_) => return fail(format!("the limit of the {kind:?} tester does not stop an endless answer"), "no report within 5 s"),
        Ok((Ok(()), _)) => return fail("the tester passes over an endless answer", format!("{kind:?}")),
        Ok((Err(_), _)) => c.seen("endless answers given up", 1),
    }
    ensure!(now.len() == 1, "a run that gave up records something", "{:?}", now.keys());
    Ok(())
}

fn history(c: &mut Case, base: &Path) -> Check {
    let g = &mut c.rng;
    let kind = *g.pick(&[Kind::Lex, Kind::Parse, Kind::Build]);
    let root = base.join(format!("c{}", c.index));
    std::fs::create_dir_all(&root).unwrap();
    let done = Cleanup(root.clone());
    // files of all sorts, at any depth
    let exts: &[&str] = *g.pick(&[&["json"][..], &["json", "j5"][..], &["j5"][..], &["txt", "json"][..], &["JSON"][..]]);
    let mut sources: BTreeMap<PathBuf, String> = BTreeMap::new();
    for i in 0..1 + g.below(5) {
        let mut d = root.clone();
        for _ in 0..g.below(3) {
            d = d.join(*g.pick(&["a", "b", "lexer", "x.json", "sp ace", "é"]));
        }
        std::fs::create_dir_all(&d).unwrap();
        let name = format!("{}{i}{}", g.pick(&["f", "a.b", "ü", "expected"]), g.pick(&[".json", ".json", ".json", ".j5", ".txt", ".JSON", "", ".md", ".parsed.json", ".lexed.json", ".built.json", ".expected.json"]));
        let t = doc(g);
        std::fs::write(d.join(&name), &t).unwrap();
        sources.insert(d.join(&name), t);
    }
    let ignored = |n: &str| [".parsed.json", ".lexed.json", ".built.json", ".expected.json"].iter().any(|s| n.ends_with(s));
    let tested: Vec<PathBuf> = sources.keys().filter(|p| !ignored(&p.file_name().unwrap().to_string_lossy()) && p.extension().is_some_and(|e| exts.contains(&&*e.to_string_lossy()))).cloned().collect();
    let snap = |p: &Path| p.with_file_name(format!("{}.{}", p.file_name().unwrap().to_string_lossy(), kind.suffix()));
    let long = Duration::from_secs(60);
    let same = W { t: Twist::Same, on: None };
    let head = format!("{kind:?} tester, extensions {exts:?}, files {:?}", sources.iter().map(|(p, t)| (p.strip_prefix(&root).unwrap().display().to_string(), t.clone())).collect::<Vec<_>>());
    c.input(&head);
    c.distinct(&head);

    // ---- the first run records
    let before = files(&root);
    let mut runs = 1;
    let mut res = run(kind, &root, exts, long, &same);
    if kind == Kind::Parse {
        // the parser's tester stops at every snapshot it records, saying so
        while runs <= tested.len() + 1 {
            match res.as_ref().map_err(|e| e.kind()) {
                Ok(()) => break,
                Err(OakErrorKind::TestRegenerated { path }) => {
                    ensure!(path.exists() && tested.iter().any(|t| snap(t) == *path), "the tester says it recorded a snapshot that is none", "{}", path.display());
                }
                Err(e) => return fail("the run that records the snapshots fails", format!("{e:?}")),
            }
            res = run(kind, &root, exts, long, &same);
            runs += 1;
        }
        ensure_eq!(runs, tested.len() + 1, "the tester does not record every file once", "runs until it passed");
    }
    if let Err(e) = res {
        return fail("the run that records the snapshots fails", format!("{e:?}"));
    }
    let after = files(&root);
    let mut expected = before.clone();
    for t in &tested {
        let Some(b) = after.get(&snap(t)) else {
            return fail("a file has no snapshot after the run that records them", format!("{}", t.display()));
        };
        let v: Value = match serde_json::from_slice(b) {
            Ok(v) => v,
            Err(e) => return fail("a recorded snapshot is not JSON", format!("{e}")),
        };
        let w = want(kind, &same, &sources[t]);
        ensure!(same_json(&v, &w), "a recorded snapshot is not the answer", "{}: {v} instead of {w}", t.display());
        expected.insert(snap(t), b.clone());
    }
    ensure!(after == expected, "the run that records snapshots touches other files", "{}", diff(&expected, &after));
    c.seen("snapshots recorded", tested.len() as u64);

    // ---- later runs accept it and leave everything alone
    if let Err(e) = run(kind, &root, exts, long, &same) {
        return fail("a run over unchanged answers fails", format!("{e:?}"));
    }
    let now = files(&root);
    ensure!(now == after, "a run over unchanged answers changes files", "{}", diff(&after, &now));
    c.seen("runs over unchanged answers", 1);
    if tested.is_empty() {
        drop(done);
        return Ok(());
    }

    // ---- then something differs: an answer, a text, a snapshot
    for _ in 0..3 {
        let g = &mut c.rng;
        let f = tested[g.below(tested.len())].clone();
        let text = sources[&f].clone();
        let what;
        let mut w = same.clone();
        let mut on_disk = after.clone();
        let mut limit = long;
        let mut bad: Option<&'static str> = None; // fails whatever the answers are
        match g.below(12) {
            0 => {
                let t = doc(g);
                what = format!("{} now reads {t:?}", f.display());
                std::fs::write(&f, &t).unwrap();
                on_disk.insert(f.clone(), t.into_bytes());
            }
            1 => {
                // an edit of one character
                let mut cs: Vec<char> = text.chars().collect();
                let k = g.below(cs.len() + 1);
                match g.below(3) {
                    0 if k < cs.len() => {
                        cs.remove(k);
                    }
                    1 if k < cs.len() => cs[k] = *g.pick(&['1', ' ', 'x', '"', ',']),
                    _ => cs.insert(k, *g.pick(&['1', ' ', '\n', 'é', '"'])),
                }
                let t: String = cs.into_iter().collect();
                what = format!("{} now reads {t:?}", f.display());
                std::fs::write(&f, &t).unwrap();
                on_disk.insert(f.clone(), t.into_bytes());
            }
            2 | 3 => {
                // one place of the snapshot says something else
                let mut v: Value = serde_json::from_slice(&after[&snap(&f)]).unwrap();
                let how = vary(&mut v, g);
                what = format!("the snapshot of {} has {how}", f.display());
                let b = serde_json::to_vec_pretty(&v).unwrap();
                std::fs::write(snap(&f), &b).unwrap();
                on_disk.insert(snap(&f), b);
            }
            4 => {
                what = format!("the snapshot of {} is cut off", f.display());
                let mut b = after[&snap(&f)].clone();
                let k = g.below(b.len());
                b.truncate(k);
                std::fs::write(snap(&f), &b).unwrap();
                on_disk.insert(snap(&f), b);
                bad = Some("a cut-off snapshot");
            }
            5 => {
                what = format!("{} is not UTF-8", f.display());
                let b = b"\"\xff\xfe\"".to_vec();
                std::fs::write(&f, &b).unwrap();
                on_disk.insert(f.clone(), b);
                bad = Some("a file that is no text");
            }
            6 if g.chance(1, 2) => {
                what = "the answer takes longer than the limit".into();
                w.t = Twist::Slow(150);
                limit = Duration::from_millis(20);
                bad = Some("an answer over the time limit");
            }
            6 => {
                what = "the answer takes its time, within the limit".into();
                w.t = Twist::Slow(15);
            }
            7 => {
                what = "no answer but a panic".into();
                w.t = Twist::Panic;
                bad = Some("a panic");
            }
            k => {
                w.t = match (k, kind) {
                    (8, _) => Twist::Diag(g.pick(&["odd", "", "é\n"]).to_string()),
                    (9, _) => Twist::Fatal("no".into()),
                    (_, Kind::Lex) => match g.below(3) {
                        0 => Twist::DropToken(g.below(20)),
                        1 => Twist::Kind(g.below(20)),
                        _ => Twist::Wider(g.below(20)),
                    },
                    _ => {
                        let (a, b) = *g.pick(&[("1", "12"), (" ", ""), ("true", "false"), ("a", "b"), (",", ", "), ("[", "[1,"), ("}", "]"), ("\"", "\"x")]);
                        Twist::Swap(a.into(), b.into())
                    }
                };
                w.on = Some(text.clone());
                what = format!("the answer for {} is twisted: {:?}", f.display(), w.t);
            }
        }
        let all = format!("{head}; then {what}");
        c.input(&all);
        // which files does it differ for?
        let mut wrong = vec![];
        if bad.is_none() {
            for t in &tested {
                let now = String::from_utf8(on_disk[t].clone()).unwrap();
                let v: Value = serde_json::from_slice(&on_disk[&snap(t)]).unwrap();
                if !same_json(&v, &want(kind, &w, &now)) {
                    wrong.push(t.clone());
                }
            }
        }
        let force = bad.is_none() && c.rng.chance(1, 5);
        if force {
            unsafe { std::env::set_var("REGENERATE_TESTS", "1") };
        }
        let res = catch(|| run(kind, &root, exts, limit, &w));
        unsafe { std::env::remove_var("REGENERATE_TESTS") };
        let now = files(&root);
        if force {
            // asked to record anew: passes, and every snapshot is today's answer
            match res {
                Ok(Ok(())) => {}
                x => return fail("recording the snapshots anew fails", format!("{x:?}")),
            }
            for t in &tested {
                let text = String::from_utf8(on_disk[t].clone()).unwrap();
                let v: Value = serde_json::from_slice(&now[&snap(t)]).unwrap_or(Value::Null);
                let x = want(kind, &w, &text);
                ensure!(same_json(&v, &x), "a snapshot recorded anew is not the answer", "{}: {v} instead of {x}", t.display());
                on_disk.insert(snap(t), now[&snap(t)].clone());
            }
            c.seen("recorded anew", 1);
        } else if let Some(b) = bad {
            ensure!(!matches!(res, Ok(Ok(()))), format!("the tester passes over {b}"), "{}", what);
            c.seen(&format!("refused: {b}"), 1);
        } else {
            match (&res, wrong.is_empty()) {
                (Ok(Ok(())), true) => c.seen("harmless changes accepted", 1),
                (Ok(Ok(())), false) => return fail("the tester passes over a changed answer", format!("{what}; differs for {wrong:?}")),
                (Ok(Err(e)), false) => match e.kind() {
                    OakErrorKind::TestFailure { path, .. } => {
                        ensure!(wrong.contains(path), "the tester blames a file whose answer is as recorded", "{} instead of {wrong:?}", path.display());
                        c.seen("changed answers refused", 1);
                    }
                    // a snapshot whose shape is wrong cannot be read
                    k if what.starts_with("the snapshot of") => {
                        let _ = k;
                        c.seen("unreadable snapshots refused", 1);
                    }
                    k => return fail("a changed answer is reported as something else", format!("{k:?}")),
                },
                (Ok(Err(e)), true) => return fail("the tester refuses an answer that is as recorded", format!("{what}: {}", clip(&format!("{e:?}"), 1500))),
                (Err(p), _) => return fail("the tester panics", p.clone()),
            }
        }
        ensure!(now == on_disk, "a run that compares changes files", "{what}: {}", diff(&on_disk, &now));
        // put everything back
        for (p, b) in &after {
            if now.get(p) != Some(b) {
                std::fs::write(p, b).unwrap();
            }
        }
        c.distinct(&all);
    }
    // ---- a snapshot under its old name is taken over, not thrown away
    let g = &mut c.rng;
    let f = tested[g.below(tested.len())].clone();
    let old = f.with_extension("expected.json");
    if !old.exists() && !tested.iter().any(|t| *t != f && t.with_extension("") == f.with_extension("")) {
        let spoil = g.chance(1, 2);
        let mut v: Value = serde_json::from_slice(&after[&snap(&f)]).unwrap();
        if spoil {
            v["errors"] = json!(["something recorded long ago"]);
        }
        // (as it was: numbers could drift when read and written again)
        let b = if spoil { serde_json::to_vec(&v).unwrap() } else { after[&snap(&f)].clone() };
        std::fs::remove_file(snap(&f)).unwrap();
        std::fs::write(&old, &b).unwrap();
        let res = run(kind, &root, exts, long, &same);
        let mut on_disk = after.clone();
        on_disk.insert(snap(&f), b);
        let now = files(&root);
        ensure!(now == on_disk, "a snapshot under its old name is not taken over", "{}", diff(&on_disk, &now));
        ensure!(res.is_err() == spoil, "a snapshot under its old name is not compared", "{res:?}, altered: {spoil}");
        c.seen("old snapshots taken over", 1);
    }
    drop(done);
    Ok(())
}

/// Changes one place of a snapshot.
fn vary(v: &mut Value, g: &mut Rng) -> String {
    match v {
        Value::Object(m) if !m.is_empty() => {
            let k = m.keys().nth(g.below(m.len())).unwrap().clone();
            format!("{k}.{}", vary(m.get_mut(&k).unwrap(), g))
        }
        Value::Array(a) if !a.is_empty() => {
            let i = g.below(a.len());
            match g.below(4) {
                0 => {
                    a.remove(i);
                    format!("[{i}] removed")
                }
                1 => {
                    a.insert(i, a[i].clone());
                    format!("[{i}] twice")
                }
                _ => format!("[{i}].{}", vary(&mut a[i], g)),
            }
        }
        Value::Array(a) => {
            a.push(json!("x"));
            "one more".into()
        }
        Value::Bool(b) => {
            *b = !*b;
            "the opposite".into()
        }
        Value::Number(n) => {
            let k = n.as_f64().unwrap();
            *v = match n.as_i64() {
                Some(i) => json!(i.wrapping_add(1)),
                None => json!(k / 2.0 + 1.0),
            };
            "another number".into()
        }
        Value::String(s) => {
            s.push('~');
            "another text".into()
        }
        _ => {
            *v = json!({});
            "an object".into()
        }
    }
}
/// Is `a`, read from a file, what `b` says? (serde_json may read a number back as its neighbour.)
fn same_json(a: &Value, b: &Value) -> bool {
    *a == serde_json::from_str::<Value>(&b.to_string()).unwrap()
}
struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
