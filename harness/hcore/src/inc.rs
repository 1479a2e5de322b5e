//! C08: an incremental parse after any edit history is the parse a fresh session gives.
//! C10: a parse session never exposes or reuses a tree whose memory has been given back.
use crate::{
    src::{boundaries, random_edits, rg, show},
    toy::{self, Toy, ToyParser},
    tree::{M, PROGRAM, model_of, program},
};
use oak_core::{
    GreenNode, ParseCache, ParseSession, Parser, Source, SourceText, TextEdit,
    memory::arena::SyntaxArena,
    source::{ChunkedBuffer, RopeBuffer},
    tree::{GreenTree, TokenProvenance},
};
use vcommon::*;

const NAMES: &[&str] = &["x", "y", "foo", "é", "as", "xx", "bar1"];

/// A syntactically valid program (reuse happens only below trees without errors).
pub fn valid(g: &mut Rng, stmts: usize) -> String {
    let mut s = String::new();
    for _ in 0..stmts {
        stmt(g, 3, &mut s);
        s.push_str(*g.pick(&["\n", " ", "", "\n\n", " // n\n", " /* k */ "]));
    }
    s
}
fn name(g: &mut Rng) -> &'static str {
    loop {
        let n = *g.pick(NAMES);
        if n != "as" {
            return n;
        }
    }
}
fn stmt(g: &mut Rng, d: usize, s: &mut String) {
    match if d == 0 { g.below(4) } else { g.below(8) } {
        0 | 1 => {
            s.push_str(&format!("let {}", name(g)));
            if g.chance(4, 5) {
                s.push_str(" = ");
                ex(g, d, s);
            }
            s.push(';');
        }
        2 | 3 | 4 => {
            ex(g, d, s);
            s.push(';');
        }
        5 => {
            s.push_str(&format!("fn {}(", name(g)));
            for i in 0..g.below(3) {
                s.push_str(if i > 0 { ", " } else { "" });
                s.push_str(name(g));
            }
            s.push_str(") ");
            blk(g, d - 1, s);
        }
        6 => {
            s.push_str("if ");
            ex(g, 1, s);
            s.push(' ');
            blk(g, d - 1, s);
            if g.chance(1, 2) {
                s.push_str(" else ");
                blk(g, d - 1, s);
            }
        }
        _ => blk(g, d - 1, s),
    }
}
fn blk(g: &mut Rng, d: usize, s: &mut String) {
    s.push('{');
    for _ in 0..g.below(3) {
        s.push_str(*g.pick(&[" ", "\n  ", ""]));
        stmt(g, d, s);
    }
    s.push_str(*g.pick(&[" }", "\n}", "}"]));
}
fn ex(g: &mut Rng, d: usize, s: &mut String) {
    match if d == 0 { g.below(3) } else { g.below(11) } {
        10 => s.push_str("f()"),
        0 => s.push_str(name(g)),
        1 | 2 => s.push_str(*g.pick(&["1", "42", "\"s\"", "'é'"])),
        3 => {
            s.push('-');
            ex(g, d - 1, s)
        }
        4 => {
            s.push('(');
            ex(g, d - 1, s);
            s.push(')')
        }
        5 => {
            s.push_str("f(");
            ex(g, d - 1, s);
            s.push_str(", ");
            ex(g, d - 1, s);
            s.push(')')
        }
        6 => {
            s.push_str(name(g));
            s.push_str(" as ");
            s.push_str(name(g))
        }
        _ => {
            ex(g, d - 1, s);
            s.push_str(*g.pick(&[" + ", "*", " - ", "^", " / ", " = ", " == "]));
            ex(g, d - 1, s)
        }
    }
}

/// An edit batch biased towards the places where incremental parsing decides something.
fn edits(g: &mut Rng, t: &str) -> (Vec<TextEdit>, String) {
    let one = |lo: usize, hi: usize, p: String| (vec![TextEdit { span: rg(lo, hi), text: p.clone().into() }], format!("{}{}{}", &t[..lo], p, &t[hi..]));
    let toks = toy::reference_lex(t);
    match g.below(13) {
        // replace, grow, shrink or delete one token
        0 | 1 | 2 if toks.len() > 1 => {
            let k = toks[g.below(toks.len() - 1)];
            let p = match g.below(6) {
                0 => String::new(),
                1 => format!("{}{}", &t[k.1..k.2], g.pick(PROGRAM)),
                2 => format!("{}{}", g.pick(PROGRAM), &t[k.1..k.2]),
                3 => g.pick(NAMES).to_string(),
                _ => g.pick(PROGRAM).to_string(),
            };
            one(k.1, k.2, p)
        }
        // insert at a token edge
        3 | 4 if !toks.is_empty() => {
            let k = toks[g.below(toks.len())];
            one(k.1, k.1, if g.chance(1, 5) { "?".to_string() } else { g.pick(PROGRAM).to_string() })
        }
        // one character in or out
        5 | 6 => {
            let b = boundaries(t);
            let i = g.below(b.len());
            if g.chance(1, 2) && i + 1 < b.len() { one(b[i], b[i + 1], String::new()) } else { one(b[i], b[i], g.pick(&["x", "1", " ", "\n", "{", "}", "(", ";", "/", "*", "\"", "=", "e", "`", "?"]).to_string()) }
        }
        // a whole statement in
        7 | 8 => {
            let b = boundaries(t);
            let at = if g.chance(1, 3) { t.len() } else { *g.pick(&b) };
            let mut s = String::new();
            stmt(g, 2, &mut s);
            one(at, at, s)
        }
        // nothing changes, with or without an edit saying so
        9 => {
            if g.chance(1, 2) {
                return (vec![], t.to_string());
            }
            let b = boundaries(t);
            let (mut x, mut y) = (*g.pick(&b), *g.pick(&b));
            if x > y {
                std::mem::swap(&mut x, &mut y);
            }
            one(x, y, t[x..y].to_string())
        }
        // same kind, same length, other text
        10 => {
            let ids: Vec<_> = toks.iter().filter(|k| k.0 == toy::T::Ident).collect();
            if ids.is_empty() {
                return one(t.len(), t.len(), "x".into());
            }
            let k = ids[g.below(ids.len())];
            let p = if k.2 - k.1 == 2 { *g.pick(&["as", "xx", "éé", "fn"]) } else { *g.pick(&["let", "as", "y", "z"]) };
            one(k.1, k.2, p.to_string())
        }
        // a backtick in or out: what the one before it is depends on it
        11 if t.contains('`') => {
            let all: Vec<usize> = t.match_indices('`').map(|m| m.0).collect();
            let k = *g.pick(&all);
            if g.chance(1, 2) {
                return one(k, k + 1, String::new());
            }
            let b: Vec<usize> = boundaries(t).into_iter().filter(|&i| i > k).collect();
            let at = *g.pick(&b);
            one(at, at, "`".into())
        }
        _ => random_edits(g, t, PROGRAM, 4),
    }
}

/// Turns a number of a program into one under a backtick, which is an operator until another backtick follows anywhere.
fn with_raw(g: &mut Rng, mut t: String) -> String {
    let nums: Vec<usize> = toy::reference_lex(&t).into_iter().filter(|k| k.0 == toy::T::Number).map(|k| k.1).collect();
    if !nums.is_empty() {
        t.insert(*g.pick(&nums), '`');
    }
    t
}

fn parse_fresh(t: &str) -> (Option<M>, String) {
    let mut s = ParseSession::default();
    let o = ToyParser.parse(t, &[], &mut s);
    (o.result.as_ref().ok().map(|r| model_of(r)), format!("{:?} {:?}", o.result.as_ref().err(), o.diagnostics))
}

fn parse_inc<S: Source + ?Sized>(s: &S, e: &[TextEdit], c: &mut impl ParseCache<Toy>) -> (Option<M>, String) {
    let o = ToyParser.parse(s, e, c);
    (o.result.as_ref().ok().map(|r| model_of(r)), format!("{:?} {:?}", o.result.as_ref().err(), o.diagnostics))
}

fn seen(o: oak_core::ParseOutput<'_, Toy>) -> (Option<M>, String) {
    (o.result.as_ref().ok().map(|r| model_of(r)), format!("{:?} {:?}", o.result.as_ref().err(), o.diagnostics))
}

/// First difference of two trees, for the report.
pub fn diff(a: &M, b: &M) -> String {
    let (mut x, mut y) = (vec![], vec![]);
    a.flat(0, 0, &mut x);
    b.flat(0, 0, &mut y);
    let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
    format!("element {i}: {:?} vs fresh {:?}", x.get(i), y.get(i))
}

fn history(c: &mut Case, t0: String, steps: usize) -> Check {
    let mut t = t0;
    let mut log = format!("{:?}", clip(&t, 600));
    c.input(log.clone());
    let mut session = ParseSession::new(c.rng.below(20));
    let mut st = SourceText::new(t.clone());
    let mut rope = RopeBuffer::new(&t);
    let first = parse_inc(&st, &[], &mut session);
    ensure!(first == parse_fresh(&t), "first parse", "");
    let mode = c.rng.below(6);
    for _ in 0..steps {
        let (e, new) = edits(&mut c.rng, &t);
        log.push_str(&format!("; {}", clip(&show(&e), 600)));
        c.input(log.clone());
        st.apply_edits(&e);
        rope.apply_edits(&e);
        t = new;
        ensure_eq!(st.text(), &t[..], "edited source", "");
        let (c0, r0) = (toy::NODE_CALLS.get(), toy::NODE_RUNS.get());
        let got = match mode {
            0 => parse_inc(&st, &e, &mut session),
            1 => parse_inc(&rope, &e, &mut session),
            // the same through a borrowed session, and through the free functions
            2 => parse_inc(&st, &e, &mut &mut session),
            3 => seen(oak_core::parser::parse(&ToyParser, &toy::ToyLexer, &st, &e, &mut session)),
            4 => seen(oak_core::parser::parse_one_pass(&ToyParser, &st, &mut session)),
            _ => {
                let mut ch = ChunkedBuffer::new();
                let k = floor_char(&t, c.rng.below(t.len() + 1));
                ch.push_str(&t[..k]);
                ch.push_str(&t[k..]);
                parse_inc(&ch, &e, &mut session)
            }
        };
        let reused = (toy::NODE_CALLS.get() - c0) - (toy::NODE_RUNS.get() - r0);
        c.seen("nodes reused", reused);
        c.seen("incremental parses", 1);
        c.seen("incremental parses that reused nodes", (reused > 0) as u64);
        let want = parse_fresh(&t);
        if got.0 != want.0 {
            return fail("incremental tree differs from a fresh parse", format!("text {:?}; reused {reused}; {}", clip(&t, 800), match (&got.0, &want.0) {
                (Some(a), Some(b)) => diff(a, b),
                _ => "one parse failed".into(),
            }));
        }
        ensure_eq!(got.1, want.1, "incremental diagnostics differ from a fresh parse", "text {:?} reused {reused}", clip(&t, 800));
        c.distinct(&t);
    }
    Ok(())
}

/// The leaves of a session's tree with their provenance.
fn origins(s: &ParseSession<Toy>) -> Option<Vec<(toy::T, u32, Option<Option<TokenProvenance>>)>> {
    fn walk(n: &GreenNode<'_, Toy>, a: &SyntaxArena, out: &mut Vec<(toy::T, u32, Option<Option<TokenProvenance>>)>) {
        for x in n.children {
            match x {
                GreenTree::Node(n) => walk(n, a, out),
                GreenTree::Leaf(l) => out.push((l.kind, l.length, l.metadata.map(|i| a.get_metadata(i).cloned()))),
            }
        }
    }
    let mut out = vec![];
    walk(s.last_root()?, s.arena(), &mut out);
    Some(out)
}

fn provenance(c: &mut Case) -> Check {
    let n = c.rng.range(1, 8);
    let mut t = valid(&mut c.rng, n);
    let mut log = format!("{:?}", clip(&t, 600));
    let mut session = ParseSession::new(c.rng.below(20));
    parse_inc(&t[..], &[], &mut session);
    for _ in 0..c.rng.range(1, 6) {
        let (e, new) = edits(&mut c.rng, &t);
        log.push_str(&format!("; {}", clip(&show(&e), 600)));
        c.input(log.clone());
        t = new;
        let mut alone = ParseSession::default();
        let (c0, r0) = (toy::NODE_CALLS.get(), toy::NODE_RUNS.get());
        let got = parse_inc(&t[..], &e, &mut session);
        c.seen("nodes reused beside nodes with provenance", (toy::NODE_CALLS.get() - c0) - (toy::NODE_RUNS.get() - r0));
        let want = parse_inc(&t[..], &[], &mut alone);
        ensure!(got.0 == want.0, "incremental tree differs from a fresh parse", "text {:?}", clip(&t, 800));
        if got.0.is_none() {
            continue;
        }
        let (a, b) = (origins(&session).unwrap_or_default(), origins(&alone).unwrap_or_default());
        if let Some(i) = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)) {
            return fail("the provenance of a token differs from a fresh parse", format!("leaf {i}: {:?}, fresh {:?}; text {:?}", a.get(i), b.get(i), clip(&t, 800)));
        }
        c.seen("tokens with provenance", a.iter().filter(|x| x.2.is_some()).count() as u64);
        c.distinct(&t);
    }
    Ok(())
}

pub fn equivalence(r: &mut Run) {
    r.family("edits-of-valid-programs", 5000, 120_000, |c| {
        let n = if c.rng.chance(1, 40) { 60 } else { c.rng.range(1, 8) };
        let mut t = valid(&mut c.rng, n);
        if c.rng.chance(1, 4) {
            t = with_raw(&mut c.rng, t);
        }
        let steps = c.rng.range(1, 8);
        history(c, t, steps)
    });
    r.family("edits-of-arbitrary-text", 2500, 60_000, |c| {
        let t = program(&mut c.rng, 25);
        let steps = c.rng.range(1, 8);
        history(c, t, steps)
    });
    // leaves that say where their text comes from: a tree's provenance is in the arena the tree is in
    r.family("provenance", 1500, 30_000, |c| {
        toy::PROVENANCE.set(true);
        let x = provenance(c);
        toy::PROVENANCE.set(false);
        x
    });
    // texts of many arena chunks, and sessions that live long
    r.family("large-programs", 30, 1200, |c| {
        let n = c.rng.range(300, 3000);
        let t = valid(&mut c.rng, n);
        let steps = c.rng.range(2, 6);
        c.seen("bytes of large programs", t.len() as u64);
        history(c, t, steps)
    });
    r.family("long-sessions", 60, 2500, |c| {
        let n = c.rng.range(3, 12);
        let t = valid(&mut c.rng, n);
        let steps = c.rng.range(40, 120);
        history(c, t, steps)
    });
    // every small edit of small valid programs
    r.family("every-small-edit", 120, 3000, |c| {
        let n = c.rng.range(1, 3);
        let t = (0..20).map(|_| valid(&mut c.rng, n)).find(|t| t.len() <= 90).unwrap_or_else(|| "let a = f(1, b) as c;\n{ x; } ".to_string());
        let t = if c.rng.chance(1, 3) { with_raw(&mut c.rng, t) } else { t };
        c.distinct(&t);
        let bs = boundaries(&t);
        for (i, &lo) in bs.iter().enumerate() {
            for &hi in &bs[i..(i + 3).min(bs.len())] {
                for p in ["", "x", "as", "1", ";", "}", "{ ", "=", "+", "(", "/*", "\"", " ", "let ", "`", "?"] {
                    let mut new = t.clone();
                    new.replace_range(lo..hi, p);
                    let e = [TextEdit { span: rg(lo, hi), text: p.into() }];
                    c.input(format!("{t:?} then {}", show(&e)));
                    let mut s = ParseSession::default();
                    parse_inc(&t[..], &[], &mut s);
                    let (c0, r0) = (toy::NODE_CALLS.get(), toy::NODE_RUNS.get());
                    let got = parse_inc(&new[..], &e, &mut s);
                    let reused = (toy::NODE_CALLS.get() - c0) - (toy::NODE_RUNS.get() - r0);
                    c.seen("nodes reused", reused);
                    c.seen("incremental parses that reused nodes", (reused > 0) as u64);
                    c.seen("incremental parses", 1);
                    let want = parse_fresh(&new);
                    ensure!(got.0 == want.0, "incremental tree differs from a fresh parse", "text {new:?}; {:?}", got.0.as_ref().zip(want.0.as_ref()).map(|(a, b)| diff(a, b)));
                    ensure_eq!(got.1, want.1, "incremental diagnostics differ from a fresh parse", "text {new:?}");
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C10

/// Overwrites every chunk waiting in this thread's pool, as any other parse on the thread would.
pub fn scribble() {
    let n = if cfg!(miri) { 4 } else { 66 };
    let hold: Vec<SyntaxArena> = (0..n)
        .map(|_| {
            let a = SyntaxArena::new(1);
            if cfg!(miri) {
                a.alloc_slice_copy(&[0xDDu8; 512]);
            }
            else {
                a.alloc_slice_copy(&[0xDDu8; 65_000]);
            }
            a
        })
        .collect();
    drop(hold);
}

struct Tracked {
    s: ParseSession<Toy>,
    text: String,
    last_ok: Option<M>,
    /// whether the latest generation committed a tree
    fresh: bool,
    parses: u64,
}

impl Tracked {
    fn look(&self, log: &str, trees: &mut u64) -> Check {
        match (self.s.last_root(), &self.last_ok) {
            (Some(r), Some(m)) => {
                *trees += 1;
                ensure!(model_of(r) == *m, "the session's last tree is not the one it parsed", "{log}");
            }
            (Some(_), None) => return fail("the session reports a tree it never parsed", log.to_string()),
            (None, Some(_)) => ensure!(!self.fresh, "the session forgot the tree of its latest parse", "{log}"),
            (None, None) => {}
        }
        Ok(())
    }
}

pub fn lifetimes(r: &mut Run) {
    let small = cfg!(miri);
    r.family("session-histories", 1500, 30_000, |c| {
        let n = c.rng.range(1, 3);
        let mut ss: Vec<Tracked> = (0..n).map(|_| Tracked { s: ParseSession::new(c.rng.below(4)), text: String::new(), last_ok: None, fresh: false, parses: 0 }).collect();
        let mut log = String::new();
        let mut trees = 0;
        // the thread is busy: memory given back at the start of a parse is overwritten before the parser runs
        toy::SCRIBBLE.set(true);
        let steps = if small { 4 } else { c.rng.range(3, 14) };
        for _ in 0..steps {
            let i = c.rng.below(ss.len());
            match c.rng.below(12) {
                // a parse that ends without a tree
                0 | 1 | 2 => {
                    let x = &mut ss[i];
                    let at = if c.rng.chance(1, 2) { x.text.len() } else { 0 };
                    let p = format!("{}fatal fatal", if at == 0 { "" } else { "\n;" });
                    let e = [TextEdit { span: rg(at, at), text: p.clone().into() }];
                    x.text.insert_str(at, &p);
                    log.push_str(&format!("s{i}:fail@{at} "));
                    c.input(log.clone());
                    let want = parse_fresh(&x.text);
                    let got = parse_inc(&x.text[..], &e, &mut x.s);
                    ensure!(got == want, "parse differs from a fresh session", "{log}: {:?}", clip(&x.text, 600));
                    x.fresh = got.0.is_some();
                    if got.0.is_some() {
                        x.last_ok = got.0;
                    }
                    c.seen("parses without a tree", !x.fresh as u64);
                    x.parses += 1;
                }
                // the whole text anew
                3 | 4 => {
                    let x = &mut ss[i];
                    let new = if small { valid(&mut c.rng, 1) } else if c.rng.chance(1, 10) { valid(&mut c.rng, 120) } else { valid(&mut c.rng, 4) };
                    let e = [TextEdit { span: rg(0, x.text.len()), text: new.clone().into() }];
                    x.text = new;
                    log.push_str(&format!("s{i}:new{:?} ", clip(&x.text, 200)));
                    c.input(log.clone());
                    let e: &[TextEdit] = if x.parses == 0 { &[] } else { &e };
                    let got = parse_inc(&x.text[..], e, &mut x.s);
                    ensure!(got == parse_fresh(&x.text), "parse differs from a fresh session", "{log}: {:?}", clip(&x.text, 600));
                    x.fresh = got.0.is_some();
                    x.last_ok = got.0.or(x.last_ok.take());
                    x.parses += 1;
                }
                // generations started by hand
                5 => {
                    let k = c.rng.range(1, 2);
                    log.push_str(&format!("s{i}:prepare*{k} "));
                    c.input(log.clone());
                    for _ in 0..k {
                        ss[i].s.prepare_generation();
                        scribble();
                        ss[i].fresh = false;
                        if let (Some(o), Some(m)) = (ss[i].s.old_tree(), &ss[i].last_ok) {
                            ensure!(model_of(o) == *m, "the tree offered for reuse is not the one parsed", "{log}");
                        }
                    }
                    // the next parse must not see edits against a text it never saw
                    ss[i].parses = 0;
                    let t = valid(&mut c.rng, 1);
                    let x = &mut ss[i];
                    let e = [TextEdit { span: rg(0, x.text.len()), text: t.clone().into() }];
                    x.text = t;
                    let got = parse_inc(&x.text[..], &e, &mut x.s);
                    ensure!(got == parse_fresh(&x.text), "parse differs from a fresh session", "{log}: {:?}", clip(&x.text, 600));
                    x.fresh = got.0.is_some();
                    x.last_ok = got.0.or(x.last_ok.take());
                    x.parses += 1;
                }
                // the session moves to another thread, parses there, and comes back
                6 if !small => {
                    let x = ss.swap_remove(i);
                    log.push_str(&format!("s{i}:thread "));
                    c.input(log.clone());
                    let t = x.text.clone();
                    let (x, ok) = std::thread::spawn(move || {
                        let mut x = x;
                        toy::SCRIBBLE.set(true);
                        let got = parse_inc(&t[..], &[], &mut x.s);
                        let ok = got == parse_fresh(&t);
                        x.fresh = got.0.is_some();
                        x.last_ok = got.0.or(x.last_ok.take());
                        x.parses += 1;
                        (x, ok)
                    })
                    .join()
                    .map_err(|_| Fail { sig: "panic on another thread".into(), detail: log.clone() })?;
                    ensure!(ok, "parse differs from a fresh session", "{log} (other thread)");
                    c.seen("sessions moved across threads", 1);
                    ss.push(x);
                }
                7 => {
                    log.push_str(&format!("s{i}:drop "));
                    c.input(log.clone());
                    ss[i] = Tracked { s: ParseSession::new(1), text: String::new(), last_ok: None, fresh: false, parses: 0 };
                    scribble();
                }
                // an ordinary incremental parse
                _ => {
                    let x = &mut ss[i];
                    let (e, new) = edits(&mut c.rng, &x.text);
                    x.text = new;
                    log.push_str(&format!("s{i}:edit{} ", clip(&show(&e), 200)));
                    c.input(log.clone());
                    let (c0, r0) = (toy::NODE_CALLS.get(), toy::NODE_RUNS.get());
                    let got = parse_inc(&x.text[..], &e, &mut x.s);
                    c.seen("nodes reused", (toy::NODE_CALLS.get() - c0) - (toy::NODE_RUNS.get() - r0));
                    ensure!(got == parse_fresh(&x.text), "parse differs from a fresh session", "{log}: {:?}", clip(&x.text, 600));
                    x.fresh = got.0.is_some();
                    x.last_ok = got.0.or(x.last_ok.take());
                    x.parses += 1;
                }
            }
            for x in &ss {
                x.look(&log, &mut trees)?;
            }
        }
        c.distinct(&log);
        c.seen("held trees inspected", trees);
        Ok(())
    });
}
