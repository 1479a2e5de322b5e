//! C12: token navigation, backtracking and tree construction in the parser state match a plain list model.
use crate::{
    src::Views,
    toy::{self, E, T, Toy, ToyLexer},
    tree::{M, model_of, program, same_green},
};
use oak_core::{GreenNode, Lexer, OakError, OakErrorKind, ParseSession, ParserState, Source, TokenType, memory::arena::SyntaxArena};
use vcommon::*;

#[derive(Clone)]
struct Mo<'t> {
    text: &'t str,
    toks: &'t [(T, usize, usize)],
    i: usize,
    sink: Vec<M>,
    errors: Vec<(&'static str, usize)>,
}
impl Mo<'_> {
    fn trivia(&mut self) {
        while let Some(&(k, a, b)) = self.toks.get(self.i) {
            if !k.is_ignored() {
                break;
            }
            self.sink.push(M::Leaf(k, b - a, None));
            self.i += 1;
        }
    }
    fn kind(&self) -> Option<T> {
        self.toks.get(self.i).map(|t| t.0)
    }
    fn off(&self) -> usize {
        self.toks.get(self.i).map_or(self.text.len(), |t| t.1)
    }
    fn advance(&mut self) {
        self.i += 1;
        self.trivia();
    }
    fn bump(&mut self) {
        if let Some(&(k, a, b)) = self.toks.get(self.i) {
            self.sink.push(M::Leaf(k, b - a, None));
            self.advance();
        }
    }
}

fn err_of(e: &OakError) -> (&'static str, usize) {
    match e.kind() {
        OakErrorKind::SyntaxError { offset, .. } => ("syntax", *offset),
        OakErrorKind::UnexpectedToken { offset, .. } => ("unexpected", *offset),
        OakErrorKind::ExpectedToken { offset, .. } => ("expected", *offset),
        OakErrorKind::ExpectedName { offset, .. } => ("name", *offset),
        OakErrorKind::TrailingCommaNotAllowed { offset, .. } => ("comma", *offset),
        OakErrorKind::UnexpectedEof { offset, .. } => ("eof", *offset),
        _ => ("other", 0),
    }
}

const KINDS: &[T] = &[T::Ident, T::Number, T::Semi, T::LParen, T::RBrace, T::KwLet, T::Eq, T::Eof, T::Ws];

struct Ctx<'a, 't> {
    log: String,
    ops: u64,
    restores: u64,
    failed_tries: u64,
    nodes: Vec<(&'a GreenNode<'a, Toy>, M)>,
    _p: std::marker::PhantomData<&'t ()>,
}

fn same<S: Source + ?Sized>(s: &ParserState<'_, Toy, S>, m: &Mo, cx: &Ctx) -> Check {
    let l = &cx.log;
    ensure_eq!(s.checkpoint(), (m.i, m.sink.len()), "position and tree length", "{l}");
    ensure_eq!(s.peek_kind(), m.kind(), "current token", "{l}");
    ensure_eq!(s.current().map(|t| (t.kind, t.span.start, t.span.end)), m.toks.get(m.i).copied(), "current token", "{l}");
    ensure_eq!(s.current_offset(), m.off(), "current offset", "{l}");
    ensure_eq!(s.not_at_end(), m.i < m.toks.len(), "not_at_end", "{l}");
    ensure_eq!(s.peek_text().map(|x| x.into_owned()), m.toks.get(m.i).map(|t| m.text[t.1..t.2].to_string()), "peek_text", "{l}");
    let got: Vec<_> = s.errors.iter().map(err_of).collect();
    ensure_eq!(got, m.errors, "recorded errors", "{l}");
    Ok(())
}

/// Runs random operations on the state and on the model alike.
fn ops<'a, S: Source + ?Sized>(g: &mut Rng, s: &mut ParserState<'a, Toy, S>, m: &mut Mo, n: usize, depth: usize, floor: usize, cx: &mut Ctx<'a, '_>) -> Check {
    // checkpoints usable from here: (token, sink)
    let mut cps: Vec<((usize, usize), (usize, usize))> = vec![];
    for _ in 0..n {
        cx.ops += 1;
        if cx.log.len() > 3000 {
            let k = floor_char(&cx.log, cx.log.len() - 1500);
            cx.log = cx.log[k..].to_string();
        }
        match g.below(26) {
            0 | 1 | 2 | 3 => {
                cx.log.push_str("bump ");
                s.bump();
                m.bump();
            }
            4 => {
                cx.log.push_str("advance ");
                s.advance();
                m.advance();
            }
            5 => {
                let k = *g.pick(KINDS);
                cx.log.push_str(&format!("eat {k:?} "));
                let want = m.kind() == Some(k);
                ensure_eq!((s.at(k), s.not_at(k)), (want, !want), "at/not_at", "{}", cx.log);
                let got = s.eat(k);
                if want {
                    m.bump();
                }
                ensure_eq!(got, want, "eat", "{}", cx.log);
            }
            6 => {
                let k = *g.pick(KINDS);
                cx.log.push_str(&format!("expect {k:?} "));
                let got = s.expect(k);
                if m.kind() == Some(k) {
                    m.bump();
                    ensure!(got.is_ok(), "expect", "{}", cx.log);
                }
                else {
                    let e = ("expected", m.off());
                    m.errors.push(e);
                    ensure_eq!(got.err().map(|x| err_of(&x)), Some(e), "expect", "{}", cx.log);
                }
            }
            7 => {
                let k = g.below(6);
                cx.log.push_str(&format!("peek {k} "));
                let t = m.toks.get(m.i + k).copied();
                ensure_eq!(s.peek_at(k).map(|t| (t.kind, t.span.start, t.span.end)), t, "peek_at", "{}", cx.log);
                ensure_eq!(s.peek_kind_at(k), t.map(|t| t.0), "peek_kind_at", "{}", cx.log);
                let rest: Vec<_> = m.toks[m.i.min(m.toks.len())..].iter().filter(|t| !t.0.is_ignored()).copied().collect();
                ensure_eq!(s.peek_non_trivia_at(k).map(|t| (t.kind, t.span.start, t.span.end)), rest.get(k).copied(), "peek_non_trivia_at", "{}", cx.log);
                ensure_eq!(s.peek_non_trivia_kind_at(k), rest.get(k).map(|t| t.0), "peek_non_trivia_kind_at", "{}", cx.log);
            }
            8 if g.chance(1, 4) => {
                let k = *g.pick(KINDS);
                cx.log.push_str(&format!("until {k:?} "));
                s.advance_until(k);
                while m.i < m.toks.len() && m.kind() != Some(k) {
                    m.advance();
                }
            }
            9 if g.chance(1, 4) => {
                let ks: Vec<T> = (0..if g.chance(1, 6) { g.below(16) } else { g.below(3) }).map(|_| *g.pick(KINDS)).collect();
                let ks = &ks[..];
                cx.log.push_str(&format!("until-any {ks:?} "));
                s.advance_until_any(ks);
                while m.i < m.toks.len() && !m.kind().is_some_and(|k| ks.contains(&k)) {
                    m.advance();
                }
            }
            10 | 11 => {
                cx.log.push_str("cp ");
                cps.push((s.checkpoint(), (m.i, m.sink.len())));
            }
            12 | 13 => {
                if !cps.is_empty() {
                    let i = g.below(cps.len());
                    let (a, b) = cps[i];
                    cps.truncate(i + g.below(2));
                    cx.log.push_str(&format!("restore{b:?} "));
                    cx.restores += 1;
                    s.restore(a);
                    m.i = b.0;
                    m.sink.truncate(b.1);
                }
            }
            14 | 15 => {
                let k = *g.pick(&[E::Block, E::Expr, E::Atom, E::Bad]);
                let (a, b) = if cps.is_empty() {
                    let at = g.range(floor, m.sink.len());
                    ((m.i, at), (m.i, at))
                }
                else {
                    let i = g.below(cps.len());
                    let x = cps[i];
                    cps.truncate(i + 1);
                    x
                };
                cps.retain(|c| c.1.1 <= b.1);
                cx.log.push_str(&format!("finish{b:?} {k:?} "));
                let n = s.finish_at(a, k);
                let kids = m.sink.split_off(b.1);
                m.sink.push(M::Node(k, kids));
                let mm = m.sink.last().unwrap().clone();
                same_green(n, &mm, None)?;
                cx.nodes.push((n, mm));
            }
            16 => {
                // wrap a node that is already in the tree (as infix parsing does); others go at the end
                if let Some(i) = (floor..m.sink.len()).rev().find(|&i| matches!(m.sink[i], M::Node(..))) {
                    let mm = m.sink[i].clone();
                    // equal subtrees may be several nodes: wrap only one known to sit at that place
                    let cand: Vec<_> = cx.nodes.iter().filter(|x| x.1 == mm).map(|x| x.0).collect();
                    if cand.len() == 1 {
                        cx.log.push_str(&format!("before#{i} "));
                        let cp = s.checkpoint_before(cand[0]);
                        ensure_eq!(cp.1, i, "checkpoint_before", "{}", cx.log);
                        cps.retain(|c| c.1.1 <= i);
                        let n = s.finish_at(cp, E::Binary);
                        let kids = m.sink.split_off(i);
                        m.sink.push(M::Node(E::Binary, kids));
                        cx.nodes.push((n, m.sink.last().unwrap().clone()));
                    }
                }
            }
            17 => {
                if !cx.nodes.is_empty() && m.sink.len() < 60 {
                    let i = g.below(cx.nodes.len());
                    if cx.nodes[i].1.len() < 5000 {
                        cx.log.push_str(&format!("push#{i} "));
                        let n = if g.chance(1, 2) { s.promote(cx.nodes[i].0) } else { cx.nodes[i].0 };
                        same_green(n, &cx.nodes[i].1, None)?;
                        s.push_child(n);
                        m.sink.push(cx.nodes[i].1.clone());
                        // two places now hold equal subtrees
                        let dup = (cx.nodes[i].0, cx.nodes[i].1.clone());
                        cx.nodes.push(dup);
                    }
                }
            }
            18 | 19 | 20 if depth < 3 => {
                let with = g.chance(1, 2);
                let fails = g.chance(1, 2);
                cx.log.push_str(if with { "tryE( " } else { "try( " });
                let before = m.clone();
                let k = g.below(8);
                let mut inner = Ok(());
                let f = |s: &mut ParserState<'a, Toy, S>| {
                    let fl = m.sink.len();
                    inner = ops(g, s, m, k, depth + 1, fl, cx);
                    if fails { Err(OakError::custom_error("no")) } else { Ok(7u32) }
                };
                let got = if with { s.try_parse_with_error(f) } else { s.try_parse(f) };
                inner?;
                cx.log.push_str(if fails { ")! " } else { ") " });
                ensure_eq!(got.as_ref().ok().copied(), (!fails).then_some(7), "try result", "{}", cx.log);
                if fails {
                    cx.failed_tries += 1;
                    m.i = before.i;
                    m.sink.truncate(before.sink.len());
                    if !with {
                        // only the variant that says so keeps what the attempt recorded
                        m.errors.truncate(before.errors.len());
                    }
                    ensure!(m.sink == before.sink, "harness: the attempt touched what was there before", "{}", cx.log);
                }
            }
            21 if depth < 3 => {
                // a node around nested operations (nothing to reuse here), possibly failing
                let k = g.below(6);
                let how = g.below(5);
                cx.log.push_str(&format!("inc{how}( "));
                let cp = m.sink.len();
                let mut inner = Ok(());
                let e = || Err(OakError::custom_error("no"));
                if how < 2 {
                    let r = s.incremental_node(E::Args, |s| {
                        inner = ops(g, s, m, k, depth + 1, cp, cx);
                        if how == 0 { Ok(()) } else { e() }
                    });
                    ensure_eq!(r.is_ok(), how == 0, "incremental_node result", "{}", cx.log);
                }
                else {
                    let r = s.incremental_opt(E::Args, |s| {
                        inner = ops(g, s, m, k, depth + 1, cp, cx);
                        match how {
                            2 => Ok(true),
                            3 => Ok(false),
                            _ => e().map(|_: ()| true),
                        }
                    });
                    ensure_eq!(r.ok(), [Some(true), Some(false), None][how - 2], "incremental_opt result", "{}", cx.log);
                }
                inner?;
                cx.log.push_str(") ");
                if how != 3 {
                    let kids = m.sink.split_off(cp);
                    m.sink.push(M::Node(E::Args, kids));
                }
            }
            22 => {
                // a nested state works on its own
                cx.log.push_str("nested ");
                let mut n = s.nested();
                ensure_eq!(n.checkpoint(), (m.i, 0), "nested state", "{}", cx.log);
                let mut mm = Mo { sink: vec![], errors: vec![], ..m.clone() };
                for _ in 0..g.below(5) {
                    n.bump();
                    mm.bump();
                }
                n.record_expected("x");
                mm.errors.push(("expected", mm.off()));
                same(&n, &mm, cx)?;
                let r = n.finish_at((0, 0), E::Root);
                same_green(r, &M::Node(E::Root, mm.sink), None)?;
            }
            23 => {
                let o = m.off();
                let end = m.text.len();
                let (name, at) = match g.below(7) {
                    0 => {
                        let e = s.syntax_error("m");
                        ensure_eq!(err_of(&e), ("syntax", o), "returned error", "{}", cx.log);
                        ("syntax", o)
                    }
                    1 => {
                        s.record_unexpected_token("t");
                        ("unexpected", o)
                    }
                    2 => {
                        s.record_expected("t");
                        ("expected", o)
                    }
                    3 => {
                        s.record_expected_name("t");
                        ("name", o)
                    }
                    4 => {
                        s.record_trailing_comma_not_allowed();
                        ("comma", o)
                    }
                    5 => {
                        s.record_unexpected_eof();
                        ("eof", end)
                    }
                    _ => {
                        let e = s.unexpected_eof();
                        ensure_eq!(err_of(&e), ("eof", end), "returned error", "{}", cx.log);
                        ("eof", end)
                    }
                };
                m.errors.push((name, at));
                cx.log.push_str(&format!("err:{name} "));
            }
            _ => {
                s.skip_trivia();
                m.trivia();
            }
        }
        same(s, m, cx)?;
    }
    Ok(())
}

pub fn backtracking(r: &mut Run) {
    r.family("operation-histories", 12_000, 250_000, |c| {
        let n = if c.rng.chance(1, 40) { 300 } else { 20 };
        let mut t = program(&mut c.rng, n);
        if c.rng.chance(1, 20) {
            // a long run of comments and blanks
            let at = floor_char(&t, c.rng.below(t.len() + 1));
            t.insert_str(at, &" /* c */ // d\n".repeat(c.rng.range(10, 120)));
        }
        let cuts = crate::src::random_cuts(&mut c.rng, &t, 4);
        let v = Views::new(&t, &cuts, 77);
        let toks = toy::reference_lex(&t);
        let steps = c.rng.range(1, if n > 100 { 400 } else { 60 });
        let which = c.rng.below(6);
        let seed = c.rng.next();
        c.input(format!("{t:?} ops seed {seed} steps {steps}"));
        c.distinct(&(t.clone(), seed));
        let mut j = 0;
        let mut tot = (0, 0, 0);
        v.each(|nm, src| {
            j += 1;
            if j - 1 != which && !(which >= 5 && j == 1) {
                return Ok(());
            }
            let arena = SyntaxArena::new(4);
            let mut session = ParseSession::<Toy>::default();
            let out = ToyLexer.lex(src, &[], &mut session);
            let lexical = out.diagnostics.len();
            let mut s: ParserState<'_, Toy, dyn Source> = ParserState::new(&arena, out, src, 8);
            ensure_eq!(s.errors.len(), lexical, "lexical errors are carried over", "{nm}");
            s.errors.clear();
            let mut m = Mo { text: &t, toks: &toks, i: 0, sink: vec![], errors: vec![] };
            m.trivia();
            let mut cx = Ctx { log: String::new(), ops: 0, restores: 0, failed_tries: 0, nodes: vec![], _p: Default::default() };
            same(&s, &m, &cx)?;
            ensure!(std::ptr::eq(s.arena(), &arena), "the state's arena", "{nm}");
            let mut g = Rng::new(seed);
            // a root closed at the first checkpoint starts after the trivia skipped there
            let (first, lead) = if seed % 4 == 0 { (s.checkpoint(), m.sink.len()) } else { ((0, 0), 0) };
            ops(&mut g, &mut s, &mut m, steps, 0, lead, &mut cx)?;
            let root = s.finish_at(first, E::Root);
            let skipped: Vec<M> = m.sink.drain(..lead).collect();
            same_green(root, &M::Node(E::Root, m.sink.clone()), None).map_err(|f| Fail { detail: format!("{} after {}", f.detail, cx.log), ..f })?;
            for (n, mm) in &cx.nodes {
                ensure!(model_of(n) == *mm, "a finished node changed later", "{}", cx.log);
            }
            let done = if seed % 7 == 3 { s.finish(Err(OakError::custom_error("gone"))) } else { s.finish(Ok(root)) };
            ensure_eq!(done.result.is_err(), seed % 7 == 3, "result", "{nm}");
            let length: usize = skipped.iter().chain(&m.sink).map(|x| x.len()).sum();
            if let Ok(end) = done.result
                && (lead == 0 || length == m.off())
            {
                // nothing was dropped on the way: the result covers the text from its very start
                let all: Vec<M> = skipped.into_iter().chain(m.sink.iter().cloned()).collect();
                same_green(end, &M::Node(E::Root, all), None).map_err(|f| Fail { detail: format!("result: {} after {}", f.detail, cx.log), ..f })?;
            }
            ensure_eq!(done.diagnostics.iter().map(err_of).collect::<Vec<_>>(), m.errors, "diagnostics of the result", "{}", cx.log);
            tot = (cx.ops, cx.restores, cx.failed_tries);
            Ok(())
        })?;
        c.seen("operations", tot.0);
        c.seen("restores", tot.1);
        c.seen("failed attempts undone", tot.2);
        Ok(())
    });
}
