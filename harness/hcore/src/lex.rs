//! C04: the scanning toolkit tiles the text and matches a character-level reference under any chunk layout.
//! C05: relexing after edits gives exactly the tokens of a fresh lex.
use crate::{
    src::{Views, boundaries, random_cuts, random_edits, rg, show},
    toy::{self, T, Toy, ToyLexer},
};
use oak_core::{
    LexOutput, Lexer, LexerCache, LexerState, ParseSession, Source, SourceText, TextEdit, Token,
    lexer::{CommentConfig, StringConfig, WhitespaceConfig, scan_comment, scan_identifier},
    source::{ChunkedBuffer, RopeBuffer},
};
use vcommon::*;

pub const TOY: &[&str] = &[
    "let", "fn", "if", "else", "x", "y1", "_z", "é", "中文", "1", "42", "\"s\"", "'q'", "\"", "'", "\\", "+", "-", "*", "/", "^", "=", "==", "!", "?", "(", ")", "{", "}", ";", ",", " ", "  ", "\n", "\t", "//", "/*", "*/", "// c\n", "/* b */", "@", "𝄞", "#", "\u{a0}", "fatal",
];

fn spans(toks: &[Token<T>]) -> Vec<(T, usize, usize)> {
    toks.iter().map(|t| (t.kind, t.span.start, t.span.end)).collect()
}

pub fn fresh_lex<S: Source + ?Sized>(s: &S) -> Result<Vec<(T, usize, usize)>, Fail> {
    let mut cache = ParseSession::<Toy>::default();
    let out = ToyLexer.lex(s, &[], &mut cache);
    match out.result {
        Ok(t) => Ok(spans(&t)),
        Err(e) => fail("lexing failed", format!("{e}")),
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Copy, Debug)]
enum Op {
    Comment(usize),
    Str(usize),
    Space(bool),
    Ident,
    Line(&'static str),
    Block(&'static str, &'static str),
    Digits,
    Until(u8),
    While(u8),
    WhileByte(u8),
    Bump,
    Consume(&'static str),
    Peek,
    DeadLock,
    With,
    Seek,
}

const COMMENTS: [CommentConfig; 6] = [
    CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: false },
    CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true },
    CommentConfig { line_marker: "#", block_start: "{-", block_end: "-}", nested_blocks: true },
    CommentConfig { line_marker: "", block_start: "<!--", block_end: "-->", nested_blocks: false },
    CommentConfig { line_marker: "--", block_start: "", block_end: "", nested_blocks: false },
    CommentConfig { line_marker: "", block_start: "{-", block_end: "", nested_blocks: true },
];
const STRINGS: [StringConfig; 5] = [
    StringConfig { quotes: &['"', '\''], escape: Some('\\') },
    StringConfig { quotes: &['"'], escape: None },
    StringConfig { quotes: &['«', '"'], escape: Some('\\') },
    StringConfig { quotes: &['`'], escape: Some('é') },
    StringConfig { quotes: &['\''], escape: Some('^') },
];
const PIECES: &[&str] = &[
    "//", "/*", "*/", "#", "{-", "-}", "<!--", "-->", "--", "\"", "'", "«", "`", "\\", "é", "^", "a", "Z9", "_", "7", " ", "\t", "\n", "\r\n", "\u{2003}", "中", "𝄞", "*", "/", "-", "<", "word", "123456", "\"ab\\\"c\"", "/* x */", "                                        ",
];

fn random_op(g: &mut Rng) -> Op {
    match g.below(22) {
        0..=2 => Op::Comment(g.below(COMMENTS.len())),
        3..=5 => Op::Str(g.below(5)),
        6 => Op::Space(false),
        7 => Op::Space(true),
        8 => Op::Ident,
        9 => Op::Line(*g.pick(&["//", "#", "--", "中"])),
        10 | 11 => {
            let (a, b) = *g.pick(&[("/*", "*/"), ("{-", "-}"), ("<!--", "-->"), ("«", "`"), ("--", "--"), ("/*", "**/")]);
            Op::Block(a, b)
        }
        12 => Op::Digits,
        13 => Op::Until(*g.pick(b"\n*\"a")),
        14 => Op::While(g.below(3) as u8),
        15 => Op::WhileByte(g.below(2) as u8),
        16 => Op::Bump,
        17 => Op::Consume(*g.pick(&["//", "/*", "-->", "\"", "é", "word", "𝄞"])),
        18 => Op::Peek,
        19 => Op::DeadLock,
        20 => Op::With,
        _ => Op::Seek,
    }
}

/// The reference: returns (matched, new position, token pushed).
fn reference(op: Op, t: &str, pos: usize) -> (bool, usize, Option<T>) {
    let rest = &t[pos..];
    let line = |n: usize| pos + n + rest[n..].find('\n').unwrap_or(rest.len() - n);
    match op {
        Op::Comment(i) => {
            let c = &COMMENTS[i];
            if !c.line_marker.is_empty() && rest.starts_with(c.line_marker) {
                return (true, line(c.line_marker.len()), Some(T::LineComment));
            }
            if !c.block_start.is_empty() && rest.starts_with(c.block_start) {
                let mut p = c.block_start.len();
                let mut d = 1;
                while d > 0 && p < rest.len() {
                    if c.nested_blocks && rest[p..].starts_with(c.block_start) {
                        d += 1;
                        p += c.block_start.len()
                    }
                    else if !c.block_end.is_empty() && rest[p..].starts_with(c.block_end) {
                        d -= 1;
                        p += c.block_end.len()
                    }
                    else {
                        p += rest[p..].chars().next().unwrap().len_utf8()
                    }
                }
                return (true, pos + p, Some(T::BlockComment));
            }
            (false, pos, None)
        }
        Op::Str(i) => {
            let c = &STRINGS[i];
            let Some(q) = rest.chars().next().filter(|q| c.quotes.contains(q))
            else {
                return (false, pos, None);
            };
            let mut it = rest.char_indices();
            it.next();
            while let Some((p, ch)) = it.next() {
                if Some(ch) == c.escape {
                    it.next();
                }
                else if ch == q {
                    return (true, pos + p + q.len_utf8(), Some(T::Str));
                }
            }
            (true, t.len(), Some(T::Str))
        }
        Op::Space(u) => {
            let n: usize = rest.chars().take_while(|c| if u { c.is_whitespace() } else { " \t\r\n".contains(*c) }).map(|c| c.len_utf8()).sum();
            (n > 0, pos + n, (n > 0).then_some(T::Ws))
        }
        Op::Ident => {
            let ok = rest.chars().next().is_some_and(|c| c == '_' || c.is_ascii_alphabetic());
            let n = if ok { rest.bytes().take_while(|c| *c == b'_' || c.is_ascii_alphanumeric()).count() } else { 0 };
            (ok, pos + n, ok.then_some(T::Ident))
        }
        Op::Line(p) => {
            if rest.starts_with(p) {
                (true, line(p.len()), Some(T::LineComment))
            }
            else {
                (false, pos, None)
            }
        }
        Op::Block(a, b) => {
            if rest.starts_with(a) {
                let n = rest[a.len()..].find(b).map(|x| a.len() + x + b.len()).unwrap_or(rest.len());
                (true, pos + n, Some(T::BlockComment))
            }
            else {
                (false, pos, None)
            }
        }
        Op::Consume(p) => (rest.starts_with(p), pos + if rest.starts_with(p) { p.len() } else { 0 }, None),
        _ => unreachable!(),
    }
}

fn toolkit_walk<S: Source + ?Sized>(nm: &str, s: &S, t: &str, seed: u64, n: &mut [u64; 2]) -> Check {
    let mut g = Rng::new(seed);
    let mut st = LexerState::<'_, S, Toy>::new(s);
    let mut pos = 0usize;
    let mut want: Vec<(T, usize, usize)> = vec![];
    let b = boundaries(t);
    for _ in 0..60 {
        let rest = &t[pos..];
        let op = random_op(&mut g);
        n[0] += 1;
        match op {
            Op::Digits => {
                let k = rest.bytes().take_while(|c| c.is_ascii_digit()).count();
                ensure_eq!(st.skip_ascii_digits(), rg(pos, pos + k), "digits", "{nm} at {pos}");
                pos += k;
            }
            Op::Until(x) => {
                let k = rest.bytes().take_while(|c| *c != x).count();
                ensure_eq!(st.skip_until(x), rg(pos, pos + k), "skip until", "{nm} at {pos}");
                pos += k;
            }
            Op::While(m) => {
                let f = |c: char| match m {
                    0 => c.is_alphanumeric(),
                    1 => c != '"',
                    _ => c.is_whitespace(),
                };
                let k: usize = rest.chars().take_while(|&c| f(c)).map(|c| c.len_utf8()).sum();
                ensure_eq!(st.take_while(f), rg(pos, pos + k), "take while", "{nm} at {pos}");
                pos += k;
            }
            Op::WhileByte(m) => {
                let f = |c: u8| if m == 0 { c.is_ascii_alphanumeric() } else { c != b'\n' };
                let k = rest.bytes().take_while(|&c| f(c)).count();
                ensure_eq!(st.take_while_byte(f), rg(pos, pos + k), "take while byte", "{nm} at {pos}");
                pos += k;
            }
            Op::Bump => {
                let c = rest.chars().next();
                ensure_eq!(st.bump(), c, "bump", "{nm} at {pos}");
                pos += c.map_or(0, |c| c.len_utf8());
            }
            Op::Peek => {
                let mut it = rest.chars();
                ensure_eq!(st.peek(), it.next(), "peek", "{nm} at {pos}");
                ensure_eq!(st.current(), rest.chars().next(), "current", "{nm} at {pos}");
                ensure_eq!(st.peek_next(), it.next(), "peek next", "{nm} at {pos}");
                ensure_eq!(st.peek_byte(), rest.bytes().next(), "peek byte", "{nm} at {pos}");
                ensure_eq!(st.not_at_end(), !rest.is_empty(), "not_at_end", "{nm} at {pos}");
                ensure_eq!(st.get_length(), t.len(), "length", "{nm}");
                // the remaining text, as the name and the documentation say: all of it, wherever chunks end
                if g.chance(1, 2) {
                    ensure_eq!(st.rest(), rest, "rest", "{nm} at {pos}");
                }
                else {
                    ensure_eq!(st.rest_bytes(), rest.as_bytes(), "rest", "{nm} at {pos}");
                }
                let ahead: usize = rest.chars().take(g.below(6)).map(|c| c.len_utf8()).sum();
                ensure_eq!(st.peek_next_n(ahead), rest[ahead..].chars().next(), "peek at a distance", "{nm} at {pos}+{ahead}");
                ensure_eq!(st.peek_next_n(rest.len() + g.below(3)), None, "peek at a distance", "{nm} past the end");
                ensure_eq!(st.fully_reused(), rest.is_empty(), "fully_reused", "{nm} at {pos}");
                let o = *g.pick(&b);
                ensure_eq!(st.get_char_at(o), t[o..].chars().next(), "char at", "{nm} at {o}");
                let (lo, hi) = (o.min(pos), o.max(pos));
                ensure_eq!(st.get_text_in(rg(lo, hi)), t[lo..hi], "text in", "{nm} {lo}..{hi}");
                ensure_eq!(st.get_text_from(o), t[o..], "text from", "{nm} {o}");
            }
            Op::DeadLock => {
                let safe = if g.chance(1, 2) { pos } else { pos + 1 };
                st.advance_if_dead_lock(safe);
                if safe == pos {
                    pos += rest.chars().next().map_or(0, |c| c.len_utf8());
                }
            }
            Op::With => {
                let k: usize = rest.chars().take(g.below(3)).map(|c| c.len_utf8()).sum();
                ensure_eq!(st.advance_with(Token { kind: T::Error, span: rg(pos, pos + k) }), pos + k, "advance_with", "{nm} at {pos}");
                want.push((T::Error, pos, pos + k));
                pos += k;
            }
            Op::Seek => {
                let o = *g.pick(&b);
                if o > pos && g.chance(1, 2) {
                    st.advance(o - pos);
                }
                else {
                    ensure_eq!(st.set_position(o), pos, "set_position", "{nm} at {pos}");
                }
                pos = o;
            }
            _ => {
                let got = match op {
                    Op::Comment(i) => COMMENTS[i].scan(&mut st, T::LineComment, T::BlockComment),
                    Op::Str(i) => STRINGS[i].scan(&mut st, T::Str),
                    Op::Space(u) => WhitespaceConfig { unicode_whitespace: u }.scan(&mut st, T::Ws),
                    Op::Ident => st.scan_ascii_identifier(T::Ident),
                    Op::Line(p) => st.scan_line_comment(T::LineComment, p),
                    Op::Block(a, b) => st.scan_block_comment(T::BlockComment, a, b),
                    Op::Consume(p) => {
                        ensure_eq!(st.starts_with(p), rest.starts_with(p), "starts_with", "{nm} {p:?} at {pos}");
                        st.consume_if_starts_with(p)
                    }
                    _ => unreachable!(),
                };
                let (m, np, tok) = reference(op, t, pos);
                ensure!(got == m && st.get_position() == np, "scan helper", "{nm} {op:?} at {pos}: matched {got} to {}, reference {m} to {np}", st.get_position());
                if m {
                    n[1] += 1;
                }
                if let Some(k) = tok {
                    want.push((k, pos, np));
                }
                pos = np;
            }
        }
        ensure_eq!(st.get_position(), pos, "position", "{nm} after {op:?}");
    }
    ensure_eq!(spans(st.tokens()), want, "tokens pushed", "{nm}");
    st.add_eof();
    want.push((T::Eof, pos, pos));
    let out = st.finish(Ok(()));
    ensure_eq!(spans(out.result.as_ref().unwrap()), want, "finished tokens", "{nm}");
    Ok(())
}

pub fn toolkit(r: &mut Run) {
    r.family("scan-helpers", 5000, 150_000, |c| {
        let n = if c.rng.chance(1, 60) { 2500 } else { 40 };
        let t = c.rng.string(PIECES, n);
        let cuts = random_cuts(&mut c.rng, &t, 14);
        let seed = c.rng.next();
        c.input(format!("{t:?} cut at {cuts:?} ops {seed}"));
        c.distinct(&(&t, &cuts, seed));
        let v = Views::new(&t, &cuts, 1);
        let mut k = [0u64; 2];
        toolkit_walk("str", &v.text[..], &t, seed, &mut k)?;
        v.each(|nm, s| toolkit_walk(nm, s, &t, seed, &mut k))?;
        c.seen("scan operations", k[0]);
        c.seen("scan helpers that matched", k[1]);
        Ok(())
    });
    // each helper at the start of each text: literal starts cut at every position
    r.family("helper-at-every-cut", 1500, 40_000, |c| {
        let t = c.rng.string(PIECES, 9);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let mut ops = vec![Op::Space(false), Op::Space(true), Op::Ident];
        ops.extend((0..5).map(Op::Comment));
        ops.extend((0..5).map(Op::Str));
        ops.extend(["//", "#", "--"].map(Op::Line));
        ops.extend([("/*", "*/"), ("{-", "-}"), ("<!--", "-->"), ("--", "--")].map(|(a, b)| Op::Block(a, b)));
        let mut n = 0;
        let b = boundaries(&t);
        for &cut in &b {
            let v = Views::new(&t, &[cut], 1);
            for &op in &ops {
                for start in [0, cut] {
                    let (m, np, tok) = reference(op, &t, start);
                    let mut st = LexerState::<'_, _, Toy>::new(&v.chunked_snap);
                    st.set_position(start);
                    let got = match op {
                        Op::Comment(i) => COMMENTS[i].scan(&mut st, T::LineComment, T::BlockComment),
                        Op::Str(i) => STRINGS[i].scan(&mut st, T::Str),
                        Op::Space(u) => WhitespaceConfig { unicode_whitespace: u }.scan(&mut st, T::Ws),
                        Op::Ident => st.scan_ascii_identifier(T::Ident),
                        Op::Line(p) => st.scan_line_comment(T::LineComment, p),
                        Op::Block(a, b) => st.scan_block_comment(T::BlockComment, a, b),
                        _ => unreachable!(),
                    };
                    n += 1;
                    ensure!(got == m && st.get_position() == np, "scan helper", "{op:?} at {start}, chunk edge {cut}: matched {got} to {}, reference {m} to {np}", st.get_position());
                    let want: Vec<_> = tok.map(|k| (k, start, np)).into_iter().collect();
                    ensure_eq!(spans(st.tokens()), want, "scan helper token", "{op:?} at {start}, chunk edge {cut}");
                }
            }
        }
        c.seen("helper calls at a chunk edge", n);
        Ok(())
    });
    r.family("whole-lexer", 3000, 80_000, |c| {
        let n = if c.rng.chance(1, 50) { 2500 } else { 40 };
        let t = c.rng.string(TOY, n);
        let cuts = random_cuts(&mut c.rng, &t, 14);
        c.input(format!("{t:?} cut at {cuts:?}"));
        c.distinct(&t);
        let want = toy::reference_lex(&t);
        let mut at = 0;
        for w in &want {
            ensure!(w.1 == at, "reference does not tile", "{w:?}");
            at = w.2;
        }
        ensure_eq!(fresh_lex(&t[..])?, want, "tokens", "str");
        Views::new(&t, &cuts, 1).each(|nm, s| {
            ensure_eq!(fresh_lex(s)?, want, "tokens", "{nm}");
            Ok(())
        })?;
        c.seen("tokens compared", want.len() as u64 * 7);
        Ok(())
    });
    r.family_exact("byte-classes", 256, |c| {
        let b = c.index as u8;
        c.input(format!("byte {b}"));
        c.distinct(&b);
        ensure_eq!(scan_identifier::is_ascii_ident_start(b), b == b'_' || b.is_ascii_alphabetic(), "ident start", "{b}");
        ensure_eq!(scan_identifier::is_ascii_ident_continue(b), b == b'_' || b.is_ascii_alphanumeric(), "ident continue", "{b}");
        for x in [b'/', b'*', b'a'] {
            ensure_eq!(scan_comment::starts_with_line_comment(&[b, x, b'q']), b == b'/' && x == b'/', "line comment start", "{b}");
            ensure_eq!(scan_comment::starts_with_block_comment(&[b, x]), b == b'/' && x == b'*', "block comment start", "{b}");
        }
        ensure!(!scan_comment::starts_with_line_comment(b"/") && !scan_comment::starts_with_block_comment(b""), "short input", "");
        Ok(())
    });
}

// ------------------------------------------------------------------ C05

/// A cache that offers indexed access only, as the trait allows.
#[derive(Default)]
struct IndexOnly(Option<LexOutput<Toy>>);
impl LexerCache<Toy> for IndexOnly {
    fn set_lex_output(&mut self, o: LexOutput<Toy>) {
        self.0 = Some(o)
    }
    fn get_token(&self, i: usize) -> Option<Token<T>> {
        self.0.as_ref()?.result.as_ref().ok()?.get(i).cloned()
    }
    fn count_tokens(&self) -> usize {
        self.0.as_ref().and_then(|o| o.result.as_ref().ok()).map_or(0, |t| t.len())
    }
    fn has_tokens(&self) -> bool {
        self.count_tokens() > 0
    }
}

/// What a cache says it holds.
fn cached<C: LexerCache<Toy>>(nm: &str, c: &C, want: &[(T, usize, usize)]) -> Check {
    ensure_eq!((c.count_tokens(), c.has_tokens()), (want.len(), !want.is_empty()), "cached tokens", "{nm}");
    for i in [0, want.len() / 2, want.len().saturating_sub(1), want.len(), want.len() + 7] {
        ensure_eq!(c.get_token(i).map(|t| (t.kind, t.span.start, t.span.end)), want.get(i).copied(), "cached tokens", "{nm} token {i}");
    }
    Ok(())
}

fn step<S: Source + ?Sized>(nm: &str, s: &S, t: &str, e: &[TextEdit], a: &mut ParseSession<Toy>, b: &mut IndexOnly, reused: &mut u64) -> Check {
    let want = toy::reference_lex(t);
    // what the state starts from must be a prefix of the truth, ending where scanning resumes
    let from = e.iter().map(|e| e.span.start).min().unwrap_or(0);
    for which in 0..2 {
        let st = if which == 0 { LexerState::<'_, S, Toy>::new_with_cache(s, from, a) } else { LexerState::<'_, S, Toy>::new_with_cache(s, from, b) };
        let kept = spans(st.tokens());
        ensure!(kept.len() <= want.len() && kept[..] == want[..kept.len()], "reused tokens", "{nm}: kept {:?}, fresh {:?}", kept.last(), want.get(kept.len().saturating_sub(1)));
        ensure_eq!(st.get_position(), kept.last().map_or(0, |k| k.2), "resume position", "{nm}");
        ensure!(kept.iter().all(|k| k.0 != T::Eof) || kept.len() == want.len(), "end marker reused", "{nm}");
        *reused += kept.len() as u64;
    }
    // a borrowed cache is as good as the cache itself
    let borrowed = want.len() % 2 == 0;
    let g = if borrowed { ToyLexer.lex(s, e, &mut &mut *a) } else { ToyLexer.lex(s, e, a) };
    ensure_eq!(spans(g.result.as_ref().unwrap()), want, "relexed tokens", "{nm} (slice cache)");
    let g = if borrowed { ToyLexer.lex(s, e, &mut &mut *b) } else { ToyLexer.lex(s, e, b) };
    ensure_eq!(spans(g.result.as_ref().unwrap()), want, "relexed tokens", "{nm} (indexed cache)");
    ensure_eq!(spans(a.get_tokens().unwrap()), want, "cached tokens", "{nm}");
    cached("session", &*a, &want)?;
    cached("borrowed session", &&mut *a, &want)?;
    cached("borrowed indexed cache", &&mut *b, &want)?;
    ensure!((&&mut *a).get_tokens().is_some_and(|x| spans(x) == want), "cached tokens", "{nm} (borrowed)");
    Ok(())
}

pub fn incremental(r: &mut Run) {
    r.family("edit-histories", 4000, 120_000, |c| {
        let n = if c.rng.chance(1, 60) { 2000 } else { 25 };
        let mut t = c.rng.string(TOY, n);
        let mode = c.rng.below(3);
        let mut log = format!("{:?} mode {mode}", clip(&t, 300));
        let (mut a, mut b) = (ParseSession::default(), IndexOnly::default());
        let mut rope = RopeBuffer::new(&t);
        let mut st = SourceText::new(t.clone());
        c.input(log.clone());
        ToyLexer.lex(&t[..], &[], &mut a);
        ToyLexer.lex(&t[..], &[], &mut b);
        let mut reused = 0;
        for _ in 0..c.rng.range(1, 7) {
            let (e, new) = if c.rng.chance(1, 10) {
                let at = *c.rng.pick(&boundaries(&t));
                (vec![TextEdit { span: rg(at, at), text: "".into() }], t.clone())
            }
            else if c.rng.chance(1, 4) {
                // at the very end: append or truncate
                if c.rng.chance(1, 2) {
                    let p = c.rng.string(TOY, 3);
                    (vec![TextEdit { span: rg(t.len(), t.len()), text: p.clone().into() }], format!("{t}{p}"))
                }
                else {
                    let at = *c.rng.pick(&boundaries(&t));
                    (vec![TextEdit { span: rg(at, t.len()), text: "".into() }], t[..at].to_string())
                }
            }
            else {
                random_edits(&mut c.rng, &t, TOY, 3)
            };
            log.push_str(&format!("; {}", clip(&show(&e), 400)));
            c.input(log.clone());
            rope.apply_edits(&e);
            st.apply_edits(&e);
            t = new;
            match mode {
                0 => step("SourceText", &st, &t, &e, &mut a, &mut b, &mut reused)?,
                1 => step("RopeBuffer", &rope, &t, &e, &mut a, &mut b, &mut reused)?,
                _ => {
                    let mut ch = ChunkedBuffer::new();
                    let k = floor_char(&t, c.rng.below(t.len() + 1));
                    ch.push_str(&t[..k]);
                    ch.push_str(&t[k..]);
                    step("ChunkedBuffer", &ch, &t, &e, &mut a, &mut b, &mut reused)?
                }
            }
            c.distinct(&t);
        }
        c.seen("tokens reused", reused);
        Ok(())
    });
    // every single-character edit of short programs
    r.family("every-edit-of-a-short-text", 600, 12_000, |c| {
        let t = c.rng.string(TOY, 5);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let bs = boundaries(&t);
        let ins = ["", "x", "1", "=", "/", "*", "\"", " ", "\n", "é"];
        let mut reused = 0;
        for (i, &lo) in bs.iter().enumerate() {
            for &hi in &bs[i..(i + 3).min(bs.len())] {
                for p in ins {
                    let mut new = t.clone();
                    new.replace_range(lo..hi, p);
                    let (mut a, mut b) = (ParseSession::default(), IndexOnly::default());
                    ToyLexer.lex(&t[..], &[], &mut a);
                    ToyLexer.lex(&t[..], &[], &mut b);
                    let e = [TextEdit { span: rg(lo, hi), text: p.into() }];
                    c.input(format!("{t:?} then {}", show(&e)));
                    step("str", &new[..], &new, &e, &mut a, &mut b, &mut reused)?;
                    // and back
                    let back = [TextEdit { span: rg(lo, lo + p.len()), text: t[lo..hi].to_string().into() }];
                    step("str back", &t[..], &t, &back, &mut a, &mut b, &mut reused)?;
                }
            }
        }
        c.seen("tokens reused", reused);
        Ok(())
    });
    // a cache that never lexed, or whose lex failed, must not influence the result
    r.family("cold-and-failed-caches", 400, 8000, |c| {
        let t = c.rng.string(TOY, 20);
        let (mut a, mut b) = (ParseSession::<Toy>::default(), IndexOnly::default());
        if c.rng.chance(1, 2) {
            let e = oak_core::OakDiagnostics { result: Err(oak_core::OakError::custom_error("x")), diagnostics: vec![] };
            a.set_lex_output(e.clone());
            b.set_lex_output(e);
        }
        let at = *c.rng.pick(&boundaries(&t));
        let e = [TextEdit { span: rg(at, at), text: "".into() }];
        c.input(format!("{t:?} from {at}"));
        c.distinct(&t);
        let mut x = 0;
        step("cold", &t[..], &t, &e, &mut a, &mut b, &mut x)
    });
}
