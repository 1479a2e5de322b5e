//! C01: every source representation answers every query as the plain string does.
//! C02: edits are splices; snapshots are isolated.
use core::range::Range;
use oak_core::{
    Source, SourceText, TextEdit,
    source::{ChunkedBuffer, ChunkedSource, RopeBuffer, RopeSource, SourceCursor},
};
use vcommon::*;

pub fn rg(start: usize, end: usize) -> Range<usize> {
    Range { start, end }
}

/// All the ways the library can hold one text. `splits` drives the chunk layout.
pub struct Views {
    pub text: String,
    pub st: SourceText,
    pub rope: RopeBuffer,
    pub rope_frag: RopeBuffer,
    pub rope_snap: RopeSource,
    pub chunked: ChunkedBuffer,
    pub chunked_snap: ChunkedSource,
}

impl Views {
    pub fn new(text: &str, cuts: &[usize], id: u32) -> Views {
        let mut chunked = ChunkedBuffer::new_with_id(id);
        let mut rope_frag = RopeBuffer::new_with_id("", id);
        let mut last = 0;
        let mut at = 0;
        for &c in cuts.iter().chain(std::iter::once(&text.len())) {
            let part = &text[last..c];
            chunked.push_str(part);
            if !part.is_empty() {
                rope_frag.apply_edits(&[TextEdit { span: rg(at, at), text: part.to_string().into() }]);
            }
            at += part.len();
            last = c;
        }
        let rope_snap = rope_frag.snapshot();
        let chunked_snap = chunked.snapshot();
        Views { text: text.to_string(), st: SourceText::new_with_id(text, id), rope: RopeBuffer::new_with_id(text, id), rope_frag, rope_snap, chunked, chunked_snap }
    }
    pub fn each(&self, mut f: impl FnMut(&'static str, &dyn Source) -> Check) -> Check {
        f("SourceText", &self.st)?;
        f("RopeBuffer", &self.rope)?;
        f("RopeBuffer(fragmented)", &self.rope_frag)?;
        f("RopeSource", &self.rope_snap)?;
        f("ChunkedBuffer", &self.chunked)?;
        f("ChunkedSource", &self.chunked_snap)
    }
}

pub fn boundaries(t: &str) -> Vec<usize> {
    (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect()
}

pub fn random_cuts(rng: &mut Rng, text: &str, max: usize) -> Vec<usize> {
    let n = rng.below(max + 1);
    let mut v: Vec<usize> = (0..n).map(|_| floor_char(text, rng.below(text.len() + 1))).collect();
    v.sort_unstable();
    v.dedup();
    v
}

const ALPHA: &[&str] = &["a", "b", "c", " ", "\n", "\t", "9", "0", "_", "é", "中", "𝄞", "ab", "abc", "//", "*/", "\"", "Z", "\r\n", "\u{2028}"];

/// Length/chunk/char/text/search at every given offset.
pub fn check_source(name: &str, s: &dyn Source, t: &str, offs: &[usize], pats: &[String]) -> Check {
    ensure_eq!(s.length(), t.len(), "length", "{name}");
    ensure_eq!(s.is_empty(), t.is_empty(), "is_empty", "{name}");
    // chunks tile the text
    let mut at = 0;
    let mut n = 0;
    while at < t.len() {
        let c = s.chunk_at(at);
        ensure!(c.start <= at && at < c.end(), "chunk does not contain its offset", "{name}: chunk_at({at}) = {}..{}", c.start, c.end());
        ensure!(c.end() <= t.len() && t.get(c.start..c.end()) == Some(c.text), "chunk text", "{name}: chunk_at({at}) = {}..{} text differs", c.start, c.end());
        at = c.end();
        n += 1;
        ensure!(n <= t.len() + 1, "chunks do not progress", "{name}");
    }
    for d in [0usize, 1, 7] {
        let c = s.chunk_at(t.len() + d);
        ensure!(c.text.is_empty() && c.start == t.len(), "chunk past the end", "{name}: chunk_at(len+{d}) = {:?}", c);
        ensure_eq!(s.get_char_at(t.len() + d), None, "char past the end", "{name}");
    }
    for &o in offs {
        let c = s.chunk_at(o);
        if o < t.len() {
            ensure!(c.start <= o && o < c.end() && t.get(c.start..c.end()) == Some(c.text), "chunk_at", "{name}: chunk_at({o})");
            ensure_eq!(c.slice_from(o), &t[o..c.end()], "slice_from", "{name}: at {o}");
        }
        ensure_eq!(s.get_char_at(o), t[o..].chars().next(), "get_char_at", "{name}: at {o}");
        ensure_eq!(s.get_text_from(o), t[o..], "get_text_from", "{name}: at {o}");
        for ch in ['a', 'é', '\n', '𝄞', '~'] {
            ensure_eq!(s.find_char_from(o, ch), t[o..].find(ch).map(|p| p + o), "find_char_from", "{name}: {ch:?} from {o}");
        }
        for p in pats {
            ensure_eq!(s.find_str_from(o, p), t[o..].find(p.as_str()).map(|x| x + o), "find_str_from", "{name}: {p:?} from {o}");
        }
    }
    Ok(())
}

fn check_ranges(name: &str, s: &dyn Source, t: &str, offs: &[usize]) -> Check {
    for (i, &a) in offs.iter().enumerate() {
        for &b in &offs[i..] {
            ensure_eq!(s.get_text_in(rg(a, b)), t[a..b], "get_text_in", "{name}: {a}..{b}");
        }
    }
    Ok(())
}

fn patterns(rng: &mut Rng, t: &str, b: &[usize], n: usize) -> Vec<String> {
    let mut v = vec!["~~".to_string(), "".to_string(), "aab".to_string()];
    for _ in 0..n {
        let i = rng.below(b.len());
        let j = (i + 1 + rng.below(6)).min(b.len() - 1);
        v.push(t[b[i]..b[j]].to_string());
        let mut x = t[b[i]..b[j]].to_string();
        x.push('!');
        v.push(x);
    }
    v
}

fn views_agree(v: &Views, offs: &[usize], ranges: &[usize], pats: &[String], id: u32) -> Check {
    check_source("str", &&v.text[..] as &dyn Source, &v.text, offs, pats)?;
    check_ranges("str", &&v.text[..], &v.text, ranges)?;
    v.each(|n, s| {
        ensure_eq!(s.source_id(), Some(id), "source_id", "{n}");
        ensure_eq!((&s).source_id(), Some(id), "source_id", "&{n}");
        check_source(n, s, &v.text, offs, pats)?;
        check_source(n, &s, &v.text, &offs[..offs.len().min(4)], pats)?;
        check_ranges(n, s, &v.text, ranges)?;
        check_ranges(n, &s, &v.text, &ranges[..ranges.len().min(3)])
    })
}

pub fn views(r: &mut Run) {
    // every text of up to N characters over a 4-letter alphabet with 1..4-byte characters, under every chunk layout
    let alpha = ["a", "é", "\n", "𝄞"];
    let maxlen: u32 = if r.thorough { 5 } else { 4 };
    let total: u64 = (0..=maxlen).map(|n| 4u64.pow(n) * if n == 0 { 1 } else { 1 << (n - 1) }).sum();
    r.family_exact("every-small-text-and-layout", total, |c| {
        let mut i = c.index;
        let mut n = 0;
        loop {
            let k = 4u64.pow(n) * if n == 0 { 1 } else { 1 << (n - 1) };
            if i < k {
                break;
            }
            i -= k;
            n += 1;
        }
        let mask = if n == 0 { 0 } else { i % (1 << (n - 1)) };
        let mut code = if n == 0 { 0 } else { i >> (n - 1) };
        let mut t = String::new();
        let mut cuts = vec![];
        for k in 0..n {
            t.push_str(alpha[(code % 4) as usize]);
            code /= 4;
            if k + 1 < n && mask >> k & 1 == 1 {
                cuts.push(t.len());
            }
        }
        c.input(format!("{t:?} cut at {cuts:?}"));
        c.distinct(&(&t, &cuts));
        let b = boundaries(&t);
        let mut pats: Vec<String> = vec!["".into(), "~".into()];
        for (i, &x) in b.iter().enumerate() {
            for &y in &b[i + 1..] {
                pats.push(t[x..y].to_string());
            }
        }
        views_agree(&Views::new(&t, &cuts, 7), &b, &b, &pats, 7)
    });
    r.family("random-layouts", 2500, 60000, |c| {
        let t = c.rng.string(ALPHA, 40);
        let cuts = random_cuts(&mut c.rng, &t, 12);
        c.input(format!("{t:?} cut at {cuts:?}"));
        c.distinct(&(&t, &cuts));
        c.seen("chunks", cuts.len() as u64 + 1);
        let b = boundaries(&t);
        let pats = patterns(&mut c.rng, &t, &b, 5);
        let id = c.rng.below(1000) as u32;
        views_agree(&Views::new(&t, &cuts, id), &b, &b, &pats, id)
    });
    r.family("large-chunk-edges", 60, 1200, |c| {
        // texts around multiples of the internal chunk size, multi-byte characters straddling the edge
        let target = [4090usize, 4095, 4096, 4097, 8190, 8192, 8195, 12288, 12289][c.index as usize % 9] + c.rng.below(4);
        let wide = *c.rng.pick(&["é", "中", "𝄞", "a"]);
        let mut t = String::new();
        while t.len() < target {
            if c.rng.chance(1, 9) || (t.len() % 4096) > 4088 {
                t.push_str(wide)
            }
            else {
                let piece = *c.rng.pick(ALPHA);
                t.push_str(piece)
            }
        }
        let cuts = random_cuts(&mut c.rng, &t, 5);
        c.input(format!("len {} wide {wide:?} cuts {cuts:?} index {}", t.len(), c.index));
        c.distinct(&t);
        let mut near: Vec<usize> = vec![0, t.len()];
        for e in [4096usize, 8192, 12288].into_iter().chain(cuts.iter().copied()) {
            for d in 0..9 {
                let o = floor_char(&t, (e + d).saturating_sub(4));
                near.push(o);
            }
        }
        near.sort_unstable();
        near.dedup();
        let b = boundaries(&t);
        let mut pats = vec!["~~".to_string(), wide.to_string()];
        for &o in near.iter().take(30) {
            let i = b.binary_search(&o).unwrap();
            let w = c.rng.range(1, 8);
            pats.push(t[b[i]..b[(i + w).min(b.len() - 1)]].to_string());
        }
        pats.push(t[b[b.len() / 4]..b[b.len() - 2]].to_string());
        let offs: Vec<usize> = near.iter().copied().filter(|_| true).step_by(3).collect();
        views_agree(&Views::new(&t, &cuts, 3), &offs, &near, &pats[..pats.len().min(14)], 3)
    });
    r.family("cursor-walks", 6000, 150_000, |c| {
        let n = if c.rng.chance(1, 40) { 3000 } else { 30 };
        let t = c.rng.string(ALPHA, n);
        let cuts = random_cuts(&mut c.rng, &t, 10);
        let seed = c.rng.next();
        c.input(format!("{t:?} cut at {cuts:?} walk {seed}"));
        c.distinct(&(&t, &cuts, seed));
        let v = Views::new(&t, &cuts, 1);
        let mut ops = 0u64;
        cursor_walk("str", &v.text[..], &t, &mut Rng::new(seed), &mut ops)?;
        v.each(|nm, s| cursor_walk(nm, s, &t, &mut Rng::new(seed), &mut ops))?;
        c.seen("cursor operations", ops);
        Ok(())
    });
}

fn cursor_walk<S: Source + ?Sized>(nm: &str, s: &S, t: &str, g: &mut Rng, ops: &mut u64) -> Check {
    let b = boundaries(t);
    let mut cur = if g.chance(1, 2) { SourceCursor::new(s) } else { SourceCursor::new_at(s, *g.pick(&b)) };
    let mut pos = cur.position();
    let span = |a: usize, n: usize| rg(a, a + n);
    for _ in 0..25 {
        *ops += 1;
        let rest = &t[pos..];
        match g.below(18) {
            0 => ensure_eq!(cur.peek_char(), rest.chars().next(), "peek_char", "{nm} at {pos}"),
            1 => {
                let mut it = rest.chars();
                it.next();
                ensure_eq!(cur.peek_next_char(), it.next(), "peek_next_char", "{nm} at {pos}")
            }
            2 => {
                let o = *g.pick(&b);
                if o >= pos {
                    ensure_eq!(cur.peek_next_n(o - pos), t[o..].chars().next(), "peek_next_n", "{nm} at {pos}+{}", o - pos)
                }
            }
            3 => {
                let want = rest.chars().next();
                ensure_eq!(cur.advance_char(), want, "advance_char", "{nm} at {pos}");
                pos += want.map_or(0, |c| c.len_utf8());
            }
            4 => {
                if rest.is_empty() || rest.as_bytes()[0] < 128 {
                    ensure_eq!(cur.advance_byte(), rest.bytes().next(), "advance_byte", "{nm} at {pos}");
                    pos += rest.len().min(1);
                }
            }
            5 => ensure_eq!(cur.peek_byte(), rest.bytes().next(), "peek_byte", "{nm} at {pos}"),
            6 => {
                let o = *g.pick(&b);
                ensure_eq!(cur.set_position(o), pos, "set_position result", "{nm}");
                pos = o;
            }
            7 => {
                ensure_eq!(cur.set_position(t.len() + 5), pos, "set_position result", "{nm}");
                pos = t.len();
            }
            8 => {
                let o = *g.pick(&b);
                if o >= pos {
                    ensure_eq!(cur.advance_bytes(o - pos), o, "advance_bytes", "{nm} at {pos}");
                    pos = o;
                }
                else {
                    ensure_eq!(cur.advance_bytes(t.len() + 3), t.len(), "advance_bytes clamps", "{nm} at {pos}");
                    pos = t.len();
                }
            }
            9 => {
                let n = rest.bytes().take_while(|b| b" \t\r\n".contains(b)).count();
                ensure_eq!(cur.skip_ascii_whitespace(), span(pos, n), "skip_ascii_whitespace", "{nm} at {pos}");
                pos += n;
            }
            10 => {
                let n = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
                ensure_eq!(cur.skip_ascii_digits(), span(pos, n), "skip_ascii_digits", "{nm} at {pos}");
                pos += n;
            }
            11 => {
                let n = rest.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'_').count();
                ensure_eq!(cur.skip_ascii_ident_continue(), span(pos, n), "skip_ascii_ident_continue", "{nm} at {pos}");
                pos += n;
            }
            12 => {
                let x = *g.pick(&[b'a', b'\n', b'~', b'9']);
                let n = rest.bytes().take_while(|b| *b != x).count();
                ensure_eq!(cur.skip_until(x), span(pos, n), "skip_until", "{nm} at {pos}");
                pos += n;
            }
            13 => {
                let m = g.below(4);
                let f = |c: char| match m {
                    0 => c.is_alphabetic(),
                    1 => c != '\n',
                    2 => c.is_whitespace(),
                    _ => !c.is_ascii(),
                };
                let n: usize = rest.chars().take_while(|&c| f(c)).map(|c| c.len_utf8()).sum();
                ensure_eq!(cur.take_while(f), span(pos, n), "take_while", "{nm} at {pos}");
                pos += n;
            }
            14 => {
                let n = rest.bytes().take_while(|b| *b != b'a' && *b < 128).count();
                ensure_eq!(cur.take_while_byte(|b| b != b'a' && b < 128), span(pos, n), "take_while_byte", "{nm} at {pos}");
                pos += n;
            }
            15 => {
                let o = *g.pick(&b);
                let mut p = if o > pos { t[pos..o].to_string() } else { "ab".into() };
                if g.chance(1, 3) {
                    p.push('c')
                }
                ensure_eq!(cur.starts_with(&p), rest.starts_with(&p), "starts_with", "{nm} at {pos} {p:?}");
                if g.chance(1, 2) {
                    ensure_eq!(cur.consume_if_starts_with(&p), rest.starts_with(&p), "consume_if_starts_with", "{nm} at {pos} {p:?}");
                    if rest.starts_with(&p) {
                        pos += p.len();
                    }
                }
            }
            16 => {
                let i = g.below(b.len());
                let j = (i + g.below(6)).min(b.len() - 1);
                let p = &t[b[i]..b[j]];
                ensure_eq!(cur.find_str(p), rest.find(p).map(|x| x + pos), "find_str", "{nm} at {pos} {p:?}");
                cur.set_position(pos);
            }
            _ => {
                let l = cur.rest().to_string();
                ensure!(rest.starts_with(&l) && (!l.is_empty() || rest.is_empty()), "rest", "{nm} at {pos}: {l:?} of {rest:?}");
                ensure_eq!(cur.chunk_end(), pos + l.len(), "chunk_end", "{nm} at {pos}");
            }
        }
        ensure_eq!(cur.position(), pos, "cursor position", "{nm}");
    }
    Ok(())
}

/// Non-overlapping edits in a random order, over a text; returns (edits, new text, first start, last end).
pub fn random_edits(g: &mut Rng, t: &str, pieces: &[&str], max: usize) -> (Vec<TextEdit>, String) {
    let b = boundaries(t);
    let n = g.range(1, max);
    let mut pts: Vec<usize> = (0..2 * n).map(|_| if g.chance(1, 8) { t.len() } else { *g.pick(&b) }).collect();
    pts.sort_unstable();
    let mut spans: Vec<(usize, usize)> = pts.chunks(2).map(|p| (p[0], p[1])).collect();
    for s in spans.iter_mut() {
        match g.below(4) {
            0 => s.1 = s.0,
            1 => {
                // a short deletion
                let i = b.binary_search(&s.0).unwrap();
                s.1 = s.1.min(b[(i + 1 + g.below(3)).min(b.len() - 1)]);
            }
            _ => {}
        }
    }
    // insertions at the start of another edit come before what it puts there
    let mut out: Vec<(usize, usize, String)> = vec![];
    for (a, z) in spans {
        let ins = if g.chance(1, 4) { String::new() } else { g.string(pieces, 4) };
        out.push((a, z, ins));
    }
    let mut new = String::new();
    let mut at = 0;
    for (a, z, i) in &out {
        new.push_str(&t[at..*a]);
        new.push_str(i);
        at = *z;
    }
    new.push_str(&t[at..]);
    let inserted: Vec<(usize, usize, String)> = out.iter().filter(|e| e.0 == e.1).cloned().collect();
    // any order
    for i in (1..out.len()).rev() {
        let j = g.below(i + 1);
        out.swap(i, j);
    }
    // except insertions at one place, which are made in the order given
    let mut next: std::collections::BTreeMap<usize, std::collections::VecDeque<String>> = Default::default();
    for (a, _, i) in inserted {
        next.entry(a).or_default().push_back(i);
    }
    for e in out.iter_mut().filter(|e| e.0 == e.1) {
        e.2 = next.get_mut(&e.0).unwrap().pop_front().unwrap();
    }
    (out.into_iter().map(|(a, z, i)| TextEdit { span: rg(a, z), text: i.into() }).collect(), new)
}

pub fn show(e: &[TextEdit]) -> String {
    e.iter().map(|e| format!("[{}..{}→{:?}]", e.span.start, e.span.end, e.text)).collect::<Vec<_>>().join(" ")
}

fn check_affected(nm: &str, got: Range<usize>, e: &[TextEdit], old: &str, new: &str) -> Check {
    let first = e.iter().map(|e| e.span.start).min().unwrap_or(old.len());
    let last = e.iter().map(|e| e.span.end).max().unwrap_or(old.len());
    let want = if e.is_empty() { rg(old.len(), old.len()) } else { rg(first, new.len() - (old.len() - last)) };
    ensure_eq!(got, want, "affected range", "{nm}");
    Ok(())
}

pub fn edits(r: &mut Run) {
    let hist = |c: &mut Case, start: String, steps: usize, maxe: usize, big: bool| -> Check {
        let mut t = start.clone();
        let mut st = SourceText::new_with_id(t.clone(), 5);
        let mut rope = RopeBuffer::new_with_id(&t, 5);
        let mut log = format!("start {:?}", clip(&t, 200));
        let mut snaps: Vec<(RopeSource, SourceText, String)> = vec![];
        let big_piece = "xy\n中".repeat(1400);
        let mut pieces: Vec<&str> = ALPHA.to_vec();
        if big {
            pieces.push(&big_piece);
        }
        for _ in 0..steps {
            if c.rng.chance(1, 3) {
                snaps.push((rope.snapshot(), st.clone(), t.clone()));
            }
            // now and then as many as a formatter makes
            let maxe = if c.rng.chance(1, 12) { 60 } else { maxe };
            let (e, new) = if c.rng.chance(1, 12) { (vec![], t.clone()) } else { random_edits(&mut c.rng, &t, &pieces, maxe) };
            let starts: std::collections::BTreeSet<usize> = e.iter().map(|e| e.span.start).collect();
            c.seen("edits at the start of another", (e.len() - starts.len()) as u64);
            log.push_str(&format!("; {}", clip(&show(&e), 400)));
            c.input(log.clone());
            let single = c.rng.chance(1, 3);
            if single {
                let first = e.iter().map(|e| e.span.start).min().unwrap_or(t.len());
                ensure_eq!(st.apply_edits(&e), first, "apply_edits offset", "SourceText");
                ensure_eq!(rope.apply_edits(&e), first, "apply_edits offset", "RopeBuffer");
            }
            else {
                check_affected("SourceText", st.apply_edits_range(&e), &e, &t, &new)?;
                check_affected("RopeBuffer", rope.apply_edits_range(&e), &e, &t, &new)?;
            }
            ensure_eq!(st.text(), new, "edited text", "SourceText");
            ensure_eq!(rope.get_text_from(0), new, "edited text", "RopeBuffer");
            c.seen("edits applied", e.len() as u64);
            c.distinct(&new);
            t = new;
            let b = boundaries(&t);
            let offs: Vec<usize> = if b.len() > 60 { (0..12).map(|_| *c.rng.pick(&b)).collect() } else { b };
            let pats = vec!["ab".to_string(), "c".into()];
            check_source("SourceText after edit", &st, &t, &offs, &pats)?;
            check_source("RopeBuffer after edit", &rope, &t, &offs, &pats)?;
            check_source("RopeSource after edit", &rope.snapshot(), &t, &offs, &pats)?;
            ensure_eq!(st.source_id(), Some(5), "source_id after edit", "SourceText");
            ensure_eq!(rope.source_id(), Some(5), "source_id after edit", "RopeBuffer");
            ensure_eq!(rope.snapshot().source_id(), Some(5), "source_id after edit", "RopeSource");
            for (s, s2, old) in &snaps {
                ensure!(s.get_text_from(0) == *old && s.length() == old.len(), "snapshot changed", "RopeSource snapshot of {old:?} now reads {:?}", s.get_text_from(0));
                ensure!(s2.text() == old, "snapshot changed", "SourceText clone of {old:?} now reads {:?}", s2.text());
            }
        }
        for (s, _, old) in &snaps {
            check_source("old RopeSource", s, old, &[0, old.len()], &[])?;
        }
        c.seen("snapshots held across edits", snaps.len() as u64);
        Ok(())
    };
    r.family("small-histories", 4000, 90_000, |c| {
        let t = c.rng.string(ALPHA, 20);
        let steps = c.rng.range(1, 8);
        hist(c, t, steps, 4, false)
    });
    r.family("large-histories", 60, 1500, |c| {
        let n = c.rng.range(4000, 9000);
        let t = c.rng.string(ALPHA, n);
        hist(c, t, 5, 6, true)
    });
    // every single edit of a short text: all spans x small insertions
    r.family_exact("every-single-edit", 6 * 6 * 4 * 3, |c| {
        let t = ["aé中b𝄞", "abcde", "é"][(c.index % 3) as usize];
        let ins = ["", "x", "é𝄞", "longer text"][(c.index / 3 % 4) as usize];
        let b = boundaries(t);
        let (i, j) = ((c.index / 12 % 6) as usize, (c.index / 72) as usize);
        if i >= b.len() || j >= b.len() || i > j {
            return Ok(());
        }
        c.input(format!("{t:?} [{}..{}→{ins:?}]", b[i], b[j]));
        c.distinct(&(t, i, j, ins));
        let mut new = t.to_string();
        new.replace_range(b[i]..b[j], ins);
        for cuts in [vec![], b.clone(), vec![b[b.len() / 2]]] {
            let mut v = Views::new(t, &cuts, 9);
            let e = [TextEdit { span: rg(b[i], b[j]), text: ins.into() }];
            check_affected("RopeBuffer", v.rope_frag.apply_edits_range(&e), &e, t, &new)?;
            check_affected("SourceText", v.st.apply_edits_range(&e), &e, t, &new)?;
            let bn = boundaries(&new);
            check_source("RopeBuffer", &v.rope_frag, &new, &bn, &[])?;
            check_source("SourceText", &v.st, &new, &bn, &[])?;
            check_source("old snapshot", &v.rope_snap, t, &b, &[])?;
        }
        Ok(())
    });
    // streaming appends: the buffer is the concatenation, earlier snapshots never change
    r.family("append-streams", 1500, 30_000, |c| {
        let mut buf = if c.rng.chance(1, 2) { ChunkedBuffer::new() } else { ChunkedBuffer::new_with_id(4) };
        let id = buf.source_id();
        let mut t = String::new();
        let mut snaps: Vec<(ChunkedSource, usize)> = vec![];
        let seed = c.rng.next();
        c.input(format!("append stream {seed}"));
        let mut g = Rng::new(seed);
        for _ in 0..g.range(1, 12) {
            let p = if g.chance(1, 30) { "ab中".repeat(g.range(800, 2000)) } else { g.string(ALPHA, 8) };
            snaps.push((buf.snapshot(), t.len()));
            buf.push_str(&p);
            t.push_str(&p);
            ensure_eq!(buf.get_text_from(0), t, "appended text", "ChunkedBuffer");
            ensure_eq!(buf.snapshot().source_id(), id, "source_id", "ChunkedSource");
        }
        let b = boundaries(&t);
        let offs: Vec<usize> = (0..12).map(|_| *g.pick(&b)).collect();
        check_source("ChunkedBuffer", &buf, &t, &offs, &[])?;
        for (s, n) in &snaps {
            ensure!(s.length() == *n && s.get_text_from(0) == t[..*n], "snapshot changed", "ChunkedSource of {n} bytes");
        }
        c.seen("appends", snaps.len() as u64);
        c.distinct(&t);
        Ok(())
    });
}
