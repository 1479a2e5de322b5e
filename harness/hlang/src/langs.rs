use crate::{
    probe::*,
    table::table,
};
use oak_core::{
    Source, SourceText, TextEdit,
    source::{ChunkedBuffer, RopeBuffer},
};
use std::{collections::BTreeMap, path::Path};
use vcommon::*;

static DICT: &str = include_str!("dict.txt");
const COMMON: &[&str] = &[
    "a", "b1", "_x", "Z", "0", "1", "42", "3.5", "1e9", "0x1F", "\"s\"", "'c'", "\"", "'", "`", "\\", "\n", "\r\n", "\t", " ", "  ", "é", "漢", "😀", "\u{a0}", "//", "/*", "*/", "#", "--", ";", ",", ".", "..", ":", "::", "(", ")", "[", "]", "{", "}", "<", ">",
    "</", "/>", "=", "==", "!=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "?", "@", "$", "=>", "->", "<!--", "-->", "\"\"\"", "```", "\\n", "\\u", "0b", "1.", ".5", "\u{feff}", "\0", "\u{0301}", "if", "end", "${", "#{", "{{", "}}", "{%", "%}",
];
#[derive(Default)]
pub struct Words {
    dict: Vec<String>,
    files: Vec<String>,
    /// the language hangs on some texts: it only reads whole files
    fixed: bool,
}
impl Words {
    pub fn texts(&self) -> impl Iterator<Item = &String> {
        self.dict.iter().chain(self.files.iter())
    }
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('s') => o.push(' '),
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn collect(d: &Path, v: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, v)
        }
        else if p.extension().is_none_or(|x| x != "json" || p.to_string_lossy().contains("oak-json") && !p.to_string_lossy().ends_with("ed.json")) {
            v.push(p)
        }
    }
}
pub fn words() -> BTreeMap<String, Words> {
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    DICT.lines()
        .map(|l| {
            let mut it = l.split(' ');
            let n = it.next().unwrap().to_string();
            let dict = it.filter(|w| !w.is_empty()).map(unesc).collect();
            let mut f = vec![];
            collect(Path::new(&format!("{repo}/examples/oak-{n}/tests")), &mut f);
            f.sort();
            let mut files: Vec<String> = f.iter().filter(|p| p.extension().is_none_or(|x| x != "rs") || n == "rust" && p.to_string_lossy().contains("/files/")).filter_map(|p| std::fs::read_to_string(p).ok()).filter(|s| s.len() < 20_000 && !s.is_empty()).collect();
            if crate::quarantine::not_even_its_files(&n) {
                files.clear();
            }
            (n.clone(), Words { dict, files, fixed: crate::quarantine::holds(&n) })
        })
        .collect()
}

fn piece<'a>(g: &mut Rng, w: &'a Words) -> &'a str {
    if !w.dict.is_empty() && g.chance(2, 3) { g.pick(&w.dict[..]).as_str() } else { *g.pick(COMMON) }
}
pub fn soup(g: &mut Rng, w: &Words, max: usize) -> String {
    let mut s = String::new();
    let glue = g.below(3);
    for _ in 0..g.range(1, max) {
        s.push_str(piece(g, w));
        match glue {
            0 => {}
            1 => s.push(' '),
            _ => s.push_str(*g.pick(&["", "", " ", " ", "\n"])),
        }
    }
    s
}
fn at(g: &mut Rng, s: &str) -> usize {
    floor_char(s, g.below(s.len() + 1))
}
pub fn mutated(g: &mut Rng, w: &Words, max: usize) -> String {
    if w.files.is_empty() {
        return soup(g, w, 20);
    }
    let f: &String = g.pick(&w.files);
    let (lo, n) = if f.len() <= max || g.chance(1, 4) { (0, g.below(max)) } else { (at(g, f), g.below(max)) };
    let hi = floor_char(f, (lo + n).min(f.len()));
    let mut s = f[lo..hi].to_string();
    for _ in 0..g.below(5) {
        let (a, b) = (at(g, &s), at(g, &s));
        let (a, b) = (a.min(b), a.max(b));
        let b = if g.chance(2, 3) { floor_char(&s, b.min(a + 8)).max(a) } else { b };
        match g.below(4) {
            0 => s.replace_range(a..b, ""),
            1 => s.insert_str(a, piece(g, w)),
            2 => {
                let x = s[a..b].to_string();
                let k = at(g, &s);
                if s.len() < max * 2 {
                    s.insert_str(k, &x)
                }
            }
            _ => s.replace_range(a..b, piece(g, w)),
        }
    }
    s
}
/// Wide characters straight after the words and quotes of the language, the last one at the end of the text.
pub fn wide(g: &mut Rng, w: &Words) -> String {
    let mut s = String::new();
    for _ in 0..g.range(1, 5) {
        s.push_str(if g.chance(1, 3) { *g.pick(&["\"", "'", "`", "\\", "\"\\", "'\\", "#", "\"a", "//", "0", "a", ".", "<", "[", "{", "$", "@", "%"]) } else { piece(g, w) });
        if g.chance(3, 4) {
            s.push_str(*g.pick(&["é", "漢", "😀", "\u{a0}", "\u{2028}", "ß", "\u{0301}"]));
        }
        if g.chance(1, 4) {
            s.push_str(*g.pick(&["\"", "'", " ", "\n", "`", "a", "1"]));
        }
    }
    s
}
/// The same opening again and again, with or without what closes it.
pub fn nested(g: &mut Rng, w: &Words) -> String {
    let open = [("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("a(", ")"), ("f(x, ", ")"), ("if (", ")"), ("-", ""), ("!", ""), ("x = ", ""), ("{{", "}}"), ("\"${", "}\""), ("/*", "*/"), ("<a>", "</a>"), ("a.", ""), ("a, ", ""), ("a: ", ""), ("if ", " end"), ("- ", ""), ("\n  ", ""), ("> ", ""), ("# ", ""), ("* ", "")];
    let (mut a, mut b) = { let x = g.pick(&open[..]); (x.0.to_string(), x.1.to_string()) };
    if g.chance(1, 3) {
        a = format!("{}{}", piece(g, w), *g.pick(&["", " "]));
        b = format!("{}{}", *g.pick(&["", " "]), piece(g, w));
    }
    let n = g.range(2, 24);
    let mid = soup(g, w, 3);
    let mut t = a.repeat(n);
    t.push_str(&mid);
    for _ in 0..match g.below(3) { 0 => 0, 1 => n, _ => g.below(n + 2) } {
        t.push_str(&b)
    }
    if g.chance(1, 4) {
        t.insert_str(0, *g.pick(&["\n", " ", "x = ", "#"]))
    }
    t
}
pub fn text(g: &mut Rng, w: &Words) -> String {
    if w.fixed {
        return if w.files.is_empty() { String::new() } else { g.pick(&w.files[..]).clone() };
    }
    match g.below(11) {
        10 => return nested(g, w),
        _ => {}
    }
    match g.below(5) {
        4 => wide(g, w),
        0 => soup(g, w, 5),
        1 => soup(g, w, 25),
        2 => mutated(g, w, 120),
        _ => mutated(g, w, 400),
    }
}

/// The first cases are the language's own test files as they stand.
fn first(c: &mut Case, w: &Words) -> String {
    match w.files.get(c.index as usize) {
        Some(f) => f.clone(),
        None => text(&mut c.rng, w),
    }
}

pub struct Held {
    pub st: SourceText,
    pub rope: RopeBuffer,
    pub ch: ChunkedBuffer,
}
pub fn held(g: &mut Rng, t: &str) -> Held {
    let mut rope = RopeBuffer::new("");
    let mut ch = ChunkedBuffer::new();
    let mut cuts: Vec<usize> = (0..g.below(6)).map(|_| at(g, t)).collect();
    cuts.sort();
    cuts.push(t.len());
    let mut p = 0;
    for c in cuts {
        ch.push_str(&t[p..c]);
        if c > p {
            rope.apply_edits(&[TextEdit { span: rg(p, p), text: t[p..c].to_string().into() }]);
        }
        p = c;
    }
    Held { st: SourceText::new(t), rope, ch }
}

// ---- monitors: each answers what is wrong, if anything
pub fn bounds(o: &Out<Tok>, t: &str) -> Option<String> {
    let v = o.items.as_ref()?;
    v.iter().find(|x| x.start > x.end || x.end > t.len() || !t.is_char_boundary(x.start) || !t.is_char_boundary(x.end)).map(|x| format!("{x:?} of {} bytes", t.len()))
}
pub fn order(o: &Out<Tok>) -> Option<String> {
    let v = o.items.as_ref()?;
    v.windows(2).find(|w| w[0].end > w[1].start).map(|w| format!("{:?} before {:?}", w[0], w[1]))
}
pub fn tiles(o: &Out<Tok>, t: &str) -> Option<String> {
    let v = o.items.as_ref()?;
    let mut p = 0;
    for x in v {
        if x.start != p {
            return Some(format!("{x:?} after position {p}"));
        }
        p = x.end;
    }
    (p != t.len()).then(|| format!("tokens end at {p} of {}", t.len()))
}
pub fn empties(o: &Out<Tok>) -> Option<String> {
    let v = o.items.as_ref()?;
    let n = v.len();
    v.iter().take(n.saturating_sub(1)).find(|x| x.start == x.end).map(|x| format!("{x:?}"))
}
pub fn eof(o: &Out<Tok>, t: &str) -> Option<String> {
    let v = o.items.as_ref()?;
    match v.last() {
        Some(x) if x.start == t.len() && x.end == t.len() => None,
        x => Some(format!("last {x:?}")),
    }
}
pub fn inner(o: &Out<El>, t: &str) -> Option<String> {
    let v = o.items.as_ref()?;
    v.iter().find(|x| x.inner != x.len).map(|x| format!("{x:?}")).or_else(|| (v[0].len > t.len()).then(|| format!("tree of {} for text of {}", v[0].len, t.len())))
}
pub fn covers(o: &Out<El>, t: &str) -> Option<String> {
    let v = o.items.as_ref()?;
    (v[0].len != t.len()).then(|| format!("tree of {} for text of {}", v[0].len, t.len()))
}
pub fn offsets<T>(o: &Out<T>, t: &str) -> Option<String> {
    o.offsets.iter().find(|&&x| x > t.len() || !t.is_char_boundary(x)).map(|x| format!("diagnostic at {x} of {}", t.len()))
}
pub fn differ<T: PartialEq + std::fmt::Debug>(a: &Out<T>, b: &Out<T>) -> Option<String> {
    if a == b {
        return None;
    }
    if let (Some(x), Some(y)) = (&a.items, &b.items) {
        if x != y {
            let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            return Some(format!("item {i}: {:?} vs {:?}", x.get(i), y.get(i)));
        }
        return Some(format!("DIAG {:?} vs {:?}", a.diags, b.diags));
    }
    Some(format!("RESULT {:?} vs {:?}", a.error, b.error))
}

pub fn survey(r: &mut Run) {
    r.set_hang_limit(4);
    let ws = words();
    let ls = table();
    let only = std::env::var("LANG1").ok();
    let n: u64 = std::env::var("SN").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
    let mut count: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for l in &ls {
        if only.as_ref().is_some_and(|o| o != l.name()) {
            continue;
        }
        let w = &ws[l.name()];
        r.seen(&format!("{} files", l.name()), w.files.len() as u64);
        let nm = l.name().to_string();
        let mut hit = |k: &str, d: Option<String>, t: &str| {
            if let Some(d) = d {
                let e = count.entry(format!("{nm} {k}")).or_insert((0, String::new()));
                e.0 += 1;
                if e.1.is_empty() || t.len() < 30 && e.1.len() > 140 {
                    e.1 = format!("{t:?} {d}");
                }
            }
        };
        r.family(l.name(), n, n, |c| {
            let t = text(&mut c.rng, w);
            c.input(format!("{t:?}"));
            let h = held(&mut c.rng, &t);
            let base = l.lex(&h.st);
            hit("lex-err", base.error.clone(), &t);
            hit("bounds", bounds(&base, &t), &t);
            hit("order", order(&base), &t);
            hit("tiles", tiles(&base, &t), &t);
            hit("empties", empties(&base), &t);
            hit("eof", eof(&base, &t), &t);
            hit("offs", offsets(&base, &t), &t);
            hit("lex-rep", differ(&l.lex(&h.st), &base), &t);
            hit("lex-rope", differ(&l.lex(&h.rope), &base), &t);
            hit("lex-chunk", differ(&l.lex(&h.ch), &base), &t);
            let p = l.parse(&h.st);
            hit("parse-err", p.error.clone(), &t);
            hit("poffs", offsets(&p, &t), &t);
            hit("inner", inner(&p, &t), &t);
            hit("covers", covers(&p, &t), &t);
            hit("parse-rep", differ(&l.parse(&h.st), &p), &t);
            hit("parse-rope", differ(&l.parse(&h.rope), &p), &t);
            // typing: relexed after every character
            if std::env::var("TYPING").is_ok() {
                let cut: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                let k = if cut.is_empty() { 0 } else { cut[c.rng.below(cut.len())] };
                let del = c.rng.chance(1, 3);
                let rest: String = t[k..].chars().take(8).collect();
                let tail = &t[(k + rest.len()).min(t.len())..];
                let tail = if c.rng.chance(1, 2) { tail } else { "" };
                let head = &t[..k];
                let mut d = l.open();
                let states: Vec<String> = (0..=rest.chars().count()).map(|n| format!("{head}{}{tail}", rest.chars().take(n).collect::<String>())).collect();
                let mut ord: Vec<usize> = (0..states.len()).collect();
                if del { ord.reverse() }
                let mut last: Option<usize> = None;
                for i in ord {
                    let s = SourceText::new(states[i].clone());
                    let log = format!("{:?} at {k}, previous {:?}", states[i], last.map(|x| states[x].clone()));
                    c.input(log.clone());
                    match last {
                        None => { d.lex(&s, &[]); }
                        Some(p) => {
                            let (lo, hi) = (p.min(i), p.max(i));
                            let a = k + rest.chars().take(lo).map(|x| x.len_utf8()).sum::<usize>();
                            let b = k + rest.chars().take(hi).map(|x| x.len_utf8()).sum::<usize>();
                            let e = if p < i { TextEdit { span: rg(a, a), text: states[i][a..b].to_string().into() } } else { TextEdit { span: rg(a, b), text: String::new().into() } };
                            hit("typing", differ(&d.lex(&s, &[e]), &l.lex(&s)), &log);
                        }
                    }
                    last = Some(i);
                }
            }
            // an edit history
            let mut d = l.open();
            hit("doc0", differ(&d.parse(&h.st, &[]), &p), &t);
            let mut t = t;
            for _ in 0..3 {
                let (a, b) = (at(&mut c.rng, &t), at(&mut c.rng, &t));
                let (a, b) = (a.min(b), a.max(b).min(a + 6));
                let b = floor_char(&t, b).max(a);
                let ins = if c.rng.chance(1, 4) { "" } else { piece(&mut c.rng, w) };
                let old = t.clone();
                t.replace_range(a..b, ins);
                let log = format!("{old:?} [{a}..{b} := {ins:?}]");
                c.input(log.clone());
                let e = [TextEdit { span: rg(a, b), text: ins.to_string().into() }];
                let s = SourceText::new(t.clone());
                let got = d.parse(&s, &e);
                let want = l.parse(&s);
                let x = differ(&got, &want);
                match x {
                    Some(x) if x.starts_with("DIAG") => hit("inc-diag", Some(x), &log),
                    x => hit("inc", x, &log),
                }
                let mut d2 = l.open();
                let so = SourceText::new(old);
                d2.lex(&so, &[]);
                hit("relex", differ(&d2.lex(&s, &e), &l.lex(&s)), &log);
            }
            Ok(())
        });
    }
    for (k, (n, ex)) in count {
        println!("{k} {n} {}", clip(&ex, 500));
    }
}

/// The words and files of one language, found once.
fn each(r: &mut Run, quick: u64, thorough: u64, edits: bool, mut f: impl FnMut(&mut Case, &dyn Api, &Words) -> Check) {
    r.set_hang_limit(if r.variant == "asan" { 40 } else { 10 });
    let ws = words();
    let all = table();
    let mut files = 0;
    for l in &all {
        if std::env::var("LANG1").is_ok_and(|o| o != l.name()) {
            continue;
        }
        let w = &ws[l.name()];
        if w.fixed && edits {
            continue;
        }
        let (quick, thorough) = if w.fixed { (w.files.len() as u64 * 4, w.files.len() as u64 * 8) } else { (quick, thorough) };
        files += w.files.len() as u64;
        r.family(l.name(), quick, thorough, |c| {
            let x = catch(|| f(c, &**l, w));
            c.seen("cases", 1);
            named_after(c, l.name(), x)
        });
    }
    r.seen("languages (per shard)", all.len() as u64);
    r.seen("files texts were cut from (per shard)", files);
}
/// Failures are told apart by the language and by the kind of text that shows them, so that one that is known hides no other.
fn named_after(c: &mut Case, lang: &str, x: Result<Check, String>) -> Check {
    let panic = match x {
        Ok(x) => {
            c.also(x);
            None
        }
        Err(p) => Some(p),
    };
    for e in &mut c.extra {
        e.sig = format!("{lang}: {}", e.sig);
    }
    let Some(p) = panic else { return Ok(()) };
    let site = p.rsplit_once(" @ ").map_or("", |x| x.1).split(':').next().unwrap_or("").to_string();
    fail(format!("panic in {site}"), p)
}
/// What kind of text this is: the language's own test file, plain, or with characters of several bytes.
fn kind(t: &str, w: &Words) -> &'static str {
    if w.files.iter().any(|f| f == t) {
        " (own test file)"
    }
    else if t.is_ascii() {
        ""
    }
    else {
        " (several-byte characters)"
    }
}
fn none(d: Option<String>, sig: &str, k: &str, t: &str) -> Check {
    match d {
        None => Ok(()),
        Some(d) => fail(format!("{sig}{k}"), format!("{t:?}: {d}")),
    }
}

/// No text brings a language down; whatever comes back lies inside the text and depends on nothing but the text.
pub fn c30(r: &mut Run) {
    if std::env::var("LANG1").is_err() {
        crate::quarantine::shown(r);
    }
    each(r, 3_000, 60_000, false, |c, l, w| {
        let t = first(c, w);
        let k = kind(&t, w);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let h = held(&mut c.rng, &t);
        let a = l.lex(&h.st);
        c.seen("tokens", a.items.as_ref().map_or(0, |x| x.len() as u64));
        c.also(none(bounds(&a, &t), "a token is not a stretch of the text", k, &t));
        c.also(none(offsets(&a, &t), "a lexical error lies outside the text or inside a character", k, &t));
        let p = l.parse(&h.st);
        c.seen("tree elements", p.items.as_ref().map_or(0, |x| x.len() as u64));
        c.seen("diagnostics", p.diags.len() as u64);
        c.seen("texts without a tree", p.items.is_none() as u64);
        c.also(none(offsets(&p, &t), "a diagnostic lies outside the text or inside a character", k, &t));
        if p.items.is_none() && p.diags.is_empty() && p.error.is_none() {
            c.also(fail(format!("neither a tree nor an error{k}"), format!("{t:?}")));
        }
        match c.rng.below(4) {
            0 => c.also(none(differ(&l.lex(&h.st), &a), "the same text lexed twice gives two answers", k, &t)),
            1 => c.also(none(differ(&l.parse(&h.st), &p), "the same text parsed twice gives two answers", k, &t)),
            _ => {}
        }
        let (ln, lp) = (differ(&l.lex(&h.rope), &a), differ(&l.parse(&h.rope), &p));
        let lexed = ln.is_none();
        c.also(none(ln, "lexed differently from a rope", k, &t));
        if lexed {
            c.also(none(lp, "parsed differently from a rope", k, &t));
        }
        let (ln, lp) = (differ(&l.lex(&h.ch), &a), differ(&l.parse(&h.ch), &p));
        let lexed = ln.is_none();
        c.also(none(ln, "lexed differently from chunks", k, &t));
        if lexed {
            c.also(none(lp, "parsed differently from chunks", k, &t));
        }
        c.seen("answers compared", 4);
        Ok(())
    });
}

/// Tokens and trees hold every byte of the text, once and in order.
pub fn c31(r: &mut Run) {
    each(r, 6_000, 120_000, false, |c, l, w| {
        let t = first(c, w);
        let k = kind(&t, w);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let s = SourceText::new(t.clone());
        let a = l.lex(&s);
        let p = l.parse(&s);
        let Some(toks) = &a.items else { return Ok(()) };
        c.seen("tokens", toks.len() as u64);
        c.seen("leaves compared with tokens", p.items.as_ref().map_or(0, |x| x.iter().filter(|x| x.leaf).count() as u64));
        c.seen("trees", p.items.is_some() as u64);
        let gap = tiles(&a, &t);
        let tiled = gap.is_none();
        c.also(none(gap, "the tokens do not cover the text one after the other", k, &t));
        let Some(els) = &p.items else { return Ok(()) };
        c.also(none(inner(&p, &t), "a node is not as long as its children together", k, &t));
        c.also(none(covers(&p, &t), "the tree does not cover the text", k, &t));
        // leaf by leaf, the tree is the token list
        let leaves: Vec<usize> = els.iter().filter(|x| x.leaf && x.len > 0).map(|x| x.len).collect();
        let want: Vec<usize> = toks.iter().filter(|x| x.end > x.start).map(|x| x.end - x.start).collect();
        if tiled && leaves != want && covers(&p, &t).is_none() {
            let i = leaves.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(leaves.len().min(want.len()));
            c.also(fail(format!("the leaves of the tree are not the tokens{k}"), format!("{t:?}: leaf {i} of {} is {:?} long, token of {} {:?}", leaves.len(), leaves.get(i), want.len(), want.get(i))));
        }
        Ok(())
    });
}

/// One batch of edits (spans in the old text, in order) and the text it leads to.
fn change(g: &mut Rng, t: &str, w: &Words) -> (Vec<TextEdit>, String) {
    let mut e = vec![];
    let mut o = String::new();
    let mut p = 0;
    let n = match g.below(8) { 0 => 2, 1 => 3, _ => 1 };
    let mut cuts: Vec<usize> = (0..n).map(|_| at(g, t)).collect();
    if g.chance(1, 6) {
        cuts[0] = t.len();
    }
    cuts.sort();
    for a in cuts {
        let a = a.max(p);
        let b = match g.below(4) { 0 => a, 1 => (a + 1).min(t.len()), 2 => (a + 6).min(t.len()), _ => (a + g.below(40)).min(t.len()) };
        let b = floor_char(t, b).max(a);
        let s = match g.below(6) {
            0 => String::new(),
            1 => t[a..b].to_string(),
            2 => g.pick(&["x", "1", " ", "\n", "\"", "(", ")", "}", "/", "*", "é", ".", "-", "="][..]).to_string(),
            3 if !w.files.is_empty() => { let f: &String = g.pick(&w.files); let x = at(g, f); f[x..floor_char(f, (x + g.below(30)).min(f.len())).max(x)].to_string() }
            _ => piece(g, w).to_string(),
        };
        if !e.is_empty() && a == p {
            continue;
        }
        o.push_str(&t[p..a]);
        o.push_str(&s);
        e.push(TextEdit { span: rg(a, b), text: s.into() });
        p = b;
    }
    o.push_str(&t[p..]);
    (e, o)
}
fn show(e: &[TextEdit]) -> String {
    e.iter().map(|e| format!("[{}..{} := {:?}]", e.span.start, e.span.end, e.text)).collect::<Vec<_>>().join(" ")
}

/// After any history of edits, a kept session answers as a fresh one does.
pub fn c32(r: &mut Run) {
    each(r, 2_000, 40_000, true, |c, l, w| {
        let mut t = text(&mut c.rng, w);
        let typing = c.rng.chance(1, 4);
        let mut log = format!("{t:?}");
        c.input(log.clone());
        let mut plain = t.is_ascii();
        let mut d = l.open();
        let mut lx = l.open();
        let mut rope = RopeBuffer::new(&t);
        let on_rope = c.rng.chance(1, 3);
        {
            let s = SourceText::new(t.clone());
            lx.lex(&s, &[]);
            none(differ(&d.parse(&s, &[]), &l.parse(&s)), "the first parse of a session differs", kind(&t, w), &log)?;
        }
        let word = format!("{}{}{}", piece(&mut c.rng, w), *c.rng.pick(&["", " ", "\n"]), piece(&mut c.rng, w));
        let mut spot = at(&mut c.rng, &t);
        let steps = if typing { word.chars().count().min(8) } else { 4 };
        for k in 0..steps {
            let (e, new) = if typing {
                let ch = word.chars().nth(k).unwrap().to_string();
                let mut n = t.clone();
                n.insert_str(spot, &ch);
                let e = vec![TextEdit { span: rg(spot, spot), text: ch.clone().into() }];
                spot += ch.len();
                (e, n)
            }
            else {
                change(&mut c.rng, &t, w)
            };
            log = format!("{} {}", clip(&log, 1500), show(&e));
            c.input(log.clone());
            t = new;
            c.distinct(&t);
            let s = SourceText::new(t.clone());
            if on_rope {
                rope.apply_edits(&e);
            }
            // (a character of several bytes shows wherever it stood)
            let k = if plain && t.is_ascii() { "" } else { " (several-byte characters)" };
            plain &= t.is_ascii();
            let want = l.parse(&s);
            let got = if on_rope { d.parse(&rope, &e) } else { d.parse(&s, &e) };
            let parsed = differ(&got, &want);
            let fresh = l.lex(&s);
            let got = if on_rope { lx.lex(&rope, &e) } else { lx.lex(&s, &e) };
            let lexed = differ(&got, &fresh);
            let on = lexed.is_none() && parsed.is_none();
            c.also(none(parsed, "a kept session parses differently from a fresh one", k, &log));
            c.also(none(lexed, "a kept session lexes differently from a fresh one", k, &log));
            if !on {
                break;
            }
            c.seen("edits", e.len() as u64);
            c.seen("incremental parses compared", 1);
            c.seen("trees compared", want.items.is_some() as u64);
        }
        Ok(())
    });
}

/// Typed trees: building ends in an answer that depends on the text alone and speaks of places in the text.
pub fn c33(r: &mut Run) {
    r.set_hang_limit(10);
    let ws = words();
    let all = crate::btable::table();
    for l in &all {
        if std::env::var("LANG1").is_ok_and(|o| o != l.name()) {
            continue;
        }
        let w = &ws[l.name()];
        if w.fixed {
            continue;
        }
        r.family(l.name(), 2_000, 40_000, |c| {
            let x = catch(|| typed(c, &**l, w));
            named_after(c, l.name(), x)
        });
    }
    r.seen("builders (per shard)", all.len() as u64);
}
fn typed(c: &mut Case, l: &dyn crate::build::Api, w: &Words) -> Check {
    let mut t = first(c, w);
    c.input(format!("{t:?}"));
    let h = held(&mut c.rng, &t);
    let check = |b: &crate::build::Built, t: &str, c: &mut Case| -> Check {
        c.distinct(t);
        let bad = b.offsets.iter().find(|o| **o > t.len() || !t.is_char_boundary(**o));
        let k = kind(t, w);
        c.also(none(bad.map(|o| format!("offset {o} of {}", t.len())), "a diagnostic lies outside the text or inside a character", k, t));
        ensure!(b.root.is_some() || b.error.is_some() || !b.diags.is_empty(), format!("neither a typed tree nor an error{k}"), "{t:?}");
        let Some(d) = &b.root else {
            c.seen("texts without a typed tree", 1);
            return Ok(());
        };
        let v = crate::build::spans(d);
        c.seen("typed trees", 1);
        c.seen("spans in typed trees", v.len() as u64);
        let bad = v.iter().find(|(a, b)| a > b || *b > t.len() || !t.is_char_boundary(*a) || !t.is_char_boundary(*b));
        none(bad.map(|x| format!("{x:?} of {} in {}", t.len(), clip(d, 600))), "a span of the typed tree is no stretch of the text", k, t)?;
        let v = crate::build::named(d);
        c.seen("named things found at their place", v.len() as u64);
        // (a thing without a name is given one of these; a qualified name is put together from its parts)
        let made_up = ["unknown", "anonymous", "_", "0", "true"];
        let bad = v.iter().find(|(n, a, b)| !made_up.contains(&n.as_str()) && !n.split('.').all(|p| t[*a..*b].contains(p)));
        none(bad.map(|x| format!("{x:?}, where the text says {:?}, in {}", &t[x.1..x.2], clip(d, 600))), "a named thing of the typed tree is not at its place", k, t)
    };
    let a = l.build(&h.st);
    let x = check(&a, &t, c);
    c.also(x);
    let alike = |x: &crate::build::Built, y: &crate::build::Built, sig: &str, k: &str, log: &str| -> Check { ensure!(x == y, format!("{sig}{k}"), "{log}: {} instead of {}", clip(&format!("{x:?}"), 500), clip(&format!("{y:?}"), 500)); Ok(()) };
    let k = kind(&t, w);
    c.also(alike(&l.build(&h.rope), &a, "built differently from a rope", k, &format!("{t:?}")));
    c.also(alike(&l.build(&h.ch), &a, "built differently from chunks", k, &format!("{t:?}")));
    // a kept session over a history of edits
    let mut d = l.open();
    let mut log = format!("{t:?}");
    alike(&d.build(&h.st, &[]), &a, "built differently a second time", k, &log)?;
    let mut plain = t.is_ascii();
    for _ in 0..c.rng.below(4) {
        let (e, new) = change(&mut c.rng, &t, w);
        log = format!("{} {}", clip(&log, 1500), show(&e));
        c.input(log.clone());
        t = new;
        let s = SourceText::new(t.clone());
        let want = l.build(&s);
        let x = check(&want, &t, c);
        c.also(x);
        plain &= t.is_ascii();
        alike(&d.build(&s, &e), &want, "a kept session builds differently from a fresh one", if plain { "" } else { " (several-byte characters)" }, &log)?;
        c.seen("incremental builds compared", 1);
    }
    Ok(())
}

/// One text through one language, for looking at a report by hand: `hlang one` with LANG1 and TEXT.
pub fn one() {
    // (an environment variable cannot hold a null character)
    let (l, t) = (std::env::var("LANG1").unwrap(), std::env::var("TEXT").unwrap().replace('␀', "\0"));
    let v = table();
    let l = v.iter().find(|x| x.name() == l).unwrap();
    let s = SourceText::new(t.clone());
    let a = l.lex(&s);
    let p = l.parse(&s);
    if std::env::var("QUIET").is_ok() {
        // and once more from chunks of one character
        let mut ch = ChunkedBuffer::new();
        t.chars().for_each(|x| ch.push_str(x.encode_utf8(&mut [0; 4])));
        l.lex(&ch);
        l.parse(&ch);
        return;
    }
    println!("{a:?}");
    for e in p.items.iter().flatten() {
        println!("{}{} {}{}", "  ".repeat(e.depth), e.kind, e.len, if e.leaf { "" } else { " ." });
    }
    println!("{:?} {:?}", p.error, p.diags);
}
