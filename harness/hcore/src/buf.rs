//! C36: source text put together from pieces keeps every piece apart: a space where two words would run into one,
//! nothing else added, nothing lost.
use oak_core::source::{SourceBuffer, ToSource};
use vcommon::*;

const PIECES: &[&str] = &[
    "", "", "a", "let", "x1", "_", "__", "9", "0x", "é", "ß", "中", "𝕏", "٣", "²", "ª", "\u{301}", "e\u{301}", "$", "-", "--", "+", "=>", "(", ")", "{", "}", ";", ".", "\"s\"", "'", " ", "  ", "\n", "\t", "\r\n", "a b", "a ", " a", "a-", "-a", "_ _", "//c\n", "🦀", "\u{200d}", "\u{a0}", "\u{feff}",
];

fn word(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

/// What the pieces make: written from the claim, over the whole text so far.
fn model(pieces: &[String]) -> String {
    let mut out: Vec<char> = vec![];
    for p in pieces {
        let cs: Vec<char> = p.chars().collect();
        if cs.is_empty() {
            continue;
        }
        if !out.is_empty() && word(out[out.len() - 1]) && word(cs[0]) {
            out.push(' ');
        }
        out.extend(cs);
    }
    out.into_iter().collect()
}

enum Tree {
    Leaf(String),
    Node(Vec<Tree>),
}
impl ToSource for Tree {
    fn to_source(&self, buffer: &mut SourceBuffer) {
        match self {
            Tree::Leaf(s) => buffer.push(s),
            Tree::Node(v) => v.iter().for_each(|t| t.to_source(buffer)),
        }
    }
}
impl Tree {
    fn of(g: &mut Rng, pieces: &[String]) -> Tree {
        match pieces {
            [one] if g.chance(2, 3) => Tree::Leaf(one.clone()),
            [] => Tree::Node(vec![]),
            _ => {
                let k = g.range(1, pieces.len());
                let mut v = vec![if k == pieces.len() && k > 1 { Tree::Node(pieces.iter().map(|p| Tree::Leaf(p.clone())).collect()) } else if k == 1 { Tree::Leaf(pieces[0].clone()) } else { Tree::of(g, &pieces[..k]) }];
                v.push(Tree::of(g, &pieces[k..]));
                Tree::Node(v)
            }
        }
    }
}

fn check(c: &mut Case, pieces: &[String]) -> Check {
    c.input(format!("{pieces:?}"));
    let want = model(pieces);
    let mut b = if c.rng.chance(1, 2) { SourceBuffer::new() } else { SourceBuffer::default() };
    for (i, p) in pieces.iter().enumerate() {
        b.push(p);
        if c.rng.chance(1, 4) {
            ensure_eq!(b.to_string(), model(&pieces[..=i]), "text on the way", "after piece {i}");
        }
        if c.rng.chance(1, 6) {
            // a copy and its original go their own ways
            let mut other = b.clone();
            other.push("zz");
            let mut with = pieces[..=i].to_vec();
            with.push("zz".into());
            ensure_eq!(other.finish(), model(&with), "text of a copy", "after piece {i}");
        }
    }
    ensure_eq!(format!("{b}"), want, "displayed text", "");
    ensure_eq!(String::from(b.clone()), want, "text as a string", "");
    ensure_eq!(b.finish(), want, "finished text", "");
    let t = Tree::of(&mut c.rng, pieces);
    ensure_eq!(t.to_source_string(), want, "text of nested sources", "");
    // no two words run together: the words of the text are the words of the pieces
    let words = |s: &str| s.split(|ch| !word(ch)).filter(|w| !w.is_empty()).map(str::to_string).collect::<Vec<_>>();
    let mut each = vec![];
    pieces.iter().for_each(|p| each.extend(words(p)));
    ensure_eq!(words(&want), each, "words", "");
    c.seen("pieces", pieces.len() as u64);
    c.seen("spaces put in", (want.len() - pieces.iter().map(|p| p.len()).sum::<usize>()) as u64);
    c.distinct(&want);
    Ok(())
}

pub fn buffers(r: &mut Run) {
    let n = PIECES.len() as u64;
    r.family_exact("every-pair", n * n, |c| {
        let (i, j) = (c.index / n, c.index % n);
        check(c, &[PIECES[i as usize].to_string(), PIECES[j as usize].to_string()])
    });
    r.family("piece-lists", 60_000, 1_000_000, |c| {
        let k = c.rng.below(12);
        let p: Vec<String> = (0..k).map(|_| c.rng.pick(PIECES).to_string()).collect();
        check(c, &p)
    });
    r.family("any-characters", 30_000, 500_000, |c| {
        let k = c.rng.below(6);
        let mut p = vec![];
        for _ in 0..k {
            let m = c.rng.below(4);
            p.push((0..m).map(|_| char::from_u32(c.rng.below(if c.rng.clone().chance(1, 2) { 0x250 } else { 0x30000 }) as u32).unwrap_or('a')).collect::<String>());
        }
        check(c, &p)
    });
    r.family("long-texts", 60, 1000, |c| {
        let k = c.rng.range(300, 3000);
        let p: Vec<String> = (0..k).map(|_| c.rng.pick(PIECES).to_string()).collect();
        c.input(format!("{k} pieces"));
        let mut b = SourceBuffer::new();
        p.iter().for_each(|x| b.push(x));
        ensure_eq!(b.finish(), model(&p), "finished text", "");
        c.seen("pieces", k as u64);
        Ok(())
    });
}
