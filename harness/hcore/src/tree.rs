//! C06: syntax trees tile the text and their views agree with the structure that was built.
//! C07: cursors, iterators and visitors walk a tree exactly once, in order, with exact offsets.
use crate::{
    src::{Views, boundaries, random_cuts, rg},
    toy::{self, E, T, Toy, ToyParser},
};
use oak_core::{
    GreenNode, GreenTree, ParseSession, Parser, RedLeaf, RedNode, RedTree,
    memory::arena::SyntaxArena,
    parser::state::{TreeSink, deep_clone_node},
    tree::{Cursor, GreenLeaf, TokenProvenance},
    visitor::{PreOrder, Visitor},
};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};
use vcommon::*;

/// The reference tree.
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Leaf(T, usize, Option<String>),
    Node(E, Vec<M>),
}
impl M {
    pub fn len(&self) -> usize {
        match self {
            M::Leaf(_, n, _) => *n,
            M::Node(_, c) => c.iter().map(|c| c.len()).sum(),
        }
    }
    /// Every element in pre-order: (depth, kind, start, end).
    pub fn flat(&self, at: usize, depth: usize, out: &mut Vec<(usize, E, usize, usize)>) {
        match self {
            M::Leaf(t, n, _) => out.push((depth, E::Tok(*t as u16), at, at + n)),
            M::Node(k, c) => {
                out.push((depth, *k, at, at + self.len()));
                let mut p = at;
                for x in c {
                    x.flat(p, depth + 1, out);
                    p += x.len();
                }
            }
        }
    }
    pub fn leaves(&self, at: usize, out: &mut Vec<(T, usize, usize)>) {
        match self {
            M::Leaf(t, n, _) => out.push((*t, at, at + n)),
            M::Node(_, c) => {
                let mut p = at;
                for x in c {
                    x.leaves(p, out);
                    p += x.len();
                }
            }
        }
    }
}

pub fn model_of(n: &GreenNode<'_, Toy>) -> M {
    M::Node(
        n.kind,
        n.children
            .iter()
            .map(|c| match c {
                GreenTree::Node(n) => model_of(n),
                GreenTree::Leaf(l) => M::Leaf(l.kind, l.length as usize, None),
            })
            .collect(),
    )
}

const TOKENS: &[T] = &[T::Ws, T::Ident, T::Number, T::Plus, T::LParen, T::RParen, T::Semi, T::Error, T::BlockComment];
const NODES: &[E] = &[E::FnDecl, E::Block, E::Expr, E::Binary, E::Atom, E::Paren, E::Bad, E::Args];

pub struct Built<'a> {
    pub root: &'a GreenNode<'a, Toy>,
    pub model: M,
    pub log: String,
    pub finished: Vec<(&'a GreenNode<'a, Toy>, M)>,
}

/// A random history of sink operations, mirrored on the model.
pub fn build<'a>(g: &mut Rng, arena: &'a SyntaxArena, ops: usize) -> Result<Built<'a>, Fail> {
    let mut sink: TreeSink<'a, Toy> = TreeSink::new(arena, g.below(4));
    let mut m: Vec<M> = vec![];
    let mut cps: Vec<usize> = vec![];
    let mut done: Vec<(&'a GreenNode<'a, Toy>, M)> = vec![];
    let mut log = String::new();
    let wide = g.chance(1, 12);
    for _ in 0..ops {
        match g.below(if wide { 30 } else { 14 }) {
            0 | 1 => {
                cps.push(sink.checkpoint());
                ensure_eq!(*cps.last().unwrap(), m.len(), "sink checkpoint", "{log}");
                log.push_str("cp ");
            }
            2 | 3 | 4 => {
                // close a node at some open checkpoint (inner ones are given up), or one that wraps everything
                let cp = if cps.is_empty() { g.below(m.len() + 1) } else { let i = g.below(cps.len()); let c = cps[i]; cps.truncate(i); c };
                let k = *g.pick(NODES);
                log.push_str(&format!("finish({cp},{k:?}) "));
                let n = sink.finish_node(cp, k);
                let kids = m.split_off(cp);
                m.push(M::Node(k, kids));
                cps.retain(|c| *c <= cp);
                ensure_eq!(sink.checkpoint(), m.len(), "sink length after finish", "{log}");
                done.push((n, m.last().unwrap().clone()));
            }
            5 => {
                if let Some(cp) = cps.pop() {
                    log.push_str(&format!("restore({cp}) "));
                    sink.restore(cp);
                    m.truncate(cp);
                    ensure_eq!(sink.checkpoint(), m.len(), "sink length after restore", "{log}");
                }
            }
            6 => {
                if !done.is_empty() && m.len() < 40 {
                    let i = g.below(done.len());
                    if done[i].1.len() < 100_000 {
                        log.push_str(&format!("node#{i} "));
                        if g.chance(1, 3) {
                            let other = Box::leak(Box::new(SyntaxArena::new(1)));
                            let copy = deep_clone_node(done[i].0, other);
                            ensure!(*copy == *done[i].0, "deep clone differs", "{log}");
                            sink.push_node(deep_clone_node(copy, arena));
                            // SAFETY: nothing refers to the intermediate arena any more
                            drop(unsafe { Box::from_raw(other as *mut SyntaxArena) });
                        }
                        else {
                            sink.push_node(done[i].0);
                        }
                        m.push(done[i].1.clone());
                    }
                }
            }
            7 => {
                let (k, n, s) = (*g.pick(TOKENS), g.below(6), format!("p{}", g.below(1000)));
                log.push_str(&format!("meta({k:?},{n},{s}) "));
                sink.push_leaf_with_metadata(k, n, TokenProvenance::from_synthesized(s.clone()));
                m.push(M::Leaf(k, n, Some(s)));
            }
            _ => {
                let k = *g.pick(TOKENS);
                let n = match g.below(12) {
                    0 | 1 => 0,
                    2 => g.range(1, 70_000),
                    _ => g.range(1, 9),
                };
                log.push_str(&format!("leaf({k:?},{n}) "));
                sink.push_leaf(k, n);
                m.push(M::Leaf(k, n, None));
            }
        }
    }
    let root = sink.finish_node(0, E::Root);
    Ok(Built { root, model: M::Node(E::Root, m), log, finished: done })
}

pub fn same_green(n: &GreenNode<'_, Toy>, m: &M, arena: Option<&SyntaxArena>) -> Check {
    let M::Node(k, kids) = m
    else {
        return fail("tree shape", "leaf expected, node found");
    };
    ensure_eq!(n.kind(), *k, "node kind", "");
    ensure_eq!(n.text_len() as usize, m.len(), "node length is the sum of its children", "{k:?}");
    ensure_eq!(n.children().len(), kids.len(), "child count", "{k:?}");
    ensure_eq!(n.children_count(), kids.len(), "child count", "{k:?}");
    ensure_eq!(n.has_children(), !kids.is_empty(), "has_children", "{k:?}");
    ensure!(n.child_at(kids.len()).is_none(), "child past the end", "{k:?}");
    for (i, (c, x)) in n.children().iter().zip(kids).enumerate() {
        ensure!(n.child_at(i) == Some(c), "green child_at", "{k:?} {i}");
        ensure_eq!(c.len() as usize, x.len(), "child length", "{k:?} {i}");
        ensure_eq!(c.is_node(), !c.is_leaf(), "node xor leaf", "{k:?} {i}");
        ensure!(c.as_node().is_some() == c.is_node() && c.as_leaf().is_some() == c.is_leaf(), "green as_node/as_leaf", "{k:?} {i}");
        ensure!(c.as_node().is_none_or(|n| GreenTree::Node(n) == *c) && c.as_leaf().is_none_or(|l| GreenTree::Leaf(l) == *c), "green as_node/as_leaf", "{k:?} {i}");
        match (c, x) {
            (GreenTree::Node(c), M::Node(..)) => same_green(c, x, arena)?,
            (GreenTree::Leaf(l), M::Leaf(t, len, meta)) => {
                ensure_eq!((l.kind(), l.length() as usize), (*t, *len), "leaf", "{k:?} {i}");
                if let Some(a) = arena {
                    let got = l.metadata.and_then(|i| a.get_metadata(i)).map(|p| p.clone());
                    ensure_eq!(got, meta.clone().map(TokenProvenance::from_synthesized), "leaf provenance", "{k:?} {i}");
                }
            }
            _ => return fail("tree shape", format!("{k:?} child {i}: node/leaf mismatch")),
        }
    }
    Ok(())
}

fn kind_of(t: &RedTree<'_, Toy>) -> E {
    t.kind::<E>()
}

/// Every positioned view of `red` against the model, at the given absolute offset.
pub fn same_red(red: RedNode<'_, Toy>, m: &M, g: &mut Rng, seen: &mut u64) -> Check {
    let M::Node(k, kids) = m
    else {
        return fail("tree shape", "node expected");
    };
    ensure_eq!(red.span(), rg(red.offset, red.offset + m.len()), "red span", "{k:?}");
    ensure_eq!((red.element_type(), red.kind::<E>()), (*k, *k), "red kind", "");
    let got: Vec<RedTree<Toy>> = red.children().collect();
    ensure_eq!(got.len(), kids.len(), "red child count", "{k:?}");
    let mut at = red.offset;
    let mut starts = vec![];
    for (i, (c, x)) in got.iter().zip(kids).enumerate() {
        starts.push(at);
        ensure_eq!(c.span(), rg(at, at + x.len()), "red child span", "{k:?} {i}");
        ensure!(red.child_at(i) == *c, "child_at disagrees with children", "{k:?} {i}");
        match (c, x) {
            (RedTree::Node(n), M::Node(..)) => {
                ensure!(c.as_node() == Some(*n) && c.as_leaf().is_none(), "as_node", "{k:?} {i}");
                same_red(*n, x, g, seen)?
            }
            (RedTree::Leaf(l), M::Leaf(t, ..)) => {
                ensure!(c.as_leaf() == Some(*l) && c.as_node().is_none() && c.children().next().is_none(), "as_leaf", "{k:?} {i}");
                ensure_eq!(l.kind, *t, "red leaf kind", "{k:?} {i}");
            }
            _ => return fail("tree shape", format!("red {k:?} child {i}")),
        }
        at += x.len();
        *seen += 1;
    }
    // offset lookups: every child edge, its neighbours, random points, both ends and outside
    let end = red.offset + m.len();
    let mut pts: Vec<usize> = starts.iter().flat_map(|&s| [s.saturating_sub(1), s, s + 1]).collect();
    pts.extend([0, red.offset.saturating_sub(1), red.offset, end.saturating_sub(1), end, end + 1, end + 1000]);
    for _ in 0..8 {
        pts.push(g.range(red.offset, end));
    }
    if pts.len() > 120 {
        for i in 0..120 {
            let j = i + g.below(pts.len() - i);
            pts.swap(i, j);
        }
        pts.truncate(120);
    }
    let mut leaves = vec![];
    if kids.len() < 300 {
        m.leaves(red.offset, &mut leaves);
    }
    for p in pts {
        let want = (0..kids.len()).find(|&i| starts[i] <= p && p < starts[i] + kids[i].len());
        ensure_eq!(red.child_index_at_offset(p), want, "child_index_at_offset", "{k:?} spans {:?}, offset {p}", red.span());
        let c = red.child_at_offset(p);
        ensure!(c == want.map(|i| got[i]), "child_at_offset", "{k:?} offset {p}");
        if kids.len() < 300 {
            let leaf = red.leaf_at_offset(p).map(|l| (l.kind, l.span.start, l.span.end));
            let wl = leaves.iter().find(|l| l.1 <= p && p < l.2).copied();
            ensure_eq!(leaf, wl, "leaf_at_offset", "{k:?} offset {p}");
        }
        *seen += 1;
    }
    Ok(())
}

fn h<X: Hash>(x: &X) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

pub const PROGRAM: &[&str] = &[
    "let ", "x", "y1", " = ", "1", "42", " + ", " - ", " * ", "/", "^", "==", "=", ";", "; ", "\n", "(", ")", "{", "}", "{ ", " }\n", "fn f(a, b) ", "if ", " else ", ",", "?", "!", "-", "\"s\"", "'é'", "// c\n", "/* c */", " ", "é", "名", "fatal ", "#",
    "f(x, 1)", "let a = 1;\n", "if x { y; }\n", "fn g() { let z = a * (b + c); }\n", "\"open", "/*",
];

pub fn program(g: &mut Rng, n: usize) -> String {
    let mut s = g.string(PROGRAM, n);
    if g.chance(3, 4) {
        s = s.replace("fatal fatal", "fatal x");
    }
    s
}

pub fn shape(r: &mut Run) {
    r.family("sink-histories", 4000, 60_000, |c| {
        let arena = SyntaxArena::new(4);
        let ops = if c.rng.chance(1, 40) { 1500 } else { c.rng.range(0, 60) };
        let mut g = c.rng.clone();
        let b = build(&mut g, &arena, ops)?;
        c.input(clip(&b.log, 1500));
        c.distinct(&b.log);
        same_green(b.root, &b.model, Some(&arena))?;
        for (n, m) in &b.finished {
            same_green(n, m, Some(&arena))?;
        }
        let base = *c.rng.pick(&[0usize, 1, 17, 100_000]);
        let mut seen = 0;
        same_red(RedNode::new(b.root, base), &b.model, &mut c.rng, &mut seen)?;
        c.seen("positions checked", seen);
        c.seen("nodes finished", b.finished.len() as u64);
        // equality and hashing see exactly kind, lengths and shape
        let other = SyntaxArena::new(1);
        let copy = deep_clone_node(b.root, &other);
        ensure!(*copy == *b.root && h(copy) == h(b.root), "clone is not equal", "");
        if b.finished.len() > 1 {
            let (x, y) = (c.rng.below(b.finished.len()), c.rng.below(b.finished.len()));
            let bare = |m: &M| format!("{m:?}");
            let (mx, my) = (bare(&b.finished[x].1), bare(&b.finished[y].1));
            if !mx.contains("Some(") && !my.contains("Some(") {
                ensure_eq!(b.finished[x].0 == b.finished[y].0, mx == my, "tree equality", "{mx} vs {my}");
                ensure!(mx != my || h(b.finished[x].0) == h(b.finished[y].0), "equal trees, other hashes", "{mx}");
                // positioned elements: equal when structure and place are
                let (p, q) = (c.rng.below(2), c.rng.below(2));
                let (rx, ry) = (RedTree::Node(RedNode::new(b.finished[x].0, p)), RedTree::Node(RedNode::new(b.finished[y].0, q)));
                ensure_eq!(rx == ry, mx == my && p == q, "positioned equality", "{mx} at {p} vs {my} at {q}");
                ensure!(std::ptr::eq(RedNode::new(b.finished[x].0, p).green(), b.finished[x].0), "green of a positioned node", "");
                let leaf = |p: usize, n: usize| RedTree::<Toy>::Leaf(RedLeaf { kind: T::Ident, span: rg(p, n) });
                ensure!(leaf(p, 5) != rx && rx != leaf(p, 5) && leaf(p, 5) == leaf(p, 5) && (leaf(p, 5) == leaf(q, 5)) == (p == q) && leaf(0, 5) != leaf(0, 6), "positioned equality", "leaves");
            }
        }
        Ok(())
    });
    // equality and hashing of elements: exactly kind, length, metadata and children
    r.family("equality", 2000, 20_000, |c| {
        let arena = SyntaxArena::new(1);
        fn any<'a>(g: &mut Rng, a: &'a SyntaxArena, d: usize) -> (GreenTree<'a, Toy>, String) {
            if d == 0 || g.chance(1, 3) {
                let k = *g.pick(&[T::Ident, T::Number]);
                let (n, m) = (g.below(3) as u32, std::num::NonZeroU32::new(g.below(3) as u32));
                let leaf = if m.is_none() && g.chance(1, 2) { GreenLeaf::new(k, n) } else { GreenLeaf::with_metadata(k, n, m) };
                return (GreenTree::Leaf(leaf), format!("{k:?}/{n}/{m:?}"));
            }
            let k = *g.pick(&[E::Atom, E::Expr]);
            let parts: Vec<_> = (0..g.below(3)).map(|_| any(g, a, d - 1)).collect();
            let kids: Vec<_> = parts.iter().map(|p| p.0).collect();
            let node = a.alloc(GreenNode::new(k, a.alloc_slice_copy(&kids)));
            (GreenTree::Node(node), format!("{k:?}({})", parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(" ")))
        }
        let deep = c.rng.below(3);
        let all: Vec<_> = (0..12).map(|_| any(&mut c.rng, &arena, deep)).collect();
        c.input(format!("{:?}", all.iter().map(|x| &x.1).collect::<Vec<_>>()));
        c.distinct(&format!("{:?}", all.iter().map(|x| &x.1).collect::<Vec<_>>()));
        for (x, mx) in &all {
            for (y, my) in &all {
                ensure_eq!(x == y, mx == my, "tree equality", "{mx} vs {my}");
                ensure!(mx != my || h(x) == h(y), "equal trees, other hashes", "{mx}");
                for (p, q) in [(0, 0), (0, 3)] {
                    let red = |t: &GreenTree<'_, Toy>, at: usize| match t {
                        GreenTree::Leaf(l) => Err(RedLeaf::<Toy> { kind: l.kind, span: rg(at, at + l.length as usize) }),
                        GreenTree::Node(_) => Ok(at),
                    };
                    if let (Err(a), Err(b)) = (red(x, p), red(y, q)) {
                        ensure_eq!(a == b, a.kind == b.kind && a.span.start == b.span.start && a.span.end == b.span.end, "positioned equality", "{a:?} vs {b:?}");
                    }
                }
                c.seen("pairs of elements compared", 1);
            }
            // looking a position up in a node: the child that covers it, and none beside the node
            if let GreenTree::Node(n) = x {
                let base = c.rng.below(3);
                let red = RedNode::new(n, base);
                for at in 0..base + n.text_len as usize + 3 {
                    let mut end = base;
                    let want = n.children.iter().position(|k| {
                        end += k.len() as usize;
                        at >= base && at < end
                    });
                    ensure_eq!(red.child_index_at_offset(at), want, "child at a position", "{mx} at {base}, position {at}");
                    ensure_eq!(red.child_at_offset(at).is_some(), want.is_some(), "child at a position", "{mx} at {base}, position {at}");
                }
                ensure!(oak_core::tree::RedChildren::<Toy>::empty().next().is_none(), "no children", "");
            }
        }
        Ok(())
    });
    r.family("parsed-trees", 4000, 60_000, |c| {
        let n = if c.rng.chance(1, 50) { 800 } else { 25 };
        let t = program(&mut c.rng, n);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let cuts = random_cuts(&mut c.rng, &t, 6);
        let v = Views::new(&t, &cuts, 9);
        let mut trees = vec![];
        let mut seen = 0;
        let mut g = c.rng.clone();
        v.each(|nm, s| {
            let mut session = ParseSession::default();
            let out = ToyParser.parse(s, &[], &mut session);
            let Ok(root) = out.result
            else {
                trees.push(None);
                return Ok(());
            };
            ensure_eq!(root.text_len() as usize, t.len(), "root covers the text", "{nm}");
            let m = model_of(root);
            let mut leaves = vec![];
            m.leaves(0, &mut leaves);
            let mut want = toy::reference_lex(&t);
            want.pop();
            ensure_eq!(leaves, want, "leaves are the tokens", "{nm}");
            same_green(root, &m, None)?;
            same_red(RedNode::new(root, 0), &m, &mut g, &mut seen)?;
            // text of every element
            let mut back = String::new();
            for e in PreOrder::new(RedTree::Node(RedNode::new(root, 0))) {
                let sp = e.span();
                ensure_eq!(&*e.text(s), &t[sp.start..sp.end], "element text", "{nm} {:?}", kind_of(&e));
                if e.as_leaf().is_some() {
                    back.push_str(&e.text(s));
                }
            }
            ensure_eq!(back, t, "leaf texts concatenate to the source", "{nm}");
            trees.push(Some((m, format!("{:?}", out.diagnostics))));
            Ok(())
        })?;
        for (i, x) in trees.iter().enumerate() {
            ensure!(*x == trees[0], "the tree depends on the storage of the text", "representation {i}");
        }
        c.seen("parses", trees.len() as u64);
        c.seen("positions checked", seen);
        let _ = boundaries(&t);
        Ok(())
    });
}

// ------------------------------------------------------------------ C07

struct Rec(Vec<(E, usize, usize)>);
impl<'a> Visitor<'a, Toy> for Rec {
    fn visit_node(&mut self, n: RedNode<'a, Toy>) {
        self.0.push((n.element_type(), n.span().start, n.span().end));
        self.walk_node(n);
    }
    fn visit_token(&mut self, t: RedLeaf<Toy>) {
        self.0.push((E::Tok(t.kind as u16), t.span.start, t.span.end));
    }
}

/// Position of the reference walker: child indices from the root.
fn at<'m>(root: &'m M, path: &[usize]) -> (&'m M, usize) {
    let (mut m, mut off) = (root, 0);
    for &i in path {
        let M::Node(_, kids) = m else { unreachable!() };
        off += kids[..i].iter().map(|k| k.len()).sum::<usize>();
        m = &kids[i];
    }
    (m, off)
}
fn siblings(root: &M, path: &[usize]) -> usize {
    match at(root, &path[..path.len() - 1]).0 {
        M::Node(_, k) => k.len(),
        _ => 0,
    }
}

fn here(cur: &Cursor<'_, Toy>, root: &M, path: &[usize]) -> Check {
    let (m, off) = at(root, path);
    ensure_eq!((cur.offset(), cur.end_offset(), cur.len()), (off, off + m.len(), m.len()), "cursor offsets", "path {path:?}");
    match (cur.current(), m) {
        (GreenTree::Node(n), M::Node(k, kids)) => {
            ensure!(n.kind == *k && n.children.len() == kids.len(), "cursor element", "path {path:?}");
            ensure!(cur.as_node().is_some_and(|x| std::ptr::eq(x, n)), "cursor as_node", "path {path:?}");
        }
        (GreenTree::Leaf(l), M::Leaf(t, n, _)) => {
            ensure!(l.kind == *t && l.length as usize == *n, "cursor element", "path {path:?}");
            ensure!(cur.as_node().is_none(), "cursor as_node", "path {path:?}");
        }
        _ => return fail("cursor element", format!("path {path:?}")),
    }
    Ok(())
}

pub fn traversal(r: &mut Run) {
    r.family("walks", 6000, 90_000, |c| {
        let arena = SyntaxArena::new(4);
        let ops = if c.rng.chance(1, 60) { 900 } else { c.rng.range(0, 50) };
        let mut g = c.rng.clone();
        let b = build(&mut g, &arena, ops)?;
        c.input(clip(&b.log, 1500));
        c.distinct(&b.log);
        let (root, m) = (b.root, &b.model);
        let mut flat = vec![];
        m.flat(0, 0, &mut flat);
        let want: Vec<(E, usize, usize)> = flat.iter().map(|x| (x.1, x.2, x.3)).collect();
        // complete traversals
        let base = *c.rng.pick(&[0usize, 5, 1 << 20]);
        let got: Vec<_> = PreOrder::new(RedTree::Node(RedNode::new(root, base))).map(|e| (kind_of(&e), e.span().start - base, e.span().end - base)).collect();
        ensure_eq!(got, want, "PreOrder", "");
        let mut v = Rec(vec![]);
        v.visit_node(RedNode::new(root, base));
        let got: Vec<_> = v.0.iter().map(|x| (x.0, x.1 - base, x.2 - base)).collect();
        ensure_eq!(got, want, "Visitor::walk_node", "");
        let mut cur = Cursor::new(root);
        let mut got = vec![];
        loop {
            let k = match cur.current() {
                GreenTree::Node(n) => n.kind,
                GreenTree::Leaf(l) => E::Tok(l.kind as u16),
            };
            got.push((k, cur.offset(), cur.end_offset()));
            if !cur.step() {
                break;
            }
            ensure!(got.len() <= want.len(), "Cursor::step visits more elements than there are", "");
        }
        ensure_eq!(got, want, "Cursor::step", "");
        // from an arbitrary sub-element
        if let Some((n, sub)) = b.finished.get(c.rng.below(b.finished.len().max(1))) {
            let mut f = vec![];
            sub.flat(3, 0, &mut f);
            let got: Vec<_> = PreOrder::new(RedTree::Node(RedNode::new(n, 3))).map(|e| (kind_of(&e), e.span().start, e.span().end)).collect();
            ensure_eq!(got, f.iter().map(|x| (x.1, x.2, x.3)).collect::<Vec<_>>(), "PreOrder of a subtree", "");
        }
        let one = RedTree::<Toy>::Leaf(RedLeaf { kind: T::Ident, span: rg(4, 9) });
        ensure_eq!(PreOrder::new(one).count(), 1, "PreOrder of a leaf", "");
        c.seen("elements visited", 3 * want.len() as u64);
        // a random walk against child-index paths
        let mut cur = Cursor::new(root);
        let mut path: Vec<usize> = vec![];
        here(&cur, m, &path)?;
        let steps = 40 + want.len().min(200);
        let mut log = String::new();
        for _ in 0..steps {
            let was = path.clone();
            let (op, got, want) = match c.rng.below(9) {
                0 | 1 | 2 => {
                    let ok = matches!(at(m, &path).0, M::Node(_, k) if !k.is_empty());
                    if ok {
                        path.push(0);
                    }
                    ("into", cur.step_into(), ok)
                }
                3 | 4 => {
                    let ok = !path.is_empty() && path[path.len() - 1] + 1 < siblings(m, &path);
                    if ok {
                        *path.last_mut().unwrap() += 1;
                    }
                    ("over", cur.step_over(), ok)
                }
                5 => {
                    let ok = path.pop().is_some();
                    ("out", cur.step_out(), ok)
                }
                k => {
                    let mut done = false;
                    let name = if k == 6 { "next" } else { "step" };
                    if k != 6 && matches!(at(m, &path).0, M::Node(_, k) if !k.is_empty()) {
                        path.push(0);
                        done = true;
                    }
                    while !done && !path.is_empty() {
                        if path[path.len() - 1] + 1 < siblings(m, &path) {
                            *path.last_mut().unwrap() += 1;
                            done = true;
                        }
                        else {
                            path.pop();
                        }
                    }
                    (name, if k == 6 { cur.step_next() } else { cur.step() }, done)
                }
            };
            log.push_str(op);
            log.push(' ');
            ensure_eq!(got, want, "cursor step result", "{log} from {was:?}");
            if !got && (op == "next" || op == "step") {
                // finished: where the cursor rests is not specified
                cur = Cursor::new(root);
                path.clear();
            }
            let probe = cur.clone();
            here(&cur, m, &path).map_err(|f| Fail { detail: format!("{} after {log}", f.detail), ..f })?;
            ensure_eq!(probe.offset(), cur.offset(), "cursor clone", "{log}");
        }
        c.seen("cursor moves", steps as u64);
        Ok(())
    });
}
