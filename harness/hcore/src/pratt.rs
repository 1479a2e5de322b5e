//! C11: operator precedence parsing groups exactly as the operator table says.
use crate::{
    toy::{self, E, T, Toy, ToyLexer},
    tree::{M, model_of},
};
use oak_core::{
    GreenNode, OperatorInfo, ParseSession, Parser, ParserState, Pratt, PrattParser, Source, TextEdit, binary,
    parser::{ParseCache, ParseOutput, parse_with_lexer, postfix},
    unary,
};
use vcommon::*;

const BIN: &[(T, &str)] = &[(T::Plus, "+"), (T::Minus, "-"), (T::Star, "*"), (T::Slash, "/"), (T::Caret, "^"), (T::Eq, "="), (T::EqEq, "==")];
const PRE: &[(T, &str)] = &[(T::Bang, "!"), (T::Minus, "-"), (T::Comma, ",")];
const POST: &[(T, &str)] = &[(T::Question, "?"), (T::Semi, ";")];

/// kind -> (precedence, associativity)
#[derive(Clone, Debug, Default)]
struct Table {
    bin: Vec<(T, u8, u8)>,
    pre: Vec<(T, u8)>,
    post: Vec<(T, u8)>,
}
/// As a language's operator table would say it.
fn info(p: u8, a: u8) -> OperatorInfo {
    match a {
        0 => OperatorInfo::left(p),
        1 => OperatorInfo::right(p),
        _ => OperatorInfo::none(p),
    }
}

struct Spec<'t>(&'t Table);
impl Pratt<Toy> for Spec<'_> {
    fn primary<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        let cp = s.checkpoint();
        match s.peek_kind() {
            Some(T::Ident | T::Number) => {
                s.bump();
                s.finish_at(cp, E::Atom)
            }
            Some(T::LParen) => {
                s.bump();
                PrattParser::parse(s, 0, self);
                s.expect(T::RParen).ok();
                s.finish_at(cp, E::Paren)
            }
            _ => {
                s.record_expected("operand");
                s.finish_at(cp, E::Bad)
            }
        }
    }
    fn prefix<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        match self.0.pre.iter().find(|p| s.at(p.0)) {
            Some(&(k, p)) => unary(s, k, p, E::Unary, |s, p| PrattParser::parse(s, p, self)),
            None => self.primary(s),
        }
    }
    fn infix<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Toy, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        if let Some(&(k, p)) = self.0.post.iter().find(|p| s.at(p.0)) {
            return if p < min { None } else { Some(postfix(s, left, k, E::Postfix)) };
        }
        let &(k, p, a) = self.0.bin.iter().find(|b| s.at(b.0))?;
        if p < min {
            return None;
        }
        let o = info(p, a);
        Some(binary(s, left, k, o.precedence, o.associativity, E::Binary, |s, p| PrattParser::parse(s, p, self)))
    }
}

/// A grammar without prefix operators leaves `prefix` as it is.
struct NoPrefix<'t>(Spec<'t>);
impl Pratt<Toy> for NoPrefix<'_> {
    fn primary<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        // parenthesised expressions come back here
        self.0.primary(s)
    }
    fn infix<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Toy, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        self.0.infix(s, left, min)
    }
}

struct ExprParser<'t>(&'t Table, u8);
impl Parser<Toy> for ExprParser<'_> {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Toy>) -> ParseOutput<'a, Toy> {
        parse_with_lexer(&ToyLexer, text, edits, cache, |s| {
            let cp = (s.checkpoint().0, 0);
            if self.0.pre.is_empty() {
                PrattParser::new(NoPrefix(Spec(self.0))).parse_expr(s, self.1);
            }
            else if self.1 % 2 == 0 {
                PrattParser::parse(s, self.1, &Spec(self.0));
            }
            else {
                PrattParser::new(Spec(self.0)).parse_expr(s, self.1);
            }
            let rest = s.checkpoint();
            while s.not_at(T::Eof) && s.not_at_end() {
                s.bump();
            }
            s.finish_at(rest, E::Block);
            Ok(s.finish_at(cp, E::Root))
        })
    }
}

/// Reference: shunting-free climbing over the non-trivia tokens, as an s-expression.
struct Ref<'t> {
    t: &'t Table,
    k: Vec<(T, String)>,
    i: usize,
    errors: usize,
}
impl Ref<'_> {
    fn at(&self) -> T {
        self.k.get(self.i).map_or(T::Eof, |k| k.0)
    }
    fn take(&mut self) -> String {
        self.i += 1;
        self.k[self.i - 1].1.clone()
    }
    fn operand(&mut self) -> String {
        let k = self.at();
        if let Some(&(_, p)) = self.t.pre.iter().find(|p| p.0 == k) {
            let o = self.take();
            let x = self.climb(p);
            return format!("(pre {o} {x})");
        }
        match k {
            T::Ident | T::Number => format!("[{}]", self.take()),
            T::LParen => {
                self.take();
                let x = self.climb(0);
                let close = if self.at() == T::RParen {
                    format!(" {}", self.take())
                }
                else {
                    self.errors += 1;
                    String::new()
                };
                format!("(paren ( {x}{close})")
            }
            _ => {
                self.errors += 1;
                "(bad)".into()
            }
        }
    }
    fn climb(&mut self, min: u8) -> String {
        let mut l = self.operand();
        loop {
            let k = self.at();
            if let Some(&(_, p)) = self.t.post.iter().find(|p| p.0 == k) {
                if p < min {
                    return l;
                }
                let o = self.take();
                l = format!("(post {l} {o})");
                continue;
            }
            match self.t.bin.iter().find(|b| b.0 == k).copied() {
                Some((_, p, a)) if p >= min => {
                    let o = self.take();
                    // a right-associative operator admits itself on the right; the others only what binds tighter
                    let r = self.climb(if a == 1 { p } else { p + 1 });
                    l = format!("(bin {l} {o} {r})");
                }
                _ => return l,
            }
        }
    }
}

fn sexp(m: &M, text: &str, at: usize) -> String {
    let M::Node(k, kids) = m
    else {
        unreachable!()
    };
    let mut parts = vec![];
    let mut p = at;
    for c in kids {
        match c {
            M::Leaf(T::Ws | T::LineComment | T::BlockComment, ..) => {}
            M::Leaf(_, n, _) => parts.push(text[p..p + n].to_string()),
            M::Node(..) => parts.push(sexp(c, text, p)),
        }
        p += c.len();
    }
    match k {
        E::Atom => format!("[{}]", parts.join(" ")),
        _ => {
            let n = match k {
                E::Binary => "bin",
                E::Unary => "pre",
                E::Postfix => "post",
                E::Paren => "paren",
                E::Bad => "bad",
                E::Root => "root",
                _ => "rest",
            };
            parts.insert(0, n.to_string());
            format!("({})", parts.join(" "))
        }
    }
}

fn check(t: &Table, text: &str, min: u8) -> Result<(String, usize), Fail> {
    let mut session = ParseSession::default();
    let out = ExprParser(t, min).parse(text, &[], &mut session);
    let root = *out.result.as_ref().map_err(|e| Fail { sig: "parse failed".into(), detail: format!("{e}") })?;
    let m = model_of(root);
    ensure_eq!(m.len(), text.len(), "expression tree covers the text", "");
    let toks: Vec<(T, String)> = toy::reference_lex(text).into_iter().filter(|k| !matches!(k.0, T::Ws | T::LineComment | T::BlockComment | T::Eof)).map(|k| (k.0, text[k.1..k.2].to_string())).collect();
    let mut r = Ref { t, k: toks, i: 0, errors: 0 };
    let e = r.climb(min);
    let rest: Vec<String> = r.k[r.i..].iter().map(|k| k.1.clone()).collect();
    let tail = if rest.is_empty() { "(rest)".to_string() } else { format!("(rest {})", rest.join(" ")) };
    let want = format!("(root {e} {tail})");
    let got = sexp(&m, text, 0);
    ensure_eq!(got, want, "grouping", "min {min}, {t:?}");
    ensure_eq!(out.diagnostics.len(), r.errors, "errors reported", "{want}");
    let ops = want.matches("(bin").count() + want.matches("(pre").count() + want.matches("(post").count();
    Ok((want, ops))
}

pub fn precedence(r: &mut Run) {
    r.family("random-tables", 12_000, 300_000, |c| {
        let g = &mut c.rng;
        let levels = g.range(1, 6) as u8;
        let mut t = Table::default();
        let spread = *g.pick(&[1u8, 3, 40, 50]);
        let prec = |g: &mut Rng| (g.below(levels as usize) as u8) * spread + if g.chance(1, 9) { 0 } else if g.chance(1, 9) { 4 } else { 1 };
        // operators of one level share their associativity, as in any sensible table (but not always)
        let lv: Vec<u8> = (0..=255u8).map(|_| g.below(3) as u8).collect();
        let mixed = g.chance(1, 5);
        for &(k, _) in BIN {
            if g.chance(4, 5) {
                let p = prec(g);
                t.bin.push((k, p, if mixed { g.below(3) as u8 } else { lv[p as usize] }));
            }
        }
        for &(k, _) in PRE {
            if g.chance(1, 2) {
                t.pre.push((k, prec(g)));
            }
        }
        for &(k, _) in POST {
            if g.chance(1, 2) {
                t.post.push((k, prec(g)));
            }
        }
        let mut s = String::new();
        let n = if g.chance(1, 60) { 150 } else { g.range(1, 12) };
        let broken = g.chance(1, 4);
        let mut open = 0;
        for i in 0..n {
            if i > 0 && !(broken && g.chance(1, 8)) {
                s.push_str(g.pick(BIN).1);
                s.push_str(*g.pick(&["", " ", "/*c*/", " \n"]));
            }
            while g.chance(1, 4) {
                s.push(' ');
                s.push_str(g.pick(PRE).1);
                s.push_str(*g.pick(&["", " "]));
            }
            while g.chance(1, 6) {
                s.push('(');
                open += 1;
            }
            s.push(' ');
            s.push_str(*g.pick(&["a", "b", "é", "1", "27"]));
            s.push_str(*g.pick(&["", " "]));
            while g.chance(1, 5) {
                s.push_str(g.pick(POST).1);
            }
            while open > 0 && g.chance(1, 3) {
                s.push(')');
                open -= 1;
            }
        }
        if !broken {
            s.push_str(&")".repeat(open));
        }
        let min = if g.chance(1, 3) { g.below(8) as u8 } else { 0 };
        c.input(format!("{t:?} min {min} text {s:?}"));
        let (w, ops) = check(&t, &s, min)?;
        c.seen("operators grouped", ops as u64);
        c.distinct(&(format!("{t:?}"), w));
        Ok(())
    });
    // the two highest levels there are
    r.family_exact("highest-levels", 6, |c| {
        let (p, a) = (254 + (c.index % 2) as u8, (c.index / 2) as u8);
        let t = Table { bin: vec![(T::Plus, p, a), (T::Star, 1, 0)], pre: vec![(T::Bang, p)], post: vec![(T::Question, p)] };
        c.input(format!("'+' at level {p}, associativity {a}"));
        c.distinct(&(p, a));
        let (_, n) = check(&t, "a + b * !c + 1? + 2 * a", 0)?;
        c.seen("operators grouped", n as u64);
        Ok(())
    });
    // every table of three binary operators over two levels, every operator sequence of length four
    let tables = 2u64.pow(3) * 3u64.pow(3);
    r.family_exact("all-small-expressions", tables, |c| {
        let i = c.index as usize;
        let ks = [T::Plus, T::Star, T::Caret];
        let t = Table {
            bin: (0..3).map(|j| (ks[j], 1 + ((i >> j) & 1) as u8, ((i / 8) / 3usize.pow(j as u32) % 3) as u8)).collect(),
            pre: vec![(T::Bang, 1 + (i % 3) as u8)],
            post: vec![(T::Question, 1 + (i % 2) as u8)],
        };
        let sy = ["+", "*", "^"];
        let mut n = 0;
        for w in 0..81usize {
            for pre in 0..6 {
                let mut s = String::new();
                for j in 0..5 {
                    if j > 0 {
                        s.push_str(sy[w / 3usize.pow(j as u32 - 1) % 3]);
                    }
                    if pre == j + 1 {
                        s.push('!');
                    }
                    s.push(['a', 'b', 'c', 'd', 'e'][j]);
                    if pre == j + 1 && w % 2 == 0 {
                        s.push('?');
                    }
                }
                c.input(format!("{t:?} text {s:?}"));
                n += check(&t, &s, 0)?.1;
            }
        }
        c.distinct(&i);
        c.seen("operators grouped", n as u64);
        Ok(())
    });
}
