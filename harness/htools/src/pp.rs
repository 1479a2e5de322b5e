//! C23: a layout document prints as its definition says (a group breaks exactly when it does not fit), formatting
//! keeps the code, and rules apply in priority order.
use crate::{
    layout::*,
    toy::{E, T, Toy, ToyParser},
    tree::{M, build, model_of},
    ws::program,
};
use oak_core::{
    ParseSession, Parser, TokenType, UniversalElementRole, UniversalTokenRole, language::ElementType,
    memory::arena::SyntaxArena,
    source::SourceText,
    tree::{RedLeaf, RedNode},
};
use oak_pretty_print::{
    AsDocument, Comment, CommentCollector, CommentKind, CommentProcessor, Document, FormatConfig, FormatContext, FormatResult, FormatRule, Formatter, IndentStyle, LineEnding, RuleSet, ToDocument,
    comment::{Position, SourceSpan},
    define_rules, doc,
    document::JoinDoc,
};
use std::{cell::RefCell, rc::Rc};
use vcommon::*;

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// -------------------------------------------------------------- rules

#[derive(Clone, Debug)]
enum Act {
    Pass,
    /// (children between two texts, inside an indented group)
    Wrap(String, String),
    Replace(String),
}

#[derive(Clone)]
struct Rule {
    name: String,
    prio: u8,
    kinds: Vec<E>,
    toks: Vec<T>,
    node_act: Act,
    tok_act: Act,
    against: Vec<String>,
    log: Rc<RefCell<Vec<String>>>,
}

impl FormatRule<Toy> for Rule {
    fn name(&self) -> &str {
        &self.name
    }
    fn priority(&self) -> u8 {
        self.prio
    }
    fn applies_to_node(&self, n: &RedNode<'_, Toy>) -> bool {
        self.kinds.contains(&n.green.kind)
    }
    fn applies_to_token(&self, t: &RedLeaf<Toy>) -> bool {
        self.toks.contains(&t.kind)
    }
    fn apply_node<'a>(&self, n: &RedNode<'_, Toy>, c: &FormatContext<Toy>, _s: &'a str, kids: &dyn Fn(&RedNode<'_, Toy>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        let inside: Vec<E> = [E::Root, E::Block, E::FnDecl, E::Binary].into_iter().filter(|k| c.is_inside(*k)).collect();
        self.log.borrow_mut().push(format!("{} node {:?} {} depth {} parent {:?} inside {:?}", self.name, n.green.kind, n.offset, c.depth, c.parent_kind(), inside));
        if c.source.as_deref() != Some(_s) {
            self.log.borrow_mut().push("the context has another source".into());
        }
        Ok(match &self.node_act {
            Act::Pass => None,
            Act::Wrap(a, b) => Some(doc!([Document::text(a.clone()), group(indent([soft_line, kids(n)?, line])), Document::text(b.clone())])),
            Act::Replace(t) => Some(Document::text(t.clone())),
        })
    }
    fn apply_token<'a>(&self, t: &RedLeaf<Toy>, c: &FormatContext<Toy>, s: &'a str) -> FormatResult<Option<Document<'a>>> {
        self.log.borrow_mut().push(format!("{} token {:?} {} depth {}", self.name, t.kind, t.span.start, c.depth));
        Ok(match &self.tok_act {
            Act::Pass => None,
            Act::Wrap(a, b) => Some(Document::concat(vec![Document::text(a.clone()), Document::text(&s[t.span.start..t.span.end]), Document::text(b.clone())])),
            Act::Replace(t) => Some(Document::text(t.clone())),
        })
    }
    fn conflicts_with(&self, other: &dyn FormatRule<Toy>) -> bool {
        self.against.iter().any(|n| n == other.name())
    }
}

/// A rule that says nothing about where it applies, and so applies nowhere.
struct Idle;
impl FormatRule<Toy> for Idle {
    fn name(&self) -> &str {
        "idle"
    }
    fn apply_node<'a>(&self, _: &RedNode<'_, Toy>, _: &FormatContext<Toy>, _: &'a str, _: &dyn Fn(&RedNode<'_, Toy>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        Ok(Some(Document::text("idle")))
    }
    fn apply_token<'a>(&self, _: &RedLeaf<Toy>, _: &FormatContext<Toy>, _: &'a str) -> FormatResult<Option<Document<'a>>> {
        Ok(Some(Document::text("idle")))
    }
}

struct FM<'a> {
    rules: &'a [Rule],
    text: &'a str,
    log: Vec<String>,
    builtin: bool,
}

impl FM<'_> {
    fn node(&mut self, k: E, kids: &[M], at: usize, path: &mut Vec<E>) -> D {
        path.push(k);
        let d = self.node2(k, kids, at, path);
        path.pop();
        d
    }
    fn node2(&mut self, k: E, kids: &[M], at: usize, path: &mut Vec<E>) -> D {
        // all rules, user ones and built-in ones, by falling priority; equal ones in the order added, built-in first
        let mut order: Vec<(u8, usize, Option<usize>)> = vec![];
        if self.builtin {
            order.push((10, 0, None));
            order.push((5, 1, None));
        }
        order.extend(self.rules.iter().enumerate().map(|(i, r)| (r.prio, i + 2, Some(i))));
        order.sort_by_key(|x| (255 - x.0, x.1));
        for (_, b, i) in order {
            match i {
                None => {
                    if b == 0 && k.role() == UniversalElementRole::Container {
                        return D::Group(Box::new(D::Indent(Box::new(D::Cat(vec![D::Line, self.kids(kids, at, path)])))));
                    }
                    if b == 1 && k.role() == UniversalElementRole::Statement {
                        return D::Cat(vec![self.kids(kids, at, path), D::Line]);
                    }
                }
                Some(i) => {
                    let r = self.rules[i].clone();
                    if !r.kinds.contains(&k) {
                        continue;
                    }
                    let inside: Vec<E> = [E::Root, E::Block, E::FnDecl, E::Binary].into_iter().filter(|k| path.contains(k)).collect();
                    let parent = path.len().checked_sub(2).map(|p| path[p]);
                    self.log.push(format!("{} node {:?} {} depth {} parent {:?} inside {:?}", r.name, k, at, path.len(), parent, inside));
                    match &r.node_act {
                        Act::Pass => {}
                        Act::Replace(t) => return D::Text(t.clone()),
                        Act::Wrap(a, b) => {
                            let inner = self.kids(kids, at, path);
                            return D::Cat(vec![D::Text(a.clone()), D::Group(Box::new(D::Indent(Box::new(D::Cat(vec![D::Soft, inner, D::Line]))))), D::Text(b.clone())]);
                        }
                    }
                }
            }
        }
        self.kids(kids, at, path)
    }
    fn kids(&mut self, kids: &[M], at: usize, path: &mut Vec<E>) -> D {
        let mut p = at;
        let mut v = vec![];
        for m in kids {
            v.push(match m {
                M::Node(k, c) => self.node(*k, c, p, path),
                M::Leaf(t, n, _) => self.leaf(*t, p, *n, path.len()),
            });
            p += m.len();
        }
        D::Cat(v)
    }
    fn leaf(&mut self, t: T, at: usize, n: usize, depth: usize) -> D {
        let s = &self.text[at..at + n];
        let mut order: Vec<(u8, usize, Option<usize>)> = vec![];
        if self.builtin {
            order.push((6, 0, None));
        }
        order.extend(self.rules.iter().enumerate().map(|(i, r)| (r.prio, i + 2, Some(i))));
        order.sort_by_key(|x| (255 - x.0, x.1));
        for (_, _, i) in order {
            match i {
                None => {
                    if t.role() == UniversalTokenRole::Punctuation && s == "," {
                        return D::Cat(vec![D::Text(",".into()), D::SoftSpace]);
                    }
                }
                Some(i) => {
                    let r = &self.rules[i];
                    if !r.toks.contains(&t) {
                        continue;
                    }
                    self.log.push(format!("{} token {:?} {} depth {}", r.name, t, at, depth));
                    match &r.tok_act {
                        Act::Pass => {}
                        Act::Replace(t) => return D::Text(t.clone()),
                        Act::Wrap(a, b) => return D::Cat(vec![D::Text(a.clone()), D::Text(s.into()), D::Text(b.clone())]),
                    }
                }
            }
        }
        D::Text(s.into())
    }
}

const KINDS: &[E] = &[E::Root, E::FnDecl, E::Params, E::Block, E::LetStmt, E::IfStmt, E::ExprStmt, E::Expr, E::Paren, E::Args, E::Binary, E::Unary, E::Call, E::Atom];
const TOKS: &[T] = &[T::Ident, T::Ws, T::Number, T::Comma, T::Semi, T::KwLet, T::LBrace, T::Plus];

fn act(g: &mut Rng) -> Act {
    match g.below(5) {
        0 | 1 => Act::Pass,
        2 => Act::Replace(words(g)),
        _ => Act::Wrap(g.string(&["<", "[", " ", "--"], 3), g.string(&[">", "]", " ", "--"], 3)),
    }
}

fn gen_rules(g: &mut Rng, log: &Rc<RefCell<Vec<String>>>) -> Vec<Rule> {
    let n = g.below(6);
    (0..n)
        .map(|i| Rule {
            name: format!("r{i}"),
            prio: *g.pick(&[0, 4, 5, 6, 7, 10, 11, 255]),
            kinds: KINDS.iter().filter(|_| g.chance(1, 3)).copied().collect(),
            toks: TOKS.iter().filter(|_| g.chance(1, 3)).copied().collect(),
            node_act: act(g),
            tok_act: act(g),
            against: if g.chance(1, 6) { vec![g.pick(&["r0", "r1", "r2", "indent", "comma_spacing", "zzz"]).to_string()] } else { vec![] },
            log: log.clone(),
        })
        .collect()
}

fn format_tree(c: &mut Case, root: RedNode<'_, Toy>, m: &M, t: &str, g: &mut Rng) -> Check {
    let cfg = config(g)?;
    let log = Rc::new(RefCell::new(vec![]));
    let rules = if g.chance(1, 3) { vec![] } else { gen_rules(g, &log) };
    let mut f: Formatter<Toy> = Formatter::new(cfg.clone());
    let mut kept: Vec<Rule> = vec![];
    for r in &rules {
        let names: Vec<&str> = ["indent", "statement_newline", "comma_spacing"].into_iter().chain(kept.iter().map(|r| r.name.as_str())).collect();
        let clash = r.against.iter().any(|a| names.contains(&a.as_str())) || kept.iter().any(|k| k.against.contains(&r.name));
        let got = f.add_rule(Box::new(r.clone()));
        ensure_eq!(got.is_err(), clash, "rule conflict", "{} against {:?}", r.name, r.against);
        if clash {
            c.seen("rule conflicts", 1);
        }
        else {
            kept.push(r.clone());
        }
    }
    if g.chance(1, 4) && kept.iter().all(|r| !r.against.iter().any(|n| n == "idle")) {
        ensure!(f.add_rule(Box::new(Idle)).is_ok(), "rule conflict", "with a rule that conflicts with none");
    }
    let M::Node(k, kids) = m
    else { unreachable!() };
    let mut fm = FM { rules: &kept, text: t, log: vec![], builtin: true };
    let want_doc = fm.node(*k, kids, root.offset, &mut vec![]);
    let (want, broken, flat, _) = Model::print(&cfg, &want_doc);
    for round in 0..2 {
        log.borrow_mut().clear();
        let out = match f.format(&root, t) {
            Ok(o) => o,
            Err(e) => return fail("formatting failed", format!("{e}")),
        };
        ensure!(out.content == want, "formatted text", "round {round}\ngot  {:?}\nwant {:?}", clip(&out.content, 600), clip(&want, 600));
        ensure_eq!(out.changed, out.content != t, "changed flag", "");
        ensure!(*log.borrow() == fm.log, "rules asked", "got {:?}\nwant {:?}", clip(&log.borrow().join(" | "), 600), clip(&fm.log.join(" | "), 600));
        if kept.is_empty() && root.offset == 0 && m.len() == t.len() {
            ensure_eq!(squeeze(&out.content), squeeze(t), "code lost or added by formatting", "");
            c.seen("formatted without own rules", 1);
        }
    }
    c.seen("groups broken", broken);
    c.seen("groups kept flat", flat);
    c.seen("rule applications", fm.log.len() as u64);
    Ok(())
}

pub fn printing(run: &mut Run) {
    run.family("documents", 20000, 60000, |c| {
        let g = &mut c.rng.clone();
        let cfg = config(g)?;
        let mut budget = *g.pick(&[5usize, 20, 60, 200]);
        let depth = g.range(1, 9);
        let d = gen_doc(g, depth, &mut budget);
        c.input(format!("{cfg:?}\n{d:?}"));
        let doc = d.doc();
        let (want, broken, flat, lines) = Model::print(&cfg, &d);
        for _ in 0..2 {
            let got = doc.render(cfg.clone());
            ensure!(got == want, "printed layout", "got  {:?}\nwant {:?}", clip(&got, 600), clip(&want, 600));
        }
        let mut t = String::new();
        d.text(&mut t);
        ensure_eq!(squeeze(&want), squeeze(&t), "printed text", "");
        c.seen("groups broken", broken);
        c.seen("groups kept flat", flat);
        c.seen("lines printed", lines as u64);
        c.distinct(&want);
        Ok(())
    });
    // any text at all (line breaks, multi-byte characters): nothing is lost, added or reordered but blanks
    run.family("texts", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        let cfg = config(g)?;
        fn any(g: &mut Rng, d: &D) -> D {
            match d {
                D::Text(_) => D::Text(g.string(&["a", "é", "漢", "😀", "\n", " ", "\r\n", "\"", "x  ", "\t"], 8)),
                D::Cat(v) => D::Cat(v.iter().map(|d| any(g, d)).collect()),
                D::Group(d) => D::Group(Box::new(any(g, d))),
                D::Indent(d) => D::Indent(Box::new(any(g, d))),
                d => d.clone(),
            }
        }
        let mut budget = 40;
        let d = gen_doc(g, 6, &mut budget);
        let d = any(g, &d);
        c.input(format!("{cfg:?}\n{d:?}"));
        let got = d.doc().render(cfg.clone());
        let mut t = String::new();
        d.text(&mut t);
        ensure_eq!(squeeze(&got), squeeze(&t), "printed text", "");
        if cfg.insert_final_newline && !got.is_empty() {
            ensure!(got.ends_with('\n'), "final newline", "{got:?}");
        }
        if cfg.trim_trailing_whitespace {
            let l = got.trim_end_matches(['\r', '\n']);
            ensure!(got.ends_with('\n') || !l.ends_with([' ', '\t']), "trailing blanks", "{got:?}");
        }
        c.distinct(&got);
        Ok(())
    });
    run.family("builders", 5000, 15000, |c| {
        let g = &mut c.rng.clone();
        let cfg = config(g)?;
        let mut budget = 30;
        let items: Vec<D> = (0..g.below(6)).map(|_| gen_doc(g, 3, &mut budget)).collect();
        let sep = gen_doc(g, 2, &mut 4);
        let (a, b) = (words(g), words(g));
        c.input(format!("{cfg:?}\n{items:?}\n{sep:?} {a:?} {b:?}"));
        let mut joined = vec![];
        for (i, d) in items.iter().enumerate() {
            if i > 0 {
                joined.push(sep.clone());
            }
            joined.push(d.clone());
        }
        let joined = D::Cat(joined);
        let t = |s: &str| D::Text(s.to_string());
        let docs = || items.iter().map(|d| d.doc()).collect::<Vec<_>>();
        let opt: Option<String> = if g.chance(1, 2) { Some(a.clone()) } else { None };
        let docs_a = Document::concat(docs());
        let pairs: Vec<(&str, Document<'_>, D)> = vec![
            ("join", Document::join(docs(), sep.doc()), joined.clone()),
            ("oak_pretty_print::join", oak_pretty_print::join(docs(), sep.doc()), joined.clone()),
            ("join_doc", docs().join_doc(sep.doc()), joined.clone()),
            ("doc! join", doc!(join(docs(), sep.doc())), joined.clone()),
            ("doc! nested", doc!(group(indent([a.as_str(), soft_line, b.as_str(), line, docs_a]))), D::Group(Box::new(D::Indent(Box::new(D::Cat(vec![t(&a), D::Soft, t(&b), D::Line, D::Cat(items.clone())])))))),
            ("doc! list", doc!("x", soft_line_space, nil, [hard_line, "é", group(line)], indent("y")), D::Cat(vec![t("x"), D::SoftSpace, D::Nil, D::Cat(vec![D::Hard, t("é"), D::Group(Box::new(D::Line))]), D::Indent(Box::new(t("y")))])),
            ("doc! trailing comma", doc!(a.as_str(), line,), D::Cat(vec![t(&a), D::Line])),
            ("as_document of a list", items.iter().map(|d| d.doc()).collect::<Vec<_>>().as_document().to_document(), D::Cat(items.clone())),
            ("as_document of an option", opt.as_document().to_document(), opt.as_ref().map_or(D::Nil, |s| t(s))),
            ("as_document of a box", Box::new(a.clone()).as_document().to_document(), t(&a)),
            ("from", Document::from(a.as_str()), t(&a)),
            ("indent", oak_pretty_print::indent(sep.doc()), D::Indent(Box::new(sep.clone()))),
        ]
        .into_iter()
        .map(|(n, d, m)| (n, deep(&d), m))
        .collect();
        for (n, d, m) in &pairs {
            // inside a group, so that the break choices show
            for cfg in [cfg.clone(), FormatConfig::new().with_max_width(0), FormatConfig::new()] {
                let got = Document::group(d.clone()).render(cfg.clone());
                let want = Model::print(&cfg, &D::Group(Box::new(m.clone()))).0;
                ensure!(got == want, format!("document built by {n}"), "got  {got:?}\nwant {want:?}");
            }
        }
        c.seen("built documents", pairs.len() as u64);
        c.distinct(&(a, b, items.len()));
        Ok(())
    });
    run.family("formatting", 3000, 10000, |c| {
        let g = &mut c.rng.clone();
        let t = program(g);
        c.input(t.clone());
        let src = SourceText::new(t.as_str());
        let mut s: ParseSession<Toy> = ParseSession::default();
        let out = ToyParser.parse(&src, &[], &mut s);
        if let Ok(root) = out.result.as_ref() {
            let m = model_of(root);
            if m.len() == t.len() {
                format_tree(c, RedNode::new(root, 0), &m, &t, g)?;
                c.distinct(&t);
            }
        }
        Ok(())
    });
    run.family("rules", 3000, 10000, |c| {
        let g = &mut c.rng.clone();
        let arena = SyntaxArena::new(64);
        let ops = g.range(2, 60);
        let b = build(g, &arena, ops)?;
        if b.model.len() > 50_000 {
            return Ok(());
        }
        let off = if g.chance(1, 3) { g.below(9) } else { 0 };
        let t: String = (0..off + b.model.len()).map(|_| *g.pick(&['a', 'b', ',', ' ', ','])).collect();
        c.input(b.log.clone());
        format_tree(c, RedNode::new(b.root, off), &b.model, &t, g)?;
        // the rule set on its own
        let log = Rc::new(RefCell::new(vec![]));
        let mut rules = gen_rules(g, &log);
        rules.iter_mut().for_each(|r| r.against.clear());
        let mut set: RuleSet<Toy> = RuleSet::new();
        ensure!(set.add_rules(rules.iter().map(|r| Box::new(r.clone()) as Box<dyn FormatRule<Toy>>).collect()).is_ok(), "rules refused", "");
        let mut order: Vec<&Rule> = rules.iter().collect();
        order.sort_by_key(|r| 255 - r.prio);
        let root = RedNode::new(b.root, off);
        let got: Vec<String> = set.applicable_rules_for_node(&root).map(|r| r.name().to_string()).collect();
        let want: Vec<String> = order.iter().filter(|r| r.kinds.contains(&b.root.kind)).map(|r| r.name.clone()).collect();
        ensure_eq!(got, want, "applicable rules", "");
        c.distinct(&b.log);
        Ok(())
    });
    run.family("macro-rules", 2000, 6000, |c| {
        let g = &mut c.rng.clone();
        let t = program(g);
        c.input(t.clone());
        let src = SourceText::new(t.as_str());
        let mut s: ParseSession<Toy> = ParseSession::default();
        let out = ToyParser.parse(&src, &[], &mut s);
        let Ok(root) = out.result.as_ref()
        else { return Ok(()) };
        let m = model_of(root);
        if m.len() != t.len() {
            return Ok(());
        }
        let cfg = config(g)?;
        let mut f: Formatter<Toy> = Formatter::new(cfg.clone());
        for r in macro_rules_of::<Toy>() {
            ensure!(f.add_rule(r).is_ok(), "rule refused", "");
        }
        let log = Rc::new(RefCell::new(vec![]));
        let blank = Rule { name: "names".into(), prio: 200, kinds: vec![], toks: vec![T::Ident], node_act: Act::Pass, tok_act: Act::Wrap("<".into(), ">".into()), against: vec![], log };
        let defs = Rule { name: "defs".into(), prio: 3, kinds: vec![E::FnDecl], toks: vec![], node_act: Act::Wrap("{{".into(), "}}".into()), ..blank.clone() };
        let rules = [blank, defs];
        let mut fm = FM { rules: &rules, text: &t, log: vec![], builtin: true };
        let M::Node(k, kids) = &m
        else { unreachable!() };
        let d = fm.node(*k, kids, 0, &mut vec![]);
        let want = Model::print(&cfg, &d).0;
        let got = f.format(&RedNode::new(root, 0), &t).map(|o| o.content).unwrap_or_default();
        ensure!(got == want, "formatted with macro-defined rules", "got  {:?}\nwant {:?}", clip(&got, 500), clip(&want, 500));
        c.distinct(&t);
        Ok(())
    });
    run.family("comments", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        comments(c, g)
    });
}

/// The same document with owned text.
fn deep(d: &Document<'_>) -> Document<'static> {
    match d {
        Document::Nil => Document::Nil,
        Document::Text(s) => Document::Text(s.to_string().into()),
        Document::Concat(v) => Document::Concat(v.iter().map(deep).collect()),
        Document::Group(d) => Document::Group(Box::new(deep(d))),
        Document::Indent(d) => Document::Indent(Box::new(deep(d))),
        Document::Line => Document::Line,
        Document::SoftLine => Document::SoftLine,
        Document::SoftLineSpace => Document::SoftLineSpace,
        Document::HardLine => Document::HardLine,
    }
}

fn macro_rules_of<L: oak_core::Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {
    use oak_pretty_print::Doc;
    define_rules! {
        names {
            priority: 200,
            token(token, _ctx, source) if TokenType::is_universal(&token.kind, UniversalTokenRole::Name) => {
                Ok(Some(doc!("<", Document::text(&source[token.span.start..token.span.end]), ">")))
            },
        }
        defs {
            priority: 3,
            node(node, _ctx, _source, kids) if ElementType::is_universal(&node.green.kind, UniversalElementRole::Definition) => {
                let k = kids(node)?;
                Ok(Some(doc!(["{{", group(indent([soft_line, k, line])), "}}"])))
            },
        }
    }
}

fn comments(c: &mut Case, g: &mut Rng) -> Check {
    let pos = |o: usize| Position { line: 0, column: o, offset: o };
    let n = g.below(10);
    let mut all: Vec<Comment> = vec![];
    let mut proc = CommentProcessor::new();
    for _ in 0..n {
        let a = g.below(40);
        let b = a + g.below(15);
        let kind = g.pick(&[CommentKind::Line, CommentKind::Block, CommentKind::Doc]).clone();
        let content = g.string(&["a", " ", "é漢", "b c", "\n", "*", "  x", "\t"], 7);
        let content = if kind == CommentKind::Block { content } else { content.replace('\n', "") };
        let span = SourceSpan { start: pos(a), end: pos(b) };
        let (t, l) = (g.chance(1, 3), g.below(4));
        let mk = match kind {
            CommentKind::Line => Comment::line(content.clone(), span.clone()),
            CommentKind::Block => Comment::block(content.clone(), span.clone()),
            CommentKind::Doc => Comment::doc(content.clone(), span.clone()),
        }
        .with_trailing(t)
        .with_indent_level(l);
        ensure_eq!((mk.kind.clone(), mk.content.clone(), mk.span.clone(), mk.is_trailing, mk.indent_level), (kind, content, span, t, l), "comment builder", "");
        all.push(mk);
    }
    c.input(format!("{all:?}"));
    let mut col = CommentCollector::new();
    for x in &all {
        col.add_comment(x.clone());
        proc.collector_mut().add_comment(x.clone());
    }
    if g.chance(1, 2) {
        col.sort_by_position();
        proc.collector_mut().sort_by_position();
        all.sort_by_key(|x| x.span.start.offset);
    }
    ensure_eq!(col.comments(), &all[..], "collected comments", "");
    let (p, q) = (g.below(50), g.below(50));
    let pick = |f: &dyn Fn(&Comment) -> bool| all.iter().filter(|x| f(x)).cloned().collect::<Vec<_>>();
    let own = |v: Vec<&Comment>| v.into_iter().cloned().collect::<Vec<_>>();
    ensure_eq!(own(col.comments_in_range(pos(p), pos(q))), pick(&|x| x.span.start.offset >= p && x.span.end.offset <= q), "comments in a range", "{p}..{q}");
    ensure_eq!(own(col.comments_before(pos(p))), pick(&|x| x.span.end.offset <= p), "comments before", "{p}");
    ensure_eq!(own(col.comments_after(pos(p))), pick(&|x| x.span.start.offset >= p), "comments after", "{p}");
    ensure_eq!(own(col.trailing_comments()), pick(&|x| x.is_trailing), "trailing comments", "");
    let indent = " ".repeat(g.below(5));
    for x in &all {
        let s = x.formatted_text(&indent);
        let (open, close) = match x.kind {
            CommentKind::Line => ("//", ""),
            CommentKind::Block => ("/*", "*/"),
            CommentKind::Doc => ("///", ""),
        };
        let Some(body) = s.strip_prefix(open).and_then(|s| s.strip_suffix(close))
        else { return fail("comment markers", format!("{x:?} {s:?}")) };
        if x.kind != CommentKind::Block {
            ensure!(!s.contains('\n'), "line comment spans lines", "{s:?}");
        }
        // nothing but blanks and the star gutter of block comments is added; no word is lost
        let words = |s: &str| s.split_whitespace().filter(|w| *w != "*").map(|w| w.to_string()).collect::<Vec<_>>();
        ensure_eq!(words(body), words(&x.content), "comment words", "{x:?} {s:?}");
        if x.kind == CommentKind::Block && x.content.contains('\n') && !x.content.trim().is_empty() {
            ensure_eq!(s.lines().count(), x.content.lines().count() + 2, "lines of a block comment", "{x:?} {s:?}");
            for l in s.lines().skip(1) {
                ensure!(l.starts_with(&format!("{indent} *")), "comment gutter", "{s:?}");
            }
        }
        else if !x.content.trim().is_empty() {
            ensure_eq!(s.trim_end_matches(close).trim_end().to_string(), format!("{open} {}", x.content.trim()), "comment text", "{x:?}");
        }
    }
    let (keep, fmt) = (g.chance(3, 4), g.chance(1, 2));
    let proc = proc.with_preserve_comments(keep).with_format_comments(fmt);
    let want: Vec<String> = if !keep {
        vec![]
    }
    else {
        all.iter().map(|x| if fmt { x.formatted_text(&indent) } else { x.content.clone() }).collect()
    };
    ensure_eq!(proc.process_comments(&all, &indent), want, "processed comments", "keep {keep} format {fmt}");
    let mut o = "X".to_string();
    proc.insert_comments_at_position(&mut o, pos(p), &indent);
    let mut w = "X".to_string();
    for x in all.iter().filter(|x| x.span.end.offset <= p && !x.is_trailing) {
        w += &format!("{indent}{}\n", x.formatted_text(&indent));
    }
    ensure_eq!(o, w, "comments inserted before a position", "{p}");
    let mut o = "X".to_string();
    proc.insert_trailing_comment(&mut o, pos(p));
    let mut w = "X".to_string();
    if let Some(x) = all.iter().find(|x| x.span.start.offset >= p && x.is_trailing) {
        w += &format!(" {}", x.formatted_text(""));
    }
    ensure_eq!(o, w, "trailing comment inserted", "{p}");
    col.clear();
    ensure!(col.comments().is_empty(), "cleared collector", "");
    c.seen("comments", n as u64);
    c.distinct(&format!("{all:?}"));
    Ok(())
}
