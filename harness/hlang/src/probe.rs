//! Type-erased access to a shipped language: its tokens, its trees and its diagnostics as plain data.
use core::range::Range;
use oak_core::{GreenNode, GreenTree, Language, Lexer, OakError, ParseCache, ParseSession, Parser, Source, TextEdit, errors::OakErrorKind};
use std::hash::{DefaultHasher, Hash, Hasher};

pub fn rg(start: usize, end: usize) -> Range<usize> {
    Range { start, end }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: String,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub depth: usize,
    pub kind: String,
    pub len: usize,
    pub leaf: bool,
    /// sum of the children's lengths (nodes)
    pub inner: usize,
}
/// What a lexer or a parser answered.
#[derive(Clone, Debug, PartialEq)]
pub struct Out<T> {
    pub items: Option<Vec<T>>,
    pub error: Option<String>,
    pub diags: Vec<String>,
    pub offsets: Vec<usize>,
}

pub fn offset_of(e: &OakError) -> Option<usize> {
    use OakErrorKind::*;
    match e.kind() {
        SyntaxError { offset, .. } | UnexpectedCharacter { offset, .. } | UnexpectedToken { offset, .. } | UnexpectedEof { offset, .. } | ExpectedToken { offset, .. } | ExpectedName { offset, .. } | TrailingCommaNotAllowed { offset, .. } => Some(*offset),
        _ => None,
    }
}
fn out<T>(items: Option<Vec<T>>, error: Option<&OakError>, diags: &[OakError]) -> Out<T> {
    Out { items, error: error.map(|e| format!("{e:?}")), diags: diags.iter().map(|e| format!("{e:?}")).collect(), offsets: diags.iter().chain(error).filter_map(offset_of).collect() }
}

fn flat<L: Language>(n: &GreenNode<'_, L>, o: &mut Vec<El>) {
    // no recursion: the trees may be deep
    enum W<'a, 'b, L: Language> {
        N(&'b GreenNode<'a, L>, usize),
        T(&'b GreenTree<'a, L>, usize),
    }
    let mut st = vec![W::N(n, 0)];
    while let Some(w) = st.pop() {
        let (n, d) = match w {
            W::N(n, d) => (n, d),
            W::T(GreenTree::Node(n), d) => (*n, d),
            W::T(GreenTree::Leaf(l), d) => {
                o.push(El { depth: d, kind: format!("{:?}", l.kind), len: l.length as usize, leaf: true, inner: l.length as usize });
                continue;
            }
        };
        o.push(El { depth: d, kind: format!("{:?}", n.kind), len: n.text_len as usize, leaf: false, inner: n.children.iter().map(|c| c.len() as usize).sum() });
        for c in n.children.iter().rev() {
            st.push(W::T(c, d + 1));
        }
    }
}

/// A document being edited, with the session a user keeps for it.
pub trait Doc {
    fn lex(&mut self, s: &dyn Source, e: &[TextEdit]) -> Out<Tok>;
    fn parse(&mut self, s: &dyn Source, e: &[TextEdit]) -> Out<El>;
}
pub trait Api {
    fn name(&self) -> &'static str;
    fn open(&self) -> Box<dyn Doc + '_>;
    fn lex(&self, s: &dyn Source) -> Out<Tok> {
        self.open().lex(s, &[])
    }
    fn parse(&self, s: &dyn Source) -> Out<El> {
        self.open().parse(s, &[])
    }
}

pub struct Entry<L: Language, X, P> {
    name: &'static str,
    lx: X,
    ps: P,
    l: std::marker::PhantomData<fn() -> L>,
}
impl<L, X, P> Entry<L, X, P>
where
    L: Language + Send + Sync + 'static,
    X: Lexer<L>,
    P: Parser<L>,
    L::ElementType: From<L::TokenType>,
{
    pub fn new(name: &'static str, lx: X, ps: P) -> Self {
        Self { name, lx, ps, l: Default::default() }
    }
}
struct Open<'e, L: Language, X, P> {
    e: &'e Entry<L, X, P>,
    s: ParseSession<L>,
}
impl<L, X, P> Doc for Open<'_, L, X, P>
where
    L: Language + Send + Sync + 'static,
    X: Lexer<L>,
    P: Parser<L>,
    L::ElementType: From<L::TokenType>,
{
    fn lex(&mut self, s: &dyn Source, e: &[TextEdit]) -> Out<Tok> {
        let o = self.e.lx.lex(s, e, &mut self.s);
        out(o.result.as_ref().ok().map(|t| t.iter().map(|t| Tok { kind: format!("{:?}", t.kind), start: t.span.start, end: t.span.end }).collect()), o.result.as_ref().err(), &o.diagnostics)
    }
    fn parse(&mut self, s: &dyn Source, e: &[TextEdit]) -> Out<El> {
        let o = self.e.ps.parse(s, e, &mut self.s);
        let items = o.result.as_ref().ok().map(|r| {
            let mut v = vec![];
            flat(r, &mut v);
            v
        });
        out(items, o.result.as_ref().err(), &o.diagnostics)
    }
}
impl<L, X, P> Api for Entry<L, X, P>
where
    L: Language + Send + Sync + 'static,
    X: Lexer<L>,
    P: Parser<L>,
    L::ElementType: From<L::TokenType>,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn open(&self) -> Box<dyn Doc + '_> {
        Box::new(Open { e: self, s: ParseSession::default() })
    }
}
