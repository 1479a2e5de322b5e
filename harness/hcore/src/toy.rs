//! A small but complete language built on the framework exactly as a language author would build one:
//! an incremental lexer on the scanning toolkit, an incremental recursive-descent parser with reuse points,
//! and a Pratt expression parser. Every parsing decision needs at most one token past a node and every lexing
//! decision at most one character past a token, which is what the framework asks of reusable constructs; only the
//! backtick looks further (for its closing one), so a text that has one is always lexed from its start.

use core::range::Range;
use oak_core::{
    Associativity, ElementType, GreenNode, Language, LexOutput, Lexer, LexerCache, LexerState, OakError, ParseCache, ParseOutput, Parser, ParserState, Pratt, PrattParser, Source, TextEdit, TokenType, UniversalElementRole, UniversalTokenRole, binary,
    lexer::{CommentConfig, StringConfig, WhitespaceConfig},
    parser::{parse_with_lexer, postfix},
    tree::TokenProvenance,
    unary,
};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u16)]
pub enum T {
    Ws,
    LineComment,
    BlockComment,
    Ident,
    KwLet,
    KwFn,
    KwIf,
    KwElse,
    KwFatal,
    Number,
    Str,
    Plus,
    Minus,
    Star,
    Slash,
    Caret,
    Eq,
    EqEq,
    Bang,
    Question,
    LParen,
    RParen,
    LBrace,
    RBrace,
    Semi,
    Comma,
    Error,
    Eof,
}
use T::*;

impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: T = T::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            Ws => UniversalTokenRole::Whitespace,
            LineComment | BlockComment => UniversalTokenRole::Comment,
            Ident => UniversalTokenRole::Name,
            KwLet | KwFn | KwIf | KwElse | KwFatal => UniversalTokenRole::Keyword,
            Number | Str => UniversalTokenRole::Literal,
            T::Error => UniversalTokenRole::Error,
            T::Eof => UniversalTokenRole::Eof,
            Comma | Semi => UniversalTokenRole::Punctuation,
            _ => UniversalTokenRole::Operator,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u16)]
pub enum E {
    Root,
    FnDecl,
    Params,
    Block,
    LetStmt,
    IfStmt,
    ElseClause,
    ExprStmt,
    Expr,
    Paren,
    Args,
    Binary,
    Unary,
    Postfix,
    Call,
    Atom,
    Absent,
    Bad,
    Tok(u16),
}

impl ElementType for E {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            E::Root => UniversalElementRole::Root,
            E::Bad => UniversalElementRole::Error,
            E::FnDecl => UniversalElementRole::Definition,
            E::Binary | E::Unary | E::Expr => UniversalElementRole::Expression,
            E::LetStmt | E::ExprStmt | E::IfStmt => UniversalElementRole::Statement,
            E::Atom => UniversalElementRole::Reference,
            _ => UniversalElementRole::Container,
        }
    }
}
impl From<T> for E {
    fn from(t: T) -> E {
        E::Tok(t as u16)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = ();
}

pub struct ToyLexer;

const WS: WhitespaceConfig = WhitespaceConfig { unicode_whitespace: true };
const COMMENT: CommentConfig = CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true };
const STRING: StringConfig = StringConfig { quotes: &['"', '\''], escape: Some('\\') };

pub fn keyword(s: &str) -> T {
    match s {
        "let" => KwLet,
        "fn" => KwFn,
        "if" => KwIf,
        "else" => KwElse,
        "fatal" => KwFatal,
        _ => Ident,
    }
}

pub fn op(c: char) -> Option<T> {
    Some(match c {
        '+' => Plus,
        '-' => Minus,
        '*' => Star,
        '/' => Slash,
        '^' => Caret,
        '!' => Bang,
        '?' => Question,
        '(' => LParen,
        ')' => RParen,
        '{' => LBrace,
        '}' => RBrace,
        ';' => Semi,
        ',' => Comma,
        _ => return None,
    })
}

impl ToyLexer {
    pub fn run<S: Source + ?Sized>(&self, st: &mut LexerState<'_, S, Toy>) -> Result<(), OakError> {
        while st.not_at_end() {
            let safe = st.get_position();
            if WS.scan(st, Ws) || COMMENT.scan(st, LineComment, BlockComment) || STRING.scan(st, Str) {
                continue;
            }
            let start = st.get_position();
            match st.peek() {
                Some(c) if c.is_ascii_digit() => {
                    st.skip_ascii_digits();
                    st.add_token(Number, start, st.get_position());
                }
                Some(c) if c == '_' || c.is_alphabetic() => {
                    st.take_while(|c| c == '_' || c.is_alphanumeric());
                    let end = st.get_position();
                    // a label directly after a question mark: the same characters, another token
                    let label = st.tokens().last().is_some_and(|t| t.kind == Question && t.span.end == start);
                    let k = if label { Str } else { keyword(&st.get_text_in(Range { start, end })) };
                    st.add_token(k, start, end);
                }
                Some('=') => {
                    let k = if st.consume_if_starts_with("==") {
                        EqEq
                    }
                    else {
                        st.advance(1);
                        T::Eq
                    };
                    st.add_token(k, start, st.get_position());
                }
                Some('`') => {
                    // a raw string if it is closed anywhere later, otherwise an operator on its own
                    let text = st.source().get_text_from(start).into_owned();
                    match text[1..].find('`') {
                        Some(n) => {
                            st.advance(n + 2);
                            st.add_token(Str, start, st.get_position())
                        }
                        None => {
                            st.advance(1);
                            st.add_token(Bang, start, st.get_position())
                        }
                    }
                }
                Some(c) => {
                    st.bump();
                    let k = op(c).unwrap_or(T::Error);
                    if k == T::Error {
                        let e = st.source().syntax_error("bad char".to_string(), start);
                        st.add_error(e);
                    }
                    st.add_token(k, start, st.get_position());
                }
                None => {}
            }
            st.advance_if_dead_lock(safe);
        }
        Ok(())
    }
}

impl Lexer<Toy> for ToyLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Toy>) -> LexOutput<Toy> {
        if SCRIBBLE.get() {
            crate::inc::scribble();
        }
        let from = match text.get_text_from(0).contains('`') {
            true => 0,
            false => edits.iter().map(|e| e.span.start).min().unwrap_or(0),
        };
        let mut st = LexerState::<'_, S, Toy>::new_with_cache(text, from, cache);
        if st.fully_reused() && st.tokens().last().is_some_and(|t| t.kind == T::Eof) {
            return st.finish_with_cache(Ok(()), cache);
        }
        let r = self.run(&mut st);
        st.add_eof();
        st.finish_with_cache(r, cache)
    }
}

thread_local! {
    /// Overwrite recycled memory whenever a text is lexed (i.e. between the start of a generation and its parse).
    pub static SCRIBBLE: Cell<bool> = const { Cell::new(false) };
    /// Names and numbers in expressions carry provenance.
    pub static PROVENANCE: Cell<bool> = const { Cell::new(false) };
    pub static NODE_CALLS: Cell<u64> = const { Cell::new(0) };
    pub static NODE_RUNS: Cell<u64> = const { Cell::new(0) };
}

type St<'a, S> = ParserState<'a, Toy, S>;

pub struct ToyParser;

struct Exprs;

impl Pratt<Toy> for Exprs {
    fn primary<'a, S: Source + ?Sized>(&self, s: &mut St<'a, S>) -> &'a GreenNode<'a, Toy> {
        let cp = s.checkpoint();
        match s.peek_kind() {
            Some(k @ (Number | Str | Ident)) => {
                if PROVENANCE.get() && k != Str {
                    // where the text comes from is kept beside the tree, in the arena
                    let (span, text) = (s.current().unwrap().span, s.peek_text().unwrap().into_owned());
                    let from = if k == Ident { TokenProvenance::from_source(span) } else { TokenProvenance::from_synthesized(text) };
                    s.sink.push_leaf_with_metadata(k, span.end - span.start, from);
                    s.advance();
                }
                else {
                    s.bump();
                }
                s.finish_at(cp, E::Atom)
            }
            Some(LParen) => {
                s.bump();
                expr(s);
                s.expect(RParen).ok();
                // a node around a single node of its own kind
                s.finish_at(cp, E::Paren);
                s.finish_at(cp, E::Paren)
            }
            Some(T::Eof) | None => {
                s.record_unexpected_eof();
                s.finish_at(cp, E::Bad)
            }
            Some(Semi | RParen | RBrace | Comma | KwLet | KwFn | KwIf | KwElse | KwFatal | LBrace) => {
                s.record_expected("expression");
                s.finish_at(cp, E::Bad)
            }
            Some(k) => {
                s.record_unexpected_token(format!("{k:?}"));
                s.bump();
                s.finish_at(cp, E::Bad)
            }
        }
    }
    fn prefix<'a, S: Source + ?Sized>(&self, s: &mut St<'a, S>) -> &'a GreenNode<'a, Toy> {
        match s.peek_kind() {
            Some(k @ (Minus | Bang)) => unary(s, k, 40, E::Unary, |s, p| PrattParser::parse(s, p, self)),
            _ => self.primary(s),
        }
    }
    fn infix<'a, S: Source + ?Sized>(&self, s: &mut St<'a, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        let k = s.peek_kind()?;
        let (p, a) = match k {
            T::Eq => (2, Associativity::Right),
            EqEq => (5, Associativity::None),
            Plus | Minus => (10, Associativity::Left),
            Star | Slash => (20, Associativity::Left),
            Caret => (50, Associativity::Right),
            Question if min <= 60 => return Some(postfix(s, left, Question, E::Postfix)),
            LParen if min <= 60 => {
                let cp = s.checkpoint_before(left);
                s.bump();
                // possibly an empty node
                let args = s.checkpoint();
                while s.not_at(RParen) && !at_stop(s) {
                    expr(s);
                    if !s.eat(Comma) {
                        break;
                    }
                }
                s.finish_at(args, E::Args);
                s.expect(RParen).ok();
                return Some(s.finish_at(cp, E::Call));
            }
            // a contextual keyword: the decision depends on the text of the token after the operand
            Ident if min <= 60 && s.peek_text().as_deref() == Some("as") => {
                let cp = s.checkpoint_before(left);
                s.bump();
                s.expect(Ident).ok();
                return Some(s.finish_at(cp, E::Postfix));
            }
            _ => return None,
        };
        if p < min {
            return None;
        }
        Some(binary(s, left, k, p, a, E::Binary, |s, p| PrattParser::parse(s, p, self)))
    }
}

fn at_stop<S: Source + ?Sized>(s: &St<'_, S>) -> bool {
    matches!(s.peek_kind(), None | Some(T::Eof | Semi | RBrace))
}

fn node<'a, S: Source + ?Sized>(s: &mut St<'a, S>, k: E, f: impl FnOnce(&mut St<'a, S>)) {
    NODE_CALLS.with(|c| c.set(c.get() + 1));
    let _ = s.incremental_node(k, |s| {
        NODE_RUNS.with(|c| c.set(c.get() + 1));
        f(s);
        Ok(())
    });
}

fn expr<'a, S: Source + ?Sized>(s: &mut St<'a, S>) {
    node(s, E::Expr, |s| {
        PrattParser::parse(s, 0, &Exprs);
    })
}

fn block<'a, S: Source + ?Sized>(s: &mut St<'a, S>) {
    node(s, E::Block, |s| {
        s.expect(LBrace).ok();
        while s.not_at(RBrace) && s.not_at(T::Eof) && s.not_at_end() {
            stmt(s);
        }
        s.expect(RBrace).ok();
    })
}

fn stmt<'a, S: Source + ?Sized>(s: &mut St<'a, S>) {
    match s.peek_kind() {
        Some(KwLet) => node(s, E::LetStmt, |s| {
            s.bump();
            s.expect(Ident).ok();
            if s.eat(T::Eq) {
                expr(s);
            }
            else {
                let cp = s.checkpoint();
                s.finish_at(cp, E::Absent);
            }
            s.expect(Semi).ok();
        }),
        Some(KwFn) => node(s, E::FnDecl, |s| {
            s.bump();
            s.expect(Ident).ok();
            node(s, E::Params, |s| {
                s.expect(LParen).ok();
                while s.at(Ident) {
                    s.bump();
                    if !s.eat(Comma) {
                        break;
                    }
                }
                s.expect(RParen).ok();
            });
            block(s);
        }),
        Some(KwIf) => node(s, E::IfStmt, |s| {
            s.bump();
            expr(s);
            block(s);
            let _ = s.incremental_opt(E::ElseClause, |s| {
                if !s.at(KwElse) {
                    return Ok(false);
                }
                s.bump();
                block(s);
                Ok(true)
            });
        }),
        Some(LBrace) => block(s),
        Some(RBrace | RParen | Comma | KwElse | Semi | KwFatal) => {
            let cp = s.checkpoint();
            s.record_unexpected_token("stray");
            s.bump();
            s.finish_at(cp, E::Bad);
        }
        _ => node(s, E::ExprStmt, |s| {
            expr(s);
            s.expect(Semi).ok();
        }),
    }
}

impl Parser<Toy> for ToyParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Toy>) -> ParseOutput<'a, Toy> {
        parse_with_lexer(&ToyLexer, text, edits, cache, |s| {
            let cp = (s.checkpoint().0, 0);
            while s.not_at_end() && s.not_at(T::Eof) {
                if s.at(KwFatal) && s.peek_non_trivia_kind_at(1) == Some(KwFatal) {
                    // an unrecoverable error: the parse ends without a tree
                    return Err(s.syntax_error("fatal fatal"));
                }
                stmt(s);
            }
            Ok(s.finish_at(cp, E::Root))
        })
    }
}

/// Independent reference lexer (character by character, no framework code).
pub fn reference_lex(text: &str) -> Vec<(T, usize, usize)> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|x| x.1);
    let pos = |i: usize| cs.get(i).map(|x| x.0).unwrap_or(text.len());
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let s = i;
        let c = cs[i].1;
        let k;
        if c.is_whitespace() {
            while at(i).is_some_and(|c| c.is_whitespace()) {
                i += 1;
            }
            k = Ws;
        }
        else if c == '/' && at(i + 1) == Some('/') {
            while at(i).is_some_and(|c| c != '\n') {
                i += 1;
            }
            k = LineComment;
        }
        else if c == '/' && at(i + 1) == Some('*') {
            i += 2;
            let mut d = 1;
            while d > 0 && i < cs.len() {
                if at(i) == Some('/') && at(i + 1) == Some('*') {
                    d += 1;
                    i += 2;
                }
                else if at(i) == Some('*') && at(i + 1) == Some('/') {
                    d -= 1;
                    i += 2;
                }
                else {
                    i += 1;
                }
            }
            k = BlockComment;
        }
        else if c == '"' || c == '\'' {
            i += 1;
            while i < cs.len() {
                if at(i) == Some('\\') {
                    i += 2;
                }
                else if at(i) == Some(c) {
                    i += 1;
                    break;
                }
                else {
                    i += 1;
                }
            }
            i = i.min(cs.len());
            k = Str;
        }
        else if c == '`' {
            let close = (i + 1..cs.len()).find(|&j| at(j) == Some('`'));
            i = close.unwrap_or(i) + 1;
            k = if close.is_some() { Str } else { Bang };
        }
        else if c.is_ascii_digit() {
            while at(i).is_some_and(|c| c.is_ascii_digit()) {
                i += 1;
            }
            k = Number;
        }
        else if c == '_' || c.is_alphabetic() {
            while at(i).is_some_and(|c| c == '_' || c.is_alphanumeric()) {
                i += 1;
            }
            k = if out.last().is_some_and(|t: &(T, usize, usize)| t.0 == Question) { Str } else { keyword(&text[pos(s)..pos(i)]) };
        }
        else if c == '=' {
            i += 1;
            if at(i) == Some('=') {
                i += 1;
                k = EqEq;
            }
            else {
                k = T::Eq;
            }
        }
        else {
            i += 1;
            k = op(c).unwrap_or(T::Error);
        }
        out.push((k, pos(s), pos(i)));
    }
    out.push((T::Eof, text.len(), text.len()));
    out
}
