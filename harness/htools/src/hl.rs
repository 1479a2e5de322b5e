//! C22: highlighting keeps every character, styles each token by its most specific scope, and every export
//! format carries the same text, escaped for that format.
use crate::{
    toy::{T, Toy, ToyLexer, ToyParser, reference_lex},
    ws::program,
};
use oak_core::{TokenRole, TokenType, UniversalElementRole, UniversalTokenRole, language::LanguageCategory};
use oak_highlight::{
    AnsiExporter, CssExporter, ExportFormat, Exporter, HighlightResult, HighlightSegment, HighlightStyle, HighlightTheme, Highlighter, HtmlExporter, JsonExporter, OakHighlighter, Theme,
    highlighter::{HighlightSpan, ScopeProvider},
};
use std::{borrow::Cow, collections::HashMap};
use vcommon::*;

use oak_core::{
    ElementType, GreenNode, Language, LexOutput, Lexer, LexerCache, LexerState, ParseCache, ParseOutput, ParseSession, Parser, RedNode, Source, SourceText, TextEdit,
    language::ElementRole,
    parser::parse_with_lexer,
    visitor::Visitor,
};
use oak_highlight::highlighter::HighlightVisitor;

/// The scope every universal role stands for.
const TOKEN_SCOPES: &[(UniversalTokenRole, &str)] = {
    use UniversalTokenRole::*;
    &[
        (Keyword, "keyword"),
        (Name, "variable.other"),
        (Literal, "constant"),
        (Escape, "constant.character.escape"),
        (Operator, "keyword.operator"),
        (Punctuation, "punctuation"),
        (Comment, "comment"),
        (Whitespace, "punctuation.whitespace"),
        (Error, "invalid"),
        (None, "none"),
        (Eof, "punctuation.eof"),
    ]
};
const ELEMENT_SCOPES: &[(UniversalElementRole, &str)] = {
    use UniversalElementRole::*;
    &[
        (Container, "meta.block"),
        (Statement, "meta.statement"),
        (Binding, "variable.other.declaration"),
        (Reference, "variable.other.usage"),
        (Call, "entity.name.function.call"),
        (Expression, "meta.expression"),
        (Value, "constant"),
        (Definition, "entity.name.function"),
        (Typing, "entity.name.type"),
        (Metadata, "meta.preprocessor"),
        (Attribute, "entity.other.attribute-name"),
        (AttributeKey, "entity.other.attribute-name.key"),
        (Detail, "meta.detail"),
        (Name, "entity.name"),
        (Embedded, "meta.embedded"),
        (Documentation, "comment.block.documentation"),
        (Root, "source"),
        (Error, "invalid"),
        (None, "none"),
    ]
};

/// A language with roles of its own, finer than the universal ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
enum SK {
    Control,
    Integer,
    Name,
    Slash,
    Blank,
    Eof,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct SRole(SK);
impl TokenRole for SRole {
    fn universal(&self) -> UniversalTokenRole {
        match self.0 {
            SK::Control => UniversalTokenRole::Keyword,
            SK::Integer => UniversalTokenRole::Literal,
            SK::Name => UniversalTokenRole::Name,
            SK::Slash => UniversalTokenRole::Escape,
            SK::Blank => UniversalTokenRole::Whitespace,
            SK::Eof => UniversalTokenRole::Eof,
        }
    }
    fn name(&self) -> &str {
        match self.0 {
            SK::Control => "keyword.control",
            SK::Integer => "constant.numeric.integer",
            SK::Name => "variable.other",
            SK::Slash => "escape",
            SK::Blank => "punctuation.whitespace",
            SK::Eof => "punctuation.eof",
        }
    }
}
impl TokenType for SK {
    type Role = SRole;
    const END_OF_STREAM: Self = SK::Eof;
    fn role(&self) -> SRole {
        SRole(*self)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum SE {
    Root,
    Group,
    Tok(SK),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct SERole(SE);
impl ElementRole for SERole {
    fn universal(&self) -> UniversalElementRole {
        match self.0 {
            SE::Root => UniversalElementRole::Root,
            SE::Group => UniversalElementRole::Container,
            SE::Tok(_) => UniversalElementRole::Error,
        }
    }
    fn name(&self) -> &str {
        match self.0 {
            SE::Root => "source",
            SE::Group => "meta.group.words",
            SE::Tok(_) => "token",
        }
    }
}
impl ElementType for SE {
    type Role = SERole;
    fn role(&self) -> SERole {
        SERole(*self)
    }
}
impl From<SK> for SE {
    fn from(k: SK) -> SE {
        SE::Tok(k)
    }
}
#[derive(Clone, Copy, Debug)]
struct Spec;
impl Language for Spec {
    const NAME: &'static str = "spec";
    const CATEGORY: LanguageCategory = LanguageCategory::Markup;
    type TokenType = SK;
    type ElementType = SE;
    type TypedRoot = ();
}
fn spec_kind(ch: char) -> SK {
    match ch {
        'A'..='Z' => SK::Control,
        '0'..='9' => SK::Integer,
        '\\' => SK::Slash,
        c if c.is_whitespace() => SK::Blank,
        _ => SK::Name,
    }
}
struct SpecLexer;
impl Lexer<Spec> for SpecLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], cache: &'a mut impl LexerCache<Spec>) -> LexOutput<Spec> {
        let mut st = LexerState::<'_, S, Spec>::new(text);
        while let Some(ch) = st.current() {
            let (k, from) = (spec_kind(ch), st.get_position());
            while st.current().is_some_and(|c| spec_kind(c) == k) {
                let n = st.current().unwrap().len_utf8();
                st.advance(n);
            }
            st.add_token(k, from, st.get_position());
        }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}
struct SpecParser;
impl Parser<Spec> for SpecParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Spec>) -> ParseOutput<'a, Spec> {
        parse_with_lexer(&SpecLexer, text, edits, cache, |s| {
            let cp = (s.checkpoint().0, 0);
            while s.not_at_end() && s.not_at(SK::Eof) {
                let inner = s.checkpoint();
                let group = s.at(SK::Control);
                s.bump();
                if group {
                    s.finish_at(inner, SE::Group);
                }
            }
            Ok::<&GreenNode<'a, Spec>, _>(s.finish_at(cp, SE::Root))
        })
    }
}
fn spec_scopes(k: SK) -> Vec<String> {
    let (n, u) = match k {
        SK::Control => ("keyword.control", "keyword"),
        SK::Integer => ("constant.numeric.integer", "constant"),
        SK::Name => ("variable.other", "variable.other"),
        SK::Slash => ("escape", "constant.character.escape"),
        SK::Blank => ("punctuation.whitespace", "punctuation.whitespace"),
        SK::Eof => ("punctuation.eof", "punctuation.eof"),
    };
    let mut v = vec![format!("{n}.spec")];
    if n != u {
        v.push(n.to_string());
    }
    v.extend([format!("markup.{u}"), u.to_string(), "markup.spec".to_string()]);
    v
}

/// The style of the longest dotted prefix of any scope that the theme knows; the first scope wins among equals.
fn best(theme: &HighlightTheme, scopes: &[String]) -> HighlightStyle {
    let mut found: Option<(usize, HighlightStyle)> = None;
    for s in scopes {
        let parts: Vec<&str> = s.split('.').collect();
        for n in (1..=parts.len()).rev() {
            let k = parts[..n].join(".");
            if k.is_empty() {
                continue;
            }
            if let Some(st) = theme.styles.get(&k) {
                if found.as_ref().is_none_or(|f| n > f.0) {
                    found = Some((n, st.clone()));
                }
                break;
            }
        }
    }
    found.map(|f| f.1).or_else(|| theme.styles.get("none").cloned()).unwrap_or_default()
}

fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '&' {
            let e = rest.find(';').ok_or("bare &")?;
            o.push(match &rest[1..e] {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "#39" => '\'',
                x => return Err(format!("entity {x:?}")),
            });
            rest = &rest[e + 1..];
        }
        else if c == '>' || c == '<' {
            return Err("bare angle bracket".into());
        }
        else {
            o.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    Ok(o)
}

/// (attribute of the span, text) runs of the highlighted div.
fn html_runs(h: &str) -> Result<Vec<(String, String)>, String> {
    let body = h.split_once("<div class=\"highlight\">").ok_or("no highlight div")?.1;
    let body = body.strip_suffix("</div>").ok_or("div not closed last")?;
    let mut runs = vec![];
    let mut rest = body;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<span ") {
            let (attr, r) = r.split_once("\">").ok_or("span not closed")?;
            if attr.matches('"').count() != 1 {
                return Err(format!("attribute {attr:?}"));
            }
            let (txt, r) = r.split_once("</span>").ok_or("no </span>")?;
            runs.push((format!("{attr}\""), unescape(txt)?));
            rest = r;
        }
        else {
            let e = rest.find('<').unwrap_or(rest.len());
            if e == 0 {
                return Err(format!("unexpected markup {:?}", clip(rest, 40)));
            }
            runs.push((String::new(), unescape(&rest[..e])?));
            rest = &rest[e..];
        }
    }
    Ok(runs)
}

fn merged(v: Vec<(String, String)>) -> Vec<(String, String)> {
    let mut o: Vec<(String, String)> = vec![];
    for (a, t) in v {
        match o.last_mut() {
            Some(l) if l.0.is_empty() && a.is_empty() => l.1.push_str(&t),
            _ => o.push((a, t)),
        }
    }
    o.retain(|x| !x.0.is_empty() || !x.1.is_empty());
    o
}

fn ansi_runs(s: &str) -> Result<Vec<(Vec<String>, String)>, String> {
    let mut runs = vec![];
    let mut cur: Vec<String> = vec![];
    let mut txt = String::new();
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("\x1b[") {
            let (codes, r) = r.split_once('m').ok_or("escape not ended")?;
            if !txt.is_empty() || !cur.is_empty() {
                runs.push((cur.clone(), std::mem::take(&mut txt)));
            }
            cur = codes.split(';').filter(|c| *c != "0").map(|c| c.to_string()).collect();
            rest = r;
        }
        else {
            let e = rest.find("\x1b[").unwrap_or(rest.len());
            txt.push_str(&rest[..e]);
            rest = &rest[e..];
        }
    }
    if !cur.is_empty() {
        return Err("style left on".into());
    }
    runs.push((vec![], txt));
    Ok(runs)
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#39;")
}

/// The colours a terminal has, by the theme colours that stand for them; all others are white.
fn terminal(colour: &str) -> &'static str {
    for (code, list) in [
        ("31", &["#FF0000", "#F44747", "#DC322F", "#FF5555"][..]),
        ("32", &["#00FF00", "#6A9955", "#859900"]),
        ("33", &["#FFFF00", "#F1FA8C", "#E6DB74"]),
        ("34", &["#0000FF", "#569CD6", "#005CC5"]),
        ("35", &["#FF00FF", "#FF79C6", "#D73A49"]),
        ("36", &["#00FFFF", "#9CDCFE", "#2AA198"]),
    ] {
        if list.contains(&colour) {
            return code;
        }
    }
    "37"
}

fn exports(c: &mut Case, r: &HighlightResult<'_>) -> Check {
    let all: String = r.segments.iter().map(|s| &*s.text).collect();
    for (css, inline) in [(false, false), (true, false), (false, true), (true, true)] {
        let h = HtmlExporter::new(css, inline).export(r);
        ensure_eq!(h.contains("<style>\n"), css, "stylesheet included", "");
        let runs = match html_runs(&h) {
            Ok(x) => x,
            Err(e) => return fail("html export is malformed", format!("{e}: {h}")),
        };
        let want = merged(
            r.segments
                .iter()
                .map(|s| {
                    let mut a: Vec<String> = vec![];
                    if inline {
                        if let Some(x) = &s.style.color { a.push(format!("color: {}", escape(x))) }
                        if let Some(x) = &s.style.background_color { a.push(format!("background-color: {}", escape(x))) }
                        if s.style.bold { a.push("font-weight: bold".into()) }
                        if s.style.italic { a.push("font-style: italic".into()) }
                        if s.style.underline { a.push("text-decoration: underline".into()) }
                    }
                    else {
                        if s.style.bold { a.push("bold".into()) }
                        if s.style.italic { a.push("italic".into()) }
                        if s.style.underline { a.push("underline".into()) }
                    }
                    (if a.is_empty() { String::new() } else if inline { format!("style=\"{}\"", a.join("; ")) } else { format!("class=\"{}\"", a.join(" ")) }, s.text.to_string())
                })
                .collect(),
        );
        ensure_eq!(merged(runs), want, "html export", "css {css} inline {inline}");
    }
    let j = JsonExporter { pretty: c.rng.chance(1, 2) }.export(r);
    match serde_json::from_str::<HighlightResult>(&j) {
        Err(e) => return fail("json export is malformed", format!("{e}: {j}")),
        Ok(b) => {
            ensure_eq!(b.source, r.source, "json source", "{j}");
            ensure_eq!(b.segments.len(), r.segments.len(), "json segments", "{j}");
            for (x, y) in b.segments.iter().zip(&r.segments) {
                ensure_eq!((x.span, &x.style, &x.text), (y.span, &y.style, &y.text), "json segment", "{j}");
            }
        }
    }
    if !all.contains('\x1b') {
        let a = AnsiExporter.export(r);
        match ansi_runs(&a) {
            Err(e) => return fail("ansi export is malformed", format!("{e}: {a:?}")),
            Ok(runs) => {
                ensure_eq!(runs.iter().map(|x| x.1.as_str()).collect::<String>(), all, "ansi text", "{a:?}");
                // attribute codes of each character, in order
                let mut got: Vec<(char, String)> = vec![];
                for (k, t) in &runs {
                    let on: String = ["1", "3", "4", "31", "32", "33", "34", "35", "36", "37"].iter().filter(|x| k.iter().any(|y| y == **x)).copied().collect();
                    ensure_eq!(on.len(), k.iter().map(|y| y.len()).sum::<usize>(), "ansi codes", "{k:?}");
                    got.extend(t.chars().map(|ch| (ch, on.clone())));
                }
                let mut want: Vec<(char, String)> = vec![];
                for s in &r.segments {
                    let on: String = [("1", s.style.bold), ("3", s.style.italic), ("4", s.style.underline)].iter().filter(|x| x.1).map(|x| x.0).collect();
                    let on = on + s.style.color.as_deref().map_or("", terminal);
                    want.extend(s.text.chars().map(|ch| (ch, on.clone())));
                }
                ensure_eq!(got, want, "ansi attributes", "{a:?}");
            }
        }
    }
    // the stylesheet has a rule for every class the markup uses
    let css = CssExporter.export(r);
    ensure_eq!(css.matches('{').count(), css.matches('}').count(), "css export is malformed", "{css}");
    for (class, rule) in [("bold", "font-weight: bold"), ("italic", "font-style: italic"), ("underline", "text-decoration: underline")] {
        for (what, sheet) in [("css", css.clone()), ("html", HtmlExporter::new(true, false).export(r).split("</style>").next().unwrap().to_string())] {
            let body = sheet.split_once(&format!(".highlight .{class} {{")).map(|x| x.1.split('}').next().unwrap().trim().trim_end_matches(';').to_string());
            ensure_eq!(body.as_deref(), Some(rule), "rule of a class", "{what} {class}");
        }
    }
    c.seen("exports checked", 7);
    Ok(())
}

fn both(t: HighlightTheme) -> (String, std::collections::BTreeMap<String, HighlightStyle>) {
    (t.name, t.styles.into_iter().collect())
}

fn themes(g: &mut Rng) -> (Theme, HighlightTheme) {
    match g.below(3) {
        0 => (Theme::Default, HighlightTheme::default()),
        1 => (Theme::OneLight, HighlightTheme::one_light()),
        _ => (Theme::OneDarkPro, HighlightTheme::one_dark_pro()),
    }
}

fn style(g: &mut Rng) -> HighlightStyle {
    HighlightStyle {
        color: if g.chance(1, 2) { Some(g.pick(&["#FF0000", "#F44747", "#DC322F", "#FF5555", "#00FF00", "#6A9955", "#859900", "#FFFF00", "#F1FA8C", "#E6DB74", "#0000FF", "#569CD6", "#005CC5", "#FF00FF", "#FF79C6", "#D73A49", "#00FFFF", "#9CDCFE", "#2AA198", "#123456", "red", "rgb(1, 2, 3)", "a\"><b>&'"]).to_string()) } else { None },
        background_color: if g.chance(1, 4) { Some(g.pick(&["#FFCCCC", "\" x=\"<&>"]).to_string()) } else { None },
        bold: g.chance(1, 3),
        italic: g.chance(1, 3),
        underline: g.chance(1, 4),
    }
}

pub fn highlighting(run: &mut Run) {
    run.family("programs", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        let mut t = program(g);
        if g.chance(1, 4) {
            t.push_str(&g.string(&["<", "&", "\"<b>\"", "'", "@", "é", "/*", "\n", "fatal ", "\u{1}", "\u{85}"], 6));
        }
        c.input(t.clone());
        let (theme, th) = themes(g);
        let hl = OakHighlighter::new();
        let r = match hl.highlight_with_language::<Toy, _, _>(&t, theme, &ToyParser, &ToyLexer) {
            Ok(r) => r,
            Err(_) => {
                c.seen("programs without a tree", 1);
                return Ok(());
            }
        };
        ensure_eq!(r.source, t, "source", "");
        let toks: Vec<(T, usize, usize)> = reference_lex(&t).into_iter().filter(|x| x.0 != T::Eof || x.1 != x.2).collect();
        let segs: Vec<&HighlightSegment> = r.segments.iter().filter(|s| s.span.start != s.span.end).collect();
        ensure_eq!(segs.iter().map(|s| (s.span.start, s.span.end)).collect::<Vec<_>>(), toks.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), "segments cover the tokens", "{t:?}");
        for (s, k) in segs.iter().zip(&toks) {
            ensure_eq!(s.text, t[k.1..k.2], "segment text", "{t:?}");
            let role = k.0.role();
            let n = role.name();
            let scopes = [format!("{n}.toy"), format!("source.{n}"), n.to_string(), "source.toy".to_string()];
            ensure_eq!(s.style, best(&th, &scopes), "segment style", "{:?} {n} in {theme:?}", k.0);
        }
        exports(c, &r)?;
        c.seen("segments", r.segments.len() as u64);
        c.distinct(&t);
        Ok(())
    });
    // a language whose roles are finer than the universal ones, under themes that know some scopes at every depth
    run.family("finer-roles", 3000, 12000, |c| {
        let g = &mut c.rng.clone();
        let t = g.string(&["A", "IF", "7", "42", "x", "é", "\\", " ", "\n", "<", "𝄞"], 12);
        let mut styles = HashMap::new();
        for i in 0..g.below(9) {
            let k = *g.pick(&["keyword", "keyword.control", "keyword.control.spec", "keyword.spec", "constant", "constant.numeric", "constant.numeric.integer", "constant.numeric.integer.spec", "constant.character", "variable", "variable.other", "variable.other.spec", "escape", "escape.spec", "markup", "markup.keyword", "markup.constant", "markup.variable.other", "markup.constant.character.escape", "markup.spec", "punctuation", "punctuation.whitespace", "none", "source.spec", "source"]);
            styles.insert(k.to_string(), HighlightStyle { color: Some(format!("#{i:06}")), ..style(g) });
        }
        let th = HighlightTheme { name: "t".into(), styles };
        c.input(format!("{t:?} {th:?}"));
        let text = SourceText::new(t.clone());
        let mut session = ParseSession::<Spec>::new(16);
        let root = SpecParser.parse(&text, &[], &mut session).result.map_err(|e| Fail { sig: "finer roles: no tree".into(), detail: e.to_string() })?;
        let mut v = HighlightVisitor { theme: &th, segments: vec![], source: &t };
        <HighlightVisitor as Visitor<Spec>>::visit_node(&mut v, RedNode::new(root, 0));
        let mut want: Vec<(usize, usize, SK)> = vec![];
        for (i, ch) in t.char_indices() {
            let k = spec_kind(ch);
            match want.last_mut() {
                Some(w) if w.2 == k => w.1 = i + ch.len_utf8(),
                _ => want.push((i, i + ch.len_utf8(), k)),
            }
        }
        let segs: Vec<_> = v.segments.iter().filter(|s| s.span.start != s.span.end).collect();
        ensure_eq!(segs.iter().map(|s| (s.span.start, s.span.end, s.text.to_string())).collect::<Vec<_>>(), want.iter().map(|w| (w.0, w.1, t[w.0..w.1].to_string())).collect::<Vec<_>>(), "segments cover the tokens", "{t:?}");
        for (s, w) in segs.iter().zip(&want) {
            ensure_eq!(s.style, best(&th, &spec_scopes(w.2)), "segment style", "{:?} of {:?}", s.text, w.2);
        }
        let hl = OakHighlighter::new();
        let (named, real) = themes(g);
        let r = hl.highlight_with_language::<Spec, _, _>(&t, named, &SpecParser, &SpecLexer).map_err(|e| Fail { sig: "finer roles: no tree".into(), detail: e.to_string() })?;
        for (s, w) in r.segments.iter().filter(|s| s.span.start != s.span.end).zip(&want) {
            ensure_eq!(s.style, best(&real, &spec_scopes(w.2)), "segment style", "{:?} of {:?} in {named:?}", s.text, w.2);
        }
        c.seen("segments of a language with finer roles", segs.len() as u64);
        c.distinct(&t);
        Ok(())
    });
    run.family_exact("scopes-of-roles", 1, |c| {
        c.input("all roles");
        use LanguageCategory as C;
        let cats = [(C::Programming, "source"), (C::Markup, "markup"), (C::Config, "config"), (C::Dsl, "dsl"), (C::StyleSheet, "source"), (C::Modeling, "source"), (C::Other, "source")];
        for (r, n) in TOKEN_SCOPES {
            ensure_eq!(r.name(), *n, "scope of a role", "{r:?}");
            ensure_eq!(TokenRole::universal(r), *r, "universal role", "{r:?}");
            for (cat, pre) in cats {
                ensure_eq!(r.scopes("l", cat), vec![format!("{n}.l"), format!("{pre}.{n}"), n.to_string(), format!("{pre}.l")], "token scopes", "{r:?} {cat:?}");
            }
        }
        for (r, n) in ELEMENT_SCOPES {
            ensure_eq!(ElementRole::name(r), *n, "scope of a role", "{r:?}");
            ensure_eq!(ElementRole::universal(r), *r, "universal role", "{r:?}");
            for (cat, pre) in cats {
                ensure_eq!(r.scopes("l", cat), vec![format!("{n}.l"), format!("{pre}.{n}"), n.to_string(), format!("{pre}.l")], "element scopes", "{r:?} {cat:?}");
            }
        }
        // what a kind is asked about itself follows from its role
        const KINDS: [SK; 6] = [SK::Control, SK::Integer, SK::Name, SK::Slash, SK::Blank, SK::Eof];
        for k in KINDS {
            for o in KINDS {
                ensure_eq!(TokenType::is_role(&k, SRole(o)), k == o, "is_role", "{k:?} {o:?}");
                ensure_eq!(TokenType::is_universal(&k, SRole(o).universal()), k == o, "is_universal", "{k:?} {o:?}");
            }
            ensure_eq!((k.is_comment(), k.is_whitespace(), TokenType::is_error(&k), k.is_ignored(), k.is_end_of_stream()), (false, k == SK::Blank, false, k == SK::Blank, k == SK::Eof), "what a token kind is", "{k:?}");
        }
        for k in [T::Ws, T::LineComment, T::BlockComment, T::Ident, T::Error, T::Eof, T::Plus] {
            let comment = matches!(k, T::LineComment | T::BlockComment);
            ensure_eq!((k.is_comment(), k.is_whitespace(), TokenType::is_error(&k), k.is_ignored(), k.is_end_of_stream()), (comment, k == T::Ws, k == T::Error, comment || k == T::Ws, k == T::Eof), "what a token kind is", "{k:?}");
        }
        for (i, k) in [SE::Root, SE::Group, SE::Tok(SK::Name)].into_iter().enumerate() {
            ensure_eq!((k.is_root(), ElementType::is_error(&k), ElementType::is_role(&k, SERole(SE::Group)), ElementType::is_universal(&k, UniversalElementRole::Container)), (i == 0, i == 2, i == 1, i == 1), "what an element kind is", "{k:?}");
        }
        c.seen("roles with their scopes", (TOKEN_SCOPES.len() + ELEMENT_SCOPES.len()) as u64);
        Ok(())
    });
    run.family("results", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        let n = g.below(8);
        let mut segments = vec![];
        let mut src = String::new();
        for _ in 0..n {
            let t = g.string(&["a", "<", ">", "&", "\"", "'", "\\", "\n", "\t", "\r", "\u{0}", "\u{7f}", "\u{9f}", "\u{8}", "\u{c}", "é", "𝄞", "&lt;", "</span>", "\u{2028}", "\\u"], 5);
            segments.push(HighlightSegment { span: HighlightSpan { start: src.len(), end: src.len() + t.len() }, style: style(g), text: Cow::Owned(t.clone()) });
            src.push_str(&t);
        }
        c.input(format!("{segments:?}"));
        let r = HighlightResult { segments, source: Cow::Borrowed(&src) };
        exports(c, &r)?;
        // the fallback without a parser keeps the text too
        let (theme, _) = themes(g);
        let hl = OakHighlighter::new();
        let p = Highlighter::highlight(&hl, &src, "x", theme).map_err(|e| Fail { sig: "plain highlight".into(), detail: e.to_string() })?;
        ensure_eq!((p.segments.iter().map(|s| s.text.to_string()).collect::<String>(), p.source.to_string()), (src.clone(), src.clone()), "plain highlight", "");
        exports(c, &p)?;
        // no exporter for it: said so, not answered with something else
        ensure!(hl.highlight_format(&src, "x", theme, ExportFormat::Xml).is_err(), "highlight_format", "Xml");
        for f in [ExportFormat::Html, ExportFormat::Json, ExportFormat::Ansi, ExportFormat::Css] {
            let got = hl.highlight_format(&src, "x", theme, f).map_err(|e| Fail { sig: "highlight_format".into(), detail: e.to_string() })?;
            let want = match f {
                ExportFormat::Html => HtmlExporter::new(true, true).export(&p),
                ExportFormat::Json => JsonExporter { pretty: true }.export(&p),
                ExportFormat::Css => CssExporter.export(&p),
                _ => AnsiExporter.export(&p),
            };
            ensure_eq!(got, want, "highlight_format", "{f:?}");
        }
        c.distinct(&(src, n));
        Ok(())
    });
    run.family("themes", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        let parts = ["keyword", "source", "toy", "name", "a", "none", "comment"];
        let scope = |g: &mut Rng| (0..g.range(1, 4)).map(|_| *g.pick(&parts)).collect::<Vec<_>>().join(".");
        let mut styles = HashMap::new();
        for i in 0..g.below(8) {
            styles.insert(scope(g), HighlightStyle { color: Some(format!("#{i:06}")), ..style(g) });
        }
        let th = HighlightTheme { name: "t".into(), styles };
        let scopes: Vec<String> = (0..g.below(5)).map(|_| scope(g)).collect();
        c.input(format!("{th:?} {scopes:?}"));
        ensure_eq!(th.resolve_styles(&scopes), best(&th, &scopes), "resolve_styles", "{scopes:?} in {th:?}");
        for s in &scopes {
            ensure_eq!(th.resolve_style(s), best(&th, &[s.clone()]), "resolve_style", "{s:?} in {th:?}");
        }
        // scopes of a role: from specific to general, ending in the language
        for (lang, cat, pre) in [("toy", LanguageCategory::Programming, "source"), ("md", LanguageCategory::Markup, "markup"), ("json", LanguageCategory::Config, "config"), ("q", LanguageCategory::Dsl, "dsl")] {
            let role = *g.pick(&[UniversalTokenRole::Keyword, UniversalTokenRole::Comment, UniversalTokenRole::Name, UniversalTokenRole::Error]);
            let n = role.name();
            ensure_eq!(role.scopes(lang, cat), vec![format!("{n}.{lang}"), format!("{pre}.{n}"), n.to_string(), format!("{pre}.{lang}")], "token scopes", "{role:?}");
            ensure_eq!(th.get_token_style(role), best(&th, &[n.to_string()]), "token style", "{role:?}");
            let e = *g.pick(&[UniversalElementRole::Definition, UniversalElementRole::Expression]);
            let n = oak_core::language::ElementRole::name(&e);
            ensure_eq!(e.scopes(lang, cat), vec![format!("{n}.{lang}"), format!("{pre}.{n}"), n.to_string(), format!("{pre}.{lang}")], "element scopes", "{e:?}");
            ensure_eq!(th.get_element_style(e), best(&th, &[n.to_string()]), "element style", "{e:?}");
        }
        // a highlighter has the theme it was given, and the named themes are what they are called
        let (named, real) = themes(g);
        ensure_eq!(both(named.get_theme()), both(real.clone()), "named theme", "{named:?}");
        ensure_eq!(both(OakHighlighter::new().with_theme(th.clone()).theme), both(th.clone()), "theme of a highlighter", "");
        ensure_eq!(both(OakHighlighter::new().with_theme(th.clone()).theme(named).theme), both(real.clone()), "theme of a highlighter", "{named:?}");
        c.seen("scope lists resolved", 1);
        c.distinct(&(scopes, format!("{:?}", th.styles.len())));
        Ok(())
    });
}
