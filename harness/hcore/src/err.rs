//! C14: diagnostics name the right place in the right source, and survive copying.
use crate::{
    inc::valid,
    src::{Views, random_cuts, random_edits},
    toy::{self, T, Toy, ToyLexer, ToyParser},
    tree::{PROGRAM, program},
};
use oak_core::{Lexer, LexerState, OakError, OakErrorKind, ParseSession, Parser, ParserState, Source, SourceText, TokenType, errors::OakDiagnostics, memory::arena::SyntaxArena};
use vcommon::*;

/// What an error says: kind, texts, position, source.
#[derive(Clone, Debug, PartialEq)]
struct Said {
    key: &'static str,
    texts: Vec<String>,
    offset: Option<usize>,
    /// None: the kind has no source; Some(x): its source id
    id: Option<Option<u32>>,
}

fn said(e: &OakError) -> Said {
    use OakErrorKind::*;
    let k = e.kind();
    let (t, o, i): (Vec<String>, Option<usize>, Option<Option<u32>>) = match k {
        IoError { error, source_id } => (vec![error.to_string(), format!("{:?}", error.kind())], None, Some(*source_id)),
        SyntaxError { message, offset, source_id } => (vec![message.clone()], Some(*offset), Some(*source_id)),
        UnexpectedCharacter { character, offset, source_id } => (vec![character.to_string()], Some(*offset), Some(*source_id)),
        UnexpectedToken { token, offset, source_id } => (vec![token.clone()], Some(*offset), Some(*source_id)),
        UnexpectedEof { offset, source_id } => (vec![], Some(*offset), Some(*source_id)),
        ExpectedToken { expected, offset, source_id } => (vec![expected.clone()], Some(*offset), Some(*source_id)),
        ExpectedName { name_kind, offset, source_id } => (vec![name_kind.clone()], Some(*offset), Some(*source_id)),
        TrailingCommaNotAllowed { offset, source_id } => (vec![], Some(*offset), Some(*source_id)),
        CustomError { message } | InvalidTheme { message } | FormatError { message } | SemanticError { message } | ProtocolError { message } | SerdeError { message } | DeserializeError { message } | XmlError { message } | ZipError { message } | ParseError { message } | InternalError { message } => (vec![message.clone()], None, None),
        UnsupportedFormat { format } => (vec![format.clone()], None, None),
        ColorParseError { color } => (vec![color.clone()], None, None),
        TestFailure { path, expected, actual } => (vec![format!("{path:?}"), expected.clone(), actual.clone()], None, None),
        TestRegenerated { path } => (vec![format!("{path:?}")], None, None),
    };
    Said { key: k.key(), texts: t, offset: o, id: i }
}

fn positioned(key: &'static str, text: Option<String>, offset: usize, id: Option<u32>) -> Said {
    Said { key, texts: text.into_iter().collect(), offset: Some(offset), id: Some(id) }
}

/// Copies, renderings and re-attribution of one error.
fn copies(e: &OakError, c: &mut Case) -> Check {
    let s = said(e);
    let shown = e.to_string();
    ensure!(shown.starts_with(s.key), "rendering does not begin with the kind's key", "{shown}");
    for (i, t) in s.texts.iter().enumerate() {
        // an I/O error shows its message, not its kind
        if !(s.key == "error.io" && i == 1) {
            ensure!(shown.contains(&t[..]), "rendering leaves out part of the error", "{shown:?} lacks {t:?}");
        }
    }
    if let Some(o) = s.offset {
        ensure!(shown.contains(&o.to_string()), "rendering leaves out the offset", "{shown} lacks {o}");
    }
    if let Some(Some(id)) = s.id {
        ensure!(shown.contains(&id.to_string()), "rendering leaves out the source", "{shown} lacks {id}");
    }
    ensure_eq!(format!("{e:?}"), shown, "debug rendering", "");
    let k = e.clone();
    ensure_eq!(said(&k), s, "cloned error", "");
    ensure_eq!(k.to_string(), shown, "cloned error", "");
    ensure_eq!(said(&k.clone().clone()), s, "cloned error", "");
    ensure_eq!(said(&OakError::new(e.kind().clone())), s, "cloned kind", "");
    let id = some_id(&mut c.rng);
    let w = k.with_source_id(id);
    let want = Said { id: s.id.map(|_| Some(id)), ..s.clone() };
    ensure_eq!(said(&w), want, "error attributed to a source", "{shown}");
    ensure_eq!(said(&w.with_source_id(3)), Said { id: s.id.map(|_| Some(3)), ..s.clone() }, "error attributed to a second source", "{shown}");
    // the original is untouched
    ensure_eq!(said(e), s, "original error", "");
    c.seen("errors copied, rendered and re-attributed", 1);
    Ok(())
}

fn text(r: &mut Rng) -> String {
    r.string(&["a", "expected ", "{}", "é", "🦀", "\"", "\n", "'", "%s", "42", "{0}", " "], 6)
}

/// Source ids, the extreme ones among them.
fn some_id(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 0, 1, u32::MAX, 1 << 31]),
        _ => r.next() as u32,
    }
}

fn any_error(r: &mut Rng) -> (OakError, Said) {
    let t = text(r);
    let t2 = text(r);
    let off = match r.below(4) {
        0 => r.below(10),
        1 => r.below(100_000),
        2 => usize::MAX,
        _ => r.next() as usize,
    };
    let id = if r.chance(2, 3) { Some(some_id(r)) } else { None };
    let ch = *r.pick(&['x', 'é', '🦀', '\0', '\'', '\n']);
    let plain = |key, texts: Vec<String>| Said { key, texts, offset: None, id: None };
    match r.below(24) {
        0 => {
            let k = *r.pick(&[std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::Interrupted]);
            let n = some_id(r);
            (OakError::io_error(std::io::Error::new(k, t.clone()), n), Said { key: "error.io", texts: vec![t, format!("{k:?}")], offset: None, id: Some(Some(n)) })
        }
        1 => {
            let e: OakError = std::io::Error::new(std::io::ErrorKind::AlreadyExists, t.clone()).into();
            (e, Said { key: "error.io", texts: vec![t, "AlreadyExists".into()], offset: None, id: Some(None) })
        }
        2 => (OakError::syntax_error(t.clone(), off, id), positioned("error.syntax", Some(t), off, id)),
        3 => (OakError::unexpected_character(ch, off, id), positioned("error.unexpected_character", Some(ch.to_string()), off, id)),
        4 => (OakError::unexpected_token(t.clone(), off, id), positioned("error.unexpected_token", Some(t), off, id)),
        5 => (OakError::unexpected_eof(off, id), positioned("error.unexpected_eof", None, off, id)),
        6 => (OakError::expected_token(t.clone(), off, id), positioned("error.expected_token", Some(t), off, id)),
        7 => (OakError::expected_name(t.clone(), off, id), positioned("error.expected_name", Some(t), off, id)),
        8 => (OakError::trailing_comma_not_allowed(off, id), positioned("error.trailing_comma_not_allowed", None, off, id)),
        9 => (OakError::custom_error(t.clone()), plain("error.custom", vec![t])),
        10 => (OakError::invalid_theme(t.clone()), plain("error.invalid_theme", vec![t])),
        11 => (OakError::unsupported_format(t.clone()), plain("error.unsupported_format", vec![t])),
        12 => (OakError::color_parse_error(t.clone()), plain("error.color_parse", vec![t])),
        13 => (OakError::format_error(t.clone()), plain("error.format", vec![t])),
        14 => (OakError::semantic_error(t.clone()), plain("error.semantic", vec![t])),
        15 => (OakError::protocol_error(t.clone()), plain("error.protocol", vec![t])),
        16 => (OakError::test_failure(t.clone().into(), t2.clone(), t.clone()), plain("error.test_failure", vec![format!("{t:?}"), t2, t])),
        17 => (OakError::test_regenerated(t.clone().into()), plain("error.test_regenerated", vec![format!("{t:?}")])),
        18 => (OakError::serde_error(t.clone()), plain("error.serde", vec![t])),
        19 => (OakError::deserialize_error(t.clone()), plain("error.deserialize", vec![t])),
        20 => (OakError::xml_error(t.clone()), plain("error.xml", vec![t])),
        21 => (OakError::zip_error(t.clone()), plain("error.zip", vec![t])),
        22 => (OakError::parse_error(t.clone()), plain("error.parse", vec![t])),
        _ => (OakError::internal_error(t.clone()), plain("error.internal", vec![t])),
    }
}

pub fn positions(r: &mut Run) {
    r.family("error-values", 20_000, 200_000, |c| {
        let (e, want) = any_error(&mut c.rng);
        c.input(format!("{want:?}"));
        ensure_eq!(said(&e), want, "constructed error", "");
        copies(&e, c)?;
        c.distinct(&format!("{want:?}"));
        // results that carry errors
        let d: OakDiagnostics<u8> = match c.rng.below(3) {
            0 => OakDiagnostics::success(1),
            1 => OakDiagnostics::error(e.clone()),
            _ => OakDiagnostics { result: Ok(1), diagnostics: vec![e.clone()] },
        };
        let bad = d.result.is_err() || !d.diagnostics.is_empty();
        ensure_eq!(d.has_errors(), bad, "has_errors", "");
        let d2 = d.clone();
        ensure_eq!(d2.diagnostics.iter().map(said).collect::<Vec<_>>(), d.diagnostics.iter().map(said).collect::<Vec<_>>(), "cloned diagnostics", "");
        ensure_eq!(d2.result.as_ref().err().map(said), d.result.as_ref().err().map(said), "cloned diagnostics", "");
        Ok(())
    });

    // Errors recorded through the parser state at every point of a token stream.
    r.family("recorded-errors", 2500, 40_000, |c| {
        let t = program(&mut c.rng, 20);
        let cuts = random_cuts(&mut c.rng, &t, 4);
        let id = some_id(&mut c.rng);
        c.input(format!("{t:?} id {id}"));
        c.distinct(&(&t, &cuts));
        let toks: Vec<(T, usize, usize)> = toy::reference_lex(&t);
        let v = Views::new(&t, &cuts, id);
        let plain = SourceText::new(t.clone());
        // a lexer that gives up leaves no tokens: errors are then recorded at the end of the text
        let gave_up = c.rng.chance(1, 8);
        let mut each = |c: &mut Case, nm: &str, s: &dyn Source, id: Option<u32>| -> Check {
            let arena = SyntaxArena::default();
            let mut lex = ToyLexer.lex(s, &[], &mut ParseSession::<Toy>::default());
            let lexical: Vec<Said> = lex.diagnostics.iter().map(said).collect();
            let bad: Vec<Said> = toks.iter().filter(|k| k.0 == T::Error).map(|k| positioned("error.syntax", Some("bad char".into()), k.1, id)).collect();
            ensure_eq!(lexical, bad, "lexical errors", "{nm}");
            if gave_up {
                lex.result = Err(OakError::custom_error("gave up"));
            }
            let mut st = ParserState::<Toy, dyn Source>::new(&arena, lex, s, 16);
            let n_bad = bad.len();
            let mut want = bad;
            let sig: Vec<usize> = if gave_up { vec![] } else { toks.iter().filter(|k| !k.0.is_ignored()).map(|k| k.1).collect() };
            let mut at = 0;
            ensure_eq!(st.source_id(), id, "source id of the state", "{nm}");
            for _ in 0..c.rng.range(1, 30) {
                let off = sig.get(at).copied().unwrap_or(t.len());
                let m = text(&mut c.rng);
                let mut returned = None;
                let w = match c.rng.below(9) {
                    0 | 1 => {
                        st.bump();
                        at += 1;
                        continue;
                    }
                    2 => {
                        returned = Some(st.syntax_error(m.clone()));
                        positioned("error.syntax", Some(m), off, id)
                    }
                    3 => {
                        st.record_unexpected_token(m.clone());
                        positioned("error.unexpected_token", Some(m), off, id)
                    }
                    4 => {
                        st.record_expected(m.clone());
                        positioned("error.expected_token", Some(m), off, id)
                    }
                    5 => {
                        st.record_expected_name(m.clone());
                        positioned("error.expected_name", Some(m), off, id)
                    }
                    6 => {
                        st.record_trailing_comma_not_allowed();
                        positioned("error.trailing_comma_not_allowed", None, off, id)
                    }
                    7 => {
                        if c.rng.chance(1, 2) {
                            st.record_unexpected_eof();
                        }
                        else {
                            returned = Some(st.unexpected_eof());
                        }
                        positioned("error.unexpected_eof", None, t.len(), id)
                    }
                    _ => match st.expect(T::KwFatal) {
                        Ok(()) => {
                            at += 1;
                            continue;
                        }
                        Err(e) => {
                            returned = Some(e);
                            positioned("error.expected_token", Some("KwFatal".into()), off, id)
                        }
                    },
                };
                if let Some(e) = &returned {
                    ensure_eq!(said(e), w, "returned error", "{nm}");
                }
                want.push(w);
                c.seen("errors recorded", 1);
            }
            // why the lexer gave up is said once, somewhere among the lexical errors
            let drop_reason = |got: Vec<Said>| -> Result<Vec<Said>, Fail> {
                if !gave_up {
                    return Ok(got);
                }
                let at: Vec<usize> = (0..got.len()).filter(|i| got[*i].key == "error.custom").collect();
                ensure!(at.len() == 1 && at[0] <= n_bad && got[at[0]].texts == ["gave up"], "reason why the lexer gave up", "{nm}: {got:?}");
                Ok(got.into_iter().filter(|s| s.key != "error.custom").collect())
            };
            ensure_eq!(drop_reason(st.errors.iter().map(said).collect())?, want, "recorded errors", "{nm}");
            ensure!(st.nested().errors.is_empty(), "nested state starts with errors", "{nm}");
            ensure_eq!(st.nested().source_id(), id, "source id of a nested state", "{nm}");
            let fatal = OakError::custom_error("x");
            let out = st.finish(Err(fatal));
            ensure_eq!(drop_reason(out.diagnostics.iter().map(said).collect())?, want, "diagnostics of the parse", "{nm}");
            ensure_eq!(out.result.as_ref().err().map(said).map(|s| s.key), Some("error.custom"), "fatal error of the parse", "{nm}");
            Ok(())
        };
        v.each(|nm, s| each(c, nm, s, Some(id)))?;
        each(c, "SourceText without id", &plain, None)?;
        // constructors on the source itself
        let o = c.rng.below(t.len() + 2);
        for (st, id) in [(&v.st, Some(id)), (&plain, None)] {
            ensure_eq!(said(&st.syntax_error("m", o)), positioned("error.syntax", Some("m".into()), o, id), "error made by the source", "");
            ensure_eq!(said(&Source::syntax_error(st, "m".into(), o)), positioned("error.syntax", Some("m".into()), o, id), "error made by the source", "");
            ensure_eq!(said(&st.unexpected_character('q', o)), positioned("error.unexpected_character", Some("q".into()), o, id), "error made by the source", "");
            ensure_eq!(said(&st.expected_token("m", o)), positioned("error.expected_token", Some("m".into()), o, id), "error made by the source", "");
            ensure_eq!(said(&st.expected_name("m", o)), positioned("error.expected_name", Some("m".into()), o, id), "error made by the source", "");
            ensure_eq!(said(&st.trailing_comma_not_allowed(o)), positioned("error.trailing_comma_not_allowed", None, o, id), "error made by the source", "");
        }
        Ok(())
    });

    // Whole parses, over edits: every diagnostic lies in the text, on a character, in the right source.
    r.family("parse-diagnostics", 2500, 40_000, |c| {
        let n = c.rng.range(1, 6);
        let mut t = if c.rng.chance(1, 2) { valid(&mut c.rng, n) } else { program(&mut c.rng, 25) };
        let id = some_id(&mut c.rng);
        let mut st = SourceText::new_with_id(t.clone(), id);
        let mut rope = oak_core::source::RopeBuffer::new_with_id(&t, id);
        let mut s1 = ParseSession::<Toy>::default();
        let mut s2 = ParseSession::<Toy>::default();
        let mut edits = vec![];
        for _ in 0..c.rng.range(1, 5) {
            c.input(format!("{:?} id {id}", clip(&t, 800)));
            for (nm, o) in [("SourceText", ToyParser.parse(&st, &edits, &mut s1)), ("RopeBuffer", ToyParser.parse(&rope, &edits, &mut s2))] {
                for e in o.diagnostics.iter().chain(o.result.as_ref().err()) {
                    let s = said(e);
                    let off = s.offset.unwrap_or(usize::MAX);
                    ensure!(off <= t.len(), "diagnostic outside the text", "{nm}: {e}, text has {} bytes", t.len());
                    ensure!(t.is_char_boundary(off), "diagnostic inside a character", "{nm}: {e}");
                    ensure_eq!(s.id, Some(Some(id)), "diagnostic names the wrong source", "{nm}: {e}");
                    c.seen("parse diagnostics located", 1);
                }
                if let Err(e) = &o.result {
                    ensure!(o.diagnostics.iter().any(|d| said(d) == said(e)), "fatal error missing from the diagnostics", "{nm}: {e}");
                }
            }
            c.distinct(&t);
            let (e, n) = random_edits(&mut c.rng, &t, PROGRAM, 3);
            st.apply_edits(&e);
            rope.apply_edits(&e);
            t = n;
            edits = e;
        }
        Ok(())
    });

    // A lexer's own errors come out in order, with the tokens or instead of them.
    r.family("lexer-errors", 3000, 30_000, |c| {
        let t = program(&mut c.rng, 10);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let src = SourceText::new(t.clone());
        let mut st = LexerState::<_, Toy>::new(&src);
        let mut want = vec![];
        for _ in 0..c.rng.below(6) {
            let (e, w) = any_error(&mut c.rng);
            st.add_error(e);
            want.push(w);
            st.advance(c.rng.below(3).min(0));
        }
        let fatal = c.rng.chance(1, 3);
        let (fe, fw) = any_error(&mut c.rng);
        let out = st.finish(if fatal { Err(fe) } else { Ok(()) });
        ensure_eq!(out.diagnostics.iter().map(said).collect::<Vec<_>>(), want, "diagnostics of the lex", "");
        ensure_eq!(out.result.as_ref().err().map(said), if fatal { Some(fw.clone()) } else { None }, "result of the lex", "");
        // handed on to the parser: a failed lex comes first
        let arena = SyntaxArena::default();
        let ps = ParserState::<Toy, SourceText>::new(&arena, out, &src, 4);
        let mut all = want;
        if fatal {
            all.insert(0, fw);
        }
        ensure_eq!(ps.errors.iter().map(said).collect::<Vec<_>>(), all, "lexical errors in the parser state", "");
        c.seen("lexer outputs", 1);
        Ok(())
    });
}
