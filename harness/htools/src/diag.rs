//! C21: rendered diagnostics name the right place, in every output format, and never break the format.
use crate::src::{Views, boundaries, random_cuts, rg};
use oak_core::{OakError, Source};
use oak_diagnostic::{ConsoleEmitter, Diagnostic, DiagnosticProvider, Emitter, HtmlEmitter, Localizer, LspEmitter, PlainTextEmitter, Severity};
use std::collections::HashMap;
use vcommon::*;

const TEXT: &[&str] = &["a", "let x", "\n", "\n\n", "é", "中", "𝄞", "<b>", "&", "\"", "'", "  ", "}", "\r\n", "&lt;"];
const MSG: &[&str] = &["bad", " token", "<i>", "&", "\"q\"", "'", "é", "x", "</pre>", "&amp;"];

struct Loc;
impl Localizer for Loc {
    fn localize(&self, key: &str, args: &HashMap<String, String>) -> String {
        let mut a: Vec<String> = args.iter().map(|(k, v)| format!("{k}={v}")).collect();
        a.sort();
        format!("L<{key}>[{}]", a.join(","))
    }
}

/// Line and column (characters and UTF-16 units) of an offset, 0-based.
fn pos(t: &str, o: usize) -> (usize, usize, usize) {
    let o = o.min(t.len());
    let line = t[..o].matches('\n').count();
    let st = t[..o].rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, t[st..o].chars().count(), t[st..o].encode_utf16().count())
}
fn line_text(t: &str, l: usize) -> &str {
    let s = t.split('\n').nth(l).unwrap_or("");
    if t.split('\n').count() > l + 1 { s.strip_suffix('\r').unwrap_or(s) } else { s }
}
fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        }
        else {
            o.push(c);
        }
    }
    o
}
fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#39;", "'").replace("&amp;", "&")
}

/// Splits HTML made of <div>/<span>/<pre>/<code> elements; returns the visible text, or what is malformed.
fn html_text(h: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut open: Vec<String> = vec![];
    let mut rest = h;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            let Some(e) = r.find('>')
            else { return Err("unclosed tag".into()) };
            let tag = &r[..e];
            rest = &r[e + 1..];
            if let Some(n) = tag.strip_prefix('/') {
                if open.pop().as_deref() != Some(n) {
                    return Err(format!("stray closing tag {n:?}"));
                }
            }
            else {
                let (n, attrs) = tag.split_once(' ').unwrap_or((tag, ""));
                if !["div", "span", "pre", "code"].contains(&n) {
                    return Err(format!("unexpected element {tag:?}"));
                }
                if !attrs.is_empty() {
                    let v = attrs.strip_prefix("class=\"").and_then(|a| a.strip_suffix('"')).ok_or(format!("unexpected attributes {attrs:?}"))?;
                    if !v.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == ' ') {
                        return Err(format!("class {v:?}"));
                    }
                }
                open.push(n.to_string());
            }
        }
        else {
            let e = rest.find('<').unwrap_or(rest.len());
            let txt = &rest[..e];
            if txt.contains('>') {
                return Err(format!("unescaped '>' in {txt:?}"));
            }
            for (i, _) in txt.match_indices('&') {
                if !["&lt;", "&gt;", "&quot;", "&#39;", "&amp;"].iter().any(|x| txt[i..].starts_with(x)) {
                    return Err(format!("unescaped '&' in {txt:?}"));
                }
            }
            out.push_str(&unescape(txt));
            rest = &rest[e..];
        }
    }
    if !open.is_empty() {
        return Err(format!("elements left open: {open:?}"));
    }
    Ok(out)
}

/// What every text rendering must show.
fn shows(name: &str, out: &str, d: &Diagnostic, msg: &str, t: &str, uri: Option<&str>, spaced: bool) -> Check {
    let head = d.code.clone().unwrap_or_else(|| match d.severity { Severity::Error => "error", Severity::Warning => "warning", Severity::Advice => "advice" }.to_string());
    ensure!(out.trim_start().starts_with(&format!("[{head}] {msg}")), "header", "{name}: wanted [{head}] {msg:?} in {out:?}");
    let mut rest = out;
    for l in &d.labels {
        let (sl, sc, _) = pos(t, l.span.start);
        let (el, _, _) = pos(t, l.span.end);
        let at = format!(" at {}:{}:{}\n", uri.unwrap_or("<anonymous>"), sl + 1, sc + 1);
        let at2 = at.trim_end().to_string();
        let Some(i) = rest.find(&at).or_else(|| rest.find(&format!("{at2}\n")))
        else {
            return fail("location line", format!("{name}: {at:?} not in {rest:?}"));
        };
        rest = &rest[i + at.len()..];
        // the snippet lines, in order
        for ln in sl..=el {
            let txt = line_text(t, ln);
            let Some(j) = rest.split('\n').position(|r| {
                let r = r.trim_start();
                r.strip_prefix(&format!("{} ", ln + 1)).is_some_and(|r| {
                    let body = r.strip_prefix('│').or(r.strip_prefix('|')).map(|r| r.strip_prefix(' ').unwrap_or(r));
                    body.is_some_and(|b| {
                        if sl == el {
                            b == txt
                        }
                        else {
                            let mut it = b.chars();
                            it.next();
                            let b = it.as_str();
                            b == txt || (spaced && b.strip_prefix(' ') == Some(txt))
                        }
                    })
                })
            })
            else {
                return fail("snippet line", format!("{name}: line {} {txt:?} not in {rest:?}", ln + 1));
            };
            let mut k = 0;
            for _ in 0..=j {
                k += rest[k..].find('\n').map(|x| x + 1).unwrap_or(rest.len() - k);
            }
            rest = &rest[k..];
        }
        let mark = rest.split('\n').next().unwrap_or("");
        if let Some(m) = &l.message {
            ensure!(mark.ends_with(&format!(" {m}")), "label message under its snippet", "{name}: {m:?} not at the end of {mark:?}");
        }
        if sl == el {
            let bar = mark.char_indices().find(|c| c.1 == '│' || c.1 == '|').map(|c| c.0 + c.1.len_utf8() + 1).unwrap_or(0);
            let under = mark.get(bar..).unwrap_or("");
            let carets = under.trim_start_matches(' ').chars().take_while(|c| *c == '^').count();
            let n = t[l.span.start.min(t.len())..l.span.end.min(t.len())].chars().count().max(1);
            ensure_eq!((under.len() - under.trim_start_matches(' ').len(), carets), (sc, n), "underline", "{name}: under {:?}: {mark:?}", line_text(t, sl));
            if l.message.is_none() {
                ensure!(under.trim_end().ends_with('^'), "words nobody wrote under a snippet", "{name}: {mark:?}");
            }
        }
        else {
            ensure!(mark.strip_suffix(l.message.as_deref().unwrap_or("")).unwrap_or(mark).contains('^'), "underline of a label over several lines", "{name}: {mark:?}");
        }
    }
    if let Some(h) = &d.help {
        ensure!(rest.contains(&format!("help: {h}")), "help", "{name}: {h:?} not in {rest:?}");
    }
    Ok(())
}

fn lsp_ok(j: &serde_json::Value, d: &Diagnostic, msg: &str, t: &str, uri: Option<&str>) -> Check {
    let p = |o: usize| {
        let (l, _, u) = pos(t, o);
        serde_json::json!({"line": l, "character": u})
    };
    let r = |l: &oak_diagnostic::Label| serde_json::json!({"start": p(l.span.start), "end": p(l.span.end)});
    let range = d.labels.first().map(|l| r(l)).unwrap_or(serde_json::json!({"start": {"line":0,"character":0}, "end": {"line":0,"character":0}}));
    ensure_eq!(j["range"], range, "lsp range", "{t:?}");
    ensure_eq!(j["severity"], serde_json::json!(match d.severity { Severity::Error => 1, Severity::Warning => 2, Severity::Advice => 3 }), "lsp severity", "");
    ensure_eq!(j["message"], serde_json::json!(msg), "lsp message", "");
    ensure_eq!(j["code"], serde_json::json!(d.code.clone().unwrap_or_default()), "lsp code", "");
    let rel: Vec<serde_json::Value> = d.labels.iter().filter_map(|l| l.message.as_ref().map(|m| serde_json::json!({"location": {"uri": uri.unwrap_or(""), "range": r(l)}, "message": m}))).collect();
    ensure_eq!(j["relatedInformation"], serde_json::Value::Array(rel), "lsp related information", "");
    Ok(())
}

fn render_all(c: &mut Case, s: &dyn Source, d: &Diagnostic, t: &str, uri: Option<&str>, local: bool) -> Check {
    let loc = if local { Some(&Loc) } else { None };
    let msg = if let (true, Some(k)) = (local, &d.i18n_key) { Loc.localize(k, &d.i18n_args) } else { d.message.clone() };
    for unicode in [false, true] {
        let p = PlainTextEmitter { unicode }.render_localized(s, d, loc, uri);
        ensure!(!p.contains('\x1b'), "plain text carries escape codes", "{p:?}");
        shows("plain", &p, d, &msg, t, uri, false)?;
        let k = ConsoleEmitter { unicode }.render_localized(s, d, loc, uri);
        ensure!(k.ends_with("\n"), "console output ends its line", "{k:?}");
        shows("console", &strip_ansi(&k), d, &msg, t, uri, true)?;
        // colours are switched off again by the end of every line
        for line in k.split('\n') {
            if let Some(i) = line.rfind("\x1b[") {
                ensure!(line[i..].starts_with("\x1b[0m"), "colour left on", "{line:?}");
            }
        }
    }
    let h = HtmlEmitter.render_localized(s, d, loc, uri);
    match html_text(&h) {
        Err(e) => return fail("html is not well formed", format!("{e} in {h}")),
        Ok(x) => shows("html", &x.replace("\n    ", "\n").replace("\n  ", "\n"), d, &msg, t, uri, false)?,
    }
    let l = LspEmitter.render_localized(s, d, loc, uri);
    match serde_json::from_str::<serde_json::Value>(&l) {
        Err(e) => return fail("lsp output is not JSON", format!("{e}: {l}")),
        Ok(j) => lsp_ok(&j, d, &msg, t, uri)?,
    }
    if !local && uri.is_none() {
        ensure_eq!(LspEmitter.render(s, d), l, "render without options", "");
        ensure_eq!(HtmlEmitter.render(s, d), h, "render without options", "");
    }
    c.seen("renderings checked", 6);
    Ok(())
}

fn message(g: &mut Rng) -> String {
    g.string(MSG, 4)
}

fn diagnostic(g: &mut Rng, t: &str) -> Result<Diagnostic, Fail> {
    let b = boundaries(t);
    let m = message(g);
    let (mut d, mut sev) = if g.chance(1, 2) { (Diagnostic::error(m.clone()), Severity::Error) } else { (Diagnostic::warning(m.clone()), Severity::Warning) };
    if g.chance(1, 4) {
        d.severity = Severity::Advice;
        sev = Severity::Advice;
    }
    let mut code = None;
    if g.chance(1, 2) {
        code = Some(if g.chance(1, 2) { "E0001".to_string() } else { format!("x{}", message(g)) });
        d = d.with_code(code.clone().unwrap());
    }
    let mut labels = vec![];
    if g.chance(1, 3) {
        d = d.with_i18n("oak.k<").with_arg("a", message(g)).with_arg("b", "2");
    }
    for _ in 0..g.below(4) {
        let mut i = *g.pick(&b);
        let j = match g.below(4) {
            0 => i,
            // an older text was longer
            1 if g.chance(1, 5) => {
                if g.chance(1, 3) {
                    i = t.len() + 1;
                }
                t.len() + g.range(1, 5)
            }
            1 => t.len(),
            _ => b[(b.iter().position(|x| *x == i).unwrap() + g.below(5)).min(b.len() - 1)],
        };
        let m = message(g);
        d = d.with_label(rg(i, j), m.clone());
        labels.push((rg(i, j), Some(m)));
        if g.chance(1, 5) {
            d.labels.last_mut().unwrap().message = None;
            labels.last_mut().unwrap().1 = None;
        }
    }
    let mut help = None;
    if g.chance(1, 3) {
        help = Some(message(g));
        d = d.with_help(help.clone().unwrap());
    }
    ensure_eq!((&d.message, &d.code, &d.help), (&m, &code, &help), "diagnostic put together", "");
    ensure!(d.severity == sev && d.labels.iter().map(|l| (l.span, l.message.clone())).eq(labels), "diagnostic put together", "{d:?}");
    Ok(d)
}

pub fn emitters(run: &mut Run) {
    run.family("diagnostics", 8000, 25000, |c| {
        let g = &mut c.rng.clone();
        let most = if g.chance(1, 10) { 200 } else { 16 };
        let t = g.string(TEXT, most);
        let d = diagnostic(g, &t)?;
        let cuts = random_cuts(g, &t, 5);
        c.input(format!("{t:?} {d:?}"));
        let v = Views::new(&t, &cuts, 3);
        let uri = *g.pick(&[None, Some("file:///a.rs"), Some("mem:<é>&")]);
        let local = g.chance(1, 3);
        match g.below(4) {
            0 => render_all(c, &&t[..] as &dyn Source, &d, &t, uri, local)?,
            1 => render_all(c, &v.rope_frag, &d, &t, uri, local)?,
            2 => render_all(c, &v.chunked_snap, &d, &t, uri, local)?,
            _ => render_all(c, &v.st, &d, &t, uri, local)?,
        }
        c.seen("labels", d.labels.len() as u64);
        // a diagnostic survives serialisation
        let j = serde_json::to_string(&d).map_err(|e| Fail { sig: "serialise".into(), detail: e.to_string() })?;
        let back: Diagnostic = serde_json::from_str(&j).map_err(|e| Fail { sig: "deserialise".into(), detail: e.to_string() })?;
        ensure_eq!(serde_json::to_value(&back).unwrap(), serde_json::to_value(&d).unwrap(), "diagnostic read back", "{j}");
        ensure!(back.labels.iter().zip(&d.labels).all(|(a, b)| a.span == b.span && a.message == b.message), "labels read back", "{j}");
        c.distinct(&(t, format!("{:?}", d.labels)));
        Ok(())
    });
    run.family("errors", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        let t = g.string(TEXT, 14);
        let b = boundaries(&t);
        let o = if g.chance(1, 12) { t.len() + g.below(4) } else { *g.pick(&b) };
        let m = message(g);
        let (e, arg) = match g.below(6) {
            0 => (OakError::syntax_error(m.clone(), o, Some(3)), None),
            1 => (OakError::unexpected_token(m.clone(), o, Some(3)), Some("token")),
            2 => (OakError::expected_token(m.clone(), o, Some(3)), Some("expected")),
            3 => (OakError::expected_name(m.clone(), o, Some(3)), Some("name_kind")),
            4 => (OakError::trailing_comma_not_allowed(o, Some(3)), None),
            _ => (OakError::unexpected_character(*g.pick(&['é', '<', 'x']), o, Some(3)), None),
        };
        c.input(format!("{t:?} {e:?}"));
        let cuts = random_cuts(g, &t, 4);
        let v = Views::new(&t, &cuts, 3);
        let s: &dyn Source = match g.below(3) {
            0 => &v.st,
            1 => &v.rope_frag,
            _ => &v.chunked_snap,
        };
        let d = if g.chance(1, 2) { e.to_diagnostic(s) } else { Diagnostic::from_provider(&e, s) };
        ensure_eq!(d.severity, Severity::Error, "severity of an error", "{e:?}");
        ensure_eq!((d.message.clone(), d.code.clone(), d.i18n_key.clone()), (e.kind().to_string(), Some(e.kind().key().to_string()), Some(e.kind().key().to_string())), "message and key of an error", "{e:?}");
        if let Some(a) = arg {
            ensure_eq!(d.i18n_args.get(a), Some(&m), "argument of an error", "{e:?}");
        }
        ensure_eq!(d.labels.len(), 1, "label of an error", "{e:?}");
        let sp = d.labels[0].span;
        let at = o.min(t.len());
        let end = at + t[at..].chars().next().map(|c| c.len_utf8()).unwrap_or(0);
        ensure_eq!(sp, rg(at, end), "place of an error", "{e:?} in {t:?}");
        render_all(c, s, &d, &t, None, g.chance(1, 2))?;
        ensure_eq!(Diagnostic::from(&e).message, e.to_string(), "plain conversion", "{e:?}");
        c.distinct(&(t, o, m));
        Ok(())
    });
}
