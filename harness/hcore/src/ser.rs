//! C15: what is serialised is what comes back, in the shape documented on the wire.
use crate::{
    src::rg,
    toy::reference_lex,
    tree::program,
};
use core::range::Range;
use oak_core::{
    Arc, Token,
    language::{LanguageCategory, UniversalElementRole, UniversalTokenRole},
    lexer::TokenStream,
    tree::{ProvenancePart, TokenProvenance},
};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use vcommon::*;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Holder {
    #[serde(with = "oak_core::serde_range")]
    a: Range<usize>,
    #[serde(with = "oak_core::serde_range::option")]
    b: Option<Range<usize>>,
    #[serde(with = "oak_core::serde_range::option", default)]
    c: Option<Range<usize>>,
    #[serde(with = "oak_core::serde_range")]
    t: Range<String>,
    #[serde(with = "oak_core::serde_range")]
    n: Range<i64>,
    #[serde(with = "oak_core::serde_arc_str")]
    s: Arc<str>,
}

fn trip<T: Serialize + DeserializeOwned>(x: &T) -> Result<(T, Value), Fail> {
    let text = serde_json::to_string(x).map_err(|e| Fail { sig: "value does not serialise".into(), detail: e.to_string() })?;
    let back = serde_json::from_str(&text).map_err(|e| Fail { sig: "serialised value is not accepted back".into(), detail: format!("{e}: {}", clip(&text, 500)) })?;
    let v = serde_json::to_value(x).map_err(|e| Fail { sig: "value does not serialise".into(), detail: e.to_string() })?;
    // through a value tree and through bytes, as a language server does
    let again: T = serde_json::from_value(v.clone()).map_err(|e| Fail { sig: "serialised value is not accepted back".into(), detail: e.to_string() })?;
    let a2 = serde_json::to_string(&again).unwrap_or_default();
    ensure_eq!(a2, text, "value changed through a value tree", "");
    let bytes = serde_json::to_vec_pretty(x).unwrap_or_default();
    let third: T = serde_json::from_reader(&bytes[..]).map_err(|e| Fail { sig: "serialised value is not accepted back".into(), detail: e.to_string() })?;
    ensure_eq!(serde_json::to_string(&third).unwrap_or_default(), text, "value changed through a byte stream", "");
    Ok((back, v))
}

fn num(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(4),
        1 => r.below(100_000),
        2 => u32::MAX as usize + r.below(5),
        _ => usize::MAX - r.below(3),
    }
}
fn range(r: &mut Rng) -> Range<usize> {
    // also empty and reversed ranges: the wire does not interpret them
    rg(num(r), num(r))
}
fn text(r: &mut Rng) -> String {
    r.string(&["a", "\"", "\\", "\n", "é", "🦀", "\0", "\u{7f}", "\u{2028}", "{", "start", "\u{feff}"], 8)
}
fn wire(x: Range<usize>) -> Value {
    json!({"start": x.start, "end": x.end})
}

pub fn round_trips(r: &mut Run) {
    r.family("ranges", 15_000, 150_000, |c| {
        let g = &mut c.rng;
        let h = Holder { a: range(g), b: if g.chance(1, 2) { Some(range(g)) } else { None }, c: if g.chance(1, 2) { Some(range(g)) } else { None }, t: Range { start: text(g), end: text(g) }, n: Range { start: -(g.below(99) as i64), end: i64::MIN + g.below(9) as i64 }, s: text(g).into() };
        c.input(format!("{h:?}"));
        let (b, v) = trip(&h)?;
        ensure_eq!(b, h, "round trip", "");
        ensure_eq!(v["a"], wire(h.a), "wire form of a range", "");
        ensure_eq!(v["b"], h.b.map_or(Value::Null, wire), "wire form of an optional range", "");
        ensure_eq!(v["t"], json!({"start": h.t.start, "end": h.t.end}), "wire form of a range", "");
        ensure_eq!(v["s"], json!(&*h.s), "wire form of a shared string", "");
        // field order does not matter to the reader; a missing bound is an error, never a made-up number
        let mut m = v.clone();
        m["a"] = serde_json::from_str(&format!("{{\"end\":{},\"start\":{}}}", h.a.end, h.a.start)).unwrap();
        let got: Result<Holder, _> = serde_json::from_value(m.clone());
        ensure!(got.is_ok_and(|x| x == h), "range read in the other field order", "{m}");
        for bad in [json!({"start": 1}), json!({"end": 1}), json!(null), json!("1..2"), json!({"start": -1, "end": 2}), json!({"start": 1.5, "end": 2}), json!({"start": "1", "end": 2})] {
            m["a"] = bad.clone();
            ensure!(serde_json::from_value::<Holder>(m.clone()).is_err(), "malformed range accepted", "{bad}");
        }
        m = v.clone();
        m["b"] = json!({"start": 1});
        ensure!(serde_json::from_value::<Holder>(m.clone()).is_err(), "malformed optional range accepted", "");
        m = v;
        m.as_object_mut().unwrap().remove("c");
        let got: Result<Holder, _> = serde_json::from_value(m);
        ensure!(got.is_ok_and(|x| x.c.is_none()), "absent optional range", "");
        c.seen("ranges round-tripped", 5);
        c.distinct(&format!("{h:?}"));
        Ok(())
    });
    r.family("tokens", 4000, 40_000, |c| {
        let t = program(&mut c.rng, 20);
        c.input(format!("{t:?}"));
        c.distinct(&t);
        let toks: Vec<Token<UniversalTokenRole>> = reference_lex(&t)
            .iter()
            .map(|k| Token { kind: *c.rng.pick(&[UniversalTokenRole::Keyword, UniversalTokenRole::Name, UniversalTokenRole::Whitespace, UniversalTokenRole::Eof, UniversalTokenRole::Escape]), span: rg(k.1, k.2) })
            .collect();
        c.seen("tokens round-tripped", toks.len() as u64);
        let s = TokenStream { raw: t.clone(), tokens: Arc::from(toks.clone()) };
        let (b, v) = trip(&s)?;
        ensure_eq!(b.raw, t, "raw text", "");
        ensure_eq!(&b.tokens[..], &toks[..], "tokens", "");
        ensure_eq!(v["tokens"].as_array().map_or(0, |a| a.len()), toks.len(), "token count on the wire", "");
        for (i, k) in toks.iter().enumerate() {
            ensure_eq!(v["tokens"][i]["span"], wire(k.span), "wire form of a token", "");
            ensure_eq!(b.tokens[i].length(), k.span.end - k.span.start, "token length", "");
        }
        Ok(())
    });
    r.family("provenance", 4000, 40_000, |c| {
        let n = c.rng.below(6);
        let p = match c.rng.below(4) {
            0 => TokenProvenance::from_source(range(&mut c.rng)),
            1 => TokenProvenance::from_synthesized(text(&mut c.rng)),
            _ => TokenProvenance {
                parts: (0..n)
                    .map(|_| match c.rng.below(3) {
                        0 => ProvenancePart::Source(range(&mut c.rng)),
                        1 => ProvenancePart::Synthesized(text(&mut c.rng)),
                        _ => ProvenancePart::OpaqueTag(text(&mut c.rng)),
                    })
                    .collect(),
            },
        };
        c.input(format!("{p:?}"));
        let (b, v) = trip(&p)?;
        ensure_eq!(b, p, "round trip", "");
        for (i, x) in p.parts.iter().enumerate() {
            let w = match x {
                ProvenancePart::Source(r) => json!({"Source": wire(*r)}),
                ProvenancePart::Synthesized(s) => json!({"Synthesized": s}),
                ProvenancePart::OpaqueTag(s) => json!({"OpaqueTag": s}),
            };
            ensure_eq!(v["parts"][i], w, "wire form of a provenance part", "");
        }
        c.seen("provenance parts round-tripped", p.parts.len() as u64);
        c.distinct(&format!("{p:?}"));
        Ok(())
    });
    // closed vocabularies: every name reads back as the same role, and no two roles share a name
    r.family_exact("vocabularies", 1, |c| {
        use LanguageCategory as L;
        use UniversalElementRole as E;
        use UniversalTokenRole as T;
        c.input("all roles");
        macro_rules! vocab {
            ($t:ty, $($v:expr => $n:expr),* $(,)?) => {{
                let mut names = std::collections::BTreeSet::new();
                $(
                    let (b, v) = trip::<$t>(&$v)?;
                    ensure_eq!(b, $v, "round trip", "");
                    ensure_eq!(v, json!($n), "wire name", "");
                    ensure!(names.insert(v.to_string()), "two roles share a wire name", "{v}");
                    c.distinct($n);
                    c.seen("vocabulary entries", 1);
                )*
                ensure!(serde_json::from_str::<$t>("\"no_such_role\"").is_err(), "unknown role accepted", "");
            }};
        }
        vocab!(T, T::Keyword => "keyword", T::Name => "name", T::Literal => "literal", T::Escape => "escape", T::Operator => "operator", T::Punctuation => "punctuation", T::Comment => "comment", T::Whitespace => "whitespace", T::Error => "error", T::None => "none", T::Eof => "eof");
        vocab!(E, E::Root => "root", E::Container => "container", E::Definition => "definition", E::Binding => "binding", E::Reference => "reference", E::Typing => "typing", E::Metadata => "metadata", E::Attribute => "attribute", E::AttributeKey => "attribute_key", E::Detail => "detail", E::Name => "name", E::Call => "call", E::Value => "value", E::Embedded => "embedded", E::Statement => "statement", E::Expression => "expression", E::Documentation => "documentation", E::Error => "error", E::None => "none");
        vocab!(L, L::Programming => "Programming", L::Markup => "Markup", L::Config => "Config", L::StyleSheet => "StyleSheet", L::Dsl => "Dsl", L::Modeling => "Modeling", L::Other => "Other");
        Ok(())
    });
}
