//! What the macro calls are compared with: values and documents made by hand.
use crate::layout::{D, Model};
use core::range::Range;
use oak_json::ast::{JsonArray, JsonBoolean, JsonField, JsonNull, JsonNumber, JsonObject, JsonString, JsonValue};
use oak_pretty_print::{AsDocument, Document, FormatConfig, ToDocument, document::JoinDoc};
use vcommon::*;

/// A JSON value as it was written, fields in order and repeated ones kept.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
use J::*;

pub fn s(x: &str) -> J {
    Str(x.to_string())
}
pub fn o<const N: usize>(v: [(&str, J); N]) -> J {
    Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn read(v: &JsonValue) -> J {
    match v {
        JsonValue::Null(_) => Null,
        JsonValue::Boolean(b) => Bool(b.value),
        JsonValue::Number(n) => Num(n.value),
        JsonValue::String(s) => Str(s.value.clone()),
        JsonValue::Array(a) => Arr(a.elements.iter().map(read).collect()),
        JsonValue::Object(o) => Obj(o.fields.iter().map(|f| (f.name.value.clone(), read(&f.value))).collect()),
    }
}

/// The same value as a tree made by hand.
pub fn made(j: &J) -> JsonValue {
    let span = Range { start: 0, end: 0 };
    match j {
        Null => JsonValue::Null(JsonNull { span }),
        Bool(b) => JsonValue::Boolean(JsonBoolean { value: *b, span }),
        Num(n) => JsonValue::Number(JsonNumber { value: *n, span }),
        Str(s) => JsonValue::String(JsonString { value: s.clone(), span }),
        Arr(v) => JsonValue::Array(JsonArray { elements: v.iter().map(made).collect(), span }),
        Obj(v) => JsonValue::Object(JsonObject { fields: v.iter().map(|(k, v)| JsonField { name: JsonString { value: k.clone(), span }, value: made(v), span }).collect(), span }),
    }
}

pub fn any(g: &mut Rng, d: usize) -> J {
    match g.below(if d == 0 { 4 } else { 6 }) {
        0 => Null,
        1 => Bool(g.chance(1, 2)),
        2 => Num(number(g)),
        3 => Str(word(g)),
        4 => Arr((0..g.below(4)).map(|_| any(g, d - 1)).collect()),
        _ => Obj((0..g.below(4)).map(|_| (word(g), any(g, d - 1))).collect()),
    }
}
pub fn word(g: &mut Rng) -> String {
    g.string(&["a", "é", "漢", "😀", "null", "true", " ", "{", "]", ":", ",", "1", "\"", "\\", "\n"], 5)
}
pub fn number(g: &mut Rng) -> f64 {
    match g.below(4) {
        0 => 0.0,
        1 => g.next() as i32 as f64,
        2 => (g.next() as i32 as f64) / 64.0,
        _ => g.next() as u32 as f64 * 1048576.0,
    }
}

pub fn t(x: &str) -> D {
    D::Text(x.to_string())
}
pub fn cat(v: Vec<D>) -> D {
    D::Cat(v)
}
pub fn group(d: D) -> D {
    D::Group(Box::new(d))
}
pub fn ind(d: D) -> D {
    D::Indent(Box::new(d))
}
pub fn join(v: Vec<D>, sep: D) -> D {
    let mut r = vec![];
    for (i, d) in v.into_iter().enumerate() {
        if i > 0 {
            r.push(sep.clone());
        }
        r.push(d);
    }
    cat(r)
}

pub fn all(v: &[String]) -> Vec<D> {
    v.iter().map(|x| t(x)).collect()
}
pub fn rev(v: &[String]) -> Vec<D> {
    v.iter().rev().map(|x| t(x)).collect()
}
pub fn n(x: f64) -> J {
    Num(x)
}

/// A document and what it must be, printed at several widths inside a group.
pub fn same(c: &mut Case, what: &str, got: Document<'_>, want: &D, cfg: &FormatConfig) -> Check {
    for cfg in [cfg.clone(), FormatConfig::new().with_max_width(0), FormatConfig::new().with_max_width(14), FormatConfig::new()] {
        let text = Document::Group(Box::new(got.clone())).render(cfg.clone());
        let model = Model::print(&cfg, &D::Group(Box::new(want.clone()))).0;
        ensure!(text == model, format!("{what} as a document"), "got  {text:?}\nwant {model:?}");
        c.seen("documents printed", 1);
    }
    Ok(())
}


/// The same interfaces as the calls use: when this does not build, neither will they, whatever the macros do.
pub fn interfaces(a: &String, many: &Vec<String>, some: &Option<String>, v: JsonValue) -> (Vec<Document<'static>>, Vec<JsonValue>) {
    let docs = vec![
        Document::Nil,
        Document::Line,
        Document::SoftLine,
        Document::SoftLineSpace,
        Document::HardLine,
        Document::Text("x".into()),
        Document::Indent(Box::new(Document::Line)),
        Document::Group(Box::new(Document::Concat(vec![a.to_string().to_document(), Document::Line]))),
        many.iter().map(|m| m.clone().to_document()).collect::<Vec<_>>().join_doc(Document::Line),
    ];
    let _ = (a.as_document(), some.as_document(), many.iter().map(|m| m.as_document()).collect::<Vec<_>>(), many.iter().rev().map(|m| m.to_document()).collect::<Vec<_>>(), a.as_str().to_document());
    let list: Vec<JsonValue> = many.iter().map(|m| JsonValue::from(m.as_str())).collect();
    let values = vec![1i32.into(), 1i64.into(), 1u32.into(), 1u64.into(), 1usize.into(), 0.5f32.into(), 0.5f64.into(), true.into(), ().into(), some.clone().into(), Some(1i32).into(), a.clone().into(), list.clone().into(), v, list.iter().cloned().collect::<JsonValue>()];
    (docs, values)
}
