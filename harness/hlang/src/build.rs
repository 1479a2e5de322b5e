//! Type-erased access to the builders of typed trees: what a builder answers, as text.
use crate::probe::offset_of;
use oak_core::{Builder, Language, ParseSession, Source, TextEdit};
use std::fmt::Debug;

/// What a builder answered: the typed tree printed by its `Debug`, the error, the diagnostics and where they point.
#[derive(Clone, Debug, PartialEq)]
pub struct Built {
    pub root: Option<String>,
    pub error: Option<String>,
    pub diags: Vec<String>,
    pub offsets: Vec<usize>,
}
pub trait Doc {
    fn build(&mut self, s: &dyn Source, e: &[TextEdit]) -> Built;
}
pub trait Api {
    fn name(&self) -> &'static str;
    fn open(&self) -> Box<dyn Doc + '_>;
    fn build(&self, s: &dyn Source) -> Built {
        self.open().build(s, &[])
    }
}
pub struct Entry<L: Language, B> {
    name: &'static str,
    b: B,
    l: std::marker::PhantomData<fn() -> L>,
}
impl<L: Language + Send + Sync + 'static, B: Builder<L>> Entry<L, B>
where
    L::TypedRoot: Debug,
{
    pub fn new(name: &'static str, b: B) -> Self {
        Self { name, b, l: Default::default() }
    }
}
struct Open<'e, L: Language, B> {
    e: &'e Entry<L, B>,
    s: ParseSession<L>,
}
impl<L: Language + Send + Sync + 'static, B: Builder<L>> Doc for Open<'_, L, B>
where
    L::TypedRoot: Debug,
{
    fn build(&mut self, s: &dyn Source, e: &[TextEdit]) -> Built {
        let o = self.e.b.build(s, e, &mut self.s);
        let err = o.result.as_ref().err();
        Built { root: o.result.as_ref().ok().map(|r| format!("{r:?}")), error: err.map(|e| format!("{e:?}")), diags: o.diagnostics.iter().map(|e| format!("{e:?}")).collect(), offsets: o.diagnostics.iter().chain(err).filter_map(offset_of).collect() }
    }
}
impl<L: Language + Send + Sync + 'static, B: Builder<L>> Api for Entry<L, B>
where
    L::TypedRoot: Debug,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn open(&self) -> Box<dyn Doc + '_> {
        Box::new(Open { e: self, s: ParseSession::default() })
    }
}

/// Every `a..b` in a `Debug` text that is not inside a quoted string or character: the spans of the typed tree.
pub fn spans(d: &str) -> Vec<(usize, usize)> {
    let b = d.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            b'\'' => {
                // a character: skip it with its escape
                i += if b.get(i + 1) == Some(&b'\\') { 3 } else { 2 };
                while i < b.len() && b[i] != b'\'' {
                    i += 1;
                }
                i += 1;
            }
            c if c.is_ascii_digit() => {
                let a = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if b[i..].starts_with(b"..") {
                    let m = i + 2;
                    let mut j = m;
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    if let (Ok(x), Ok(y)) = (d[a..i].parse(), d[m..j].parse()) {
                        v.push((x, y));
                    }
                    i = j;
                }
            }
            _ => i += 1,
        }
    }
    v
}

/// Named things of a typed tree (`Identifier { name: "x", span: 3..4 }`, also `text:` and `value:`) with their place.
pub fn named(d: &str) -> Vec<(String, usize, usize)> {
    let b = d.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                let a = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
                let before = &d[..a];
                let Some(after) = d.get(i..) else { break };
                if !(before.ends_with("{ name: ") || before.ends_with("{ text: ") || before.ends_with("{ value: ")) {
                    continue;
                }
                let Some(rest) = after.strip_prefix(", span: ") else { continue };
                let n: usize = rest.bytes().take_while(|c| c.is_ascii_digit()).count();
                let Some(r2) = rest[n..].strip_prefix("..") else { continue };
                let m: usize = r2.bytes().take_while(|c| c.is_ascii_digit()).count();
                let s = &d[a + 1..i - 1];
                if s.contains('\\') {
                    continue;
                }
                if let (Ok(x), Ok(y)) = (rest[..n].parse(), r2[..m].parse()) {
                    v.push((s.to_string(), x, y));
                }
            }
            b'\'' => {
                i += if b.get(i + 1) == Some(&b'\\') { 3 } else { 2 };
                while i < b.len() && b[i] != b'\'' {
                    i += 1;
                }
                i += 1;
            }
            _ => i += 1,
        }
    }
    v
}
