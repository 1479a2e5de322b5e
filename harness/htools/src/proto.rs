//! C35: what the tools hand to editors and read back from them keeps its meaning: every record has one known
//! JSON form, is the same after being written and read, is refused when a part is missing, and what is made from
//! another record says the same.
use core::range::Range;
use oak_core::language::UniversalElementRole as Role;
use oak_lsp::types::*;
use oak_lsp::handlers::*;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Map, Value, json};
use vcommon::*;

type P<T> = (T, Value);

macro_rules! rec {
    ($T:ident { $($f:ident : $e:expr),* $(,)? }) => {{
        $(let $f = $e;)*
        let mut m = Map::new();
        $(m.insert(stringify!($f).to_string(), $f.1);)*
        ($T { $($f: $f.0),* }, Value::Object(m))
    }};
}
macro_rules! unit {
    ($g:expr, $T:ident: $($v:ident)*) => {{
        let all = [$(($T::$v, stringify!($v))),*];
        let (v, n) = all[$g.below(all.len())];
        (v, Value::String(n.to_string()))
    }};
}

fn s(g: &mut Rng) -> P<String> {
    let t = g.string(&["a", "name", " ", "é", "𝕏", "\"", "\\", "\n", "\u{0}", "\u{7f}", "</", "\u{2028}", "/", "'", "0", "file:///x%20y"], 5);
    (t.clone(), Value::String(t))
}
fn arc(g: &mut Rng) -> P<oak_core::Arc<str>> {
    let t = s(g);
    (oak_core::Arc::from(&t.0[..]), t.1)
}
fn n(g: &mut Rng) -> usize {
    match g.below(6) {
        0 => 0,
        1 => 1,
        2 => usize::MAX,
        3 => u32::MAX as usize + g.below(3),
        4 => (1usize << 53) + g.below(5),
        _ => g.below(5000),
    }
}
fn us(g: &mut Rng) -> P<usize> {
    let x = n(g);
    (x, json!(x))
}
fn u(g: &mut Rng) -> P<u32> {
    let x = *g.pick(&[0, 1, 2, 77, u32::MAX, u32::MAX - 1, 65_536]);
    (x, json!(x))
}
fn b(g: &mut Rng) -> P<bool> {
    let x = g.chance(1, 2);
    (x, json!(x))
}
fn rg(g: &mut Rng) -> P<Range<usize>> {
    let (x, y) = (n(g), n(g));
    (Range { start: x, end: y }, json!({"start": x, "end": y}))
}
fn opt<T>(g: &mut Rng, f: impl Fn(&mut Rng) -> P<T>) -> P<Option<T>> {
    if g.chance(1, 3) {
        return (None, Value::Null);
    }
    let (v, j) = f(g);
    (Some(v), j)
}
fn list<T>(g: &mut Rng, f: impl Fn(&mut Rng) -> P<T>) -> P<Vec<T>> {
    let (mut v, mut j) = (vec![], vec![]);
    for _ in 0..g.below(4) {
        let (a, b) = f(g);
        v.push(a);
        j.push(b);
    }
    (v, Value::Array(j))
}
fn any(g: &mut Rng) -> P<Value> {
    let v = match g.below(6) {
        0 => Value::Null,
        1 => json!(b(g).0),
        2 => json!(n(g)),
        3 => s(g).1,
        4 => json!([s(g).1, {"k": n(g)}]),
        _ => json!({ s(g).0: s(g).1 }),
    };
    (v.clone(), v)
}
/// The roles, with the names they are written by and the symbol kinds they stand for.
pub const ROLES: &[(Role, &str, SymbolKind)] = {
    use SymbolKind as K;
    &[
        (Role::Root, "root", K::File),
        (Role::Container, "container", K::Module),
        (Role::Definition, "definition", K::Function),
        (Role::Binding, "binding", K::Variable),
        (Role::Reference, "reference", K::Variable),
        (Role::Typing, "typing", K::Class),
        (Role::Statement, "statement", K::Function),
        (Role::Expression, "expression", K::Variable),
        (Role::Call, "call", K::Function),
        (Role::Metadata, "metadata", K::Property),
        (Role::Attribute, "attribute", K::Property),
        (Role::Documentation, "documentation", K::String),
        (Role::Value, "value", K::Constant),
        (Role::Error, "error", K::Null),
        (Role::Name, "name", K::Function),
        (Role::Detail, "detail", K::Function),
        (Role::Embedded, "embedded", K::Function),
        (Role::AttributeKey, "attribute_key", K::Function),
        (Role::None, "none", K::Function),
    ]
};
fn role(g: &mut Rng) -> P<Role> {
    let r = g.pick(ROLES);
    (r.0, json!(r.1))
}
fn sev(g: &mut Rng) -> P<DiagnosticSeverity> {
    unit!(g, DiagnosticSeverity: Error Warning Information Hint)
}
fn kind(g: &mut Rng) -> P<SymbolKind> {
    unit!(g, SymbolKind: File Module Namespace Package Class Method Property Field Constructor Enum Interface Function Variable Constant String Number Boolean Array Object Key Null EnumMember Struct Event Operator TypeParameter)
}
fn ckind(g: &mut Rng) -> P<CompletionItemKind> {
    unit!(g, CompletionItemKind: Text Method Function Constructor Field Variable Class Interface Module Property Unit Value Enum Keyword Snippet Color File Reference Folder EnumMember Constant Struct Event Operator TypeParameter)
}
fn pos(g: &mut Rng) -> P<Position> {
    rec!(Position { line: u(g), character: u(g) })
}
fn lrange(g: &mut Rng) -> P<LspRange> {
    rec!(LspRange { start: pos(g), end: pos(g) })
}
fn loc(g: &mut Rng) -> P<LocationRange> {
    rec!(LocationRange { uri: arc(g), range: rg(g) })
}
fn item(g: &mut Rng, d: usize) -> P<StructureItem> {
    rec!(StructureItem { name: s(g), detail: opt(g, s), role: role(g), kind: kind(g), range: rg(g), selection_range: rg(g), deprecated: b(g), children: if d == 0 { (vec![], json!([])) } else { list(g, |g| item(g, d - 1)) } })
}
fn view(g: &mut Rng, d: usize) -> P<oak_structural_view::StructureItem> {
    use oak_structural_view::StructureItem;
    rec!(StructureItem { name: s(g), detail: opt(g, s), role: role(g), range: rg(g), selection_range: rg(g), deprecated: b(g), children: if d == 0 { (vec![], json!([])) } else { list(g, |g| view(g, d - 1)) } })
}
fn edit(g: &mut Rng) -> P<TextEdit> {
    rec!(TextEdit { range: rg(g), new_text: s(g) })
}
fn wedit(g: &mut Rng) -> P<WorkspaceEdit> {
    let mut v = std::collections::HashMap::new();
    let mut j = Map::new();
    for _ in 0..g.below(3) {
        let (k, e) = (s(g).0, list(g, edit));
        v.insert(k.clone(), e.0);
        j.insert(k, e.1);
    }
    (WorkspaceEdit { changes: v }, json!({"changes": j}))
}
fn diag(g: &mut Rng) -> P<Diagnostic> {
    rec!(Diagnostic { range: rg(g), severity: opt(g, sev), code: opt(g, s), source: opt(g, s), message: s(g) })
}
fn sel(g: &mut Rng, d: usize) -> P<SelectionRange> {
    let p = if d == 0 { (None, Value::Null) } else { opt(g, |g| sel(g, d - 1)) };
    rec!(SelectionRange { range: rg(g), parent: (p.0.map(Box::new), p.1) })
}
fn param(g: &mut Rng) -> P<ParameterInformation> {
    rec!(ParameterInformation { label: s(g), documentation: opt(g, s) })
}
fn sig(g: &mut Rng) -> P<SignatureInformation> {
    rec!(SignatureInformation { label: s(g), documentation: opt(g, s), parameters: opt(g, |g| list(g, param)), active_parameter: opt(g, u) })
}
fn stok(g: &mut Rng) -> P<SemanticToken> {
    rec!(SemanticToken { delta_line: u(g), delta_start: u(g), length: u(g), token_type: u(g), token_modifiers_bitset: u(g) })
}
fn xtok(g: &mut Rng) -> P<oak_semantic_tokens::SemanticToken> {
    use oak_semantic_tokens::SemanticToken;
    rec!(SemanticToken { delta_line: u(g), delta_start: u(g), length: u(g), token_type: u(g), token_modifiers_bitset: u(g) })
}
fn fold(g: &mut Rng) -> P<FoldingRange> {
    let kinds = [(FoldingRangeKind::Comment, "comment"), (FoldingRangeKind::Imports, "imports"), (FoldingRangeKind::Region, "region")];
    rec!(FoldingRange { range: rg(g), kind: opt(g, |g| { let k = *g.pick(&kinds); (k.0, json!(k.1)) }) })
}
fn url(g: &mut Rng) -> P<url::Url> {
    let t = *g.pick(&["file:///a/b%20c.rs", "https://example.org/x?y=1#z", "untitled:1"]);
    (url::Url::parse(t).unwrap(), json!(t))
}
fn f(g: &mut Rng) -> P<f32> {
    let x = *g.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.75]);
    (x, json!(x))
}
fn sym(g: &mut Rng) -> P<oak_symbols::SymbolInformation> {
    use oak_symbols::SymbolInformation;
    rec!(SymbolInformation { name: s(g), role: role(g), uri: arc(g), range: rg(g), container_name: opt(g, s) })
}
fn nav(g: &mut Rng) -> P<oak_navigation::Location> {
    use oak_navigation::Location;
    rec!(Location { uri: arc(g), range: rg(g) })
}
fn ddiag(g: &mut Rng) -> P<oak_diagnostic::Diagnostic> {
    use oak_diagnostic::{Diagnostic, Label, Severity};
    let mut args = std::collections::HashMap::new();
    let mut ja = Map::new();
    for _ in 0..g.below(3) {
        let (k, v) = (s(g).0, s(g));
        args.insert(k.clone(), v.0);
        ja.insert(k, v.1);
    }
    rec!(Diagnostic { code: opt(g, s), message: s(g), i18n_key: opt(g, s), i18n_args: (args, Value::Object(ja)), severity: unit!(g, Severity: Error Warning Advice), labels: list(g, |g| rec!(Label { message: opt(g, s), span: rg(g), color: opt(g, s) })), help: opt(g, s) })
}
fn fmeta(g: &mut Rng) -> P<oak_vfs::FileMetadata> {
    use oak_vfs::{FileMetadata, FileType};
    rec!(FileMetadata { file_type: unit!(g, FileType: File Directory Other), len: { let x = n(g) as u64; (x, json!(x)) }, modified: opt(g, |g| { let x = n(g) as u64; (x, json!(x)) }) })
}

/// A JSON text with the fields of every object in random order, and fields nobody knows.
fn scrambled(g: &mut Rng, v: &Value, extra: bool, out: &mut String) {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<(String, &Value)> = m.iter().map(|(k, v)| (k.clone(), v)).collect();
            let more = json!([null, "x"]);
            if extra {
                ks.push(("nobody_knows_this".into(), &more));
            }
            for i in (1..ks.len()).rev() {
                ks.swap(i, g.below(i + 1));
            }
            out.push('{');
            for (i, (k, x)) in ks.iter().enumerate() {
                out.push_str(if i > 0 { " ,\n" } else { "" });
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push_str(" : ");
                scrambled(g, x, extra, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                out.push_str(if i > 0 { ", " } else { "" });
                scrambled(g, x, extra, out);
            }
            out.push(']');
        }
        x => out.push_str(&x.to_string()),
    }
}

/// `open`: objects in it are maps or hold any values, where an unknown field would be data.
fn record<T: Serialize + DeserializeOwned>(c: &mut Case, name: &str, p: P<T>, open: bool) -> Check {
    let (v, want) = p;
    c.input(format!("{name} {want}"));
    let sigd = |what: &str| format!("{name}: {what}");
    let got = serde_json::to_value(&v).map_err(|e| Fail { sig: sigd("not written"), detail: e.to_string() })?;
    ensure_eq!(got, want, sigd("written form"), "");
    let text = serde_json::to_string(&v).unwrap();
    let back: Value = serde_json::from_str(&text).map_err(|e| Fail { sig: sigd("text is no JSON"), detail: format!("{e}: {text}") })?;
    ensure_eq!(back, want, sigd("written text"), "");
    let mut other = String::new();
    scrambled(&mut c.rng.clone(), &want, !open, &mut other);
    let ways: [(&str, Result<T, serde_json::Error>); 5] = [
        ("from its text", serde_json::from_str(&text)),
        ("from its bytes", serde_json::from_slice(serde_json::to_string_pretty(&v).unwrap().as_bytes())),
        ("from a stream", serde_json::from_reader(text.as_bytes())),
        ("from a value", serde_json::from_value(want.clone())),
        ("from fields in another order", serde_json::from_str(&other)),
    ];
    for (w, r) in ways {
        match r {
            Ok(x) => ensure_eq!(serde_json::to_value(&x).unwrap(), want, sigd("read back differently"), "{w}"),
            Err(e) => return fail(sigd("not read back"), format!("{w}: {e}; {other}")),
        }
    }
    // a record without one of its parts, or with a part of another type, is refused
    if let Value::Object(m) = &want {
        for (k, x) in m {
            if x.is_null() {
                continue;
            }
            let mut less = m.clone();
            less.remove(k);
            if !matches!(x, Value::Null) && !OPTIONAL.contains(&(name, k)) && !is_optional(name, k) {
                ensure!(serde_json::from_value::<T>(Value::Object(less)).is_err(), sigd("read without one of its parts"), "without {k}");
            }
            let mut odd = m.clone();
            odd.insert(k.clone(), json!({"surely": ["not", 1]}));
            if !open {
                ensure!(serde_json::from_value::<T>(Value::Object(odd)).is_err(), sigd("read with a part of another type"), "{k}");
            }
        }
    }
    c.distinct(&text);
    c.seen("records written and read", 1);
    Ok(())
}
const OPTIONAL: &[(&str, &str)] = &[];
/// Parts that may be left out (the record says so by their type).
fn is_optional(name: &str, part: &str) -> bool {
    matches!(
        (name, part),
        ("Hover" | "oak_hover::Hover", "range")
            | (_, "detail" | "kind" | "container_name" | "documentation" | "insert_text" | "severity" | "code" | "source" | "result_id" | "parent" | "parameters" | "active_parameter" | "active_signature" | "tooltip" | "padding_left" | "padding_right")
            | (_, "diagnostics" | "edit" | "command" | "is_preferred" | "disabled" | "arguments" | "root_uri" | "url" | "i18n_key" | "help" | "modified")
    )
}

fn request<T: DeserializeOwned>(c: &mut Case, name: &str, want: Value, same: impl Fn(&T, &Value) -> bool) -> Check {
    c.input(format!("{name} {want}"));
    let mut text = String::new();
    scrambled(&mut c.rng.clone(), &want, true, &mut text);
    for (w, r) in [("a text", serde_json::from_str::<T>(&text)), ("a value", serde_json::from_value::<T>(want.clone())), ("bytes", serde_json::from_slice::<T>(text.as_bytes()))] {
        match r {
            Ok(x) => ensure!(same(&x, &want), format!("{name}: read differently"), "from {w}: {text}"),
            Err(e) => return fail(format!("{name}: not read"), format!("from {w}: {e}: {text}")),
        }
    }
    for k in want.as_object().unwrap().keys() {
        let mut less = want.clone();
        less.as_object_mut().unwrap().remove(k);
        ensure!(serde_json::from_value::<T>(less).is_err(), format!("{name}: read without one of its parts"), "without {k}");
        let mut odd = want.clone();
        odd[k] = json!([[]]);
        ensure!(serde_json::from_value::<T>(odd).is_err(), format!("{name}: read with a part of another type"), "{k}");
    }
    if want.get("range").is_some() {
        for bad in [json!({"start": 1}), json!({"end": 1}), json!({"start": -1, "end": 2}), json!({"start": "1", "end": 2}), json!(7)] {
            let mut odd = want.clone();
            odd["range"] = bad.clone();
            ensure!(serde_json::from_value::<T>(odd).is_err(), format!("{name}: read a malformed range"), "{bad}");
        }
    }
    c.seen("requests read", 1);
    Ok(())
}

pub fn records(run: &mut Run) {
    run.family("records", 1500, 40_000, |c| {
        let g = &mut c.rng.clone();
        macro_rules! go {
            ($($name:literal $open:literal $e:expr;)*) => { $( let p = $e; record(c, $name, p, $open)?; )* };
        }
        go! {
            "Position" false pos(g);
            "LspRange" false lrange(g);
            "LocationRange" false loc(g);
            "Location" false { rec!(Location { uri: arc(g), range: lrange(g) }) };
            "SourcePosition" false rec!(SourcePosition { line: u(g), column: u(g), offset: us(g), length: us(g) });
            "SourceLocation" false rec!(SourceLocation { line: u(g), column: u(g), url: opt(g, url) });
            "DocumentHighlight" false rec!(DocumentHighlight { range: lrange(g), kind: opt(g, |g| unit!(g, DocumentHighlightKind: Text Read Write)) });
            "Color" false rec!(Color { red: f(g), green: f(g), blue: f(g), alpha: f(g) });
            "ColorInformation" false rec!(ColorInformation { range: lrange(g), color: rec!(Color { red: f(g), green: f(g), blue: f(g), alpha: f(g) }) });
            "Hover" false rec!(Hover { contents: s(g), range: opt(g, rg) });
            "StructureItem" false item(g, 3);
            "InitializeParams" false rec!(InitializeParams { root_uri: opt(g, s), workspace_folders: list(g, |g| rec!(WorkspaceFolder { uri: s(g), name: s(g) })) });
            "WorkspaceSymbol" false rec!(WorkspaceSymbol { name: s(g), kind: kind(g), location: loc(g), container_name: opt(g, s) });
            "SymbolInformation" false rec!(SymbolInformation { name: s(g), kind: kind(g), location: loc(g), container_name: opt(g, s) });
            "TextEdit" false edit(g);
            "WorkspaceEdit" true wedit(g);
            "CompletionItem" false rec!(CompletionItem { label: s(g), kind: opt(g, ckind), detail: opt(g, s), documentation: opt(g, s), insert_text: opt(g, s) });
            "Diagnostic" false diag(g);
            "SemanticToken" false stok(g);
            "SemanticTokens" false rec!(SemanticTokens { result_id: opt(g, s), data: list(g, stok) });
            "SelectionRange" false sel(g, 3);
            "SignatureHelp" false rec!(SignatureHelp { signatures: list(g, sig), active_signature: opt(g, u), active_parameter: opt(g, u) });
            "InlayHint" false rec!(InlayHint { position: pos(g), label: s(g), kind: opt(g, |g| unit!(g, InlayHintKind: Type Parameter)), tooltip: opt(g, s), padding_left: opt(g, b), padding_right: opt(g, b) });
            "CodeAction" true rec!(CodeAction {
                title: s(g), kind: opt(g, s), diagnostics: opt(g, |g| list(g, diag)), edit: opt(g, wedit),
                command: opt(g, |g| rec!(Command { title: s(g), command: s(g), arguments: opt(g, |g| list(g, any)) })),
                is_preferred: opt(g, b), disabled: opt(g, |g| rec!(CodeActionDisabled { reason: s(g) }))
            });
            "FoldingRange" false fold(g);
            "oak_structural_view::StructureItem" false view(g, 2);
            "oak_semantic_tokens::SemanticToken" false xtok(g);
            "oak_symbols::SymbolInformation" false sym(g);
            "oak_navigation::Location" false nav(g);
            "oak_diagnostic::Diagnostic" true ddiag(g);
            "oak_vfs::FileMetadata" false fmeta(g);
        }
        {
            use oak_hover::Hover;
            record(c, "oak_hover::Hover", rec!(Hover { contents: s(g), range: opt(g, rg) }), false)?;
        }
        Ok(())
    });
    run.family("requests", 4000, 100_000, |c| {
        let g = &mut c.rng.clone();
        let j = |r: &Range<usize>| json!({"start": r.start, "end": r.end});
        request::<UriRequest>(c, "UriRequest", json!({"uri": s(g).1}), |x, w| w["uri"] == x.uri)?;
        request::<RangeRequest>(c, "RangeRequest", json!({"uri": s(g).1, "range": rg(g).1}), |x, w| w["uri"] == x.uri && w["range"] == j(&x.range))?;
        request::<PositionRequest>(c, "PositionRequest", json!({"uri": s(g).1, "position": us(g).1}), |x, w| w["uri"] == x.uri && w["position"] == json!(x.position))?;
        request::<QueryRequest>(c, "QueryRequest", json!({"query": s(g).1}), |x, w| w["query"] == x.query)?;
        request::<RenameRequest>(c, "RenameRequest", json!({"uri": s(g).1, "range": rg(g).1, "new_name": s(g).1}), |x, w| w["uri"] == x.uri && w["range"] == j(&x.range) && w["new_name"] == x.new_name)
    });
    run.family("conversions", 10_000, 200_000, |c| {
        let g = &mut c.rng.clone();
        let (l, jl) = nav(g);
        c.input(format!("{jl}"));
        let a: LocationRange = l.clone().into();
        let d: Location<Range<usize>> = l.clone().into();
        let e: Location<Range<usize>> = a.clone().into();
        let f: LocationRange = e.clone().into();
        ensure!(a.uri == l.uri && a.range == l.range && d.uri == l.uri && d.range == l.range && e == d && f == a, "a location changed when converted", "{jl}");
        let (y, jy) = sym(g);
        c.input(format!("{jy}"));
        let k = ROLES.iter().find(|r| r.0 == y.role).unwrap().2;
        let w: WorkspaceSymbol = y.clone().into();
        ensure!(w.name == y.name && w.kind == k && w.location.uri == y.uri && w.location.range == y.range && w.container_name == y.container_name, "a symbol changed when converted", "{jy}: {w:?}");
        let i: StructureItem = y.clone().into();
        ensure!(i.name == y.name && i.role == y.role && i.kind == k && i.range == y.range && i.selection_range == y.range && i.children.is_empty() && !i.deprecated && i.detail.is_none(), "a symbol changed when converted", "{jy}: {i:?}");
        c.seen("conversions", 6);
        c.distinct(&jy.to_string());
        Ok(())
    });
    run.family_exact("vocabularies", 1, |c| {
        // the numbers editors know the kinds by
        let kinds = ["File", "Module", "Namespace", "Package", "Class", "Method", "Property", "Field", "Constructor", "Enum", "Interface", "Function", "Variable", "Constant", "String", "Number", "Boolean", "Array", "Object", "Key", "Null", "EnumMember", "Struct", "Event", "Operator", "TypeParameter"];
        for (i, k) in kinds.iter().enumerate() {
            let x: SymbolKind = serde_json::from_value(json!(k)).map_err(|e| Fail { sig: "SymbolKind: not read".into(), detail: e.to_string() })?;
            ensure_eq!(x as usize, i + 1, "SymbolKind: number", "{k}");
        }
        let items = ["Text", "Method", "Function", "Constructor", "Field", "Variable", "Class", "Interface", "Module", "Property", "Unit", "Value", "Enum", "Keyword", "Snippet", "Color", "File", "Reference", "Folder", "EnumMember", "Constant", "Struct", "Event", "Operator", "TypeParameter"];
        for (i, k) in items.iter().enumerate() {
            let x: CompletionItemKind = serde_json::from_value(json!(k)).map_err(|e| Fail { sig: "CompletionItemKind: not read".into(), detail: e.to_string() })?;
            ensure_eq!(x as usize, i + 1, "CompletionItemKind: number", "{k}");
        }
        for (i, k) in ["Error", "Warning", "Information", "Hint"].iter().enumerate() {
            ensure_eq!(serde_json::from_value::<DiagnosticSeverity>(json!(k)).unwrap() as usize, i + 1, "DiagnosticSeverity: number", "{k}");
        }
        for (i, k) in ["Text", "Read", "Write"].iter().enumerate() {
            ensure_eq!(serde_json::from_value::<DocumentHighlightKind>(json!(k)).unwrap() as usize, i + 1, "DocumentHighlightKind: number", "{k}");
        }
        for (i, k) in ["Type", "Parameter"].iter().enumerate() {
            ensure_eq!(serde_json::from_value::<InlayHintKind>(json!(k)).unwrap() as usize, i + 1, "InlayHintKind: number", "{k}");
        }
        for (r, name, k) in ROLES {
            ensure_eq!(serde_json::to_value(r).unwrap(), json!(name), "role: written form", "{r:?}");
            ensure_eq!(SymbolKind::from(*r), *k, "kind of a role", "{r:?}");
        }
        ensure_eq!(SourceLocation::default(), SourceLocation { line: 1, column: 1, url: None }, "the first place of a file", "");
        c.seen("vocabulary entries", (kinds.len() + items.len() + ROLES.len() + 9) as u64);
        Ok(())
    });
}
