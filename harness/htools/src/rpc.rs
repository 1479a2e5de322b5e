//! C24: the tool server answers every request once, in order, and calls exactly the service it names.
//! C28: the default answers of a language service follow its files, trees and symbol index.
use crate::{
    ws::uri_of,
    toy::{E, Toy},
    tree::{M, build},
};
use oak_core::{
    GreenNode, OakError,
    memory::arena::SyntaxArena,
    source::{SourceId, SourceText},
    tree::RedNode,
};
use oak_lsp::{
    LanguageService, WorkspaceManager,
    types::{self as lt, InitializeParams, WorkspaceFolder},
};
use oak_mcp::{JsonRpcNotification, JsonRpcRequest, JsonRpcResponse, McpServer, SemanticSearch};
use oak_symbols::SymbolInformation;
use oak_vfs::{FileMetadata, FileType, MemoryVfs, Vfs, WritableVfs};
use serde_json::{Value, json};
use std::{
    path::PathBuf,
    collections::{BTreeMap, HashMap},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use vcommon::*;

type R = core::range::Range<usize>;

pub struct Svc<V: WritableVfs> {
    vfs: V,
    ws: WorkspaceManager,
    roots: HashMap<String, &'static GreenNode<'static, Toy>>,
    log: Arc<Mutex<Vec<String>>>,
}

fn hover_of(uri: &str, at: usize) -> Option<String> {
    if at % 3 == 0 { None } else { Some(format!("h\"{uri}\"\n{at} é\u{2028}")) }
}

impl<V: WritableVfs + Send + Sync> LanguageService for Svc<V> {
    type Lang = Toy;
    type Vfs = V;
    fn vfs(&self) -> &V {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, Toy>>> + Send + '_ {
        let r = self.roots.get(uri).copied();
        async move { r.map(|g| RedNode::new(g, 0)) }
    }
    fn hover(&self, uri: &str, range: R) -> impl Future<Output = Option<lt::Hover>> + Send + '_ {
        self.log.lock().unwrap().push(format!("hover {uri:?} {}..{}", range.start, range.end));
        let h = hover_of(uri, range.start).map(|contents| lt::Hover { contents, range: None });
        async move {
            tokio::task::yield_now().await;
            h
        }
    }
    fn references<'a>(&'a self, uri: &'a str, range: R) -> impl Future<Output = Vec<lt::LocationRange>> + Send + 'a {
        self.log.lock().unwrap().push(format!("references {uri:?} {}..{}", range.start, range.end));
        async { vec![] }
    }
    fn completion<'a>(&'a self, uri: &'a str, offset: usize) -> impl Future<Output = Vec<lt::CompletionItem>> + Send + 'a {
        self.log.lock().unwrap().push(format!("completion {uri:?} {offset}"));
        async { vec![] }
    }
    fn diagnostics<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<lt::Diagnostic>> + Send + 'a {
        self.log.lock().unwrap().push(format!("diagnostics {uri:?}"));
        async { vec![] }
    }
}

/// The same service, with every provider recorded that has a default.
struct Rec(Svc<MemoryVfs>);
impl LanguageService for Rec {
    type Lang = Toy;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs {
        &self.0.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.0.ws
    }
    fn hover(&self, uri: &str, range: R) -> impl Future<Output = Option<lt::Hover>> + Send + '_ {
        self.0.hover(uri, range)
    }
    fn references<'a>(&'a self, uri: &'a str, range: R) -> impl Future<Output = Vec<lt::LocationRange>> + Send + 'a {
        self.0.references(uri, range)
    }
    fn completion<'a>(&'a self, uri: &'a str, offset: usize) -> impl Future<Output = Vec<lt::CompletionItem>> + Send + 'a {
        self.0.completion(uri, offset)
    }
    fn diagnostics<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<lt::Diagnostic>> + Send + 'a {
        self.0.diagnostics(uri)
    }
    fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<lt::StructureItem>> + Send + 'a {
        self.0.log.lock().unwrap().push(format!("symbols {uri:?}"));
        async { vec![] }
    }
    fn definition<'a>(&'a self, uri: &'a str, range: R) -> impl Future<Output = Vec<lt::LocationRange>> + Send + 'a {
        self.0.log.lock().unwrap().push(format!("definition {uri:?} {}..{}", range.start, range.end));
        async { vec![] }
    }
}

fn block<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

struct Search(Arc<Mutex<Vec<String>>>);

fn found(q: &str, n: usize) -> Result<Vec<String>, String> {
    if q.contains('!') { Err(format!("bad query {q}")) } else { Ok((0..n.min(4)).map(|i| format!("{q}\n{i}")).collect()) }
}

impl SemanticSearch for Search {
    async fn search(&self, q: &str, n: usize) -> Result<Vec<String>, OakError> {
        self.0.lock().unwrap().push(format!("search {q:?} {n}"));
        tokio::task::yield_now().await;
        found(q, n).map_err(OakError::semantic_error)
    }
}

struct Pieces {
    data: Vec<u8>,
    at: usize,
    rng: Rng,
    fail_at: Option<usize>,
}
impl AsyncRead for Pieces {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.rng.chance(1, 6) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let end = self.fail_at.unwrap_or(self.data.len());
        if self.at == end && self.fail_at.is_some() {
            return Poll::Ready(Err(std::io::Error::other("read failed")));
        }
        let most = *self.rng.pick(&[1usize, 2, 7, 64, 4096]);
        let n = most.min(end - self.at).min(buf.remaining());
        let at = self.at;
        buf.put_slice(&self.data[at..at + n]);
        self.at += n;
        Poll::Ready(Ok(()))
    }
}
struct Sink {
    data: Arc<Mutex<Vec<u8>>>,
    flushed: Arc<Mutex<usize>>,
    rng: Rng,
    room: Option<usize>,
}
impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        if self.rng.chance(1, 5) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = b.len().min(*self.rng.pick(&[1usize, 3, 50, 5000]));
        if let Some(r) = self.room {
            n = n.min(r);
            if n == 0 {
                return Poll::Ready(Err(std::io::Error::other("write failed")));
            }
            self.room = Some(r - n);
        }
        self.data.lock().unwrap().extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        *self.flushed.lock().unwrap() = self.data.lock().unwrap().len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

#[derive(Debug, Clone)]
enum Want {
    /// Nothing comes back (or, for what is no message at all, a parse error without an id).
    Nothing,
    Maybe,
    Result(Value, Shape),
    Error(Value, i64, String),
}
#[derive(Debug, Clone)]
enum Shape {
    Init,
    Tools,
    Text(Value),
    AnyText,
}

fn rstr(g: &mut Rng) -> String {
    g.string(&["a", "b/", "mem:/f", "\"", "\\", "\n", "é", "漢", "😀", "{", "}", "\u{1}", " ", "!"], 5)
}

/// Random JSON text of the value: blanks between tokens, escapes chosen at random, members shuffled.
fn write(v: &Value, g: &mut Rng, o: &mut String) {
    let gap = |g: &mut Rng, o: &mut String| {
        if g.chance(1, 8) {
            o.push_str(*g.pick(&[" ", "\t", "  "]))
        }
    };
    match v {
        Value::String(s) => {
            o.push('"');
            for ch in s.chars() {
                if ch < ' ' || ch == '"' || ch == '\\' || g.chance(1, 10) {
                    let mut b = [0u16; 2];
                    for u in ch.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
                else {
                    o.push(ch);
                }
            }
            o.push('"');
        }
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                gap(g, o);
                write(x, g, o);
                gap(g, o);
            }
            o.push(']');
        }
        Value::Object(m) => {
            let mut es: Vec<(&String, &Value)> = m.iter().collect();
            for i in (1..es.len()).rev() {
                let j = g.below(i + 1);
                es.swap(i, j);
            }
            o.push('{');
            for (i, (k, x)) in es.into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                gap(g, o);
                write(&Value::String(k.clone()), g, o);
                gap(g, o);
                o.push(':');
                gap(g, o);
                write(x, g, o);
                gap(g, o);
            }
            o.push('}');
        }
        v => o.push_str(&v.to_string()),
    }
}

/// (arguments, expected call in the service's log, expected outcome)
fn tool(g: &mut Rng, searcher: bool, files: &mut BTreeMap<String, String>) -> (String, Value, Vec<String>, Result<Shape, String>) {
    let name = g.pick(&["hover", "hover", "symbols", "definition", "references", "diagnostics", "completion", "semantic_search", "search", "set_file_content", "nosuch", "", "Hover"]).to_string();
    let mut args = serde_json::Map::new();
    let uri = rstr(g);
    let at = *g.pick(&[0u64, 1, 2, 3, 77, 1 << 40, u64::MAX]);
    let (query, limit) = (rstr(g), g.chance(2, 3).then(|| if g.chance(1, 2) { g.below(9) as u64 } else { *g.pick(&[10, 20, 21, 50, 100, 101, 1000, 1 << 31, 1 << 40, u64::MAX]) }));
    let miss = |g: &mut Rng| g.chance(1, 8);
    let odd = |g: &mut Rng| g.pick(&[json!(null), json!(-1), json!(1.5), json!([]), json!({"a": 1}), json!(true)]).clone();
    let mut bad: Vec<&str> = vec![];
    let mut put = |g: &mut Rng, args: &mut serde_json::Map<String, Value>, k: &'static str, v: Value| {
        if miss(g) {
            bad.push(k);
            if g.chance(1, 2) {
                args.insert(k.into(), odd(g));
            }
        }
        else {
            args.insert(k.into(), v);
        }
    };
    let n = name.as_str();
    let (uri_k, off_k) = (["hover", "symbols", "definition", "references", "diagnostics", "completion", "set_file_content"].contains(&n), ["hover", "definition", "references", "completion"].contains(&n));
    if uri_k {
        put(g, &mut args, "uri", json!(uri));
    }
    if off_k {
        put(g, &mut args, "offset", json!(at));
    }
    let content = if g.chance(1, 2) { rstr(g) } else { g.string(&["\0", "\r\n", "\t", " ", "\u{feff}", "\n", "x", "\u{2028}", "\u{10ffff}"], 6) };
    if n == "set_file_content" {
        put(g, &mut args, "content", json!(content));
    }
    let search = n == "search" || n == "semantic_search";
    if search {
        put(g, &mut args, "query", json!(query));
    }
    let bad: Vec<String> = bad.into_iter().map(|s| s.to_string()).collect();
    if search && let Some(l) = limit {
        args.insert("limit".into(), json!(l));
    }
    if g.chance(1, 6) {
        args.insert("extra".into(), json!([1, {"uri": "x"}]));
    }
    let mut calls = vec![];
    let out = if search && !searcher {
        Err("enabled".to_string())
    }
    else if let Some(b) = bad.first() {
        Err(b.clone())
    }
    else if search {
        let l = limit.unwrap_or(5) as usize;
        calls.push(format!("search {query:?} {l}"));
        match found(&query, l) {
            Ok(v) => Ok(Shape::Text(json!(v))),
            Err(_) => Err("".into()),
        }
    }
    else {
        let o = at as usize;
        match n {
            "hover" => {
                calls.push(format!("hover {uri:?} {o}..{o}"));
                Ok(Shape::Text(json!(hover_of(&uri, o).unwrap_or_default())))
            }
            "symbols" | "diagnostics" => {
                calls.push(format!("{n} {uri:?}"));
                Ok(Shape::AnyText)
            }
            "definition" | "references" => {
                calls.push(format!("{n} {uri:?} {o}..{o}"));
                Ok(Shape::AnyText)
            }
            "completion" => {
                calls.push(format!("completion {uri:?} {o}"));
                Ok(Shape::AnyText)
            }
            "set_file_content" => {
                files.insert(uri, content);
                Ok(Shape::AnyText)
            }
            _ => Err(name.clone()),
        }
    };
    (name, Value::Object(args), calls, out)
}

fn check_answer(v: &Value, w: &Want) -> Check {
    let o = match v.as_object() {
        Some(o) => o,
        None => return fail("answer is not an object", v.to_string()),
    };
    ensure_eq!(o.get("jsonrpc"), Some(&json!("2.0")), "protocol version of an answer", "{v}");
    ensure!(o.contains_key("result") != o.contains_key("error"), "answer has not exactly one of result and error", "{v}");
    ensure!(o.keys().all(|k| ["jsonrpc", "id", "result", "error"].contains(&k.as_str())), "answer has other members", "{v}");
    match w {
        Want::Nothing | Want::Maybe => unreachable!(),
        Want::Error(id, code, word) => {
            ensure_eq!(o.get("id"), Some(id), "id of an answer", "{v} wanted {w:?}");
            let e = &v["error"];
            ensure_eq!(e["code"].as_i64(), Some(*code), "error code", "{v} wanted {w:?}");
            ensure!(e["message"].as_str().is_some_and(|m| !m.is_empty() && m.contains(word.as_str())), "error message", "{v} wanted {w:?}");
        }
        Want::Result(id, shape) => {
            ensure_eq!(o.get("id"), Some(id), "id of an answer", "{v} wanted {w:?}");
            let r = match o.get("result") {
                Some(r) => r,
                None => return fail("request refused", format!("{v} wanted {w:?}")),
            };
            match shape {
                Shape::Init => ensure!(r["protocolVersion"].is_string() && r["capabilities"]["tools"].is_object() && r["serverInfo"]["name"].is_string(), "initialize result", "{v}"),
                Shape::Tools => {
                    let t = r["tools"].as_array().cloned().unwrap_or_default();
                    let mut names: Vec<&str> = t.iter().filter_map(|t| t["name"].as_str()).collect();
                    ensure!(t.len() >= 9 && names.len() == t.len(), "tool list", "{v}");
                    for x in &t {
                        ensure!(x["inputSchema"]["properties"].is_object() && x["inputSchema"]["required"].as_array().is_some_and(|q| q.iter().all(|k| x["inputSchema"]["properties"][k.as_str().unwrap_or("?")].is_object())), "tool schema", "{x}");
                    }
                    names.sort();
                    names.dedup();
                    ensure_eq!(names.len(), t.len(), "tool listed twice", "{v}");
                }
                Shape::Text(_) | Shape::AnyText => {
                    let c = r["content"].as_array().cloned().unwrap_or_default();
                    ensure!(c.len() == 1 && c[0]["type"] == json!("text"), "tool result content", "{v}");
                    let t: Value = match serde_json::from_str(c[0]["text"].as_str().unwrap_or("?")) {
                        Ok(t) => t,
                        Err(e) => return fail("tool result is not json", format!("{v} {e}")),
                    };
                    if let Shape::Text(x) = shape {
                        ensure_eq!(&t, x, "tool result", "{v}");
                    }
                }
            }
        }
    }
    Ok(())
}

fn json_value(g: &mut Rng) -> Value {
    match g.below(8) {
        0 => json!(g.below(1000)),
        1 => json!(-(g.below(1000) as i64)),
        2 => json!(rstr(g)),
        3 => json!(null),
        4 => json!([1, rstr(g), null]),
        5 => json!({"k": rstr(g), "n": {"id": 1}}),
        6 => json!(1.5),
        _ => json!(u64::MAX),
    }
}

fn server(log: &Arc<Mutex<Vec<String>>>) -> (McpServer<Rec>, MemoryVfs) {
    let vfs = MemoryVfs::new();
    (McpServer::new(Rec(Svc { vfs: vfs.clone(), ws: WorkspaceManager::new(), roots: HashMap::new(), log: log.clone() })), vfs)
}

/// The bytes sent for a text: U+F8FF stands for three bytes that are no text.
fn bytes_of(text: &str) -> Vec<u8> {
    let mut b = text.as_bytes().to_vec();
    for (i, _) in text.match_indices('\u{f8ff}') {
        b[i..i + 3].copy_from_slice(&[0xff, 0xc3, 0xfe]);
    }
    b
}

fn conversation(c: &mut Case, g: &mut Rng) -> Check {
    let searcher = g.chance(2, 3);
    let mut text = String::new();
    let mut wants: Vec<Want> = vec![];
    let mut calls: Vec<String> = vec![];
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    // what the service has been asked after each message
    let mut marks: Vec<usize> = vec![];
    let n = g.range(1, 14);
    for k in 0..n {
        let msg;
        let want;
        match g.below(12) {
            0 => {
                msg = g.pick(&["", "  ", "\t"]).to_string();
                want = Want::Nothing;
            }
            1 => {
                // a notification, of any method, calls nothing and is not answered
                let mut v = json!({"jsonrpc": "2.0", "method": g.pick(&["initialized", "tools/call", "tools/list", "x"])});
                if g.chance(1, 2) {
                    v["params"] = json!({"name": "hover", "arguments": {"uri": "u", "offset": 1}});
                }
                let mut o = String::new();
                write(&v, g, &mut o);
                msg = o;
                want = Want::Nothing;
            }
            2 => {
                msg = g.pick(&["x", "{", "{}", "[]", "1", "null", "{\"jsonrpc\":\"2.0\"}", "{\"id\":1}", "]]", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":3}", "\u{feff}{}", "é漢😀", "\"tools/call\"", "\u{f8ff}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"\u{f8ff}\"}"]).to_string();
                want = Want::Maybe;
            }
            x => {
                let id = json_value(g);
                let mut v = json!({"jsonrpc": "2.0", "id": id.clone()});
                match x {
                    3 => {
                        v["method"] = json!("initialize");
                        if g.chance(1, 2) {
                            v["params"] = json_value(g);
                        }
                        want = Want::Result(id, Shape::Init);
                    }
                    4 => {
                        v["method"] = json!("tools/list");
                        want = Want::Result(id, Shape::Tools);
                    }
                    5 => {
                        let m = g.pick(&["ping", "", "tools", "tools/call ", "Initialize", "日本"]).to_string();
                        v["method"] = json!(m);
                        want = Want::Error(id, -32601, m);
                    }
                    6 => {
                        v["method"] = json!("tools/call");
                        match g.below(4) {
                            0 => {}
                            1 => v["params"] = json_value(g),
                            2 => v["params"] = json!({"name": 3}),
                            _ => v["params"] = json!({"name": "hover"}),
                        }
                        want = Want::Error(id, -32000, "".into());
                    }
                    _ => {
                        let (name, args, cs, out) = tool(g, searcher, &mut files);
                        v["method"] = json!("tools/call");
                        v["params"] = json!({"name": name, "arguments": args});
                        calls.extend(cs);
                        want = match out {
                            Ok(s) => Want::Result(id, s),
                            Err(w) => Want::Error(id, -32000, w),
                        };
                    }
                }
                let mut o = String::new();
                write(&v, g, &mut o);
                msg = o;
            }
        }
        ensure!(!msg.contains('\n'), "harness", "");
        text.push_str(&msg);
        if k + 1 < n || g.chance(1, 2) {
            text.push_str(*g.pick(&["\n", "\n", "\r\n", " \n"]));
        }
        wants.push(want);
        marks.push(calls.len());
    }
    c.input(text.clone());
    let log = Arc::new(Mutex::new(vec![]));
    let (srv, vfs) = server(&log);
    let data = Arc::new(Mutex::new(vec![]));
    let flushed = Arc::new(Mutex::new(0));
    let fail_at = g.chance(1, 10).then(|| g.below(text.len() + 1));
    let room = (fail_at.is_none() && g.chance(1, 10)).then(|| g.below(400));
    let cap = *g.pick(&[1usize, 8, 100, 8192]);
    let reader = tokio::io::BufReader::with_capacity(cap, Pieces { data: bytes_of(&text), at: 0, rng: Rng::new(g.next()), fail_at });
    let sink = Sink { data: data.clone(), flushed: flushed.clone(), rng: Rng::new(g.next()), room };
    let res = if searcher { block(srv.with_searcher(Search(log.clone())).run(reader, sink)) } else { block(srv.run(reader, sink)) };
    let out = String::from_utf8(data.lock().unwrap().clone()).unwrap_or_else(|_| "\u{fffd}".into());
    let log = log.lock().unwrap().clone();
    let mut i = 0;
    if fail_at.is_some() || room.is_some() {
        // everything written before the failure is a prefix of the full conversation
        ensure!(res.is_err() || room.is_some(), "a failed stream ended the session without an error", "{res:?}");
        ensure!(calls.starts_with(&log), "calls before a failure", "{log:?} of {calls:?}");
        if fail_at.is_some() {
            ensure_eq!(*flushed.lock().unwrap(), out.len(), "answers not flushed", "");
        }
        let whole = &out[..out.rfind('\n').map_or(0, |p| p + 1)];
        let mut ws = wants.iter();
        for l in whole.lines() {
            let v: Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(e) => return fail("answer is not a line of json", format!("{l:?} {e}")),
            };
            loop {
                match ws.next() {
                    None => return fail("answer to no request", l.to_string()),
                    Some(Want::Nothing) => {}
                    Some(Want::Maybe) if refusal(&v) => break,
                    Some(Want::Maybe) => {}
                    Some(w) => {
                        check_answer(&v, w)?;
                        break;
                    }
                }
            }
        }
        c.seen("conversations cut off by a stream failure", 1);
        return Ok(());
    }
    ensure!(res.is_ok(), "session ended with an error", "{res:?}");
    ensure_eq!(*flushed.lock().unwrap(), out.len(), "answers not flushed", "");
    ensure!(out.is_empty() || out.ends_with('\n'), "answer without a line end", "{out:?}");
    let lines: Vec<&str> = if out.is_empty() { vec![] } else { out[..out.len() - 1].split('\n').collect() };
    for w in &wants {
        if matches!(w, Want::Nothing) {
            continue;
        }
        if i == lines.len() {
            if matches!(w, Want::Maybe) {
                continue;
            }
            return fail("request without an answer", format!("{w:?}"));
        }
        let v: Value = match serde_json::from_str(lines[i]) {
            Ok(v) => v,
            Err(e) => return fail("answer is not a line of json", format!("{:?} {e}", lines[i])),
        };
        if matches!(w, Want::Maybe) {
            if refusal(&v) {
                i += 1;
            }
            continue;
        }
        check_answer(&v, w)?;
        i += 1;
    }
    ensure_eq!(i, lines.len(), "answers to no request", "{:?}", &lines[i..]);
    ensure_eq!(log, calls, "calls made to the service", "");
    for (u, t) in &files {
        ensure_eq!(vfs.get_source(u).map(|s| s.text().to_string()), Some(t.clone()), "file content set by a tool", "{u:?}");
    }
    c.seen("answers", lines.len() as u64);
    c.seen("service calls", log.len() as u64);
    c.seen("messages not answered", (n - lines.len()) as u64);
    c.distinct(&text);
    Ok(())
}

fn refusal(v: &Value) -> bool {
    v["id"].is_null() && v["error"]["code"].as_i64().is_some_and(|c| c == -32700 || c == -32600)
}

pub fn mcp(run: &mut Run) {
    run.family("conversations", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        conversation(c, g)
    });
    run.family("long-lines", 16, 80, |c| {
        // one message of the session is megabytes long; those before and after it are answered as ever
        let g = &mut c.rng.clone();
        let unit = *g.pick(&["a", "line of text\n", "é", "😀 \" \\ ", "\0"]);
        let big = unit.repeat(g.range(20_000, 3_000_000) / unit.len());
        let kind = g.below(3);
        let lines = match kind {
            // set by a tool
            0 => vec![json!({"jsonrpc": "2.0", "id": 2, "method": "tools/call", "params": {"name": "set_file_content", "arguments": {"uri": "mem:/big", "content": big}}}).to_string()],
            // an argument nobody asked for
            1 => vec![json!({"jsonrpc": "2.0", "id": 2, "method": "tools/list", "params": {"extra": big}}).to_string()],
            // no message, but a line all the same
            _ => vec![format!("?{}", big.replace('\n', " ")), json!({"jsonrpc": "2.0", "id": 2, "method": "tools/list"}).to_string()],
        };
        let ask = |id: u32| json!({"jsonrpc": "2.0", "id": id, "method": "nosuch"}).to_string();
        let (before, after) = (g.below(3) as u32, g.range(1, 4) as u32);
        let mut text = String::new();
        for l in (0..before).map(|k| ask(10 + k)).chain(lines).chain((0..after).map(|k| ask(20 + k))) {
            text.push_str(&l);
            text.push('\n');
        }
        c.input(format!("kind {kind}, {} bytes of {unit:?}, {before} requests before and {after} after", big.len()));
        let log = Arc::new(Mutex::new(vec![]));
        let (srv, vfs) = server(&log);
        let data = Arc::new(Mutex::new(vec![]));
        let sink = Sink { data: data.clone(), flushed: Arc::new(Mutex::new(0)), rng: Rng::new(g.next()), room: None };
        let reader = tokio::io::BufReader::with_capacity(*g.pick(&[512usize, 8192, 1 << 16, 1 << 22]), text.as_bytes());
        let res = block(srv.run(reader, sink));
        ensure!(res.is_ok(), "session ended with an error", "{res:?}");
        let out = String::from_utf8(data.lock().unwrap().clone()).unwrap_or_else(|_| "\u{fffd}".into());
        let got: Vec<(Value, bool)> = out.lines().map(|l| serde_json::from_str::<Value>(l).unwrap_or(Value::Null)).filter(|v| !refusal(v)).map(|v| (v["id"].clone(), v.get("error").is_none())).collect();
        let want: Vec<(Value, bool)> = (0..before).map(|k| (json!(10 + k), false)).chain([(json!(2), true)]).chain((0..after).map(|k| (json!(20 + k), false))).collect();
        ensure_eq!(got, want, "answers around a long line", "");
        if kind == 0 {
            let t = vfs.get_source("mem:/big").map(|s| s.text().to_string());
            ensure!(t.as_deref() == Some(&*big), "long content set by a tool", "{:?} bytes of {}", t.map(|t| t.len()), big.len());
        }
        c.seen("bytes in long lines", text.len() as u64);
        c.distinct(&(kind, unit, big.len(), before, after));
        Ok(())
    });
    run.family("messages", 6000, 20000, |c| {
        let g = &mut c.rng.clone();
        let (id, m, p) = (json_value(g), rstr(g), if g.chance(1, 2) { Some(json_value(g)).filter(|v| !v.is_null()) } else { None });
        let v = JsonRpcRequest { jsonrpc: "2.0".into(), id: id.clone(), method: m.clone(), params: p.clone() };
        let mut o = String::new();
        write(&serde_json::to_value(&v).unwrap(), g, &mut o);
        c.input(o.clone());
        let r = match JsonRpcRequest::from_json(&o) {
            Ok(r) => r,
            Err(e) => return fail("request not read back", e),
        };
        ensure_eq!((r.jsonrpc, r.id, r.method, r.params), ("2.0".to_string(), id.clone(), m.clone(), p.clone()), "request read back", "");
        let n = match JsonRpcNotification::from_json(&o) {
            Ok(r) => r,
            Err(e) => return fail("notification not read", e),
        };
        ensure_eq!((n.method, n.params), (m, p), "notification read", "");
        let cut = floor_char(&o, g.below(o.len()));
        ensure!(JsonRpcRequest::from_json(&o[..cut]).is_err(), "cut request accepted", "{:?}", &o[..cut]);
        let ok = g.chance(1, 2);
        let data = json_value(g);
        let resp = JsonRpcResponse { jsonrpc: "2.0".into(), id: id.clone(), result: ok.then(|| data.clone()), error: (!ok).then(|| oak_mcp::JsonRpcError { code: -7, message: rstr(g), data: None }) };
        let s = resp.to_json();
        ensure!(!s.contains('\n') && !s.contains('\r'), "answer spans lines", "{s:?}");
        let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
        ensure_eq!((v["id"].clone(), v.get("result").is_some(), v.get("error").is_some()), (id, ok, !ok), "answer written", "{s}");
        if ok {
            ensure_eq!(v["result"], data, "result written", "{s}");
        }
        c.distinct(&o);
        Ok(())
    });
}

// ---------------------------------------------------------------- C28

/// A file system with folders.
#[derive(Clone, Default)]
struct Tree(Arc<Mutex<BTreeMap<String, Option<String>>>>);
impl Vfs for Tree {
    type Source = SourceText;
    fn get_source(&self, uri: &str) -> Option<SourceText> {
        self.0.lock().unwrap().get(uri)?.as_ref().map(|t| SourceText::new(t.as_str()))
    }
    fn get_uri(&self, _: SourceId) -> Option<oak_core::Arc<str>> {
        None
    }
    fn get_id(&self, _: &str) -> Option<SourceId> {
        None
    }
    fn exists(&self, uri: &str) -> bool {
        self.0.lock().unwrap().contains_key(uri)
    }
    fn metadata(&self, uri: &str) -> Option<FileMetadata> {
        self.0.lock().unwrap().get(uri).map(|f| FileMetadata { file_type: if f.is_some() { FileType::File } else { FileType::Directory }, len: 0, modified: None })
    }
    fn read_dir(&self, uri: &str) -> Option<Vec<oak_core::Arc<str>>> {
        let m = self.0.lock().unwrap();
        if !matches!(m.get(uri), Some(None)) {
            return None;
        }
        let p = format!("{uri}/");
        Some(m.keys().filter(|k| k.strip_prefix(&p).is_some_and(|r| !r.contains('/'))).map(|k| k.as_str().into()).collect())
    }
}
impl WritableVfs for Tree {
    fn write_file(&self, uri: &str, content: oak_core::Arc<str>) {
        self.0.lock().unwrap().insert(uri.into(), Some(content.to_string()));
    }
    fn remove_file(&self, uri: &str) {
        self.0.lock().unwrap().remove(uri);
    }
}

fn leak<'a>(n: &'a GreenNode<'a, Toy>) -> &'static GreenNode<'static, Toy> {
    // SAFETY: the arena outlives every use; the service is dropped first
    unsafe { std::mem::transmute(n) }
}

pub fn service(run: &mut Run) {
    run.family("listing", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        let t = Tree::default();
        let mut dirs = vec!["r".to_string()];
        let mut files = vec![];
        t.0.lock().unwrap().insert("r".into(), None);
        let mut log = String::new();
        for i in 0..g.below(30) {
            let d = g.pick(&dirs).clone();
            let n = format!("{d}/{}{i}", g.pick(&["a", "r", "é", "x y", "r.txt"]));
            log.push_str(&format!("{n} "));
            if g.chance(1, 3) {
                t.0.lock().unwrap().insert(n.clone(), None);
                dirs.push(n);
            }
            else {
                t.write_file(&n, "x".into());
                files.push(n);
            }
        }
        c.input(log.clone());
        let s = Svc { vfs: t, ws: WorkspaceManager::new(), roots: HashMap::new(), log: Default::default() };
        for root in dirs.iter().chain(files.iter()).chain([&"nowhere".to_string()]) {
            let mut got = block(s.list_all_files(root));
            got.sort();
            let mut want: Vec<String> = files.iter().filter(|f| *f == root || f.starts_with(&format!("{root}/"))).cloned().collect();
            want.sort();
            ensure_eq!(got, want, "files listed", "below {root:?}");
            c.seen("files listed", want.len() as u64);
        }
        c.distinct(&log);
        Ok(())
    });
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir()).join(format!("imports-{}-{}", std::process::id(), run.shard));
    let dirs: Vec<PathBuf> = ["p", "r1", "r2", "r 3"].iter().map(|d| base.join(d)).collect();
    let mut pick = Rng::new(7);
    for d in &dirs {
        std::fs::create_dir_all(d).unwrap();
        for n in ["a", "b", "c", "aa", "ab", "ac", "ba", "bb", "bc", "ca", "cb", "cc", "abc", "aab"] {
            if pick.chance(1, 3) {
                std::fs::write(d.join(n), "x").unwrap();
            }
        }
    }
    run.family("answers", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        let arena = SyntaxArena::new(64);
        let ws = WorkspaceManager::new();
        // files on the disk that references may name, beside the documents and in the workspace's folders
        let on_disk = g.chance(1, 2);
        let mut search: Vec<PathBuf> = vec![];
        if on_disk {
            let fs: Vec<&PathBuf> = (0..g.below(4)).map(|_| g.pick(&dirs)).collect();
            ws.initialize(&InitializeParams { root_uri: None, workspace_folders: fs.iter().map(|f| WorkspaceFolder { uri: uri_of(f), name: String::new() }).collect() });
            search = [&dirs[0]].into_iter().chain(fs).cloned().collect();
        }
        let vfs = MemoryVfs::new();
        let mut roots = HashMap::new();
        let mut models: BTreeMap<String, M> = BTreeMap::new();
        let mut texts: BTreeMap<String, String> = BTreeMap::new();
        let mut syms: BTreeMap<String, Vec<SymbolInformation>> = BTreeMap::new();
        let mut log = String::new();
        let uris: Vec<String> = ["a", "b", "c", "d"].iter().map(|n| if on_disk { uri_of(&dirs[0].join(format!("doc-{n}"))) } else { format!("f:/{n}") }).collect();
        let none = if on_disk { uri_of(&dirs[0].join("a")) } else { "f:/none".to_string() };
        for u in &uris {
            let u = u.as_str();
            let ops = g.range(2, 25);
            let b = build(g, &arena, ops)?;
            if b.model.len() > 20_000 {
                return Ok(());
            }
            let text: String = (0..b.model.len()).map(|_| *g.pick(&['a', 'b', 'c'])).collect();
            if g.chance(3, 4) {
                roots.insert(u.to_string(), leak(b.root));
                models.insert(u.to_string(), b.model.clone());
                log.push_str(&format!("{u}: {} ", b.log));
            }
            if g.chance(3, 4) {
                vfs.write_file(u, text.as_str());
                texts.insert(u.to_string(), text.clone());
            }
            // symbols named after stretches of the texts, so that references find some
            let mut v = vec![];
            let mut atoms = vec![];
            if let M::Node(k, kids) = &b.model {
                let mut p = 0;
                if *k == E::Atom {
                    atoms.push(text.clone());
                }
                for x in kids {
                    if matches!(x, M::Node(E::Atom, _)) {
                        atoms.push(text[p..p + x.len()].to_string());
                    }
                    p += x.len();
                }
            }
            for a in atoms.iter().filter(|a| on_disk && (1..60).contains(&a.len())) {
                if g.chance(1, 3) {
                    std::fs::write(g.pick(&dirs).join(a), "x").unwrap();
                }
            }
            for _ in 0..g.below(4) + if g.chance(1, 2) { atoms.len() } else { 0 } {
                let (name, cont) = match g.below(4) {
                    3 if !atoms.is_empty() => {
                        let n = g.pick(&atoms).clone();
                        let k = floor_char(&n, g.below(n.len() + 1));
                        if k >= 1 && g.chance(1, 4) { (n[1..k].to_string(), Some(n[..1].to_string())) } else { (n, None) }
                    }
                    0 => (g.pick(&["a", "b", "c", "ab", "ba", "aa", ""]).to_string(), None),
                    1 => (g.pick(&["x", "a"]).to_string(), Some("M".to_string())),
                    _ => {
                        let a = g.below(text.len() + 1);
                        let e = (a + g.below(4)).min(text.len());
                        (text[a..e].to_string(), None)
                    }
                };
                let s = g.below(50);
                v.push(SymbolInformation { name, role: *g.pick(&[oak_core::UniversalElementRole::Definition, oak_core::UniversalElementRole::Binding]), uri: u.into(), range: (s..s + g.below(9)).into(), container_name: cont });
            }
            if g.chance(2, 3) {
                ws.symbols.update_file_symbols(u.to_string(), v.clone());
                syms.insert(u.to_string(), v);
            }
        }
        c.input(log.clone());
        let s = Svc { vfs, ws, roots, log: Default::default() };
        for u in uris.iter().chain([&none]) {
            let u = &u.as_str();
            ensure_eq!(s.get_source(u).map(|t| t.text().to_string()), texts.get(*u).cloned(), "source", "{u}");
            let got: Vec<(String, R)> = block(s.document_symbols(u)).into_iter().map(|i| (i.name, i.range)).collect();
            let want: Vec<(String, R)> = if texts.contains_key(*u) && models.contains_key(*u) { syms.get(*u).map(|v| v.iter().map(|s| (s.name.clone(), s.range)).collect()).unwrap_or_default() } else { vec![] };
            ensure_eq!(got, want, "document symbols", "{u}");
            let got = block(s.with_root(u, |r| (r.offset, r.green.text_len())));
            ensure_eq!(got.map(|x| (x.0, x.1 as usize)), models.get(*u).map(|m| (0, m.len())), "with_root", "{u}");
            // definition
            let n = models.get(*u).map_or(3, |m| m.len());
            for _ in 0..6 {
                let mut at = g.below(n + 3);
                if let Some(M::Node(_, kids)) = models.get(*u)
                    && g.chance(1, 2)
                {
                    // inside a reference, if there is one
                    let mut p = 0;
                    for k in kids {
                        if matches!(k, M::Node(E::Atom, _)) && k.len() > 0 && g.chance(1, 2) {
                            at = p + g.below(k.len());
                        }
                        p += k.len();
                    }
                }
                let got: Vec<(String, R)> = block(s.definition(u, (at..at + g.below(3) * g.below(9)).into())).into_iter().map(|l| (l.uri.to_string(), l.range)).collect();
                let mut ok: Vec<Vec<(String, R)>> = vec![vec![]];
                if let (Some(m @ M::Node(rk, kids)), Some(t)) = (models.get(*u), texts.get(*u)) {
                    let mut p = 0;
                    let mut hit = (Some(*rk), 0, m.len());
                    for k in kids {
                        if at >= p && at < p + k.len() {
                            hit = match k {
                                M::Node(kk, _) => (Some(*kk), p, p + k.len()),
                                M::Leaf(..) => (None, p, p + k.len()),
                            };
                            break;
                        }
                        p += k.len();
                    }
                    match hit {
                        (None, a, e) => ok = vec![vec![(u.to_string(), (a..e).into())]],
                        (Some(E::Atom), a, e) => {
                            let name = &t[a..e];
                            let cands: Vec<Vec<(String, R)>> = syms.values().flatten().filter(|s| s.container_name.as_ref().map_or(s.name.clone(), |c| format!("{c}::{}", s.name)) == name).map(|s| vec![(s.uri.to_string(), s.range)]).collect();
                            if !cands.is_empty() {
                                c.seen("references resolved", 1);
                                ok = cands;
                            }
                            else {
                                match search.iter().map(|d| d.join(name)).find(|p| p.exists()) {
                                    Some(p) => {
                                        c.seen("references to an imported file", 1);
                                        ok = vec![vec![(uri_of(&p), (0..0).into())]];
                                    }
                                    None => c.seen("references to nothing", 1),
                                }
                            }
                        }
                        _ => {}
                    }
                }
                ensure!(ok.contains(&got), "definition", "{u} at {at}: {got:?}, wanted one of {ok:?}");
            }
        }
        // several trees at once, in the order asked
        let mut g2 = Rng::new(g.next());
        let ask: Vec<String> = (0..g.below(7)).map(|_| g.pick(&uris).to_string()).map(|u| if g2.chance(1, 6) { none.clone() } else { u }).collect();
        let got = block(s.with_roots(ask.clone(), |r| r.green.text_len() as usize));
        let want: Vec<usize> = ask.iter().filter_map(|u| models.get(u).map(|m| m.len())).collect();
        ensure_eq!(got, want, "with_roots", "{ask:?}");
        for q in ["", "a", "M::", "zz"] {
            let mut got: Vec<(String, String, usize)> = block(s.workspace_symbols(q.to_string())).into_iter().map(|x| (x.name, x.location.uri.to_string(), x.location.range.start)).collect();
            let mut want: Vec<(String, String, usize)> = syms.values().flatten().filter(|s| s.container_name.as_ref().map_or(s.name.clone(), |c| format!("{c}::{}", s.name)).contains(q)).map(|s| (s.name.clone(), s.uri.to_string(), s.range.start)).collect();
            got.sort();
            want.sort();
            ensure_eq!(got, want, "workspace symbols", "{q:?}");
        }
        drop(s);
        c.distinct(&log);
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&base);
}
