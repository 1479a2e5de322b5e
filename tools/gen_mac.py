#!/usr/bin/env python3
"""Writes harness/hmac/src/mac_cases.rs: macro calls over the whole grammar of doc! and json!, each beside what it must build. Always the same file."""
import random
from pathlib import Path

R = random.Random(20261119)
KEY = {"nil": "D::Nil", "line": "D::Line", "soft_line": "D::Soft", "soft_line_space": "D::SoftSpace", "hard_line": "D::Hard"}
LITS = ["word", "é", ", ", "(", "", "a b", "{}"]


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def cat(ms):
    return f"cat(vec![{', '.join(ms)}])"


def leaf():
    k = R.randrange(9)
    if k < 4:
        return R.choice(list(KEY.items()))
    if k == 4:
        s = R.choice(LITS)
        return lit(s), f"t({lit(s)})"
    return R.choice([("a.as_str()", "t(a)"), ("b.to_string()", "t(b)"), ("n.doc()", "n.clone()"), ("some.as_document()", "some.as_ref().map_or(D::Nil, |s| t(s))"), ('format!("<{}>", a)', 't(&format!("<{}>", a))')])


def seq(d, least=0):
    """Items between commas, the last one sometimes followed by a comma."""
    n = R.choice([1, 1, 2, 2, 3, 4]) if least else R.choice([0, 1, 2, 2, 3, 4])
    items = [doc(d) for _ in range(n)]
    s = ", ".join(i[0] for i in items) + ("," if n > 1 and R.random() < 0.2 else "")
    return s, [i[1] for i in items]


def doc(d):
    if d == 0 or R.random() < 0.25:
        return leaf()
    k = R.randrange(5)
    if k == 0:
        s, ms = seq(d - 1)
        return f"[{s}]", cat(ms)
    if k in (1, 2):
        s, ms = seq(d - 1, 1)
        return f"group({s})", f"group({cat(ms)})"
    if k == 3:
        s, ms = seq(d - 1, 1)
        return f"indent({s})", f"ind({cat(ms)})"
    s, m = doc(d - 1)
    i = R.choice(["many.iter()", "many.clone()", "many.iter().map(|x| x.as_str())", "many.iter().rev()"])
    return f"join({i}, {s})", f"join({'rev(many)' if 'rev' in i else 'all(many)'}, {m})"


docs = []
singles = list(KEY.items()) + [('"x"', 't("x")'), ("a.as_str()", "t(a)"), ("n.doc()", "n.clone()")]
for s, m in singles:
    docs.append((s, m))
    for s1, m1 in [(f"group({s})", f"group({m})"), (f"indent({s})", f"ind({m})"), (f"[{s}]", m), (f"join(many.iter(), {s})", f"join(all(many), {m})")]:
        docs.append((s1, m1))
        # between two words, and doubled
        docs.append((f"a.as_str(), {s1}, b.as_str()", cat(["t(a)", m1, "t(b)"])))
        docs.append((f"group(a.as_str(), group({s1}), b.as_str(), indent({s1}, b.as_str()))", "group(" + cat(["t(a)", f"group({m1})", "t(b)", "ind(" + cat([m1, "t(b)"]) + ")"]) + ")"))
for _ in range(110):
    docs.append(doc(4))

NAMES = ["a", "b", "null", "true_", "kind", "_", "é", "a1"]


def value(d):
    k = R.randrange(12 if d == 0 else 18)
    if k == 0:
        return "null", "Null"
    if k == 1:
        b = R.choice(["true", "false"])
        return b, f"Bool({b})"
    if k == 2:
        s = R.choice(LITS + ["null", 'q"\\', "\n", "[1]"])
        return lit(s), f"s({lit(s)})"
    if k in (3, 4):
        return R.choice([("0", "n(0.0)"), ("42", "n(42.0)"), ("-7", "n(-7.0)"), ("2.5", "n(2.5)"), ("-0.25", "n(-0.25)"), ("1e3", "n(1000.0)"), ("3u64", "n(3.0)"), ("0x1f", "n(31.0)"), ("1_000i64", "n(1000.0)"), ("1.5f32", "n(1.5)")])
    if k in (5, 6):
        return R.choice([("1 - h", "n((1 - h) as f64)"), ("2 * h", "n((2 * h) as f64)"), ("1 - *r", "n((1 - h) as f64)"), ("2.0 * f", "n(2.0 * f)"), ("h as f64 / 2.0", "n(h as f64 / 2.0)"), ("-h", "n(-h as f64)"), ("(h)", "n(h as f64)"), ("{ h + 1 }", None)][:7])
    if k in (7, 8):
        return R.choice([("a.as_str()", "s(a)"), ("b.clone()", "s(b)"), ("v.clone()", "j.clone()"), ("f", "n(f)"), ("h", "n(h as f64)"), ("a.len()", "n(a.len() as f64)"), ("!a.is_empty()", "Bool(!a.is_empty())"), ("a == b", "Bool(a == b)")])
    if k in (9, 10):
        return R.choice([("some.clone()", "some.as_ref().map_or(Null, |x| s(x))"), ("list.clone()", "lj.clone()"), ("()", "Null"), ("json!(null)", "Null"), ("if h > 0 { 1 } else { 2 }", "n(if h > 0 { 1.0 } else { 2.0 })"), ("match h { 0 => f, _ => 0.5 }", "n(if h == 0 { f } else { 0.5 })")])
    if k == 11:
        return R.choice([("[]", "Arr(vec![])"), ("{}", "Obj(vec![])")])
    if k < 15:
        vs = [value(d - 1) for _ in range(R.randrange(1, 5))]
        s, ms = ", ".join(v[0] for v in vs) + R.choice(["", "", ","]), [v[1] for v in vs]
        return f"[{s}]", f"Arr(vec![{', '.join(ms)}])"
    fs, ms = [], []
    for _ in range(R.randrange(1, 5)):
        v = value(d - 1)
        if R.random() < 0.5:
            name = R.choice(["a", "b", "null", "kind", "é", "a1", "true_", "_x"])
            k = name
        else:
            name = R.choice(["a", "b", "", " ", "type", "é\"", "a.b", "1", "null"])
            k = lit(name)
        fs.append(f"{k}: {v[0]}")
        ms.append(f"({lit(name)}.to_string(), {v[1]})")
    return "{ " + ", ".join(fs) + R.choice(["", "", ","]) + " }", f"Obj(vec![{', '.join(ms)}])"


vals = [value(0) for _ in range(40)] + [value(3) for _ in range(110)]

out = ["//! Written by tools/gen_mac.py: macro calls, each beside what it must build.", "use super::*;", "",
       "type Doc<'a> = Document<'a>;", ""]
def rust_str(s):
    return 'r##"' + s + '"##'
N = 25
def chunk(name, sig, pairs, macro, ret):
    fns = []
    for i in range(0, len(pairs), N):
        f = f"{name}_{i // N}"
        fns.append(f)
        out.append(f"fn {f}{sig} {{")
        for s, m in pairs[i:i + N]:
            out.append(f"    out.push(({rust_str(s)}, {macro}!({s}), {m}));")
        out.append("}")
    return fns
S1 = "<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>)"
f1 = chunk("docs", S1, docs, "doc", "")
out.append("pub fn docs" + S1 + " {")
out += [f"    {f}(a, b, n, many, some, out);" for f in f1] + ["}"]
S2 = "(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>)"
f2 = []
for i in range(0, len(vals), N):
    fn = f"values_{i // N}"
    f2.append(fn)
    out.append(f"fn {fn}{S2} {{")
    out.append("    let r = &h;")
    out.append("    let _ = (r, f, v, j, list, lj, some, b, a);")
    for s, m in vals[i:i + N]:
        out.append(f"    out.push(({rust_str(s)}, json!({s}), {m}));")
    out.append("}")
out.append("pub fn values" + S2 + " {")
out += [f"    {f}(a, b, f, h, v, j, list, lj, some, out);" for f in f2] + ["}"]
(Path(__file__).resolve().parent.parent / "harness/hmac/src/mac_cases.rs").write_text("\n".join(out) + "\n")
print(len(docs), "documents,", len(vals), "values")
