//! C37: a value or document written with a macro is exactly what was written.
use crate::{
    api::{J::*, *},
    layout::{D, config, gen_doc, words},
};
use oak_json::{
    ast::JsonValue,
    json,
};
use oak_pretty_print::{AsDocument, Document, doc};
use vcommon::*;

#[path = "mac_cases.rs"]
#[rustfmt::skip]
#[allow(unused)]
mod cases;

fn values(run: &mut Run) {
    run.family("json-values", 4000, 20_000, |c| {
        let g = &mut c.rng.clone();
        let (a, b) = (any(g, 2), any(g, 2));
        let (va, vb) = (made(&a), made(&b));
        let (t, u) = (word(g), word(g));
        let (i, l, w, z, k, f, h) = (g.next() as i32, g.next() as i32 as i64, g.next() as u32, g.next() as u32 as u64, g.below(1 << 20), number(g), (g.next() as i16) as f32);
        let (p, q) = (g.chance(1, 2), g.chance(1, 2));
        let maybe: Option<i32> = if p { Some(i) } else { None };
        let list: Vec<JsonValue> = (0..g.below(4)).map(|_| made(&any(g, 1))).collect();
        let jl = Arr(list.iter().map(read).collect());
        let nullable = t.clone();
        let twice = |x: i32| x.wrapping_mul(2);
        c.input(format!("{a:?} {b:?} {t:?} {u:?} {i} {l} {w} {z} {k} {f} {h} {p} {q} {maybe:?} {jl:?}"));
        c.distinct(&format!("{a:?} {b:?} {t:?} {f} {jl:?}"));
        let all: Vec<(&str, JsonValue, J)> = vec![
            ("null", json!(null), Null),
            ("a flag", json!(true), Bool(true)),
            ("a flag", json!(false), Bool(false)),
            ("a text", json!("x"), s("x")),
            ("an empty text", json!(""), s("")),
            ("a text with escapes", json!("q\"\\\n\u{e9}"), s("q\"\\\né")),
            ("a raw text", json!(r#"\"#), s("\\")),
            ("a number", json!(7), n(7.0)),
            ("a number", json!(0), n(0.0)),
            ("a number", json!(1_000), n(1000.0)),
            ("a number in hex", json!(0xff), n(255.0)),
            ("a number with a type", json!(3u64), n(3.0)),
            ("a fraction", json!(2.5), n(2.5)),
            ("a power", json!(1e3), n(1000.0)),
            ("a negative number", json!(-1), n(-1.0)),
            ("a negative fraction", json!(-0.5), n(-0.5)),
            ("an empty list", json!([]), Arr(vec![])),
            ("an empty object", json!({}), Obj(vec![])),
            ("a list", json!([1, "two", null, true, [3.5, []], {}]), Arr(vec![n(1.0), s("two"), Null, Bool(true), Arr(vec![n(3.5), Arr(vec![])]), Obj(vec![])])),
            ("a list with a last comma", json!([1, 2,]), Arr(vec![n(1.0), n(2.0)])),
            ("an object", json!({ "a": 1, "b": [2], "c": { "d": null } }), o([("a", n(1.0)), ("b", Arr(vec![n(2.0)])), ("c", o([("d", Null)]))])),
            ("an object with a last comma", json!({ "a": "x", }), o([("a", s("x"))])),
            ("names without quotes", json!({ a: 1, null: 2, kind: null, "z": 3 }), o([("a", n(1.0)), ("null", n(2.0)), ("kind", Null), ("z", n(3.0))])),
            ("unsorted and repeated names", json!({ "z": 1, "a": 2, "z": 3, "": 4, "é\"": 5 }), o([("z", n(1.0)), ("a", n(2.0)), ("z", n(3.0)), ("", n(4.0)), ("é\"", n(5.0))])),
            ("integers", json!([i, l, w, z, k]), Arr(vec![n(i as f64), n(l as f64), n(w as f64), n(z as f64), n(k as f64)])),
            ("fractions", json!([f, h]), Arr(vec![n(f), n(h as f64)])),
            ("flags", json!([p, { "q": q }]), Arr(vec![Bool(p), o([("q", Bool(q))])])),
            ("texts", json!({ "t": t.as_str(), "u": u.clone(), "n": nullable.clone() }), o([("t", s(&t)), ("u", s(&u)), ("n", s(&t))])),
            ("options", json!([maybe, { "m": maybe }]), Arr(vec![maybe.map_or(Null, |i| n(i as f64)), o([("m", maybe.map_or(Null, |i| n(i as f64)))])])),
            ("values within", json!({ "a": va.clone(), "list": [vb.clone(), va.clone()] }), o([("a", a.clone()), ("list", Arr(vec![b.clone(), a.clone()]))])),
            ("a value itself", json!(va.clone()), a.clone()),
            ("lists of values", json!([list.clone(), { "l": list.clone() }]), Arr(vec![jl.clone(), o([("l", jl.clone())])])),
            ("a macro within", json!([json!({ "x": t.as_str() }), json!(null)]), Arr(vec![o([("x", s(&t))]), Null])),
            ("expressions", json!([twice(i), i as f64 + 0.5, if p { 1 } else { 2 }, t.len(), (w)]), Arr(vec![n(twice(i) as f64), n(i as f64 + 0.5), n(if p { 1.0 } else { 2.0 }), n(t.len() as f64), n(w as f64)])),
            ("nothing", json!([(), { "x": () }]), Arr(vec![Null, o([("x", Null)])])),
            ("deep", json!([[[[[{ "a": [{ "b": [[i]] }] }]]]]]), Arr(vec![Arr(vec![Arr(vec![Arr(vec![Arr(vec![o([("a", Arr(vec![o([("b", Arr(vec![Arr(vec![n(i as f64)])]))])]))])])])])])])),
            ("collected", list.iter().cloned().collect::<JsonValue>(), jl.clone()),
        ];
        for (what, got, want) in &all {
            ensure_eq!(&read(got), want, format!("{what} written with json!"), "");
            ensure!(*got == made(want), format!("{what} written with json!"), "unlike the value made by hand: {got:?}");
            c.seen("JSON values compared", 1);
        }
        // Each expression is evaluated once, in the order written.
        let log = std::cell::RefCell::new(Vec::new());
        let at = |i: usize| -> usize {
            log.borrow_mut().push(i);
            i
        };
        let got = json!({ "a": at(0), b: [at(1), { c: at(2), "d": Some(at(3)) }, at(4)], "e": { "f": [[at(5)], at(6)] }, "g": json!([at(7)]), "b": at(8) });
        let want = o([
            ("a", n(0.0)),
            ("b", Arr(vec![n(1.0), o([("c", n(2.0)), ("d", n(3.0))]), n(4.0)])),
            ("e", o([("f", Arr(vec![Arr(vec![n(5.0)]), n(6.0)]))])),
            ("g", Arr(vec![n(7.0)])),
            ("b", n(8.0)),
        ]);
        let mut out = vec![];
        cases::values(&t, &u, f, i % 1000, &va, &a, &list, &jl, &maybe.map(|_| u.clone()), &mut out);
        for (what, got, want) in &out {
            ensure_eq!(&read(got), want, format!("json!({what})"), "");
            c.seen("JSON values compared", 1);
        }
        ensure_eq!(read(&got), want, "expressions in a value written with json!", "");
        ensure_eq!(*log.borrow(), (0..9).collect::<Vec<_>>(), "when the expressions in json! are evaluated", "");
        Ok(())
    });
}

#[derive(AsDocument)]
struct Tuple(String);
#[derive(AsDocument)]
struct Named {
    inner: Vec<Tuple>,
}
#[derive(AsDocument)]
#[allow(dead_code)]
struct Plain {
    a: String,
    b: String,
}
#[derive(AsDocument)]
struct Unit;
#[derive(AsDocument)]
#[oak(doc = group([_self.head.as_str(), indent([soft_line, join(self.items.iter(), [",", line])]), hard_line, _self.tail.as_document()]))]
struct Shaped {
    head: String,
    items: Vec<Tuple>,
    tail: Option<String>,
}
#[derive(AsDocument)]
#[oak(doc = self.0.to_string())]
struct Shown(i32);
#[derive(AsDocument)]
struct Generic<T: AsDocument>(T);
#[derive(AsDocument)]
#[oak(doc = ["<", self.0.as_document(), soft_line_space, self.1.as_document(), ">"])]
struct Pair<T: AsDocument, U: AsDocument>(T, U);
#[derive(AsDocument)]
enum Tree {
    Nothing,
    #[oak(doc = ["nil", line])]
    Word,
    Leaf(String),
    #[oak(doc = group([_self.as_str(), soft_line, "!"]))]
    Loud(String),
    #[oak(doc = ["[", _self.as_document(), "]"])]
    Field {
        name: String,
    },
    #[oak(doc = [indent("two"), hard_line])]
    Two(#[allow(dead_code)] String, #[allow(dead_code)] i32),
    Three(#[allow(dead_code)] String, #[allow(dead_code)] String, #[allow(dead_code)] i32),
    #[oak(doc = group(indent([line, join(_self.iter(), line), soft_line_space])))]
    Node(Vec<Tree>),
    Boxed(Box<Tree>),
    Maybe(Option<Box<Tree>>),
}

fn tree(g: &mut Rng, d: usize) -> (Tree, D) {
    let w = words(g);
    match g.below(if d == 0 { 7 } else { 11 }) {
        0 => (Tree::Nothing, D::Nil),
        1 => (Tree::Word, cat(vec![t("nil"), D::Line])),
        2 => (Tree::Leaf(w.clone()), t(&w)),
        3 => (Tree::Loud(w.clone()), group(cat(vec![t(&w), D::Soft, t("!")]))),
        4 => (Tree::Field { name: w.clone() }, cat(vec![t("["), t(&w), t("]")])),
        5 => (Tree::Two(w, 1), cat(vec![ind(t("two")), D::Hard])),
        6 => (Tree::Three(w.clone(), w, 2), D::Nil),
        7 | 8 => {
            let v: Vec<_> = (0..g.below(4)).map(|_| tree(g, d - 1)).collect();
            let docs = v.iter().map(|x| x.1.clone()).collect();
            (Tree::Node(v.into_iter().map(|x| x.0).collect()), group(ind(cat(vec![D::Line, join(docs, D::Line), D::SoftSpace]))))
        }
        9 => {
            let (x, d) = tree(g, d - 1);
            (Tree::Boxed(Box::new(x)), d)
        }
        _ if g.chance(1, 3) => (Tree::Maybe(None), D::Nil),
        _ => {
            let (x, d) = tree(g, d - 1);
            (Tree::Maybe(Some(Box::new(x))), d)
        }
    }
}

fn documents(run: &mut Run) {
    run.family("derived-documents", 3000, 15_000, |c| {
        let g = &mut c.rng.clone();
        let cfg = config(g)?;
        let (a, b) = (words(g), words(g));
        let many: Vec<String> = (0..g.below(5)).map(|_| words(g)).collect();
        let tail = if g.chance(1, 2) { Some(b.clone()) } else { None };
        let x = g.next() as i32;
        let deep = g.below(4);
        let (tr, dt) = tree(g, deep);
        c.input(format!("{cfg:?} {a:?} {b:?} {many:?} {tail:?} {x} {dt:?}"));
        c.distinct(&format!("{a:?} {many:?} {dt:?}"));
        let tuples = || many.iter().map(|m| Tuple(m.clone())).collect::<Vec<_>>();
        same(c, "a wrapper", Tuple(a.clone()).as_document(), &t(&a), &cfg)?;
        same(c, "a single field", Named { inner: tuples() }.as_document(), &cat(many.iter().map(|m| t(m)).collect()), &cfg)?;
        same(c, "fields without a layout", Plain { a: a.clone(), b: b.clone() }.as_document(), &D::Nil, &cfg)?;
        same(c, "no field", Unit.as_document(), &D::Nil, &cfg)?;
        let shaped = Shaped { head: a.clone(), items: tuples(), tail: tail.clone() };
        let want = group(cat(vec![t(&a), ind(cat(vec![D::Soft, join(many.iter().map(|m| t(m)).collect(), cat(vec![t(","), D::Line]))])), D::Hard, tail.as_ref().map_or(D::Nil, |b| t(b))]));
        same(c, "a layout", shaped.as_document(), &want, &cfg)?;
        same(c, "a computed text", Shown(x).as_document(), &t(&x.to_string()), &cfg)?;
        same(c, "a generic wrapper", Generic(shaped).as_document(), &want, &cfg)?;
        same(c, "a generic layout", Pair(Tuple(a.clone()), Generic(b.clone())).as_document(), &cat(vec![t("<"), t(&a), D::SoftSpace, t(&b), t(">")]), &cfg)?;
        same(c, "a tree", tr.as_document(), &dt, &cfg)
    });
    run.family("doc-templates", 3000, 15_000, |c| {
        let g = &mut c.rng.clone();
        let cfg = config(g)?;
        let (a, b) = (words(g), words(g));
        let (m, n) = (gen_doc(g, 3, &mut 10), gen_doc(g, 2, &mut 6));
        let many: Vec<String> = (0..g.below(5)).map(|_| words(g)).collect();
        let list = || many.iter().map(|m| t(m)).collect::<Vec<_>>();
        let maybe = if g.chance(1, 2) { Some(a.clone()) } else { None };
        let line_count = a.clone();
        c.input(format!("{cfg:?} {a:?} {b:?} {m:?} {n:?} {many:?} {maybe:?}"));
        c.distinct(&format!("{a:?} {m:?} {n:?} {many:?}"));
        let e = |d: &D| d.doc();
        let all: Vec<(&str, Document<'_>, D)> = vec![
            ("nil", doc!(nil), D::Nil),
            ("line", doc!(line), D::Line),
            ("soft_line", doc!(soft_line), D::Soft),
            ("soft_line_space", doc!(soft_line_space), D::SoftSpace),
            ("hard_line", doc!(hard_line), D::Hard),
            ("a text", doc!("é x"), t("é x")),
            ("an expression", doc!(format!("{a}!")), t(&format!("{a}!"))),
            ("a call", doc!(e(&m)), m.clone()),
            ("an empty list", doc!([]), cat(vec![])),
            ("a list", doc!([a.as_str(), line, b.as_str()]), cat(vec![t(&a), D::Line, t(&b)])),
            ("a list of lists", doc!([[a.as_str()], [], [line, [b.as_str(),]],]), cat(vec![t(&a), D::Line, t(&b)])),
            ("a list in a list", doc!([group("a"), indent([hard_line, "b"]), nil]), cat(vec![group(t("a")), ind(cat(vec![D::Hard, t("b")])), D::Nil])),
            ("commas", doc!("a", line, "b", soft_line, e(&n)), cat(vec![t("a"), D::Line, t("b"), D::Soft, n.clone()])),
            ("a comma in a group", doc!(group("a", line, e(&m))), group(cat(vec![t("a"), D::Line, m.clone()]))),
            ("a comma in an indentation", doc!(indent(hard_line, e(&m)), "z"), cat(vec![ind(cat(vec![D::Hard, m.clone()])), t("z")])),
            ("groups in groups", doc!(group([group([a.as_str(), line]), indent(group([line, e(&m)])), e(&n)])), group(cat(vec![group(cat(vec![t(&a), D::Line])), ind(group(cat(vec![D::Line, m.clone()]))), n.clone()]))),
            ("a join", doc!(join(many.iter(), line)), join(list(), D::Line)),
            ("a join by a list", doc!(join(many.iter().map(|x| x.as_str()), [",", soft_line_space])), join(list(), cat(vec![t(","), D::SoftSpace]))),
            ("a join within", doc!(group(["(", indent([soft_line, join(many.iter(), [",", line])]), soft_line, ")"])), group(cat(vec![t("("), ind(cat(vec![D::Soft, join(list(), cat(vec![t(","), D::Line]))])), D::Soft, t(")")]))),
            ("a join by a group", doc!(join(many.clone(), group([line, "+"]))), join(list(), group(cat(vec![D::Line, t("+")])))),
            ("an option", doc!([maybe.as_document(), "."]), cat(vec![maybe.as_ref().map_or(D::Nil, |m| t(m)), t(".")])),
            ("a name like a keyword", doc!(line_count.as_str()), t(&a)),
            ("a document", doc!(indent(doc!(line, group(doc!("x", soft_line))))), ind(cat(vec![D::Line, group(cat(vec![t("x"), D::Soft]))]))),
        ];
        for (what, got, want) in all {
            same(c, what, got, &want, &cfg)?;
        }
        let mut out = vec![];
        cases::docs(&a, &b, &n, &many, &maybe, &mut out);
        for (what, got, want) in out {
            same(c, &format!("doc!({what})"), got, &want, &cfg)?;
        }
        Ok(())
    });
}

pub fn macros(run: &mut Run) {
    values(run);
    documents(run);
}
