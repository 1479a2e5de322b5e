//! Written by tools/gen_mac.py: macro calls, each beside what it must build.
use super::*;

type Doc<'a> = Document<'a>;

fn docs_0<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"nil"##, doc!(nil), D::Nil));
    out.push((r##"group(nil)"##, doc!(group(nil)), group(D::Nil)));
    out.push((r##"a.as_str(), group(nil), b.as_str()"##, doc!(a.as_str(), group(nil), b.as_str()), cat(vec![t(a), group(D::Nil), t(b)])));
    out.push((r##"group(a.as_str(), group(group(nil)), b.as_str(), indent(group(nil), b.as_str()))"##, doc!(group(a.as_str(), group(group(nil)), b.as_str(), indent(group(nil), b.as_str()))), group(cat(vec![t(a), group(group(D::Nil)), t(b), ind(cat(vec![group(D::Nil), t(b)]))]))));
    out.push((r##"indent(nil)"##, doc!(indent(nil)), ind(D::Nil)));
    out.push((r##"a.as_str(), indent(nil), b.as_str()"##, doc!(a.as_str(), indent(nil), b.as_str()), cat(vec![t(a), ind(D::Nil), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(nil)), b.as_str(), indent(indent(nil), b.as_str()))"##, doc!(group(a.as_str(), group(indent(nil)), b.as_str(), indent(indent(nil), b.as_str()))), group(cat(vec![t(a), group(ind(D::Nil)), t(b), ind(cat(vec![ind(D::Nil), t(b)]))]))));
    out.push((r##"[nil]"##, doc!([nil]), D::Nil));
    out.push((r##"a.as_str(), [nil], b.as_str()"##, doc!(a.as_str(), [nil], b.as_str()), cat(vec![t(a), D::Nil, t(b)])));
    out.push((r##"group(a.as_str(), group([nil]), b.as_str(), indent([nil], b.as_str()))"##, doc!(group(a.as_str(), group([nil]), b.as_str(), indent([nil], b.as_str()))), group(cat(vec![t(a), group(D::Nil), t(b), ind(cat(vec![D::Nil, t(b)]))]))));
    out.push((r##"join(many.iter(), nil)"##, doc!(join(many.iter(), nil)), join(all(many), D::Nil)));
    out.push((r##"a.as_str(), join(many.iter(), nil), b.as_str()"##, doc!(a.as_str(), join(many.iter(), nil), b.as_str()), cat(vec![t(a), join(all(many), D::Nil), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), nil)), b.as_str(), indent(join(many.iter(), nil), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), nil)), b.as_str(), indent(join(many.iter(), nil), b.as_str()))), group(cat(vec![t(a), group(join(all(many), D::Nil)), t(b), ind(cat(vec![join(all(many), D::Nil), t(b)]))]))));
    out.push((r##"line"##, doc!(line), D::Line));
    out.push((r##"group(line)"##, doc!(group(line)), group(D::Line)));
    out.push((r##"a.as_str(), group(line), b.as_str()"##, doc!(a.as_str(), group(line), b.as_str()), cat(vec![t(a), group(D::Line), t(b)])));
    out.push((r##"group(a.as_str(), group(group(line)), b.as_str(), indent(group(line), b.as_str()))"##, doc!(group(a.as_str(), group(group(line)), b.as_str(), indent(group(line), b.as_str()))), group(cat(vec![t(a), group(group(D::Line)), t(b), ind(cat(vec![group(D::Line), t(b)]))]))));
    out.push((r##"indent(line)"##, doc!(indent(line)), ind(D::Line)));
    out.push((r##"a.as_str(), indent(line), b.as_str()"##, doc!(a.as_str(), indent(line), b.as_str()), cat(vec![t(a), ind(D::Line), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(line)), b.as_str(), indent(indent(line), b.as_str()))"##, doc!(group(a.as_str(), group(indent(line)), b.as_str(), indent(indent(line), b.as_str()))), group(cat(vec![t(a), group(ind(D::Line)), t(b), ind(cat(vec![ind(D::Line), t(b)]))]))));
    out.push((r##"[line]"##, doc!([line]), D::Line));
    out.push((r##"a.as_str(), [line], b.as_str()"##, doc!(a.as_str(), [line], b.as_str()), cat(vec![t(a), D::Line, t(b)])));
    out.push((r##"group(a.as_str(), group([line]), b.as_str(), indent([line], b.as_str()))"##, doc!(group(a.as_str(), group([line]), b.as_str(), indent([line], b.as_str()))), group(cat(vec![t(a), group(D::Line), t(b), ind(cat(vec![D::Line, t(b)]))]))));
    out.push((r##"join(many.iter(), line)"##, doc!(join(many.iter(), line)), join(all(many), D::Line)));
    out.push((r##"a.as_str(), join(many.iter(), line), b.as_str()"##, doc!(a.as_str(), join(many.iter(), line), b.as_str()), cat(vec![t(a), join(all(many), D::Line), t(b)])));
}
fn docs_1<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"group(a.as_str(), group(join(many.iter(), line)), b.as_str(), indent(join(many.iter(), line), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), line)), b.as_str(), indent(join(many.iter(), line), b.as_str()))), group(cat(vec![t(a), group(join(all(many), D::Line)), t(b), ind(cat(vec![join(all(many), D::Line), t(b)]))]))));
    out.push((r##"soft_line"##, doc!(soft_line), D::Soft));
    out.push((r##"group(soft_line)"##, doc!(group(soft_line)), group(D::Soft)));
    out.push((r##"a.as_str(), group(soft_line), b.as_str()"##, doc!(a.as_str(), group(soft_line), b.as_str()), cat(vec![t(a), group(D::Soft), t(b)])));
    out.push((r##"group(a.as_str(), group(group(soft_line)), b.as_str(), indent(group(soft_line), b.as_str()))"##, doc!(group(a.as_str(), group(group(soft_line)), b.as_str(), indent(group(soft_line), b.as_str()))), group(cat(vec![t(a), group(group(D::Soft)), t(b), ind(cat(vec![group(D::Soft), t(b)]))]))));
    out.push((r##"indent(soft_line)"##, doc!(indent(soft_line)), ind(D::Soft)));
    out.push((r##"a.as_str(), indent(soft_line), b.as_str()"##, doc!(a.as_str(), indent(soft_line), b.as_str()), cat(vec![t(a), ind(D::Soft), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(soft_line)), b.as_str(), indent(indent(soft_line), b.as_str()))"##, doc!(group(a.as_str(), group(indent(soft_line)), b.as_str(), indent(indent(soft_line), b.as_str()))), group(cat(vec![t(a), group(ind(D::Soft)), t(b), ind(cat(vec![ind(D::Soft), t(b)]))]))));
    out.push((r##"[soft_line]"##, doc!([soft_line]), D::Soft));
    out.push((r##"a.as_str(), [soft_line], b.as_str()"##, doc!(a.as_str(), [soft_line], b.as_str()), cat(vec![t(a), D::Soft, t(b)])));
    out.push((r##"group(a.as_str(), group([soft_line]), b.as_str(), indent([soft_line], b.as_str()))"##, doc!(group(a.as_str(), group([soft_line]), b.as_str(), indent([soft_line], b.as_str()))), group(cat(vec![t(a), group(D::Soft), t(b), ind(cat(vec![D::Soft, t(b)]))]))));
    out.push((r##"join(many.iter(), soft_line)"##, doc!(join(many.iter(), soft_line)), join(all(many), D::Soft)));
    out.push((r##"a.as_str(), join(many.iter(), soft_line), b.as_str()"##, doc!(a.as_str(), join(many.iter(), soft_line), b.as_str()), cat(vec![t(a), join(all(many), D::Soft), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), soft_line)), b.as_str(), indent(join(many.iter(), soft_line), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), soft_line)), b.as_str(), indent(join(many.iter(), soft_line), b.as_str()))), group(cat(vec![t(a), group(join(all(many), D::Soft)), t(b), ind(cat(vec![join(all(many), D::Soft), t(b)]))]))));
    out.push((r##"soft_line_space"##, doc!(soft_line_space), D::SoftSpace));
    out.push((r##"group(soft_line_space)"##, doc!(group(soft_line_space)), group(D::SoftSpace)));
    out.push((r##"a.as_str(), group(soft_line_space), b.as_str()"##, doc!(a.as_str(), group(soft_line_space), b.as_str()), cat(vec![t(a), group(D::SoftSpace), t(b)])));
    out.push((r##"group(a.as_str(), group(group(soft_line_space)), b.as_str(), indent(group(soft_line_space), b.as_str()))"##, doc!(group(a.as_str(), group(group(soft_line_space)), b.as_str(), indent(group(soft_line_space), b.as_str()))), group(cat(vec![t(a), group(group(D::SoftSpace)), t(b), ind(cat(vec![group(D::SoftSpace), t(b)]))]))));
    out.push((r##"indent(soft_line_space)"##, doc!(indent(soft_line_space)), ind(D::SoftSpace)));
    out.push((r##"a.as_str(), indent(soft_line_space), b.as_str()"##, doc!(a.as_str(), indent(soft_line_space), b.as_str()), cat(vec![t(a), ind(D::SoftSpace), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(soft_line_space)), b.as_str(), indent(indent(soft_line_space), b.as_str()))"##, doc!(group(a.as_str(), group(indent(soft_line_space)), b.as_str(), indent(indent(soft_line_space), b.as_str()))), group(cat(vec![t(a), group(ind(D::SoftSpace)), t(b), ind(cat(vec![ind(D::SoftSpace), t(b)]))]))));
    out.push((r##"[soft_line_space]"##, doc!([soft_line_space]), D::SoftSpace));
    out.push((r##"a.as_str(), [soft_line_space], b.as_str()"##, doc!(a.as_str(), [soft_line_space], b.as_str()), cat(vec![t(a), D::SoftSpace, t(b)])));
    out.push((r##"group(a.as_str(), group([soft_line_space]), b.as_str(), indent([soft_line_space], b.as_str()))"##, doc!(group(a.as_str(), group([soft_line_space]), b.as_str(), indent([soft_line_space], b.as_str()))), group(cat(vec![t(a), group(D::SoftSpace), t(b), ind(cat(vec![D::SoftSpace, t(b)]))]))));
    out.push((r##"join(many.iter(), soft_line_space)"##, doc!(join(many.iter(), soft_line_space)), join(all(many), D::SoftSpace)));
}
fn docs_2<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"a.as_str(), join(many.iter(), soft_line_space), b.as_str()"##, doc!(a.as_str(), join(many.iter(), soft_line_space), b.as_str()), cat(vec![t(a), join(all(many), D::SoftSpace), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), soft_line_space)), b.as_str(), indent(join(many.iter(), soft_line_space), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), soft_line_space)), b.as_str(), indent(join(many.iter(), soft_line_space), b.as_str()))), group(cat(vec![t(a), group(join(all(many), D::SoftSpace)), t(b), ind(cat(vec![join(all(many), D::SoftSpace), t(b)]))]))));
    out.push((r##"hard_line"##, doc!(hard_line), D::Hard));
    out.push((r##"group(hard_line)"##, doc!(group(hard_line)), group(D::Hard)));
    out.push((r##"a.as_str(), group(hard_line), b.as_str()"##, doc!(a.as_str(), group(hard_line), b.as_str()), cat(vec![t(a), group(D::Hard), t(b)])));
    out.push((r##"group(a.as_str(), group(group(hard_line)), b.as_str(), indent(group(hard_line), b.as_str()))"##, doc!(group(a.as_str(), group(group(hard_line)), b.as_str(), indent(group(hard_line), b.as_str()))), group(cat(vec![t(a), group(group(D::Hard)), t(b), ind(cat(vec![group(D::Hard), t(b)]))]))));
    out.push((r##"indent(hard_line)"##, doc!(indent(hard_line)), ind(D::Hard)));
    out.push((r##"a.as_str(), indent(hard_line), b.as_str()"##, doc!(a.as_str(), indent(hard_line), b.as_str()), cat(vec![t(a), ind(D::Hard), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(hard_line)), b.as_str(), indent(indent(hard_line), b.as_str()))"##, doc!(group(a.as_str(), group(indent(hard_line)), b.as_str(), indent(indent(hard_line), b.as_str()))), group(cat(vec![t(a), group(ind(D::Hard)), t(b), ind(cat(vec![ind(D::Hard), t(b)]))]))));
    out.push((r##"[hard_line]"##, doc!([hard_line]), D::Hard));
    out.push((r##"a.as_str(), [hard_line], b.as_str()"##, doc!(a.as_str(), [hard_line], b.as_str()), cat(vec![t(a), D::Hard, t(b)])));
    out.push((r##"group(a.as_str(), group([hard_line]), b.as_str(), indent([hard_line], b.as_str()))"##, doc!(group(a.as_str(), group([hard_line]), b.as_str(), indent([hard_line], b.as_str()))), group(cat(vec![t(a), group(D::Hard), t(b), ind(cat(vec![D::Hard, t(b)]))]))));
    out.push((r##"join(many.iter(), hard_line)"##, doc!(join(many.iter(), hard_line)), join(all(many), D::Hard)));
    out.push((r##"a.as_str(), join(many.iter(), hard_line), b.as_str()"##, doc!(a.as_str(), join(many.iter(), hard_line), b.as_str()), cat(vec![t(a), join(all(many), D::Hard), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), hard_line)), b.as_str(), indent(join(many.iter(), hard_line), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), hard_line)), b.as_str(), indent(join(many.iter(), hard_line), b.as_str()))), group(cat(vec![t(a), group(join(all(many), D::Hard)), t(b), ind(cat(vec![join(all(many), D::Hard), t(b)]))]))));
    out.push((r##""x""##, doc!("x"), t("x")));
    out.push((r##"group("x")"##, doc!(group("x")), group(t("x"))));
    out.push((r##"a.as_str(), group("x"), b.as_str()"##, doc!(a.as_str(), group("x"), b.as_str()), cat(vec![t(a), group(t("x")), t(b)])));
    out.push((r##"group(a.as_str(), group(group("x")), b.as_str(), indent(group("x"), b.as_str()))"##, doc!(group(a.as_str(), group(group("x")), b.as_str(), indent(group("x"), b.as_str()))), group(cat(vec![t(a), group(group(t("x"))), t(b), ind(cat(vec![group(t("x")), t(b)]))]))));
    out.push((r##"indent("x")"##, doc!(indent("x")), ind(t("x"))));
    out.push((r##"a.as_str(), indent("x"), b.as_str()"##, doc!(a.as_str(), indent("x"), b.as_str()), cat(vec![t(a), ind(t("x")), t(b)])));
    out.push((r##"group(a.as_str(), group(indent("x")), b.as_str(), indent(indent("x"), b.as_str()))"##, doc!(group(a.as_str(), group(indent("x")), b.as_str(), indent(indent("x"), b.as_str()))), group(cat(vec![t(a), group(ind(t("x"))), t(b), ind(cat(vec![ind(t("x")), t(b)]))]))));
    out.push((r##"["x"]"##, doc!(["x"]), t("x")));
    out.push((r##"a.as_str(), ["x"], b.as_str()"##, doc!(a.as_str(), ["x"], b.as_str()), cat(vec![t(a), t("x"), t(b)])));
    out.push((r##"group(a.as_str(), group(["x"]), b.as_str(), indent(["x"], b.as_str()))"##, doc!(group(a.as_str(), group(["x"]), b.as_str(), indent(["x"], b.as_str()))), group(cat(vec![t(a), group(t("x")), t(b), ind(cat(vec![t("x"), t(b)]))]))));
}
fn docs_3<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"join(many.iter(), "x")"##, doc!(join(many.iter(), "x")), join(all(many), t("x"))));
    out.push((r##"a.as_str(), join(many.iter(), "x"), b.as_str()"##, doc!(a.as_str(), join(many.iter(), "x"), b.as_str()), cat(vec![t(a), join(all(many), t("x")), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), "x")), b.as_str(), indent(join(many.iter(), "x"), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), "x")), b.as_str(), indent(join(many.iter(), "x"), b.as_str()))), group(cat(vec![t(a), group(join(all(many), t("x"))), t(b), ind(cat(vec![join(all(many), t("x")), t(b)]))]))));
    out.push((r##"a.as_str()"##, doc!(a.as_str()), t(a)));
    out.push((r##"group(a.as_str())"##, doc!(group(a.as_str())), group(t(a))));
    out.push((r##"a.as_str(), group(a.as_str()), b.as_str()"##, doc!(a.as_str(), group(a.as_str()), b.as_str()), cat(vec![t(a), group(t(a)), t(b)])));
    out.push((r##"group(a.as_str(), group(group(a.as_str())), b.as_str(), indent(group(a.as_str()), b.as_str()))"##, doc!(group(a.as_str(), group(group(a.as_str())), b.as_str(), indent(group(a.as_str()), b.as_str()))), group(cat(vec![t(a), group(group(t(a))), t(b), ind(cat(vec![group(t(a)), t(b)]))]))));
    out.push((r##"indent(a.as_str())"##, doc!(indent(a.as_str())), ind(t(a))));
    out.push((r##"a.as_str(), indent(a.as_str()), b.as_str()"##, doc!(a.as_str(), indent(a.as_str()), b.as_str()), cat(vec![t(a), ind(t(a)), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(a.as_str())), b.as_str(), indent(indent(a.as_str()), b.as_str()))"##, doc!(group(a.as_str(), group(indent(a.as_str())), b.as_str(), indent(indent(a.as_str()), b.as_str()))), group(cat(vec![t(a), group(ind(t(a))), t(b), ind(cat(vec![ind(t(a)), t(b)]))]))));
    out.push((r##"[a.as_str()]"##, doc!([a.as_str()]), t(a)));
    out.push((r##"a.as_str(), [a.as_str()], b.as_str()"##, doc!(a.as_str(), [a.as_str()], b.as_str()), cat(vec![t(a), t(a), t(b)])));
    out.push((r##"group(a.as_str(), group([a.as_str()]), b.as_str(), indent([a.as_str()], b.as_str()))"##, doc!(group(a.as_str(), group([a.as_str()]), b.as_str(), indent([a.as_str()], b.as_str()))), group(cat(vec![t(a), group(t(a)), t(b), ind(cat(vec![t(a), t(b)]))]))));
    out.push((r##"join(many.iter(), a.as_str())"##, doc!(join(many.iter(), a.as_str())), join(all(many), t(a))));
    out.push((r##"a.as_str(), join(many.iter(), a.as_str()), b.as_str()"##, doc!(a.as_str(), join(many.iter(), a.as_str()), b.as_str()), cat(vec![t(a), join(all(many), t(a)), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), a.as_str())), b.as_str(), indent(join(many.iter(), a.as_str()), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), a.as_str())), b.as_str(), indent(join(many.iter(), a.as_str()), b.as_str()))), group(cat(vec![t(a), group(join(all(many), t(a))), t(b), ind(cat(vec![join(all(many), t(a)), t(b)]))]))));
    out.push((r##"n.doc()"##, doc!(n.doc()), n.clone()));
    out.push((r##"group(n.doc())"##, doc!(group(n.doc())), group(n.clone())));
    out.push((r##"a.as_str(), group(n.doc()), b.as_str()"##, doc!(a.as_str(), group(n.doc()), b.as_str()), cat(vec![t(a), group(n.clone()), t(b)])));
    out.push((r##"group(a.as_str(), group(group(n.doc())), b.as_str(), indent(group(n.doc()), b.as_str()))"##, doc!(group(a.as_str(), group(group(n.doc())), b.as_str(), indent(group(n.doc()), b.as_str()))), group(cat(vec![t(a), group(group(n.clone())), t(b), ind(cat(vec![group(n.clone()), t(b)]))]))));
    out.push((r##"indent(n.doc())"##, doc!(indent(n.doc())), ind(n.clone())));
    out.push((r##"a.as_str(), indent(n.doc()), b.as_str()"##, doc!(a.as_str(), indent(n.doc()), b.as_str()), cat(vec![t(a), ind(n.clone()), t(b)])));
    out.push((r##"group(a.as_str(), group(indent(n.doc())), b.as_str(), indent(indent(n.doc()), b.as_str()))"##, doc!(group(a.as_str(), group(indent(n.doc())), b.as_str(), indent(indent(n.doc()), b.as_str()))), group(cat(vec![t(a), group(ind(n.clone())), t(b), ind(cat(vec![ind(n.clone()), t(b)]))]))));
    out.push((r##"[n.doc()]"##, doc!([n.doc()]), n.clone()));
    out.push((r##"a.as_str(), [n.doc()], b.as_str()"##, doc!(a.as_str(), [n.doc()], b.as_str()), cat(vec![t(a), n.clone(), t(b)])));
}
fn docs_4<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"group(a.as_str(), group([n.doc()]), b.as_str(), indent([n.doc()], b.as_str()))"##, doc!(group(a.as_str(), group([n.doc()]), b.as_str(), indent([n.doc()], b.as_str()))), group(cat(vec![t(a), group(n.clone()), t(b), ind(cat(vec![n.clone(), t(b)]))]))));
    out.push((r##"join(many.iter(), n.doc())"##, doc!(join(many.iter(), n.doc())), join(all(many), n.clone())));
    out.push((r##"a.as_str(), join(many.iter(), n.doc()), b.as_str()"##, doc!(a.as_str(), join(many.iter(), n.doc()), b.as_str()), cat(vec![t(a), join(all(many), n.clone()), t(b)])));
    out.push((r##"group(a.as_str(), group(join(many.iter(), n.doc())), b.as_str(), indent(join(many.iter(), n.doc()), b.as_str()))"##, doc!(group(a.as_str(), group(join(many.iter(), n.doc())), b.as_str(), indent(join(many.iter(), n.doc()), b.as_str()))), group(cat(vec![t(a), group(join(all(many), n.clone())), t(b), ind(cat(vec![join(all(many), n.clone()), t(b)]))]))));
    out.push((r##"join(many.iter().map(|x| x.as_str()), join(many.iter().rev(), soft_line))"##, doc!(join(many.iter().map(|x| x.as_str()), join(many.iter().rev(), soft_line))), join(all(many), join(rev(many), D::Soft))));
    out.push((r##"group(soft_line, format!("<{}>", a), join(many.clone(), []))"##, doc!(group(soft_line, format!("<{}>", a), join(many.clone(), []))), group(cat(vec![D::Soft, t(&format!("<{}>", a)), join(all(many), cat(vec![]))]))));
    out.push((r##"soft_line"##, doc!(soft_line), D::Soft));
    out.push((r##"[group("word")]"##, doc!([group("word")]), cat(vec![group(cat(vec![t("word")]))])));
    out.push((r##"indent("word", join(many.iter().rev(), group([], indent(a.as_str(), format!("<{}>", a), "word", hard_line))), indent(group(soft_line_space, some.as_document(),)))"##, doc!(indent("word", join(many.iter().rev(), group([], indent(a.as_str(), format!("<{}>", a), "word", hard_line))), indent(group(soft_line_space, some.as_document(),)))), ind(cat(vec![t("word"), join(rev(many), group(cat(vec![cat(vec![]), ind(cat(vec![t(a), t(&format!("<{}>", a)), t("word"), D::Hard]))]))), ind(cat(vec![group(cat(vec![D::SoftSpace, some.as_ref().map_or(D::Nil, |s| t(s))]))]))]))));
    out.push((r##"indent(indent(indent(indent(n.doc(), format!("<{}>", a)), soft_line_space, join(many.iter(), n.doc()), n.doc()), join(many.clone(), [some.as_document()]),), join(many.iter().map(|x| x.as_str()), some.as_document()), [a.as_str()], join(many.iter().rev(), indent(group(soft_line_space), [soft_line])))"##, doc!(indent(indent(indent(indent(n.doc(), format!("<{}>", a)), soft_line_space, join(many.iter(), n.doc()), n.doc()), join(many.clone(), [some.as_document()]),), join(many.iter().map(|x| x.as_str()), some.as_document()), [a.as_str()], join(many.iter().rev(), indent(group(soft_line_space), [soft_line])))), ind(cat(vec![ind(cat(vec![ind(cat(vec![ind(cat(vec![n.clone(), t(&format!("<{}>", a))])), D::SoftSpace, join(all(many), n.clone()), n.clone()])), join(all(many), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))])), join(all(many), some.as_ref().map_or(D::Nil, |s| t(s))), cat(vec![t(a)]), join(rev(many), ind(cat(vec![group(cat(vec![D::SoftSpace])), cat(vec![D::Soft])])))]))));
    out.push((r##"[indent(group([nil, a.as_str()], [n.doc(), "{}", soft_line, some.as_document()], group(some.as_document()), indent(a.as_str())), join(many.clone(), join(many.iter().rev(), line)), group(group(soft_line_space, line, some.as_document(),), group(soft_line))), indent(join(many.iter(), [b.to_string(), some.as_document()]), indent([hard_line], some.as_document()), [join(many.clone(), soft_line), indent(soft_line_space, b.to_string(),), group(hard_line), join(many.iter().map(|x| x.as_str()), nil)]), group(group(join(many.iter().rev(), some.as_document())), join(many.iter(), soft_line_space), n.doc(), b.to_string()), indent(indent(format!("<{}>", a), group(some.as_document())))]"##, doc!([indent(group([nil, a.as_str()], [n.doc(), "{}", soft_line, some.as_document()], group(some.as_document()), indent(a.as_str())), join(many.clone(), join(many.iter().rev(), line)), group(group(soft_line_space, line, some.as_document(),), group(soft_line))), indent(join(many.iter(), [b.to_string(), some.as_document()]), indent([hard_line], some.as_document()), [join(many.clone(), soft_line), indent(soft_line_space, b.to_string(),), group(hard_line), join(many.iter().map(|x| x.as_str()), nil)]), group(group(join(many.iter().rev(), some.as_document())), join(many.iter(), soft_line_space), n.doc(), b.to_string()), indent(indent(format!("<{}>", a), group(some.as_document())))]), cat(vec![ind(cat(vec![group(cat(vec![cat(vec![D::Nil, t(a)]), cat(vec![n.clone(), t("{}"), D::Soft, some.as_ref().map_or(D::Nil, |s| t(s))]), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))])), ind(cat(vec![t(a)]))])), join(all(many), join(rev(many), D::Line)), group(cat(vec![group(cat(vec![D::SoftSpace, D::Line, some.as_ref().map_or(D::Nil, |s| t(s))])), group(cat(vec![D::Soft]))]))])), ind(cat(vec![join(all(many), cat(vec![t(b), some.as_ref().map_or(D::Nil, |s| t(s))])), ind(cat(vec![cat(vec![D::Hard]), some.as_ref().map_or(D::Nil, |s| t(s))])), cat(vec![join(all(many), D::Soft), ind(cat(vec![D::SoftSpace, t(b)])), group(cat(vec![D::Hard])), join(all(many), D::Nil)])])), group(cat(vec![group(cat(vec![join(rev(many), some.as_ref().map_or(D::Nil, |s| t(s)))])), join(all(many), D::SoftSpace), n.clone(), t(b)])), ind(cat(vec![ind(cat(vec![t(&format!("<{}>", a)), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))]))]))])));
    out.push((r##"b.to_string()"##, doc!(b.to_string()), t(b)));
    out.push((r##"nil"##, doc!(nil), D::Nil));
    out.push((r##"group(group(join(many.iter().map(|x| x.as_str()), [soft_line_space, nil])))"##, doc!(group(group(join(many.iter().map(|x| x.as_str()), [soft_line_space, nil])))), group(cat(vec![group(cat(vec![join(all(many), cat(vec![D::SoftSpace, D::Nil]))]))]))));
    out.push((r##"group(group(group(group(some.as_document(), a.as_str()), [soft_line_space]), group(join(many.iter().map(|x| x.as_str()), "(")),), n.doc(), group(group(line), group(join(many.clone(), a.as_str())), some.as_document(), indent(indent(b.to_string(), soft_line), group(b.to_string(), b.to_string(),))))"##, doc!(group(group(group(group(some.as_document(), a.as_str()), [soft_line_space]), group(join(many.iter().map(|x| x.as_str()), "(")),), n.doc(), group(group(line), group(join(many.clone(), a.as_str())), some.as_document(), indent(indent(b.to_string(), soft_line), group(b.to_string(), b.to_string(),))))), group(cat(vec![group(cat(vec![group(cat(vec![group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), t(a)])), cat(vec![D::SoftSpace])])), group(cat(vec![join(all(many), t("("))]))])), n.clone(), group(cat(vec![group(cat(vec![D::Line])), group(cat(vec![join(all(many), t(a))])), some.as_ref().map_or(D::Nil, |s| t(s)), ind(cat(vec![ind(cat(vec![t(b), D::Soft])), group(cat(vec![t(b), t(b)]))]))]))]))));
    out.push((r##"group(indent(group(join(many.clone(), a.as_str()), some.as_document(),)))"##, doc!(group(indent(group(join(many.clone(), a.as_str()), some.as_document(),)))), group(cat(vec![ind(cat(vec![group(cat(vec![join(all(many), t(a)), some.as_ref().map_or(D::Nil, |s| t(s))]))]))]))));
    out.push((r##"group("a b")"##, doc!(group("a b")), group(cat(vec![t("a b")]))));
    out.push((r##"join(many.iter(), group(group(join(many.clone(), some.as_document()))))"##, doc!(join(many.iter(), group(group(join(many.clone(), some.as_document()))))), join(all(many), group(cat(vec![group(cat(vec![join(all(many), some.as_ref().map_or(D::Nil, |s| t(s)))]))])))));
    out.push((r##"group(join(many.clone(), join(many.clone(), join(many.clone(), format!("<{}>", a)))), indent(join(many.iter(), join(many.clone(), some.as_document()))), [soft_line, group(soft_line_space),])"##, doc!(group(join(many.clone(), join(many.clone(), join(many.clone(), format!("<{}>", a)))), indent(join(many.iter(), join(many.clone(), some.as_document()))), [soft_line, group(soft_line_space),])), group(cat(vec![join(all(many), join(all(many), join(all(many), t(&format!("<{}>", a))))), ind(cat(vec![join(all(many), join(all(many), some.as_ref().map_or(D::Nil, |s| t(s))))])), cat(vec![D::Soft, group(cat(vec![D::SoftSpace]))])]))));
    out.push((r##"nil"##, doc!(nil), D::Nil));
    out.push((r##"[join(many.iter().rev(), format!("<{}>", a)), indent([])]"##, doc!([join(many.iter().rev(), format!("<{}>", a)), indent([])]), cat(vec![join(rev(many), t(&format!("<{}>", a))), ind(cat(vec![cat(vec![])]))])));
    out.push((r##"[nil]"##, doc!([nil]), cat(vec![D::Nil])));
    out.push((r##"[]"##, doc!([]), cat(vec![])));
    out.push((r##"[]"##, doc!([]), cat(vec![])));
    out.push((r##"group(join(many.iter().map(|x| x.as_str()), []), [format!("<{}>", a), group(group("{}"), a.as_str())], [hard_line, indent(join(many.iter().rev(), soft_line_space))])"##, doc!(group(join(many.iter().map(|x| x.as_str()), []), [format!("<{}>", a), group(group("{}"), a.as_str())], [hard_line, indent(join(many.iter().rev(), soft_line_space))])), group(cat(vec![join(all(many), cat(vec![])), cat(vec![t(&format!("<{}>", a)), group(cat(vec![group(cat(vec![t("{}")])), t(a)]))]), cat(vec![D::Hard, ind(cat(vec![join(rev(many), D::SoftSpace)]))])]))));
}
fn docs_5<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"group(some.as_document(), [some.as_document(), [group(nil, soft_line_space), [a.as_str(), nil], indent(some.as_document(), hard_line, n.doc(), b.to_string())], group(group("{}", soft_line, soft_line, soft_line), group(some.as_document(), ", ", hard_line), group(""), [n.doc(), n.doc(), some.as_document(), b.to_string(),]), group(indent("{}", line, line, "{}",))])"##, doc!(group(some.as_document(), [some.as_document(), [group(nil, soft_line_space), [a.as_str(), nil], indent(some.as_document(), hard_line, n.doc(), b.to_string())], group(group("{}", soft_line, soft_line, soft_line), group(some.as_document(), ", ", hard_line), group(""), [n.doc(), n.doc(), some.as_document(), b.to_string(),]), group(indent("{}", line, line, "{}",))])), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), cat(vec![group(cat(vec![D::Nil, D::SoftSpace])), cat(vec![t(a), D::Nil]), ind(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), D::Hard, n.clone(), t(b)]))]), group(cat(vec![group(cat(vec![t("{}"), D::Soft, D::Soft, D::Soft])), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), t(", "), D::Hard])), group(cat(vec![t("")])), cat(vec![n.clone(), n.clone(), some.as_ref().map_or(D::Nil, |s| t(s)), t(b)])])), group(cat(vec![ind(cat(vec![t("{}"), D::Line, D::Line, t("{}")]))]))])]))));
    out.push((r##"[[[join(many.iter().rev(), "word"), "a b"]], group(group(group(some.as_document())), join(many.clone(), group(hard_line)))]"##, doc!([[[join(many.iter().rev(), "word"), "a b"]], group(group(group(some.as_document())), join(many.clone(), group(hard_line)))]), cat(vec![cat(vec![cat(vec![join(rev(many), t("word")), t("a b")])]), group(cat(vec![group(cat(vec![group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))])), join(all(many), group(cat(vec![D::Hard])))]))])));
    out.push((r##"indent(a.as_str(), group(group(join(many.iter().map(|x| x.as_str()), n.doc()), group(line, "a b"), nil, indent(b.to_string(), soft_line_space)), []),)"##, doc!(indent(a.as_str(), group(group(join(many.iter().map(|x| x.as_str()), n.doc()), group(line, "a b"), nil, indent(b.to_string(), soft_line_space)), []),)), ind(cat(vec![t(a), group(cat(vec![group(cat(vec![join(all(many), n.clone()), group(cat(vec![D::Line, t("a b")])), D::Nil, ind(cat(vec![t(b), D::SoftSpace]))])), cat(vec![])]))]))));
    out.push((r##"group(indent([]))"##, doc!(group(indent([]))), group(cat(vec![ind(cat(vec![cat(vec![])]))]))));
    out.push((r##"indent(group(a.as_str()))"##, doc!(indent(group(a.as_str()))), ind(cat(vec![group(cat(vec![t(a)]))]))));
    out.push((r##"join(many.clone(), [group(group(a.as_str()), group(nil),), indent(group(n.doc(), soft_line), soft_line, hard_line)])"##, doc!(join(many.clone(), [group(group(a.as_str()), group(nil),), indent(group(n.doc(), soft_line), soft_line, hard_line)])), join(all(many), cat(vec![group(cat(vec![group(cat(vec![t(a)])), group(cat(vec![D::Nil]))])), ind(cat(vec![group(cat(vec![n.clone(), D::Soft])), D::Soft, D::Hard]))]))));
    out.push((r##"group([indent(join(many.iter().map(|x| x.as_str()), a.as_str()), format!("<{}>", a)), indent(a.as_str(), format!("<{}>", a)), b.to_string(),], group(group(some.as_document()), join(many.iter().map(|x| x.as_str()), join(many.iter(), hard_line)), group(line), format!("<{}>", a)), join(many.iter(), group(group(soft_line_space, b.to_string(), nil), group(soft_line_space),)), group(", ", indent(group(n.doc(), nil, a.as_str(),), group(n.doc(), hard_line, a.as_str(),), indent("a b"), group(b.to_string())), group(group(b.to_string(), nil, ", ", soft_line_space,), indent(soft_line_space, nil), group(soft_line), nil), group(a.as_str(), [a.as_str(), a.as_str(),], group(nil, soft_line_space, format!("<{}>", a)), indent("(", nil, a.as_str(), a.as_str())),),)"##, doc!(group([indent(join(many.iter().map(|x| x.as_str()), a.as_str()), format!("<{}>", a)), indent(a.as_str(), format!("<{}>", a)), b.to_string(),], group(group(some.as_document()), join(many.iter().map(|x| x.as_str()), join(many.iter(), hard_line)), group(line), format!("<{}>", a)), join(many.iter(), group(group(soft_line_space, b.to_string(), nil), group(soft_line_space),)), group(", ", indent(group(n.doc(), nil, a.as_str(),), group(n.doc(), hard_line, a.as_str(),), indent("a b"), group(b.to_string())), group(group(b.to_string(), nil, ", ", soft_line_space,), indent(soft_line_space, nil), group(soft_line), nil), group(a.as_str(), [a.as_str(), a.as_str(),], group(nil, soft_line_space, format!("<{}>", a)), indent("(", nil, a.as_str(), a.as_str())),),)), group(cat(vec![cat(vec![ind(cat(vec![join(all(many), t(a)), t(&format!("<{}>", a))])), ind(cat(vec![t(a), t(&format!("<{}>", a))])), t(b)]), group(cat(vec![group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))])), join(all(many), join(all(many), D::Hard)), group(cat(vec![D::Line])), t(&format!("<{}>", a))])), join(all(many), group(cat(vec![group(cat(vec![D::SoftSpace, t(b), D::Nil])), group(cat(vec![D::SoftSpace]))]))), group(cat(vec![t(", "), ind(cat(vec![group(cat(vec![n.clone(), D::Nil, t(a)])), group(cat(vec![n.clone(), D::Hard, t(a)])), ind(cat(vec![t("a b")])), group(cat(vec![t(b)]))])), group(cat(vec![group(cat(vec![t(b), D::Nil, t(", "), D::SoftSpace])), ind(cat(vec![D::SoftSpace, D::Nil])), group(cat(vec![D::Soft])), D::Nil])), group(cat(vec![t(a), cat(vec![t(a), t(a)]), group(cat(vec![D::Nil, D::SoftSpace, t(&format!("<{}>", a))])), ind(cat(vec![t("("), D::Nil, t(a), t(a)]))]))]))]))));
    out.push((r##"join(many.iter().map(|x| x.as_str()), join(many.iter(), ""))"##, doc!(join(many.iter().map(|x| x.as_str()), join(many.iter(), ""))), join(all(many), join(all(many), t("")))));
    out.push((r##"some.as_document()"##, doc!(some.as_document()), some.as_ref().map_or(D::Nil, |s| t(s))));
    out.push((r##"indent(group(group(indent(b.to_string()), some.as_document(),), group(nil)))"##, doc!(indent(group(group(indent(b.to_string()), some.as_document(),), group(nil)))), ind(cat(vec![group(cat(vec![group(cat(vec![ind(cat(vec![t(b)])), some.as_ref().map_or(D::Nil, |s| t(s))])), group(cat(vec![D::Nil]))]))]))));
    out.push((r##"b.to_string()"##, doc!(b.to_string()), t(b)));
    out.push((r##"group(group("(", join(many.iter(), join(many.clone(), nil)),), [group(join(many.iter(), hard_line)), [[format!("<{}>", a), line, line, b.to_string()], b.to_string(), join(many.iter().map(|x| x.as_str()), line), "a b"], group(group(soft_line, b.to_string(), soft_line_space, some.as_document()), nil, group(some.as_document())), group(group(hard_line, a.as_str(), nil, b.to_string()), hard_line, join(many.iter(), line), soft_line)])"##, doc!(group(group("(", join(many.iter(), join(many.clone(), nil)),), [group(join(many.iter(), hard_line)), [[format!("<{}>", a), line, line, b.to_string()], b.to_string(), join(many.iter().map(|x| x.as_str()), line), "a b"], group(group(soft_line, b.to_string(), soft_line_space, some.as_document()), nil, group(some.as_document())), group(group(hard_line, a.as_str(), nil, b.to_string()), hard_line, join(many.iter(), line), soft_line)])), group(cat(vec![group(cat(vec![t("("), join(all(many), join(all(many), D::Nil))])), cat(vec![group(cat(vec![join(all(many), D::Hard)])), cat(vec![cat(vec![t(&format!("<{}>", a)), D::Line, D::Line, t(b)]), t(b), join(all(many), D::Line), t("a b")]), group(cat(vec![group(cat(vec![D::Soft, t(b), D::SoftSpace, some.as_ref().map_or(D::Nil, |s| t(s))])), D::Nil, group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))])), group(cat(vec![group(cat(vec![D::Hard, t(a), D::Nil, t(b)])), D::Hard, join(all(many), D::Line), D::Soft]))])]))));
    out.push((r##""word""##, doc!("word"), t("word")));
    out.push((r##"group(join(many.clone(), group(["{}"], join(many.iter(), some.as_document()),)))"##, doc!(group(join(many.clone(), group(["{}"], join(many.iter(), some.as_document()),)))), group(cat(vec![join(all(many), group(cat(vec![cat(vec![t("{}")]), join(all(many), some.as_ref().map_or(D::Nil, |s| t(s)))])))]))));
    out.push((r##"indent(group(indent(group(hard_line, format!("<{}>", a), some.as_document(), b.to_string())), b.to_string(), indent(join(many.iter().map(|x| x.as_str()), a.as_str()))))"##, doc!(indent(group(indent(group(hard_line, format!("<{}>", a), some.as_document(), b.to_string())), b.to_string(), indent(join(many.iter().map(|x| x.as_str()), a.as_str()))))), ind(cat(vec![group(cat(vec![ind(cat(vec![group(cat(vec![D::Hard, t(&format!("<{}>", a)), some.as_ref().map_or(D::Nil, |s| t(s)), t(b)]))])), t(b), ind(cat(vec![join(all(many), t(a))]))]))]))));
    out.push((r##"[]"##, doc!([]), cat(vec![])));
    out.push((r##"join(many.iter(), [format!("<{}>", a), join(many.clone(), group(nil))])"##, doc!(join(many.iter(), [format!("<{}>", a), join(many.clone(), group(nil))])), join(all(many), cat(vec![t(&format!("<{}>", a)), join(all(many), group(cat(vec![D::Nil])))]))));
    out.push((r##"soft_line"##, doc!(soft_line), D::Soft));
    out.push((r##"join(many.iter().rev(), soft_line)"##, doc!(join(many.iter().rev(), soft_line)), join(rev(many), D::Soft)));
    out.push((r##"group(format!("<{}>", a), join(many.iter().rev(), []), [group(hard_line), group(indent(nil, format!("<{}>", a)), group(line), group("("),)])"##, doc!(group(format!("<{}>", a), join(many.iter().rev(), []), [group(hard_line), group(indent(nil, format!("<{}>", a)), group(line), group("("),)])), group(cat(vec![t(&format!("<{}>", a)), join(rev(many), cat(vec![])), cat(vec![group(cat(vec![D::Hard])), group(cat(vec![ind(cat(vec![D::Nil, t(&format!("<{}>", a))])), group(cat(vec![D::Line])), group(cat(vec![t("(")]))]))])]))));
    out.push((r##"group(group(indent([])))"##, doc!(group(group(indent([])))), group(cat(vec![group(cat(vec![ind(cat(vec![cat(vec![])]))]))]))));
    out.push((r##"n.doc()"##, doc!(n.doc()), n.clone()));
    out.push((r##"indent([group(a.as_str(), group(b.to_string(), some.as_document(),), indent(n.doc(), soft_line), "é")], join(many.iter().map(|x| x.as_str()), group(group(some.as_document(), nil), group(soft_line_space, format!("<{}>", a), nil, a.as_str()), [], [format!("<{}>", a), a.as_str()])), [], [])"##, doc!(indent([group(a.as_str(), group(b.to_string(), some.as_document(),), indent(n.doc(), soft_line), "é")], join(many.iter().map(|x| x.as_str()), group(group(some.as_document(), nil), group(soft_line_space, format!("<{}>", a), nil, a.as_str()), [], [format!("<{}>", a), a.as_str()])), [], [])), ind(cat(vec![cat(vec![group(cat(vec![t(a), group(cat(vec![t(b), some.as_ref().map_or(D::Nil, |s| t(s))])), ind(cat(vec![n.clone(), D::Soft])), t("é")]))]), join(all(many), group(cat(vec![group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), D::Nil])), group(cat(vec![D::SoftSpace, t(&format!("<{}>", a)), D::Nil, t(a)])), cat(vec![]), cat(vec![t(&format!("<{}>", a)), t(a)])]))), cat(vec![]), cat(vec![])]))));
    out.push((r##"[]"##, doc!([]), cat(vec![])));
    out.push((r##"[indent(join(many.iter(), indent(n.doc(), b.to_string(), "(",)), group(soft_line_space, some.as_document()),), group(group(group(format!("<{}>", a)), group(n.doc())))]"##, doc!([indent(join(many.iter(), indent(n.doc(), b.to_string(), "(",)), group(soft_line_space, some.as_document()),), group(group(group(format!("<{}>", a)), group(n.doc())))]), cat(vec![ind(cat(vec![join(all(many), ind(cat(vec![n.clone(), t(b), t("(")]))), group(cat(vec![D::SoftSpace, some.as_ref().map_or(D::Nil, |s| t(s))]))])), group(cat(vec![group(cat(vec![group(cat(vec![t(&format!("<{}>", a))])), group(cat(vec![n.clone()]))]))]))])));
}
fn docs_6<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"indent(hard_line)"##, doc!(indent(hard_line)), ind(cat(vec![D::Hard]))));
    out.push((r##"format!("<{}>", a)"##, doc!(format!("<{}>", a)), t(&format!("<{}>", a))));
    out.push((r##"[group([join(many.clone(), n.doc()), join(many.iter(), nil), join(many.clone(), "{}")], indent(group(a.as_str(), a.as_str()), [some.as_document(), a.as_str(), n.doc(), n.doc()], line, group(n.doc(), format!("<{}>", a))), group(group(nil, "(",))), group(soft_line, indent(indent(format!("<{}>", a))), join(many.iter(), join(many.iter().rev(), n.doc())), soft_line_space),]"##, doc!([group([join(many.clone(), n.doc()), join(many.iter(), nil), join(many.clone(), "{}")], indent(group(a.as_str(), a.as_str()), [some.as_document(), a.as_str(), n.doc(), n.doc()], line, group(n.doc(), format!("<{}>", a))), group(group(nil, "(",))), group(soft_line, indent(indent(format!("<{}>", a))), join(many.iter(), join(many.iter().rev(), n.doc())), soft_line_space),]), cat(vec![group(cat(vec![cat(vec![join(all(many), n.clone()), join(all(many), D::Nil), join(all(many), t("{}"))]), ind(cat(vec![group(cat(vec![t(a), t(a)])), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), t(a), n.clone(), n.clone()]), D::Line, group(cat(vec![n.clone(), t(&format!("<{}>", a))]))])), group(cat(vec![group(cat(vec![D::Nil, t("(")]))]))])), group(cat(vec![D::Soft, ind(cat(vec![ind(cat(vec![t(&format!("<{}>", a))]))])), join(all(many), join(rev(many), n.clone())), D::SoftSpace]))])));
    out.push((r##"join(many.iter(), join(many.iter().rev(), indent(b.to_string())))"##, doc!(join(many.iter(), join(many.iter().rev(), indent(b.to_string())))), join(all(many), join(rev(many), ind(cat(vec![t(b)]))))));
    out.push((r##"indent(indent(group(indent(a.as_str())), join(many.clone(), some.as_document())))"##, doc!(indent(indent(group(indent(a.as_str())), join(many.clone(), some.as_document())))), ind(cat(vec![ind(cat(vec![group(cat(vec![ind(cat(vec![t(a)]))])), join(all(many), some.as_ref().map_or(D::Nil, |s| t(s)))]))]))));
    out.push((r##"group(group(hard_line, [line], hard_line, nil,))"##, doc!(group(group(hard_line, [line], hard_line, nil,))), group(cat(vec![group(cat(vec![D::Hard, cat(vec![D::Line]), D::Hard, D::Nil]))]))));
    out.push((r##"group(soft_line, a.as_str())"##, doc!(group(soft_line, a.as_str())), group(cat(vec![D::Soft, t(a)]))));
    out.push((r##"indent("")"##, doc!(indent("")), ind(cat(vec![t("")]))));
    out.push((r##"hard_line"##, doc!(hard_line), D::Hard));
    out.push((r##"group(join(many.iter().rev(), group(some.as_document(), indent(a.as_str()), group(nil, nil), group(n.doc(), hard_line, format!("<{}>", a), b.to_string(),))), group(join(many.clone(), some.as_document()), indent(group(soft_line_space), join(many.clone(), soft_line), hard_line, group(soft_line))), b.to_string(), indent(join(many.clone(), group(n.doc(), format!("<{}>", a))), group(indent(format!("<{}>", a), a.as_str(), some.as_document(), hard_line)),))"##, doc!(group(join(many.iter().rev(), group(some.as_document(), indent(a.as_str()), group(nil, nil), group(n.doc(), hard_line, format!("<{}>", a), b.to_string(),))), group(join(many.clone(), some.as_document()), indent(group(soft_line_space), join(many.clone(), soft_line), hard_line, group(soft_line))), b.to_string(), indent(join(many.clone(), group(n.doc(), format!("<{}>", a))), group(indent(format!("<{}>", a), a.as_str(), some.as_document(), hard_line)),))), group(cat(vec![join(rev(many), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), ind(cat(vec![t(a)])), group(cat(vec![D::Nil, D::Nil])), group(cat(vec![n.clone(), D::Hard, t(&format!("<{}>", a)), t(b)]))]))), group(cat(vec![join(all(many), some.as_ref().map_or(D::Nil, |s| t(s))), ind(cat(vec![group(cat(vec![D::SoftSpace])), join(all(many), D::Soft), D::Hard, group(cat(vec![D::Soft]))]))])), t(b), ind(cat(vec![join(all(many), group(cat(vec![n.clone(), t(&format!("<{}>", a))]))), group(cat(vec![ind(cat(vec![t(&format!("<{}>", a)), t(a), some.as_ref().map_or(D::Nil, |s| t(s)), D::Hard]))]))]))]))));
    out.push((r##"[[format!("<{}>", a), group(indent(format!("<{}>", a))), group([n.doc(), some.as_document(), n.doc(), a.as_str()], [some.as_document(), nil, nil, soft_line_space], b.to_string(), ", "), soft_line_space], ", "]"##, doc!([[format!("<{}>", a), group(indent(format!("<{}>", a))), group([n.doc(), some.as_document(), n.doc(), a.as_str()], [some.as_document(), nil, nil, soft_line_space], b.to_string(), ", "), soft_line_space], ", "]), cat(vec![cat(vec![t(&format!("<{}>", a)), group(cat(vec![ind(cat(vec![t(&format!("<{}>", a))]))])), group(cat(vec![cat(vec![n.clone(), some.as_ref().map_or(D::Nil, |s| t(s)), n.clone(), t(a)]), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), D::Nil, D::Nil, D::SoftSpace]), t(b), t(", ")])), D::SoftSpace]), t(", ")])));
    out.push((r##"join(many.clone(), indent(group([", ", line, hard_line, format!("<{}>", a),], indent(b.to_string(), soft_line), [some.as_document(), nil, n.doc(), a.as_str(),], group(line, a.as_str(), soft_line))))"##, doc!(join(many.clone(), indent(group([", ", line, hard_line, format!("<{}>", a),], indent(b.to_string(), soft_line), [some.as_document(), nil, n.doc(), a.as_str(),], group(line, a.as_str(), soft_line))))), join(all(many), ind(cat(vec![group(cat(vec![cat(vec![t(", "), D::Line, D::Hard, t(&format!("<{}>", a))]), ind(cat(vec![t(b), D::Soft])), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), D::Nil, n.clone(), t(a)]), group(cat(vec![D::Line, t(a), D::Soft]))]))])))));
    out.push((r##"group(indent(group(line, [a.as_str()], [soft_line_space, soft_line_space], nil)))"##, doc!(group(indent(group(line, [a.as_str()], [soft_line_space, soft_line_space], nil)))), group(cat(vec![ind(cat(vec![group(cat(vec![D::Line, cat(vec![t(a)]), cat(vec![D::SoftSpace, D::SoftSpace]), D::Nil]))]))]))));
    out.push((r##"group(join(many.iter().map(|x| x.as_str()), group(group(nil), join(many.iter().rev(), soft_line), group(a.as_str()), group(n.doc(), soft_line_space))))"##, doc!(group(join(many.iter().map(|x| x.as_str()), group(group(nil), join(many.iter().rev(), soft_line), group(a.as_str()), group(n.doc(), soft_line_space))))), group(cat(vec![join(all(many), group(cat(vec![group(cat(vec![D::Nil])), join(rev(many), D::Soft), group(cat(vec![t(a)])), group(cat(vec![n.clone(), D::SoftSpace]))])))]))));
    out.push((r##"[]"##, doc!([]), cat(vec![])));
    out.push((r##"n.doc()"##, doc!(n.doc()), n.clone()));
    out.push((r##"group(line, group(group(group(b.to_string()), soft_line_space, group(b.to_string()), "a b"), soft_line_space, a.as_str()))"##, doc!(group(line, group(group(group(b.to_string()), soft_line_space, group(b.to_string()), "a b"), soft_line_space, a.as_str()))), group(cat(vec![D::Line, group(cat(vec![group(cat(vec![group(cat(vec![t(b)])), D::SoftSpace, group(cat(vec![t(b)])), t("a b")])), D::SoftSpace, t(a)]))]))));
    out.push((r##"group(group(join(many.clone(), join(many.clone(), b.to_string())), some.as_document()), indent(soft_line_space),)"##, doc!(group(group(join(many.clone(), join(many.clone(), b.to_string())), some.as_document()), indent(soft_line_space),)), group(cat(vec![group(cat(vec![join(all(many), join(all(many), t(b))), some.as_ref().map_or(D::Nil, |s| t(s))])), ind(cat(vec![D::SoftSpace]))]))));
    out.push((r##"indent(group(group(group("", line,))))"##, doc!(indent(group(group(group("", line,))))), ind(cat(vec![group(cat(vec![group(cat(vec![group(cat(vec![t(""), D::Line]))]))]))]))));
    out.push((r##"indent(indent([group(soft_line_space)]), group("é"), group(join(many.iter().rev(), indent("word", "(")), join(many.iter().rev(), line), indent(line), group([n.doc(), "a b", a.as_str(), soft_line])),)"##, doc!(indent(indent([group(soft_line_space)]), group("é"), group(join(many.iter().rev(), indent("word", "(")), join(many.iter().rev(), line), indent(line), group([n.doc(), "a b", a.as_str(), soft_line])),)), ind(cat(vec![ind(cat(vec![cat(vec![group(cat(vec![D::SoftSpace]))])])), group(cat(vec![t("é")])), group(cat(vec![join(rev(many), ind(cat(vec![t("word"), t("(")]))), join(rev(many), D::Line), ind(cat(vec![D::Line])), group(cat(vec![cat(vec![n.clone(), t("a b"), t(a), D::Soft])]))]))]))));
    out.push((r##"n.doc()"##, doc!(n.doc()), n.clone()));
    out.push((r##"group(group(group(group(soft_line, n.doc(), line, nil), [some.as_document(), format!("<{}>", a), format!("<{}>", a), soft_line_space], group(hard_line))), group(n.doc(), group(indent("é", b.to_string()), join(many.iter().map(|x| x.as_str()), a.as_str()), [hard_line, line, some.as_document(), format!("<{}>", a)], soft_line), [indent(soft_line_space, n.doc())], group(join(many.iter().map(|x| x.as_str()), n.doc()), group(some.as_document()))), indent([]), [indent(a.as_str(), "{}"), join(many.iter().rev(), [line, hard_line]), line],)"##, doc!(group(group(group(group(soft_line, n.doc(), line, nil), [some.as_document(), format!("<{}>", a), format!("<{}>", a), soft_line_space], group(hard_line))), group(n.doc(), group(indent("é", b.to_string()), join(many.iter().map(|x| x.as_str()), a.as_str()), [hard_line, line, some.as_document(), format!("<{}>", a)], soft_line), [indent(soft_line_space, n.doc())], group(join(many.iter().map(|x| x.as_str()), n.doc()), group(some.as_document()))), indent([]), [indent(a.as_str(), "{}"), join(many.iter().rev(), [line, hard_line]), line],)), group(cat(vec![group(cat(vec![group(cat(vec![group(cat(vec![D::Soft, n.clone(), D::Line, D::Nil])), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), t(&format!("<{}>", a)), t(&format!("<{}>", a)), D::SoftSpace]), group(cat(vec![D::Hard]))]))])), group(cat(vec![n.clone(), group(cat(vec![ind(cat(vec![t("é"), t(b)])), join(all(many), t(a)), cat(vec![D::Hard, D::Line, some.as_ref().map_or(D::Nil, |s| t(s)), t(&format!("<{}>", a))]), D::Soft])), cat(vec![ind(cat(vec![D::SoftSpace, n.clone()]))]), group(cat(vec![join(all(many), n.clone()), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))]))])), ind(cat(vec![cat(vec![])])), cat(vec![ind(cat(vec![t(a), t("{}")])), join(rev(many), cat(vec![D::Line, D::Hard])), D::Line])]))));
    out.push((r##"group(hard_line)"##, doc!(group(hard_line)), group(cat(vec![D::Hard]))));
    out.push((r##""a b""##, doc!("a b"), t("a b")));
    out.push((r##"join(many.iter().map(|x| x.as_str()), [])"##, doc!(join(many.iter().map(|x| x.as_str()), [])), join(all(many), cat(vec![]))));
}
fn docs_7<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"join(many.clone(), indent(group(group(format!("<{}>", a)), a.as_str(), n.doc())))"##, doc!(join(many.clone(), indent(group(group(format!("<{}>", a)), a.as_str(), n.doc())))), join(all(many), ind(cat(vec![group(cat(vec![group(cat(vec![t(&format!("<{}>", a))])), t(a), n.clone()]))])))));
    out.push((r##"b.to_string()"##, doc!(b.to_string()), t(b)));
    out.push((r##"group([a.as_str(), [group(soft_line_space), indent(b.to_string()), group(soft_line, some.as_document())], indent(soft_line, n.doc()), [[], indent(b.to_string(), nil,), indent(line, "(",)],], join(many.iter(), group(group(", ", n.doc(), a.as_str()), group(soft_line_space))), format!("<{}>", a), a.as_str(),)"##, doc!(group([a.as_str(), [group(soft_line_space), indent(b.to_string()), group(soft_line, some.as_document())], indent(soft_line, n.doc()), [[], indent(b.to_string(), nil,), indent(line, "(",)],], join(many.iter(), group(group(", ", n.doc(), a.as_str()), group(soft_line_space))), format!("<{}>", a), a.as_str(),)), group(cat(vec![cat(vec![t(a), cat(vec![group(cat(vec![D::SoftSpace])), ind(cat(vec![t(b)])), group(cat(vec![D::Soft, some.as_ref().map_or(D::Nil, |s| t(s))]))]), ind(cat(vec![D::Soft, n.clone()])), cat(vec![cat(vec![]), ind(cat(vec![t(b), D::Nil])), ind(cat(vec![D::Line, t("(")]))])]), join(all(many), group(cat(vec![group(cat(vec![t(", "), n.clone(), t(a)])), group(cat(vec![D::SoftSpace]))]))), t(&format!("<{}>", a)), t(a)]))));
    out.push((r##"indent("a b", join(many.clone(), [indent(format!("<{}>", a), b.to_string(), n.doc()), soft_line_space]), nil, join(many.iter().rev(), group(group(hard_line), some.as_document(), [some.as_document()], join(many.clone(), nil))))"##, doc!(indent("a b", join(many.clone(), [indent(format!("<{}>", a), b.to_string(), n.doc()), soft_line_space]), nil, join(many.iter().rev(), group(group(hard_line), some.as_document(), [some.as_document()], join(many.clone(), nil))))), ind(cat(vec![t("a b"), join(all(many), cat(vec![ind(cat(vec![t(&format!("<{}>", a)), t(b), n.clone()])), D::SoftSpace])), D::Nil, join(rev(many), group(cat(vec![group(cat(vec![D::Hard])), some.as_ref().map_or(D::Nil, |s| t(s)), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]), join(all(many), D::Nil)])))]))));
    out.push((r##"join(many.iter().rev(), a.as_str())"##, doc!(join(many.iter().rev(), a.as_str())), join(rev(many), t(a))));
    out.push((r##"indent(a.as_str(), [group(join(many.iter(), some.as_document()), join(many.clone(), b.to_string()), n.doc(), indent(nil)), indent(soft_line_space), group(n.doc(), soft_line), join(many.clone(), indent(format!("<{}>", a), format!("<{}>", a)))],)"##, doc!(indent(a.as_str(), [group(join(many.iter(), some.as_document()), join(many.clone(), b.to_string()), n.doc(), indent(nil)), indent(soft_line_space), group(n.doc(), soft_line), join(many.clone(), indent(format!("<{}>", a), format!("<{}>", a)))],)), ind(cat(vec![t(a), cat(vec![group(cat(vec![join(all(many), some.as_ref().map_or(D::Nil, |s| t(s))), join(all(many), t(b)), n.clone(), ind(cat(vec![D::Nil]))])), ind(cat(vec![D::SoftSpace])), group(cat(vec![n.clone(), D::Soft])), join(all(many), ind(cat(vec![t(&format!("<{}>", a)), t(&format!("<{}>", a))])))])]))));
    out.push((r##"group(indent(indent(group(line, format!("<{}>", a), b.to_string()))), n.doc())"##, doc!(group(indent(indent(group(line, format!("<{}>", a), b.to_string()))), n.doc())), group(cat(vec![ind(cat(vec![ind(cat(vec![group(cat(vec![D::Line, t(&format!("<{}>", a)), t(b)]))]))])), n.clone()]))));
    out.push((r##"[some.as_document()]"##, doc!([some.as_document()]), cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))])));
    out.push((r##"indent(soft_line_space, indent(join(many.iter(), group(soft_line_space, line)), soft_line, some.as_document()), "word", n.doc())"##, doc!(indent(soft_line_space, indent(join(many.iter(), group(soft_line_space, line)), soft_line, some.as_document()), "word", n.doc())), ind(cat(vec![D::SoftSpace, ind(cat(vec![join(all(many), group(cat(vec![D::SoftSpace, D::Line]))), D::Soft, some.as_ref().map_or(D::Nil, |s| t(s))])), t("word"), n.clone()]))));
    out.push((r##"group([indent(b.to_string()), group([n.doc(), n.doc(), nil, nil], group(n.doc(), n.doc()))], line,)"##, doc!(group([indent(b.to_string()), group([n.doc(), n.doc(), nil, nil], group(n.doc(), n.doc()))], line,)), group(cat(vec![cat(vec![ind(cat(vec![t(b)])), group(cat(vec![cat(vec![n.clone(), n.clone(), D::Nil, D::Nil]), group(cat(vec![n.clone(), n.clone()]))]))]), D::Line]))));
    out.push((r##"group(hard_line)"##, doc!(group(hard_line)), group(cat(vec![D::Hard]))));
    out.push((r##"group(some.as_document(), join(many.iter().rev(), [[line, some.as_document(), a.as_str(), nil]]), indent(join(many.clone(), soft_line_space)), join(many.clone(), nil))"##, doc!(group(some.as_document(), join(many.iter().rev(), [[line, some.as_document(), a.as_str(), nil]]), indent(join(many.clone(), soft_line_space)), join(many.clone(), nil))), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s)), join(rev(many), cat(vec![cat(vec![D::Line, some.as_ref().map_or(D::Nil, |s| t(s)), t(a), D::Nil])])), ind(cat(vec![join(all(many), D::SoftSpace)])), join(all(many), D::Nil)]))));
    out.push((r##"a.as_str()"##, doc!(a.as_str()), t(a)));
    out.push((r##"[group(join(many.iter().rev(), n.doc())), indent(indent([format!("<{}>", a)]), soft_line, join(many.iter().map(|x| x.as_str()), group(hard_line, n.doc(), line, "word"))), join(many.iter(), group(group(nil, n.doc()))),]"##, doc!([group(join(many.iter().rev(), n.doc())), indent(indent([format!("<{}>", a)]), soft_line, join(many.iter().map(|x| x.as_str()), group(hard_line, n.doc(), line, "word"))), join(many.iter(), group(group(nil, n.doc()))),]), cat(vec![group(cat(vec![join(rev(many), n.clone())])), ind(cat(vec![ind(cat(vec![cat(vec![t(&format!("<{}>", a))])])), D::Soft, join(all(many), group(cat(vec![D::Hard, n.clone(), D::Line, t("word")])))])), join(all(many), group(cat(vec![group(cat(vec![D::Nil, n.clone()]))])))])));
    out.push((r##"line"##, doc!(line), D::Line));
    out.push((r##"group(indent(indent(group(soft_line_space), join(many.iter().map(|x| x.as_str()), a.as_str()), indent(hard_line, line, a.as_str()), a.as_str()), join(many.iter().rev(), format!("<{}>", a)),))"##, doc!(group(indent(indent(group(soft_line_space), join(many.iter().map(|x| x.as_str()), a.as_str()), indent(hard_line, line, a.as_str()), a.as_str()), join(many.iter().rev(), format!("<{}>", a)),))), group(cat(vec![ind(cat(vec![ind(cat(vec![group(cat(vec![D::SoftSpace])), join(all(many), t(a)), ind(cat(vec![D::Hard, D::Line, t(a)])), t(a)])), join(rev(many), t(&format!("<{}>", a)))]))]))));
    out.push((r##"[line, join(many.iter().rev(), group(group(a.as_str()), soft_line_space)), group(group([nil, a.as_str()], indent(some.as_document()), indent("é", "{}"), join(many.iter().rev(), n.doc()),)), "("]"##, doc!([line, join(many.iter().rev(), group(group(a.as_str()), soft_line_space)), group(group([nil, a.as_str()], indent(some.as_document()), indent("é", "{}"), join(many.iter().rev(), n.doc()),)), "("]), cat(vec![D::Line, join(rev(many), group(cat(vec![group(cat(vec![t(a)])), D::SoftSpace]))), group(cat(vec![group(cat(vec![cat(vec![D::Nil, t(a)]), ind(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))])), ind(cat(vec![t("é"), t("{}")])), join(rev(many), n.clone())]))])), t("(")])));
    out.push((r##"join(many.iter().rev(), some.as_document())"##, doc!(join(many.iter().rev(), some.as_document())), join(rev(many), some.as_ref().map_or(D::Nil, |s| t(s)))));
    out.push((r##"group(group(nil, group(group("", b.to_string()), group(""), hard_line), group(some.as_document())))"##, doc!(group(group(nil, group(group("", b.to_string()), group(""), hard_line), group(some.as_document())))), group(cat(vec![group(cat(vec![D::Nil, group(cat(vec![group(cat(vec![t(""), t(b)])), group(cat(vec![t("")])), D::Hard])), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))]))]))));
    out.push((r##"soft_line_space"##, doc!(soft_line_space), D::SoftSpace));
    out.push((r##"indent(indent(indent(group(soft_line), b.to_string(), group(a.as_str()))), indent(group(hard_line, indent(hard_line, line), ["{}", "{}",],), join(many.iter().map(|x| x.as_str()), group(hard_line, hard_line)), [group(b.to_string(), soft_line_space, soft_line_space, hard_line), [], indent(soft_line, line, soft_line, format!("<{}>", a))]))"##, doc!(indent(indent(indent(group(soft_line), b.to_string(), group(a.as_str()))), indent(group(hard_line, indent(hard_line, line), ["{}", "{}",],), join(many.iter().map(|x| x.as_str()), group(hard_line, hard_line)), [group(b.to_string(), soft_line_space, soft_line_space, hard_line), [], indent(soft_line, line, soft_line, format!("<{}>", a))]))), ind(cat(vec![ind(cat(vec![ind(cat(vec![group(cat(vec![D::Soft])), t(b), group(cat(vec![t(a)]))]))])), ind(cat(vec![group(cat(vec![D::Hard, ind(cat(vec![D::Hard, D::Line])), cat(vec![t("{}"), t("{}")])])), join(all(many), group(cat(vec![D::Hard, D::Hard]))), cat(vec![group(cat(vec![t(b), D::SoftSpace, D::SoftSpace, D::Hard])), cat(vec![]), ind(cat(vec![D::Soft, D::Line, D::Soft, t(&format!("<{}>", a))]))])]))]))));
    out.push((r##"group(group(group(group(hard_line, a.as_str(), hard_line, line,), soft_line), [group(hard_line), soft_line_space, group(b.to_string()),]), group(format!("<{}>", a), group(indent(hard_line, hard_line, soft_line), group(some.as_document()), soft_line_space)))"##, doc!(group(group(group(group(hard_line, a.as_str(), hard_line, line,), soft_line), [group(hard_line), soft_line_space, group(b.to_string()),]), group(format!("<{}>", a), group(indent(hard_line, hard_line, soft_line), group(some.as_document()), soft_line_space)))), group(cat(vec![group(cat(vec![group(cat(vec![group(cat(vec![D::Hard, t(a), D::Hard, D::Line])), D::Soft])), cat(vec![group(cat(vec![D::Hard])), D::SoftSpace, group(cat(vec![t(b)]))])])), group(cat(vec![t(&format!("<{}>", a)), group(cat(vec![ind(cat(vec![D::Hard, D::Hard, D::Soft])), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))])), D::SoftSpace]))]))]))));
    out.push((r##"nil"##, doc!(nil), D::Nil));
    out.push((r##"group(group(join(many.clone(), indent(soft_line_space, some.as_document(), a.as_str()))), [line, b.to_string()], [[group(line)], group("é")], soft_line_space)"##, doc!(group(group(join(many.clone(), indent(soft_line_space, some.as_document(), a.as_str()))), [line, b.to_string()], [[group(line)], group("é")], soft_line_space)), group(cat(vec![group(cat(vec![join(all(many), ind(cat(vec![D::SoftSpace, some.as_ref().map_or(D::Nil, |s| t(s)), t(a)])))])), cat(vec![D::Line, t(b)]), cat(vec![cat(vec![group(cat(vec![D::Line]))]), group(cat(vec![t("é")]))]), D::SoftSpace]))));
    out.push((r##"line"##, doc!(line), D::Line));
}
fn docs_8<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    out.push((r##"indent(nil)"##, doc!(indent(nil)), ind(cat(vec![D::Nil]))));
    out.push((r##""(""##, doc!("("), t("(")));
    out.push((r##"indent(join(many.iter().map(|x| x.as_str()), b.to_string()))"##, doc!(indent(join(many.iter().map(|x| x.as_str()), b.to_string()))), ind(cat(vec![join(all(many), t(b))]))));
    out.push((r##"indent(indent(some.as_document()), join(many.iter(), [soft_line, [nil], b.to_string(), indent(hard_line, line, format!("<{}>", a)),]), some.as_document())"##, doc!(indent(indent(some.as_document()), join(many.iter(), [soft_line, [nil], b.to_string(), indent(hard_line, line, format!("<{}>", a)),]), some.as_document())), ind(cat(vec![ind(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))])), join(all(many), cat(vec![D::Soft, cat(vec![D::Nil]), t(b), ind(cat(vec![D::Hard, D::Line, t(&format!("<{}>", a))]))])), some.as_ref().map_or(D::Nil, |s| t(s))]))));
    out.push((r##"join(many.iter(), soft_line_space)"##, doc!(join(many.iter(), soft_line_space)), join(all(many), D::SoftSpace)));
    out.push((r##"indent(group(join(many.iter(), indent(line)), indent(group(hard_line), line, join(many.iter(), soft_line_space)),), join(many.iter().map(|x| x.as_str()), group(indent(n.doc()))), line, join(many.clone(), soft_line_space))"##, doc!(indent(group(join(many.iter(), indent(line)), indent(group(hard_line), line, join(many.iter(), soft_line_space)),), join(many.iter().map(|x| x.as_str()), group(indent(n.doc()))), line, join(many.clone(), soft_line_space))), ind(cat(vec![group(cat(vec![join(all(many), ind(cat(vec![D::Line]))), ind(cat(vec![group(cat(vec![D::Hard])), D::Line, join(all(many), D::SoftSpace)]))])), join(all(many), group(cat(vec![ind(cat(vec![n.clone()]))]))), D::Line, join(all(many), D::SoftSpace)]))));
    out.push((r##"[group(group(indent("word", b.to_string(), b.to_string()), group(b.to_string(), "")), join(many.iter(), [line, n.doc()]), [], group([hard_line, soft_line]))]"##, doc!([group(group(indent("word", b.to_string(), b.to_string()), group(b.to_string(), "")), join(many.iter(), [line, n.doc()]), [], group([hard_line, soft_line]))]), cat(vec![group(cat(vec![group(cat(vec![ind(cat(vec![t("word"), t(b), t(b)])), group(cat(vec![t(b), t("")]))])), join(all(many), cat(vec![D::Line, n.clone()])), cat(vec![]), group(cat(vec![cat(vec![D::Hard, D::Soft])]))]))])));
    out.push((r##"join(many.iter().map(|x| x.as_str()), some.as_document())"##, doc!(join(many.iter().map(|x| x.as_str()), some.as_document())), join(all(many), some.as_ref().map_or(D::Nil, |s| t(s)))));
    out.push((r##"indent(group(group(group(hard_line, soft_line_space, b.to_string(), nil,), group(n.doc(), soft_line_space, "é")), line), format!("<{}>", a))"##, doc!(indent(group(group(group(hard_line, soft_line_space, b.to_string(), nil,), group(n.doc(), soft_line_space, "é")), line), format!("<{}>", a))), ind(cat(vec![group(cat(vec![group(cat(vec![group(cat(vec![D::Hard, D::SoftSpace, t(b), D::Nil])), group(cat(vec![n.clone(), D::SoftSpace, t("é")]))])), D::Line])), t(&format!("<{}>", a))]))));
    out.push((r##"group(group(group(indent(line, some.as_document(), b.to_string(), nil))), [])"##, doc!(group(group(group(indent(line, some.as_document(), b.to_string(), nil))), [])), group(cat(vec![group(cat(vec![group(cat(vec![ind(cat(vec![D::Line, some.as_ref().map_or(D::Nil, |s| t(s)), t(b), D::Nil]))]))])), cat(vec![])]))));
    out.push((r##"group(group(group(group(line)), indent(line, b.to_string(), indent(hard_line, b.to_string()))), indent(join(many.clone(), group(hard_line, soft_line, a.as_str())), join(many.clone(), join(many.iter().map(|x| x.as_str()), soft_line))),)"##, doc!(group(group(group(group(line)), indent(line, b.to_string(), indent(hard_line, b.to_string()))), indent(join(many.clone(), group(hard_line, soft_line, a.as_str())), join(many.clone(), join(many.iter().map(|x| x.as_str()), soft_line))),)), group(cat(vec![group(cat(vec![group(cat(vec![group(cat(vec![D::Line]))])), ind(cat(vec![D::Line, t(b), ind(cat(vec![D::Hard, t(b)]))]))])), ind(cat(vec![join(all(many), group(cat(vec![D::Hard, D::Soft, t(a)]))), join(all(many), join(all(many), D::Soft))]))]))));
    out.push((r##"hard_line"##, doc!(hard_line), D::Hard));
    out.push((r##"[n.doc(), join(many.iter(), join(many.iter(), group(some.as_document()))),]"##, doc!([n.doc(), join(many.iter(), join(many.iter(), group(some.as_document()))),]), cat(vec![n.clone(), join(all(many), join(all(many), group(cat(vec![some.as_ref().map_or(D::Nil, |s| t(s))]))))])));
    out.push((r##"group(indent([group(soft_line_space, format!("<{}>", a), soft_line_space,), group(a.as_str(), hard_line, nil,), format!("<{}>", a)], group(join(many.clone(), b.to_string()), indent(format!("<{}>", a)), b.to_string(), indent(format!("<{}>", a), soft_line, some.as_document(), hard_line),), group(group(line, b.to_string(), "word")),), join(many.clone(), soft_line), b.to_string())"##, doc!(group(indent([group(soft_line_space, format!("<{}>", a), soft_line_space,), group(a.as_str(), hard_line, nil,), format!("<{}>", a)], group(join(many.clone(), b.to_string()), indent(format!("<{}>", a)), b.to_string(), indent(format!("<{}>", a), soft_line, some.as_document(), hard_line),), group(group(line, b.to_string(), "word")),), join(many.clone(), soft_line), b.to_string())), group(cat(vec![ind(cat(vec![cat(vec![group(cat(vec![D::SoftSpace, t(&format!("<{}>", a)), D::SoftSpace])), group(cat(vec![t(a), D::Hard, D::Nil])), t(&format!("<{}>", a))]), group(cat(vec![join(all(many), t(b)), ind(cat(vec![t(&format!("<{}>", a))])), t(b), ind(cat(vec![t(&format!("<{}>", a)), D::Soft, some.as_ref().map_or(D::Nil, |s| t(s)), D::Hard]))])), group(cat(vec![group(cat(vec![D::Line, t(b), t("word")]))]))])), join(all(many), D::Soft), t(b)]))));
}
pub fn docs<'a>(a: &'a String, b: &'a String, n: &'a D, many: &'a Vec<String>, some: &'a Option<String>, out: &mut Vec<(&'static str, Doc<'a>, D)>) {
    docs_0(a, b, n, many, some, out);
    docs_1(a, b, n, many, some, out);
    docs_2(a, b, n, many, some, out);
    docs_3(a, b, n, many, some, out);
    docs_4(a, b, n, many, some, out);
    docs_5(a, b, n, many, some, out);
    docs_6(a, b, n, many, some, out);
    docs_7(a, b, n, many, some, out);
    docs_8(a, b, n, many, some, out);
}
fn values_0(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    let r = &h;
    let _ = (r, f, v, j, list, lj, some, b, a);
    out.push((r##"0"##, json!(0), n(0.0)));
    out.push((r##"a == b"##, json!(a == b), Bool(a == b)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"[]"##, json!([]), Arr(vec![])));
    out.push((r##"1 - *r"##, json!(1 - *r), n((1 - h) as f64)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"if h > 0 { 1 } else { 2 }"##, json!(if h > 0 { 1 } else { 2 }), n(if h > 0 { 1.0 } else { 2.0 })));
    out.push((r##"3u64"##, json!(3u64), n(3.0)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"json!(null)"##, json!(json!(null)), Null));
    out.push((r##"0x1f"##, json!(0x1f), n(31.0)));
    out.push((r##""{}""##, json!("{}"), s("{}")));
    out.push((r##"2.0 * f"##, json!(2.0 * f), n(2.0 * f)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"false"##, json!(false), Bool(false)));
    out.push((r##"{}"##, json!({}), Obj(vec![])));
    out.push((r##"-7"##, json!(-7), n(-7.0)));
    out.push((r##"-h"##, json!(-h), n(-h as f64)));
    out.push((r##"true"##, json!(true), Bool(true)));
    out.push((r##"a == b"##, json!(a == b), Bool(a == b)));
    out.push((r##"1_000i64"##, json!(1_000i64), n(1000.0)));
    out.push((r##"1e3"##, json!(1e3), n(1000.0)));
    out.push((r##"match h { 0 => f, _ => 0.5 }"##, json!(match h { 0 => f, _ => 0.5 }), n(if h == 0 { f } else { 0.5 })));
    out.push((r##"if h > 0 { 1 } else { 2 }"##, json!(if h > 0 { 1 } else { 2 }), n(if h > 0 { 1.0 } else { 2.0 })));
    out.push((r##"1 - *r"##, json!(1 - *r), n((1 - h) as f64)));
}
fn values_1(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    let r = &h;
    let _ = (r, f, v, j, list, lj, some, b, a);
    out.push((r##"-h"##, json!(-h), n(-h as f64)));
    out.push((r##"!a.is_empty()"##, json!(!a.is_empty()), Bool(!a.is_empty())));
    out.push((r##"{}"##, json!({}), Obj(vec![])));
    out.push((r##"{}"##, json!({}), Obj(vec![])));
    out.push((r##"if h > 0 { 1 } else { 2 }"##, json!(if h > 0 { 1 } else { 2 }), n(if h > 0 { 1.0 } else { 2.0 })));
    out.push((r##"1 - h"##, json!(1 - h), n((1 - h) as f64)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"h"##, json!(h), n(h as f64)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"-h"##, json!(-h), n(-h as f64)));
    out.push((r##""é""##, json!("é"), s("é")));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"a.len()"##, json!(a.len()), n(a.len() as f64)));
    out.push((r##"v.clone()"##, json!(v.clone()), j.clone()));
    out.push((r##"[]"##, json!([]), Arr(vec![])));
    out.push((r##"-7"##, json!(-7), n(-7.0)));
    out.push((r##"{ " ": null, "type": false, a1: json!(null) }"##, json!({ " ": null, "type": false, a1: json!(null) }), Obj(vec![(" ".to_string(), Null), ("type".to_string(), Bool(false)), ("a1".to_string(), Null)])));
    out.push((r##"[(), 1e3, [{ kind: null, kind: list.clone(), é: 2.5, "1": 1.5f32 }, "a b", -7, { a: "", é: b.clone(), "null": json!(null) },], "é",]"##, json!([(), 1e3, [{ kind: null, kind: list.clone(), é: 2.5, "1": 1.5f32 }, "a b", -7, { a: "", é: b.clone(), "null": json!(null) },], "é",]), Arr(vec![Null, n(1000.0), Arr(vec![Obj(vec![("kind".to_string(), Null), ("kind".to_string(), lj.clone()), ("é".to_string(), n(2.5)), ("1".to_string(), n(1.5))]), s("a b"), n(-7.0), Obj(vec![("a".to_string(), s("")), ("é".to_string(), s(b)), ("null".to_string(), Null)])]), s("é")])));
    out.push((r##"{ b: ", ", }"##, json!({ b: ", ", }), Obj(vec![("b".to_string(), s(", "))])));
    out.push((r##"0x1f"##, json!(0x1f), n(31.0)));
    out.push((r##"false"##, json!(false), Bool(false)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"[(h), some.clone(), ()]"##, json!([(h), some.clone(), ()]), Arr(vec![n(h as f64), some.as_ref().map_or(Null, |x| s(x)), Null])));
    out.push((r##"b.clone()"##, json!(b.clone()), s(b)));
    out.push((r##"[(), false, [{ "": 2.5, é: (), é: list.clone() }, a.as_str(), v.clone(), null], h as f64 / 2.0,]"##, json!([(), false, [{ "": 2.5, é: (), é: list.clone() }, a.as_str(), v.clone(), null], h as f64 / 2.0,]), Arr(vec![Null, Bool(false), Arr(vec![Obj(vec![("".to_string(), n(2.5)), ("é".to_string(), Null), ("é".to_string(), lj.clone())]), s(a), j.clone(), Null]), n(h as f64 / 2.0)])));
}
fn values_2(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    let r = &h;
    let _ = (r, f, v, j, list, lj, some, b, a);
    out.push((r##"[v.clone(), [{ kind: if h > 0 { 1 } else { 2 }, true_: true, a1: h }, a == b, [some.clone(), b.clone(), a.as_str()], if h > 0 { 1 } else { 2 }], { "1": [], a: { true_: b.clone(), " ": -7, "": [], }, _x: (h), _x: 2 * h, }, 0x1f,]"##, json!([v.clone(), [{ kind: if h > 0 { 1 } else { 2 }, true_: true, a1: h }, a == b, [some.clone(), b.clone(), a.as_str()], if h > 0 { 1 } else { 2 }], { "1": [], a: { true_: b.clone(), " ": -7, "": [], }, _x: (h), _x: 2 * h, }, 0x1f,]), Arr(vec![j.clone(), Arr(vec![Obj(vec![("kind".to_string(), n(if h > 0 { 1.0 } else { 2.0 })), ("true_".to_string(), Bool(true)), ("a1".to_string(), n(h as f64))]), Bool(a == b), Arr(vec![some.as_ref().map_or(Null, |x| s(x)), s(b), s(a)]), n(if h > 0 { 1.0 } else { 2.0 })]), Obj(vec![("1".to_string(), Arr(vec![])), ("a".to_string(), Obj(vec![("true_".to_string(), s(b)), (" ".to_string(), n(-7.0)), ("".to_string(), Arr(vec![]))])), ("_x".to_string(), n(h as f64)), ("_x".to_string(), n((2 * h) as f64))]), n(31.0)])));
    out.push((r##"true"##, json!(true), Bool(true)));
    out.push((r##"f"##, json!(f), n(f)));
    out.push((r##"2 * h"##, json!(2 * h), n((2 * h) as f64)));
    out.push((r##"{ "null": b.clone() }"##, json!({ "null": b.clone() }), Obj(vec![("null".to_string(), s(b))])));
    out.push((r##"[{ a: [(), if h > 0 { 1 } else { 2 }, f, true] }, "q\"\\", [], 1e3]"##, json!([{ a: [(), if h > 0 { 1 } else { 2 }, f, true] }, "q\"\\", [], 1e3]), Arr(vec![Obj(vec![("a".to_string(), Arr(vec![Null, n(if h > 0 { 1.0 } else { 2.0 }), n(f), Bool(true)]))]), s("q\"\\"), Arr(vec![]), n(1000.0)])));
    out.push((r##"{ "a.b": 1 - *r, é: 2.0 * f }"##, json!({ "a.b": 1 - *r, é: 2.0 * f }), Obj(vec![("a.b".to_string(), n((1 - h) as f64)), ("é".to_string(), n(2.0 * f))])));
    out.push((r##"{}"##, json!({}), Obj(vec![])));
    out.push((r##"{ "a.b": { a: [0, "word", -7,], b: 0 }, a1: a.as_str(), "é\"": { kind: "\n" } }"##, json!({ "a.b": { a: [0, "word", -7,], b: 0 }, a1: a.as_str(), "é\"": { kind: "\n" } }), Obj(vec![("a.b".to_string(), Obj(vec![("a".to_string(), Arr(vec![n(0.0), s("word"), n(-7.0)])), ("b".to_string(), n(0.0))])), ("a1".to_string(), s(a)), ("é\"".to_string(), Obj(vec![("kind".to_string(), s("\n"))]))])));
    out.push((r##"{ b: { kind: true, b: { "a.b": null, b: b.clone(), "b": true, a1: -7 }, "a.b": { a: [] }, "type": [1 - h, if h > 0 { 1 } else { 2 },] }, true_: (), é: !a.is_empty(), }"##, json!({ b: { kind: true, b: { "a.b": null, b: b.clone(), "b": true, a1: -7 }, "a.b": { a: [] }, "type": [1 - h, if h > 0 { 1 } else { 2 },] }, true_: (), é: !a.is_empty(), }), Obj(vec![("b".to_string(), Obj(vec![("kind".to_string(), Bool(true)), ("b".to_string(), Obj(vec![("a.b".to_string(), Null), ("b".to_string(), s(b)), ("b".to_string(), Bool(true)), ("a1".to_string(), n(-7.0))])), ("a.b".to_string(), Obj(vec![("a".to_string(), Arr(vec![]))])), ("type".to_string(), Arr(vec![n((1 - h) as f64), n(if h > 0 { 1.0 } else { 2.0 })]))])), ("true_".to_string(), Null), ("é".to_string(), Bool(!a.is_empty()))])));
    out.push((r##"1e3"##, json!(1e3), n(1000.0)));
    out.push((r##"42"##, json!(42), n(42.0)));
    out.push((r##"a.as_str()"##, json!(a.as_str()), s(a)));
    out.push((r##"a.len()"##, json!(a.len()), n(a.len() as f64)));
    out.push((r##"{ _x: -h, "1": (h), "": h as f64 / 2.0, a1: [[{}, f, ", ",],] }"##, json!({ _x: -h, "1": (h), "": h as f64 / 2.0, a1: [[{}, f, ", ",],] }), Obj(vec![("_x".to_string(), n(-h as f64)), ("1".to_string(), n(h as f64)), ("".to_string(), n(h as f64 / 2.0)), ("a1".to_string(), Arr(vec![Arr(vec![Obj(vec![]), n(f), s(", ")])]))])));
    out.push((r##"[json!(null), { é: null, "": 2 * h, true_: -0.25, }]"##, json!([json!(null), { é: null, "": 2 * h, true_: -0.25, }]), Arr(vec![Null, Obj(vec![("é".to_string(), Null), ("".to_string(), n((2 * h) as f64)), ("true_".to_string(), n(-0.25))])])));
    out.push((r##"v.clone()"##, json!(v.clone()), j.clone()));
    out.push((r##"match h { 0 => f, _ => 0.5 }"##, json!(match h { 0 => f, _ => 0.5 }), n(if h == 0 { f } else { 0.5 })));
    out.push((r##"{ "1": 0x1f }"##, json!({ "1": 0x1f }), Obj(vec![("1".to_string(), n(31.0))])));
    out.push((r##"2.0 * f"##, json!(2.0 * f), n(2.0 * f)));
    out.push((r##"{ a: 0x1f }"##, json!({ a: 0x1f }), Obj(vec![("a".to_string(), n(31.0))])));
    out.push((r##"a == b"##, json!(a == b), Bool(a == b)));
    out.push((r##"a == b"##, json!(a == b), Bool(a == b)));
    out.push((r##""word""##, json!("word"), s("word")));
    out.push((r##"!a.is_empty()"##, json!(!a.is_empty()), Bool(!a.is_empty())));
}
fn values_3(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    let r = &h;
    let _ = (r, f, v, j, list, lj, some, b, a);
    out.push((r##"[-h, a.as_str()]"##, json!([-h, a.as_str()]), Arr(vec![n(-h as f64), s(a)])));
    out.push((r##"2.5"##, json!(2.5), n(2.5)));
    out.push((r##"{ kind: -h, b: f, a1: v.clone() }"##, json!({ kind: -h, b: f, a1: v.clone() }), Obj(vec![("kind".to_string(), n(-h as f64)), ("b".to_string(), n(f)), ("a1".to_string(), j.clone())])));
    out.push((r##"[b.clone()]"##, json!([b.clone()]), Arr(vec![s(b)])));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"if h > 0 { 1 } else { 2 }"##, json!(if h > 0 { 1 } else { 2 }), n(if h > 0 { 1.0 } else { 2.0 })));
    out.push((r##"[]"##, json!([]), Arr(vec![])));
    out.push((r##"false"##, json!(false), Bool(false)));
    out.push((r##"true"##, json!(true), Bool(true)));
    out.push((r##"h"##, json!(h), n(h as f64)));
    out.push((r##"f"##, json!(f), n(f)));
    out.push((r##"[(h),]"##, json!([(h),]), Arr(vec![n(h as f64)])));
    out.push((r##"some.clone()"##, json!(some.clone()), some.as_ref().map_or(Null, |x| s(x))));
    out.push((r##"-h"##, json!(-h), n(-h as f64)));
    out.push((r##"{ "b": a.as_str(), null: null, "a.b": f, }"##, json!({ "b": a.as_str(), null: null, "a.b": f, }), Obj(vec![("b".to_string(), s(a)), ("null".to_string(), Null), ("a.b".to_string(), n(f))])));
    out.push((r##"json!(null)"##, json!(json!(null)), Null));
    out.push((r##"[some.clone(), "\n", { a1: b.clone(), "b": [[], v.clone(), f, true], a: a.len() }, []]"##, json!([some.clone(), "\n", { a1: b.clone(), "b": [[], v.clone(), f, true], a: a.len() }, []]), Arr(vec![some.as_ref().map_or(Null, |x| s(x)), s("\n"), Obj(vec![("a1".to_string(), s(b)), ("b".to_string(), Arr(vec![Arr(vec![]), j.clone(), n(f), Bool(true)])), ("a".to_string(), n(a.len() as f64))]), Arr(vec![])])));
    out.push((r##"{ "a.b": 42, a: [json!(null), null, { kind: 1 - h, "b": null, _x: if h > 0 { 1 } else { 2 } }, list.clone()], true_: some.clone() }"##, json!({ "a.b": 42, a: [json!(null), null, { kind: 1 - h, "b": null, _x: if h > 0 { 1 } else { 2 } }, list.clone()], true_: some.clone() }), Obj(vec![("a.b".to_string(), n(42.0)), ("a".to_string(), Arr(vec![Null, Null, Obj(vec![("kind".to_string(), n((1 - h) as f64)), ("b".to_string(), Null), ("_x".to_string(), n(if h > 0 { 1.0 } else { 2.0 }))]), lj.clone()])), ("true_".to_string(), some.as_ref().map_or(Null, |x| s(x)))])));
    out.push((r##"true"##, json!(true), Bool(true)));
    out.push((r##"{ é: list.clone(), "a": [a == b], "": { b: (h), true_: {}, a1: { "": v.clone(), "b": h, kind: "word" }, "b": true }, }"##, json!({ é: list.clone(), "a": [a == b], "": { b: (h), true_: {}, a1: { "": v.clone(), "b": h, kind: "word" }, "b": true }, }), Obj(vec![("é".to_string(), lj.clone()), ("a".to_string(), Arr(vec![Bool(a == b)])), ("".to_string(), Obj(vec![("b".to_string(), n(h as f64)), ("true_".to_string(), Obj(vec![])), ("a1".to_string(), Obj(vec![("".to_string(), j.clone()), ("b".to_string(), n(h as f64)), ("kind".to_string(), s("word"))])), ("b".to_string(), Bool(true))]))])));
    out.push((r##"if h > 0 { 1 } else { 2 }"##, json!(if h > 0 { 1 } else { 2 }), n(if h > 0 { 1.0 } else { 2.0 })));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"{ a1: ["\n",] }"##, json!({ a1: ["\n",] }), Obj(vec![("a1".to_string(), Arr(vec![s("\n")]))])));
    out.push((r##"[{ "a.b": -0.25, kind: if h > 0 { 1 } else { 2 }, é: { kind: "", "a.b": !a.is_empty(), _x: a.len(), b: 1.5f32 }, "null": json!(null), },]"##, json!([{ "a.b": -0.25, kind: if h > 0 { 1 } else { 2 }, é: { kind: "", "a.b": !a.is_empty(), _x: a.len(), b: 1.5f32 }, "null": json!(null), },]), Arr(vec![Obj(vec![("a.b".to_string(), n(-0.25)), ("kind".to_string(), n(if h > 0 { 1.0 } else { 2.0 })), ("é".to_string(), Obj(vec![("kind".to_string(), s("")), ("a.b".to_string(), Bool(!a.is_empty())), ("_x".to_string(), n(a.len() as f64)), ("b".to_string(), n(1.5))])), ("null".to_string(), Null)])])));
    out.push((r##"1 - *r"##, json!(1 - *r), n((1 - h) as f64)));
}
fn values_4(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    let r = &h;
    let _ = (r, f, v, j, list, lj, some, b, a);
    out.push((r##"2.5"##, json!(2.5), n(2.5)));
    out.push((r##"[{ " ": v.clone() }, { é: {}, é: {}, a1: 3u64 }, ["{}", list.clone(), ["q\"\\", 1 - h, 1 - h, "[1]"], { _x: -h },]]"##, json!([{ " ": v.clone() }, { é: {}, é: {}, a1: 3u64 }, ["{}", list.clone(), ["q\"\\", 1 - h, 1 - h, "[1]"], { _x: -h },]]), Arr(vec![Obj(vec![(" ".to_string(), j.clone())]), Obj(vec![("é".to_string(), Obj(vec![])), ("é".to_string(), Obj(vec![])), ("a1".to_string(), n(3.0))]), Arr(vec![s("{}"), lj.clone(), Arr(vec![s("q\"\\"), n((1 - h) as f64), n((1 - h) as f64), s("[1]")]), Obj(vec![("_x".to_string(), n(-h as f64))])])])));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##""(""##, json!("("), s("(")));
    out.push((r##"{ "a.b": { "b": [h as f64 / 2.0, a.len(), "q\"\\"] }, kind: [{ kind: true, null: 1_000i64, }, 3u64, ()], true_: h, " ": [-h, { "": ", ", }] }"##, json!({ "a.b": { "b": [h as f64 / 2.0, a.len(), "q\"\\"] }, kind: [{ kind: true, null: 1_000i64, }, 3u64, ()], true_: h, " ": [-h, { "": ", ", }] }), Obj(vec![("a.b".to_string(), Obj(vec![("b".to_string(), Arr(vec![n(h as f64 / 2.0), n(a.len() as f64), s("q\"\\")]))])), ("kind".to_string(), Arr(vec![Obj(vec![("kind".to_string(), Bool(true)), ("null".to_string(), n(1000.0))]), n(3.0), Null])), ("true_".to_string(), n(h as f64)), (" ".to_string(), Arr(vec![n(-h as f64), Obj(vec![("".to_string(), s(", "))])]))])));
    out.push((r##"", ""##, json!(", "), s(", ")));
    out.push((r##"false"##, json!(false), Bool(false)));
    out.push((r##"true"##, json!(true), Bool(true)));
    out.push((r##"{}"##, json!({}), Obj(vec![])));
    out.push((r##"true"##, json!(true), Bool(true)));
    out.push((r##"{ kind: [[json!(null), false,], h, { "a": "", a: null, b: a.len(), }, [-h]], a1: (h), a: 1_000i64 }"##, json!({ kind: [[json!(null), false,], h, { "a": "", a: null, b: a.len(), }, [-h]], a1: (h), a: 1_000i64 }), Obj(vec![("kind".to_string(), Arr(vec![Arr(vec![Null, Bool(false)]), n(h as f64), Obj(vec![("a".to_string(), s("")), ("a".to_string(), Null), ("b".to_string(), n(a.len() as f64))]), Arr(vec![n(-h as f64)])])), ("a1".to_string(), n(h as f64)), ("a".to_string(), n(1000.0))])));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"false"##, json!(false), Bool(false)));
    out.push((r##"[{ kind: [true, if h > 0 { 1 } else { 2 }, []], "é\"": 3u64 }, { a1: 2.0 * f, null: -0.25, "": "", }, -7, {}]"##, json!([{ kind: [true, if h > 0 { 1 } else { 2 }, []], "é\"": 3u64 }, { a1: 2.0 * f, null: -0.25, "": "", }, -7, {}]), Arr(vec![Obj(vec![("kind".to_string(), Arr(vec![Bool(true), n(if h > 0 { 1.0 } else { 2.0 }), Arr(vec![])])), ("é\"".to_string(), n(3.0))]), Obj(vec![("a1".to_string(), n(2.0 * f)), ("null".to_string(), n(-0.25)), ("".to_string(), s(""))]), n(-7.0), Obj(vec![])])));
    out.push((r##"{ "a": !a.is_empty(), a1: { a1: { "": v.clone(), null: null, " ": (), }, é: { " ": false, "b": some.clone(), "a.b": a == b }, } }"##, json!({ "a": !a.is_empty(), a1: { a1: { "": v.clone(), null: null, " ": (), }, é: { " ": false, "b": some.clone(), "a.b": a == b }, } }), Obj(vec![("a".to_string(), Bool(!a.is_empty())), ("a1".to_string(), Obj(vec![("a1".to_string(), Obj(vec![("".to_string(), j.clone()), ("null".to_string(), Null), (" ".to_string(), Null)])), ("é".to_string(), Obj(vec![(" ".to_string(), Bool(false)), ("b".to_string(), some.as_ref().map_or(Null, |x| s(x))), ("a.b".to_string(), Bool(a == b))]))]))])));
    out.push((r##"42"##, json!(42), n(42.0)));
    out.push((r##"{ true_: null, a1: 1_000i64 }"##, json!({ true_: null, a1: 1_000i64 }), Obj(vec![("true_".to_string(), Null), ("a1".to_string(), n(1000.0))])));
    out.push((r##"{ "a.b": [1_000i64, 0], " ": { a1: "", "null": 1 - *r, b: { a1: "[1]", a1: v.clone(), } } }"##, json!({ "a.b": [1_000i64, 0], " ": { a1: "", "null": 1 - *r, b: { a1: "[1]", a1: v.clone(), } } }), Obj(vec![("a.b".to_string(), Arr(vec![n(1000.0), n(0.0)])), (" ".to_string(), Obj(vec![("a1".to_string(), s("")), ("null".to_string(), n((1 - h) as f64)), ("b".to_string(), Obj(vec![("a1".to_string(), s("[1]")), ("a1".to_string(), j.clone())]))]))])));
    out.push((r##""q\"\\""##, json!("q\"\\"), s("q\"\\")));
    out.push((r##"-h"##, json!(-h), n(-h as f64)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##""null""##, json!("null"), s("null")));
    out.push((r##"a == b"##, json!(a == b), Bool(a == b)));
    out.push((r##"-0.25"##, json!(-0.25), n(-0.25)));
    out.push((r##""""##, json!(""), s("")));
}
fn values_5(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    let r = &h;
    let _ = (r, f, v, j, list, lj, some, b, a);
    out.push((r##"42"##, json!(42), n(42.0)));
    out.push((r##"{ é: -7, b: { é: -7, "null": "{}", "1": 1 - h, "a.b": [1.5f32, 1.5f32], }, a: a == b }"##, json!({ é: -7, b: { é: -7, "null": "{}", "1": 1 - h, "a.b": [1.5f32, 1.5f32], }, a: a == b }), Obj(vec![("é".to_string(), n(-7.0)), ("b".to_string(), Obj(vec![("é".to_string(), n(-7.0)), ("null".to_string(), s("{}")), ("1".to_string(), n((1 - h) as f64)), ("a.b".to_string(), Arr(vec![n(1.5), n(1.5)]))])), ("a".to_string(), Bool(a == b))])));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"{ é: false, }"##, json!({ é: false, }), Obj(vec![("é".to_string(), Bool(false))])));
    out.push((r##"false"##, json!(false), Bool(false)));
    out.push((r##""é""##, json!("é"), s("é")));
    out.push((r##"-0.25"##, json!(-0.25), n(-0.25)));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"b.clone()"##, json!(b.clone()), s(b)));
    out.push((r##"2.0 * f"##, json!(2.0 * f), n(2.0 * f)));
    out.push((r##"42"##, json!(42), n(42.0)));
    out.push((r##"0x1f"##, json!(0x1f), n(31.0)));
    out.push((r##"1.5f32"##, json!(1.5f32), n(1.5)));
    out.push((r##"{ true_: [] }"##, json!({ true_: [] }), Obj(vec![("true_".to_string(), Arr(vec![]))])));
    out.push((r##"a.len()"##, json!(a.len()), n(a.len() as f64)));
    out.push((r##"{ kind: some.clone() }"##, json!({ kind: some.clone() }), Obj(vec![("kind".to_string(), some.as_ref().map_or(Null, |x| s(x)))])));
    out.push((r##"null"##, json!(null), Null));
    out.push((r##"2.0 * f"##, json!(2.0 * f), n(2.0 * f)));
    out.push((r##"-7"##, json!(-7), n(-7.0)));
    out.push((r##"0x1f"##, json!(0x1f), n(31.0)));
    out.push((r##"list.clone()"##, json!(list.clone()), lj.clone()));
    out.push((r##"{ "b": {} }"##, json!({ "b": {} }), Obj(vec![("b".to_string(), Obj(vec![]))])));
    out.push((r##"{}"##, json!({}), Obj(vec![])));
    out.push((r##"1 - *r"##, json!(1 - *r), n((1 - h) as f64)));
    out.push((r##"{ "null": 2.0 * f }"##, json!({ "null": 2.0 * f }), Obj(vec![("null".to_string(), n(2.0 * f))])));
}
pub fn values(a: &String, b: &String, f: f64, h: i32, v: &JsonValue, j: &J, list: &Vec<JsonValue>, lj: &J, some: &Option<String>, out: &mut Vec<(&'static str, JsonValue, J)>) {
    values_0(a, b, f, h, v, j, list, lj, some, out);
    values_1(a, b, f, h, v, j, list, lj, some, out);
    values_2(a, b, f, h, v, j, list, lj, some, out);
    values_3(a, b, f, h, v, j, list, lj, some, out);
    values_4(a, b, f, h, v, j, list, lj, some, out);
    values_5(a, b, f, h, v, j, list, lj, some, out);
}
