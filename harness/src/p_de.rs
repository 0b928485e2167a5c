//! P14: deserialization of documents.

use crate::conv;
use crate::gen::G;
use crate::model::*;
use crate::p_conv::rs_opts;
use crate::p_parse::{first_diff, gen_body, hostile};
use crate::p_ser::{read, with_ty, Dyn};
use crate::render::{render_body, Mode};
use crate::run::{Mon, Obs};
use crate::serdyn::{Ty, Vt, D};
use crate::spec;
use crate::val::V;
use hcl::expr as re;
use serde::Deserialize;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::Mutex;

fn diff<X: PartialEq + Debug>(obs: &mut Obs, src: &str, what: &str, got: &X, want: &X) -> bool {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
    got == want
}

/// Strings by meaning: those which are templates are compared as such.
fn meaning(v: &V) -> V {
    let s = |s: &String| -> String {
        match hcl_edit::template::Template::from_str_opt(s) {
            Some(t) => format!("{:?}", nt(&conv::edit_template(&t), Nf::Rs)),
            None => s.clone(),
        }
    };
    match v {
        V::Str(x) => V::Str(s(x)),
        V::Arr(a) => V::Arr(a.iter().map(meaning).collect()),
        V::Obj(o) => V::Obj(o.iter().map(|(k, v)| (s(k), meaning(v))).collect()),
        v => v.clone(),
    }
}

trait FromStrOpt: Sized {
    fn from_str_opt(s: &str) -> Option<Self>;
}

impl FromStrOpt for hcl_edit::template::Template {
    fn from_str_opt(s: &str) -> Option<Self> {
        s.parse().ok()
    }
}

/// Checks all routes from a document to generic values, returns the value.
fn all_routes(obs: &mut Obs, src: &str) -> Option<V> {
    let v = match read::<hcl::Value>(obs, src, src) {
        Ok(v) => v,
        Err(e) => {
            obs.fail(src, format!("was refused: {e}"));
            return None;
        }
    };
    let body = hcl::parse(src).expect("document");
    diff(obs, src, "Value::from(Body)", &hcl::Value::from(body.clone()), &v);
    let e = hcl::Expression::from(body.clone());
    diff(obs, src, "Expression::from(Body)", &hcl::Value::from(e.clone()), &v);
    diff(obs, src, "Value from Expression", &hcl::Value::deserialize(e.clone()).map_err(|e| e.to_string()), &Ok(v.clone()));
    diff(obs, src, "from_value", &hcl::from_value::<hcl::Value>(v.clone()).map_err(|e| e.to_string()), &Ok(v.clone()));
    let edit: hcl_edit::structure::Body = src.parse().expect("document");
    diff(obs, src, "by hcl-edit", &hcl::Value::from(hcl::Body::from(edit)), &v);
    let json = read::<serde_json::Value>(obs, src, src);
    diff(obs, src, "as JSON", &json, &serde_json::to_value(&v).map_err(|e| e.to_string()));
    // Order and content are also those of the text of the JSON.
    let text = serde_json::to_string(&v).expect("JSON");
    diff(obs, src, "JSON text", &json.and_then(|j| serde_json::to_string(&j).map_err(|e| e.to_string())), &Ok(text));
    for (i, s) in body.into_iter().enumerate() {
        match s {
            hcl::Structure::Attribute(a) => {
                let x = hcl::Value::from(a.clone());
                diff(obs, src, "Value from Attribute", &hcl::Value::from(hcl::Structure::Attribute(a.clone())), &x);
                diff(obs, src, "Value from the expression", &hcl::Value::from([(a.key.as_str().to_string(), hcl::Value::from(a.expr))].into_iter().collect::<hcl::Map<_, _>>()), &x);
            }
            hcl::Structure::Block(b) => {
                if i > 3 {
                    continue;
                }
                let x = hcl::Value::from(b.clone());
                diff(obs, src, "Value from Block", &hcl::Value::from(hcl::Structure::Block(b.clone())), &x);
                let one: hcl::Body = [b].into_iter().collect();
                diff(obs, src, "Value from Body of one block", &hcl::Value::from(one), &x);
            }
        }
    }
    Some(V::of(&v))
}

fn text(b: &[S]) -> String {
    hcl::format::to_string(&conv::to_rs_body(b)).expect("formatted")
}

fn mapping(obs: &mut Obs, b: &[S], src: &str, exact: bool) {
    obs.case(src, !b.is_empty());
    if spec::strange_keys(b) {
        obs.feat("documents with odd keys");
        return;
    }
    let Some(v) = all_routes(obs, src) else { return };
    let want = spec::body(b);
    if exact {
        diff(obs, src, "generic value", &v, &want);
        obs.feat("exact documents");
    } else {
        diff(obs, src, "generic value", &meaning(&v), &meaning(&want));
        obs.feat("documents by meaning");
    }
    v.walk(&mut |v| {
        obs.feat(v.kind());
        if let V::Str(s) = v {
            if s.starts_with("${") {
                obs.feat("interpolation");
            }
        }
    });
}

// --- typed --------------------------------------------------------------------------------------

fn leak(s: &str) -> &'static str {
    static POOL: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashMap::new);
    if let Some(s) = p.get(s) {
        return s;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    p.insert(s.to_string(), l);
    l
}

/// A type that fits the value, and the data it is then.
fn infer(g: &mut G, v: &V) -> (Ty, D) {
    if g.r.one_in(12) {
        return (Ty::Value, D::Val(v.clone()));
    }
    let (t, d) = match v {
        V::Null => return if g.r.bool() { (Ty::Unit, D::Unit) } else { (Ty::Opt(Box::new(g.ty(PLAIN, 1))), D::None) },
        V::Bool(b) => (Ty::Bool, D::Bool(*b)),
        V::Num(n) => match n {
            N::U(u) => match [8, 16, 32, 64].into_iter().find(|b| *b == 64 || *u < (1 << b)) {
                _ if *u < (1 << 53) && g.r.one_in(4) => (Ty::F64, D::F64(*u as f64)),
                _ if *u <= i64::MAX as u64 && g.r.one_in(3) => (Ty::Int(true, 64), D::Int(*u as i128)),
                b => (Ty::Int(false, b.unwrap_or(64)), D::Int(*u as i128)),
            },
            N::I(i) => match [8u32, 16, 32, 64].into_iter().find(|b| *b == 64 || *i >= -(1i64 << (b - 1))) {
                b => (Ty::Int(true, b.unwrap_or(64)), D::Int(*i as i128)),
            },
            N::F(f) => (Ty::F64, D::F64(*f)),
        },
        V::Str(s) => match s.chars().collect::<Vec<_>>()[..] {
            [c] if g.r.bool() => (Ty::Char, D::Char(c)),
            _ if !s.is_empty() && !s.contains(['\n', '$', '%']) && g.r.one_in(4) => (Ty::Enum("E", vec![("other", Vt::Unit), (leak(s), Vt::Unit)]), D::Var(if s == "other" { 0 } else { 1 }, vec![])),
            _ => (Ty::Str, D::Str(s.clone())),
        },
        V::Arr(a) => {
            let (t, d): (Vec<_>, Vec<_>) = a.iter().map(|v| infer(g, v)).unzip();
            if t.is_empty() || t.iter().all(|x| *x == t[0]) && g.r.bool() {
                (Ty::Seq(Box::new(t.first().cloned().unwrap_or(Ty::Str))), D::Seq(d))
            } else if g.r.bool() {
                (Ty::Tuple(t), D::Seq(d))
            } else if g.r.one_in(4) {
                let f = t.into_iter().enumerate().map(|(i, t)| (leak(&format!("f{i}")), t)).collect();
                (Ty::Struct("S", f), D::Struct(d))
            } else {
                (Ty::TupleStruct("T", t), D::Seq(d))
            }
        }
        V::Obj(o) => {
            if g.r.one_in(3) {
                (
                    Ty::Map(Box::new(Ty::Str), Box::new(Ty::Value)),
                    D::Map(o.iter().map(|(k, v)| (D::Str(k.clone()), D::Val(v.clone()))).collect()),
                )
            } else if o.len() == 1 && g.r.bool() {
                let (t, d) = infer(g, &o[0].1);
                let k = leak(&o[0].0);
                let (vt, d) = match (t, d) {
                    (Ty::Tuple(t), D::Seq(d)) => (Vt::Tuple(t), d),
                    (Ty::Struct(_, f), D::Struct(d)) if matches!(o[0].1, V::Obj(_)) => (Vt::Struct(f), d),
                    (t, d) => (Vt::New(t), vec![d]),
                };
                (Ty::Enum("E", vec![(k, vt)]), D::Var(0, d))
            } else {
                let mut f = vec![];
                let mut d = vec![];
                for (k, v) in o {
                    // Unknown fields are skipped.
                    if g.r.one_in(10) {
                        continue;
                    }
                    let (t, x) = infer(g, v);
                    f.push((leak(k), t));
                    d.push(x);
                }
                (Ty::Struct("S", f), D::Struct(d))
            }
        }
    };
    match g.r.below(10) {
        0 => (Ty::New("N", Box::new(t)), D::New(Box::new(d))),
        1 => (Ty::Opt(Box::new(t)), D::Some(Box::new(d))),
        _ => (t, d),
    }
}

const PLAIN: crate::serdyn::TyOpts = crate::serdyn::TyOpts { odd: false, blocks: false, exprs: false, keys: false };

fn typed(obs: &mut Obs, g: &mut G, b: &[S], src: &str) {
    if spec::strange_keys(b) || spec::clashing_keys(b) {
        return;
    }
    // The mapping itself is checked elsewhere.
    let v = V::of(&hcl::from_str::<hcl::Value>(src).expect("document"));
    let (t, d) = infer(g, &v);
    obs.case(&format!("{src}\n{t:?}"), !b.is_empty());
    match with_ty(&t, || read::<Dyn>(obs, src, src)) {
        Ok(x) => {
            if diff(obs, src, &format!("read as {t:?}"), &x.0, &d) {
                obs.feat("typed documents");
            }
        }
        Err(e) => obs.fail(src, format!("refused as {t:?}: {e}")),
    }
    match with_ty(&t, || hcl::from_value::<Dyn>(v.to())) {
        Ok(x) => {
            diff(obs, src, &format!("value read as {t:?}"), &x.0, &d);
        }
        Err(e) => obs.fail(src, format!("value refused as {t:?}: {e}")),
    }
}

// --- the crate's types --------------------------------------------------------------------------

fn identity<'de, T>(obs: &mut Obs, src: &str, what: &str, x: &T, d: impl serde::Deserializer<'de, Error = hcl::Error>)
where
    T: Deserialize<'de> + PartialEq + Debug,
{
    match T::deserialize(d) {
        Ok(y) => {
            if diff(obs, src, what, &y, x) {
                obs.feat(what);
            }
        }
        Err(e) => obs.fail(src, format!("{what}: {e}")),
    }
}

fn expr(obs: &mut Obs, src: &str, e: &re::Expression) {
    identity(obs, src, "Expression", e, e.clone());
    let d = || e.clone();
    match e {
        re::Expression::Array(a) => {
            identity(obs, src, "Array", a, d());
            a.iter().for_each(|e| expr(obs, src, e));
        }
        re::Expression::Object(o) => {
            identity(obs, src, "Object", o, d());
            for (k, v) in o {
                use serde::de::IntoDeserializer;
                identity(obs, src, "ObjectKey", k, k.clone().into_deserializer());
                expr(obs, src, v);
            }
        }
        re::Expression::TemplateExpr(t) => {
            identity(obs, src, "TemplateExpr", &**t, d());
            if let re::TemplateExpr::Heredoc(h) = &**t {
                identity(obs, src, "Heredoc", h, d());
            }
        }
        re::Expression::Variable(v) => identity(obs, src, "Variable", v, d()),
        re::Expression::Traversal(t) => {
            identity(obs, src, "Traversal", &**t, d());
            expr(obs, src, &t.expr);
        }
        re::Expression::FuncCall(c) => {
            identity(obs, src, "FuncCall", &**c, d());
            c.args.iter().for_each(|e| expr(obs, src, e));
        }
        re::Expression::Parenthesis(p) => expr(obs, src, p),
        re::Expression::Conditional(c) => {
            identity(obs, src, "Conditional", &**c, d());
            expr(obs, src, &c.cond_expr);
        }
        re::Expression::Operation(o) => {
            identity(obs, src, "Operation", &**o, d());
            match &**o {
                re::Operation::Unary(u) => identity(obs, src, "UnaryOp", u, d()),
                re::Operation::Binary(b) => identity(obs, src, "BinaryOp", b, d()),
            }
        }
        re::Expression::ForExpr(f) => {
            identity(obs, src, "ForExpr", &**f, d());
            expr(obs, src, &f.value_expr);
        }
        _ => {}
    }
}

fn own(obs: &mut Obs, b: &hcl::Body, src: &str) {
    use serde::de::IntoDeserializer;
    identity(obs, src, "Body", b, b.clone().into_deserializer());
    identity(obs, src, "Body of a document", b, hcl::de::Deserializer::from_body(b.clone()));
    for s in b {
        identity(obs, src, "Structure", s, s.clone().into_deserializer());
        match s {
            hcl::Structure::Attribute(a) => {
                identity(obs, src, "Attribute", a, a.clone().into_deserializer());
                expr(obs, src, &a.expr);
            }
            hcl::Structure::Block(b) => {
                identity(obs, src, "Block", b, b.clone().into_deserializer());
                for l in &b.labels {
                    identity(obs, src, "BlockLabel", l, l.clone().into_deserializer());
                }
                own(obs, &b.body, src);
            }
        }
    }
}

pub fn p14(m: &mut Mon) {
    m.rule = "a case is a document which is read as generic value by every route and compared with the independent implementation of the JSON mapping, or read as a type derived from that value, or as the syntax tree types; nontrivial: the document is not empty".into();
    m.assumptions = vec![
        "documents with null, arrays or objects as object keys are refused as generic values, they are excluded".into(),
        "decoration inside of interpolations of templates is part of the strings; documents in random layouts are therefore compared by meaning".into(),
    ];
    let n = m.n(30_000);
    m.cases("plain", n, |obs, rng, _| {
        let b = gen_body(rng, rs_opts());
        let src = text(&b);
        mapping(obs, &b, &src, true);
    });
    // Few names, so that blocks and attributes meet.
    let n = m.n(30_000);
    m.cases("blocks", n, |obs, rng, _| {
        let mut g = G::new(rng, rs_opts());
        let b = blocks(&mut g, 3);
        let src = text(&b);
        let mut kinds = vec![];
        count(&b, &mut kinds);
        for k in kinds {
            obs.feat(k);
        }
        mapping(obs, &b, &src, true);
    });
    let n = m.n(20_000);
    m.cases("layouts", n, |obs, rng, _| {
        let b = gen_body(rng, rs_opts());
        let src = render_body(rng, &b, Mode::Wild).0;
        mapping(obs, &b, &src, false);
    });
    // Documents of up to 100 kB with many characters of several bytes.
    let n = m.n(60);
    m.cases("large", n, |obs, rng, _| {
        let size = rng.range(8_000, 100_000);
        let mut b = vec![];
        let mut len = 0;
        while len < size {
            let mut g = G::new(rng, rs_opts());
            let mut s = blocks(&mut g, 2);
            if g.r.bool() {
                let c = *g.r.pick(&["é", "日本", "x😀", "ß"]);
                let n = g.r.range(1, 400);
                s.push(S::Attr(format!("text{}", b.len()), E::Str(c.repeat(n))));
            }
            // The keys of attributes are unique.
            for (i, s) in s.iter_mut().enumerate() {
                if let S::Attr(k, _) = s {
                    *k = format!("{k}_{}_{i}", b.len());
                }
            }
            len += text(&s).len();
            b.extend(s);
        }
        let src = text(&b);
        obs.feat("large documents");
        mapping(obs, &b, &src, true);
    });
    let n = m.n(30_000);
    m.cases("typed", n, |obs, rng, _| {
        let b = if rng.bool() {
            gen_body(rng, rs_opts())
        } else {
            let mut g = G::new(rng, rs_opts());
            blocks(&mut g, 3)
        };
        let src = if rng.bool() { text(&b) } else { render_body(rng, &b, Mode::Wild).0 };
        let mut g = G::new(rng, rs_opts());
        typed(obs, &mut g, &b, &src);
    });
    let n = m.n(10_000);
    m.cases("own", n, |obs, rng, _| {
        let b = gen_body(rng, rs_opts());
        let rs = conv::to_rs_body(&b);
        let src = hcl::format::to_string(&rs).expect("formatted");
        obs.case(&src, !b.is_empty());
        own(obs, &rs, &src);
    });
    // Invalid documents are refused by all routes with the same error.
    let n = m.n(10_000);
    m.cases("invalid", n, |obs, rng, i| {
        let src = hostile(rng, i % 3);
        obs.case(&src, false);
        let parsed = hcl::parse(&src);
        match read::<hcl::Value>(obs, &src, &src) {
            Ok(v) => {
                obs.feat("valid");
                if parsed.ok().map(hcl::Value::from) != Some(v) {
                    obs.fail(&src, "a document is read but not parsed");
                }
            }
            Err(e) => {
                obs.feat("invalid");
                if let Err(p) = parsed {
                    diff(obs, &src, "error", &e, &p.to_string());
                }
            }
        }
    });
    for f in ["null value", "bool value", "unsigned value", "negative value", "float value", "string value", "array value", "object value", "interpolation"] {
        m.require(f, 500);
    }
    for f in ["same labels", "same block", "attribute and block", "labels and none"] {
        m.require(f, 1000);
    }
    for f in [
        "Expression", "Array", "Object", "ObjectKey", "TemplateExpr", "Heredoc", "Variable", "Traversal", "FuncCall", "Conditional", "Operation", "UnaryOp", "BinaryOp", "ForExpr", "Body",
        "Body of a document", "Structure", "Attribute", "Block", "BlockLabel",
    ] {
        m.require(f, 100);
    }
    m.require("typed documents", 10_000);
    m.require("exact documents", 20_000);
    m.require("documents by meaning", 10_000);
    m.require("invalid", 1000);
    m.require("large documents", 50);
    m.require("failing reader", 10_000);
}

/// Which collisions happen in a body.
fn count(b: &[S], out: &mut Vec<&'static str>) {
    let mut seen: Vec<(&str, Option<&Vec<L>>)> = vec![];
    for s in b {
        let (k, l) = match s {
            S::Attr(k, _) => (k.as_str(), None),
            S::Block(b) => {
                count(&b.body, out);
                (b.ident.as_str(), Some(&b.labels))
            }
        };
        for (x, y) in &seen {
            if *x == k {
                out.push(match (y, l) {
                    (Some(a), Some(b)) if a.is_empty() && b.is_empty() => "same block",
                    (Some(a), Some(b)) if a == &b => "same labels",
                    (Some(a), Some(b)) if a.is_empty() != b.is_empty() => "labels and none",
                    (Some(_), Some(_)) => "different labels",
                    _ => "attribute and block",
                });
            }
        }
        seen.push((k, l));
    }
}

fn blocks(g: &mut G, d: usize) -> B {
    let n = if g.r.one_in(12) { g.r.range(5, 40) } else { g.r.range(0, 5) };
    let many = n > 5;
    // Few names, often a single one with many blocks.
    let names: &[&str] = if g.r.one_in(4) { &["a"] } else { &["a", "b", "c"] };
    let mut out: B = vec![];
    for _ in 0..n {
        let k = g.r.pick(names).to_string();
        if d == 0 || g.r.one_in(4) {
            if out.iter().any(|s| matches!(s, S::Attr(x, _) if *x == k)) {
                continue;
            }
            g.budget = 6;
            out.push(S::Attr(k, g.expr(1)));
        } else {
            let n = if many { g.r.below(2) } else { g.r.below(4) };
            let labels = (0..n)
                .map(|_| {
                    let l = g.r.pick(&["a", "b", "x", "y z", "0"]).to_string();
                    if hcl::Identifier::new(&l).is_ok() && g.r.bool() {
                        L::Id(l)
                    } else {
                        L::Str(l)
                    }
                })
                .collect();
            let d = if many { 1 } else { d };
            out.push(S::Block(Block { ident: k, labels, body: blocks(g, d - 1) }));
        }
    }
    out
}
