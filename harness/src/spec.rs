//! The mapping of documents to generic values (HCL JSON specification).

use crate::conv;
use crate::model::*;
use crate::p_fmt;
use crate::serdyn::{Ty, Vt, D};
use crate::val::V;

/// The text of an expression that is not a literal.
pub fn interpolated(e: &E) -> String {
    format!("${{{}}}", p_fmt::compact(e))
}

pub fn expr(e: &E) -> V {
    match e {
        E::Null => V::Null,
        E::Bool(b) => V::Bool(*b),
        E::Num(n) => V::Num(*n),
        E::Str(s) => V::Str(s.clone()),
        E::Arr(a) => V::Arr(a.iter().map(expr).collect()),
        E::Obj(o) => {
            let mut out: Vec<(String, V)> = vec![];
            for (k, v) in o {
                put(&mut out, key(k), expr(v));
            }
            V::Obj(out)
        }
        E::Paren(e) => expr(e),
        E::Tmpl(t) => V::Str(conv::raw_template(t)),
        E::Heredoc(h) => V::Str(conv::raw_template(&h.body)),
        _ => V::Str(interpolated(e)),
    }
}

/// What the serializers of other formats see: templates are interpolated as well.
pub fn foreign(e: &E) -> V {
    match e {
        E::Arr(a) => V::Arr(a.iter().map(foreign).collect()),
        E::Paren(e) => foreign(e),
        E::Tmpl(_) | E::Heredoc(_) => V::Str(interpolated(e)),
        e => expr(e),
    }
}

fn put(o: &mut Vec<(String, V)>, k: String, v: V) {
    match o.iter_mut().find(|(x, _)| *x == k) {
        Some(x) => x.1 = v,
        None => o.push((k, v)),
    }
}

pub fn key(k: &K) -> String {
    let mut e = match k {
        K::Id(s) => return s.clone(),
        K::Ex(e) => e,
    };
    while let E::Paren(x) = e {
        e = x;
    }
    match expr(e) {
        V::Str(s) => s,
        _ => p_fmt::default(e),
    }
}

enum Node {
    Map(Vec<(String, Node)>),
    Bodies(Vec<B>),
    Val(V),
}

fn add(o: &mut Vec<(String, Node)>, k: String, n: Node) {
    let Some(x) = o.iter_mut().find(|(x, _)| *x == k) else {
        o.push((k, n));
        return;
    };
    match (&mut x.1, n) {
        (Node::Map(a), Node::Map(b)) => b.into_iter().for_each(|(k, n)| add(a, k, n)),
        (Node::Bodies(a), Node::Bodies(b)) => a.extend(b),
        (a, b) => *a = b,
    }
}

fn end(n: Node) -> V {
    match n {
        Node::Map(m) => V::Obj(m.into_iter().map(|(k, n)| (k, end(n))).collect()),
        Node::Bodies(mut b) if b.len() == 1 => body(&b.remove(0)),
        Node::Bodies(b) => V::Arr(b.iter().map(|b| body(b)).collect()),
        Node::Val(v) => v,
    }
}

/// Attributes become items, blocks nest below identifier and labels, several bodies at the same
/// place become an array. The last of different things at the same place counts.
pub fn body(b: &[S]) -> V {
    let mut o = vec![];
    for s in b {
        match s {
            S::Attr(k, e) => match o.iter_mut().find(|(x, _)| x == k) {
                Some((_, n)) => *n = Node::Val(expr(e)),
                None => o.push((k.clone(), Node::Val(expr(e)))),
            },
            S::Block(b) => {
                let mut n = Node::Bodies(vec![b.body.clone()]);
                for l in b.labels.iter().rev() {
                    let (L::Id(l) | L::Str(l)) = l;
                    n = Node::Map(vec![(l.clone(), n)]);
                }
                add(&mut o, b.ident.clone(), n);
            }
        }
    }
    end(Node::Map(o))
}

/// Whether a body can be written without being refused by the parser.
pub fn parseable(b: &[S]) -> bool {
    let mut seen = std::collections::HashSet::new();
    b.iter().all(|s| match s {
        S::Attr(k, _) => seen.insert(k),
        S::Block(b) => parseable(&b.body),
    })
}

/// What serde data means as generic value.
pub fn plain(t: &Ty, d: &D) -> V {
    let st = |f: &[(&'static str, Ty)], v: &[D]| V::Obj(f.iter().zip(v).map(|((k, t), d)| (k.to_string(), plain(t, d))).collect());
    match (t, d) {
        (Ty::Opt(t), D::Some(d)) | (Ty::New(_, t), D::New(d)) => plain(t, d),
        (Ty::Block(t) | Ty::Labeled(t), d) => plain(t, d),
        (Ty::Seq(t), D::Seq(v)) => V::Arr(v.iter().map(|d| plain(t, d)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(_, ts), D::Seq(v)) => V::Arr(ts.iter().zip(v).map(|(t, d)| plain(t, d)).collect()),
        (Ty::Map(_, t), D::Map(m)) => V::Obj(m.iter().map(|(k, v)| (plain_key(k), plain(t, v))).collect()),
        (Ty::Doubly(t), D::Map(m)) => {
            let inner = Ty::Map(Box::new(Ty::Str), t.clone());
            V::Obj(m.iter().map(|(k, v)| (plain_key(k), plain(&inner, v))).collect())
        }
        (Ty::Struct(_, f), D::Struct(v)) => st(f, v),
        (Ty::Enum(_, vs), D::Var(i, v)) => {
            let k = vs[*i].0.to_string();
            match &vs[*i].1 {
                Vt::Unit => V::Str(k),
                Vt::New(t) => V::Obj(vec![(k, plain(t, &v[0]))]),
                Vt::Tuple(ts) => V::Obj(vec![(k, V::Arr(ts.iter().zip(v).map(|(t, d)| plain(t, d)).collect()))]),
                Vt::Struct(f) => V::Obj(vec![(k, st(f, v))]),
            }
        }
        (_, D::Val(v)) => v.clone(),
        _ => expr(&crate::serdyn::expr(t, d).expect("plain data")),
    }
}

fn plain_key(d: &D) -> String {
    match d {
        D::Str(s) => s.clone(),
        D::Char(c) => c.to_string(),
        D::Int(i) => i.to_string(),
        D::New(d) => plain_key(d),
        D::Var(i, _) => ["a", "b-1", "C", "é"][*i].to_string(),
        d => format!("{d:?}"),
    }
}

/// Whether some key of an object can be no string. Such documents are refused as generic values.
pub fn strange_keys(b: &[S]) -> bool {
    let mut found = false;
    walk_b(b, &mut |e| {
        if let E::Obj(o) = e {
            for (k, _) in o {
                if let K::Ex(e) = k {
                    let mut e = e;
                    while let E::Paren(x) = e {
                        e = x;
                    }
                    found |= matches!(e, E::Null | E::Arr(_) | E::Obj(_));
                }
            }
        }
    });
    found
}

/// Whether two keys of an object are the same string. Structs refuse such objects.
pub fn clashing_keys(b: &[S]) -> bool {
    let mut found = false;
    walk_b(b, &mut |e| {
        if let E::Obj(o) = e {
            let mut seen = std::collections::HashSet::new();
            found |= !o.iter().all(|(k, _)| seen.insert(key(k)));
        }
    });
    found
}
