//! P15: values, expressions and serde data.

use crate::conv;
use crate::gen::G;
use crate::model::*;
use crate::p_conv::rs_opts;
use crate::p_parse::first_diff;
use crate::p_ser::{with_ty, Dyn};
use crate::run::{Mon, Obs};
use crate::serdyn::{self, Sd, Ty, TyOpts, Vt, D};
use crate::spec;
use crate::val::V;
use hcl::{Expression, Value};
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use serde_json::Value as Json;
use std::borrow::Cow;
use std::fmt::Debug;

fn diff<X: PartialEq + Debug>(obs: &mut Obs, src: &str, what: &str, got: &X, want: &X) -> bool {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
    got == want
}

// --- the oracle ---------------------------------------------------------------------------------

fn vkey(t: &Ty, d: &D) -> Option<String> {
    Some(match (t, d) {
        (Ty::Str, D::Str(s)) => s.clone(),
        (Ty::Char, D::Char(c)) => c.to_string(),
        (Ty::New(_, t), D::New(d)) => vkey(t, d)?,
        (Ty::Enum(_, v), D::Var(i, _)) if v[*i].1 == Vt::Unit => v[*i].0.to_string(),
        _ => return None,
    })
}

fn num(f: f64) -> V {
    N::from_f64(f).map_or(V::Null, V::Num)
}

fn all(ts: &mut dyn Iterator<Item = &Ty>, v: &[D]) -> Option<V> {
    Some(V::Arr(ts.zip(v).map(|(t, d)| value(t, d)).collect::<Option<_>>()?))
}

fn put(o: &mut Vec<(String, V)>, k: String, v: V) {
    match o.iter_mut().find(|(x, _)| *x == k) {
        Some(x) => x.1 = v,
        None => o.push((k, v)),
    }
}

fn object(f: &[(serdyn::Name, Ty)], v: &[D]) -> Option<V> {
    Some(V::Obj(f.iter().zip(v).map(|((k, t), d)| Some((k.to_string(), value(t, d)?))).collect::<Option<_>>()?))
}

/// The value that the data becomes, `None` if it has to be refused.
fn value(t: &Ty, d: &D) -> Option<V> {
    Some(match (t, d) {
        (_, D::Bool(b)) => V::Bool(*b),
        (_, D::Int(i)) => V::Num(N::from_i128(*i)),
        (_, D::F32(f)) => num(*f as f64),
        (_, D::F64(f)) => num(*f),
        (_, D::Char(c)) => V::Str(c.to_string()),
        (_, D::Str(s)) => V::Str(s.clone()),
        (_, D::Bytes(b)) => V::Arr(b.iter().map(|b| V::Num(N::U(*b as u64))).collect()),
        (_, D::Unit | D::None) => V::Null,
        (Ty::Opt(t), D::Some(d)) | (Ty::New(_, t), D::New(d)) => value(t, d)?,
        (Ty::Block(t) | Ty::Labeled(t), d) => value(t, d)?,
        (Ty::Seq(t), D::Seq(v)) => all(&mut std::iter::repeat(&**t), v)?,
        (Ty::Tuple(ts) | Ty::TupleStruct(_, ts), D::Seq(v)) => all(&mut ts.iter(), v)?,
        (Ty::Map(k, t), D::Map(m)) => {
            let mut o = vec![];
            for (a, b) in m {
                put(&mut o, vkey(k, a)?, value(t, b)?);
            }
            V::Obj(o)
        }
        (Ty::Struct(_, f), D::Struct(v)) => object(f, v)?,
        (Ty::Enum(_, vs), D::Var(i, v)) => {
            let k = vs[*i].0.to_string();
            let x = match &vs[*i].1 {
                Vt::Unit => return Some(V::Str(k)),
                Vt::New(t) => value(t, &v[0])?,
                Vt::Tuple(ts) => all(&mut ts.iter(), v)?,
                Vt::Struct(f) => object(f, v)?,
            };
            V::Obj(vec![(k, x)])
        }
        (_, D::Val(v)) => v.clone(),
        (t, d) => panic!("{d:?} is not a {t:?}"),
    })
}

/// The JSON data as value.
fn json(j: &Json) -> V {
    match j {
        Json::Null => V::Null,
        Json::Bool(b) => V::Bool(*b),
        Json::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(u), _) => V::Num(N::U(u)),
            (_, Some(i)) => V::Num(N::from_i128(i as i128)),
            _ => num(n.as_f64().unwrap()),
        },
        Json::String(s) => V::Str(s.clone()),
        Json::Array(a) => V::Arr(a.iter().map(json).collect()),
        Json::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

fn to_json(v: &V) -> Json {
    match v {
        V::Null => Json::Null,
        V::Bool(b) => Json::Bool(*b),
        V::Num(N::U(u)) => (*u).into(),
        V::Num(N::I(i)) => (*i).into(),
        V::Num(N::F(f)) => serde_json::Number::from_f64(*f).map_or(Json::Null, Json::Number),
        V::Str(s) => Json::String(s.clone()),
        V::Arr(a) => Json::Array(a.iter().map(to_json).collect()),
        V::Obj(o) => Json::Object(o.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
    }
}

// --- data <-> value, expression -----------------------------------------------------------------

fn convert(obs: &mut Obs, t: &Ty, d: &D) {
    let src = format!("{t:?}\n{d:?}");
    let sd = Sd(t, d);
    let want = value(t, d);
    obs.case(&src, !matches!(want, None | Some(V::Null)));
    let e = |r: hcl::Result<Value>| r.map_err(|e| e.to_string());
    match (e(hcl::to_value(sd)), &want) {
        (Ok(v), Some(w)) => {
            if diff(obs, &src, "value", &V::of(&v), w) {
                obs.feat("data to value");
                obs.feat(w.kind());
                match with_ty(t, || hcl::from_value::<Dyn>(v.clone())) {
                    Ok(x) => {
                        if diff(obs, &src, "data of the value", &x.0, d) {
                            obs.feat("value to data");
                        }
                    }
                    Err(e) => obs.fail(&src, format!("value {v:?} refused as data: {e}")),
                }
                // Through a foreign representation.
                let j = serde_json::to_value(sd).expect("JSON");
                let mut d = vec![];
                d.push(("JSON of the value", serde_json::to_value(&v).map_err(|e| e.to_string()).map(|j| json(&j))));
                d.push(("value of the JSON", e(hcl::to_value(&j)).map(|v| V::of(&v))));
                d.push(("value from JSON", serde_json::from_value::<Value>(j.clone()).map_err(|e| e.to_string()).map(|v| V::of(&v))));
                d.push(("JSON from the value", hcl::from_value::<Json>(v.clone()).map_err(|e| e.to_string()).map(|j| json(&j))));
                d.push(("value of the value", e(hcl::to_value(&v)).map(|v| V::of(&v))));
                d.push(("value from the value", e(hcl::from_value::<Value>(v.clone())).map(|v| V::of(&v))));
                d.push(("value through its deserializer", e(Value::deserialize(v.into_deserializer())).map(|v| V::of(&v))));
                for (n, g) in d {
                    diff(obs, &src, n, &g, &Ok(w.clone()));
                }
            }
        }
        (Err(_), None) => obs.feat("data refused as value"),
        (g, w) => obs.fail(&src, format!("value: {g:?}, expected {w:?}")),
    }
    // The same as expression.
    let want = serdyn::expr(t, d);
    let e = |r: hcl::Result<Expression>| r.map_err(|e| e.to_string());
    let got = e(hcl::to_expression(sd));
    diff(obs, &src, "Expression::from_serializable", &e(Expression::from_serializable(&sd)), &got);
    match (&got, &want) {
        (Ok(g), Some(w)) => match conv::rs_expr(g) {
            Ok(m) => {
                if !diff(obs, &src, "expression", &ne(&m, Nf::Rs), &ne(w, Nf::Rs)) {
                    return;
                }
                obs.feat("data to expression");
                match with_ty(t, || Dyn::deserialize(g.clone())) {
                    Ok(x) => {
                        if diff(obs, &src, "data of the expression", &x.0, d) {
                            obs.feat("expression to data");
                        }
                    }
                    Err(e) => obs.fail(&src, format!("expression {g:?} refused as data: {e}")),
                }
                diff(obs, &src, "value of the expression", &V::of(&Value::from(g.clone())), &spec::expr(w));
            }
            Err(e) => obs.fail(&src, e),
        },
        (Err(_), None) => obs.feat("data refused as expression"),
        (g, w) => obs.fail(&src, format!("expression: {g:?}, expected {w:?}")),
    }
}

/// Values read as data of another type. What is accepted, and as what, is what JSON says.
fn mistyped(obs: &mut Obs, g: &mut G, o: TyOpts) {
    let d = g.r.range(0, 3);
    let t = g.ty(o, d);
    let data = g.data(&t, 3);
    let n = g.r.range(1, 2);
    let u = (0..n).fold(t.clone(), |t, _| serdyn::mutate(g, &t, o));
    let Ok(v) = hcl::to_value(Sd(&t, &data)) else { return };
    let src = format!("{t:?}\n{data:?}\nas {u:?}");
    obs.case(&src, true);
    let want = with_ty(&u, || serde_json::from_value::<Dyn>(to_json(&V::of(&v))));
    let mut routes = vec![("value", with_ty(&u, || hcl::from_value::<Dyn>(v.clone()).map_err(|e| e.to_string())))];
    let e = Expression::from(v);
    routes.push(("expression", with_ty(&u, || Dyn::deserialize(e).map_err(|e| e.to_string()))));
    for (n, got) in routes {
        match (got, &want) {
            (Ok(a), Ok(b)) => {
                if diff(obs, &src, n, &a, b) {
                    obs.feat(&format!("{n} of a fitting type"));
                }
            }
            (Err(_), Err(_)) => obs.feat(&format!("{n} of a wrong type")),
            (Ok(a), Err(_)) if n == "expression" && format!("{a:?}").contains("Str(\"${") => obs.feat("read as text"),
            // As for structs, the fields of a variant may be a sequence.
            (Ok(_), Err(e)) if ["sequence, expected struct variant", "null, expected tuple variant"].iter().any(|x| e.to_string().ends_with(x)) => obs.feat("variant of another shape"),
            (Ok(a), Err(e)) => obs.fail(&src, format!("{n} read as {a:?} but JSON says: {e}")),
            // `{ variant = null }` is no unit variant, only for JSON.
            (Err(e), Ok(_)) if e == "expected a string" => obs.feat("unit variant with a value"),
            (Err(e), Ok(b)) => obs.fail(&src, format!("{n}: {e}, but JSON says {b:?}")),
        }
    }
}

// --- values -------------------------------------------------------------------------------------

fn model_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(x, w)| x == k && model_eq(v, w))),
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| model_eq(a, b)),
        (a, b) => a == b,
    }
}

fn accessors(obs: &mut Obs, src: &str, m: &V, v: &Value) {
    let b = |x: bool| x;
    let is = [
        ("is_null", v.is_null(), b(*m == V::Null)),
        ("is_boolean", v.is_boolean(), matches!(m, V::Bool(_))),
        ("is_number", v.is_number(), matches!(m, V::Num(_))),
        ("is_u64", v.is_u64(), matches!(m, V::Num(N::U(_)))),
        ("is_i64", v.is_i64(), matches!(m, V::Num(N::U(u)) if *u <= i64::MAX as u64) || matches!(m, V::Num(N::I(_)))),
        ("is_f64", v.is_f64(), matches!(m, V::Num(N::F(_)))),
        ("is_string", v.is_string(), matches!(m, V::Str(_))),
        ("is_array", v.is_array(), matches!(m, V::Arr(_))),
        ("is_object", v.is_object(), matches!(m, V::Obj(_))),
    ];
    for (n, got, want) in is {
        diff(obs, src, n, &got, &want);
    }
    diff(obs, src, "as_null", &v.as_null(), &(*m == V::Null).then_some(()));
    diff(obs, src, "as_bool", &v.as_bool(), &if let V::Bool(b) = m { Some(*b) } else { None });
    diff(obs, src, "as_str", &v.as_str(), &if let V::Str(s) = m { Some(s.as_str()) } else { None });
    diff(obs, src, "as_number", &v.as_number().map(conv::num_of), &if let V::Num(n) = m { Some(*n) } else { None });
    diff(obs, src, "as_u64", &v.as_u64(), &if let V::Num(N::U(n)) = m { Some(*n) } else { None });
    let i = match m {
        V::Num(N::U(u)) => i64::try_from(*u).ok(),
        V::Num(N::I(i)) => Some(*i),
        _ => None,
    };
    diff(obs, src, "as_i64", &v.as_i64(), &i);
    diff(obs, src, "as_f64", &v.as_f64(), &if let V::Num(n) = m { Some(n.f64()) } else { None });
    match (m, v.as_array()) {
        (V::Arr(a), Some(x)) => {
            diff(obs, src, "array length", &x.len(), &a.len());
            a.iter().zip(x).for_each(|(m, v)| accessors(obs, src, m, v));
        }
        (V::Arr(_), None) | (_, Some(_)) => obs.fail(src, "as_array"),
        _ => {}
    }
    match (m, v.as_object()) {
        (V::Obj(o), Some(x)) => {
            diff(obs, src, "keys", &x.keys().collect::<Vec<_>>(), &o.iter().map(|x| &x.0).collect());
            for (k, m) in o {
                match x.get(k) {
                    Some(v) => accessors(obs, src, m, v),
                    None => obs.fail(src, format!("no key {k:?}")),
                }
            }
        }
        (V::Obj(_), None) | (_, Some(_)) => obs.fail(src, "as_object"),
        _ => {}
    }
    obs.feat(m.kind());
}

/// A value and a slightly changed one.
fn change(g: &mut G, v: &V) -> V {
    match v {
        V::Arr(a) if !a.is_empty() && g.r.pct(80) => {
            let mut a = a.clone();
            let i = g.r.below(a.len());
            match g.r.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => a.swap(0, i),
                _ => a[i] = change(g, &a[i]),
            }
            V::Arr(a)
        }
        V::Obj(o) if !o.is_empty() && g.r.pct(80) => {
            let mut o = o.clone();
            let i = g.r.below(o.len());
            match g.r.below(5) {
                0 => {
                    o.remove(i);
                }
                1 => o.swap(0, i),
                2 => o[i].0.push_str("-new"),
                _ => o[i].1 = change(g, &o[i].1.clone()),
            }
            V::Obj(o)
        }
        V::Num(N::U(u)) if g.r.bool() => V::Num(N::U(u ^ 1)),
        V::Str(s) if g.r.bool() => V::Str(format!("{s} ")),
        _ => g.val(1),
    }
}

fn values(obs: &mut Obs, g: &mut G) {
    let d = g.r.range(0, 4);
    let m = g.val(d);
    let v = m.to();
    let src = format!("{m:?}");
    obs.case(&src, m != V::Null);
    accessors(obs, &src, &m, &v);
    // Comparison
    let n = change(g, &m);
    let w = n.to();
    let eq = model_eq(&m, &n);
    obs.feat(if eq { "equal values" } else { "different values" });
    diff(obs, &format!("{src}\n{n:?}"), "==", &(v == w), &eq);
    diff(obs, &format!("{src}\n{n:?}"), "== of clones", &(w.clone() == v.clone()), &eq);
    diff(obs, &src, "clone", &V::of(&v.clone()), &m);
    // Changing through the accessors
    let mut x = v.clone();
    let mut y = m.clone();
    if let (Some(a), V::Arr(b)) = (x.as_array_mut(), &mut y) {
        a.push(w.clone());
        b.push(n.clone());
    } else if let (Some(a), V::Obj(b)) = (x.as_object_mut(), &mut y) {
        a.insert("new key".into(), w.clone());
        put(b, "new key".into(), n.clone());
    } else {
        diff(obs, &src, "mutable accessors", &(x.as_array_mut().is_some(), x.as_object_mut().is_some()), &(false, false));
    }
    diff(obs, &src, "value changed through an accessor", &V::of(&x), &y);
    let t = x.take();
    diff(obs, &src, "take", &(V::of(&t), V::of(&x)), &(y, V::Null));
    // Conversions
    diff(obs, &src, "expression", &conv::rs_expr(&Expression::from(v.clone())).map(|e| ne(&e, Nf::Rs)), &Ok(ne(&m.expr(), Nf::Rs)));
    diff(obs, &src, "value of the expression", &V::of(&Value::from(Expression::from(v.clone()))), &m);
    diff(obs, &src, "value deserialized from the expression", &Value::deserialize(Expression::from(v.clone())).map(|v| V::of(&v)).map_err(|e| e.to_string()), &Ok(m.clone()));
    match hcl::to_expression(&v) {
        Ok(e) => {
            diff(obs, &src, "to_expression", &conv::rs_expr(&e).map(|e| ne(&e, Nf::Rs)), &Ok(ne(&m.expr(), Nf::Rs)));
        }
        Err(e) => obs.fail(&src, format!("to_expression: {e}")),
    }
    // Display: the value is what is read again.
    let text = v.to_string();
    diff(obs, &src, "display", &hcl::format::to_string(&v).map_err(|e| e.to_string()), &Ok(text.clone()));
    let mut markers = false;
    m.walk(&mut |v| {
        markers |= match v {
            V::Str(s) => s.contains("${") || s.contains("%{"),
            V::Obj(o) => o.iter().any(|(k, _)| k.contains("${") || k.contains("%{")),
            _ => false,
        }
    });
    match text.parse::<Expression>() {
        Ok(e) => {
            // Templates may be spelled differently.
            if markers || diff(obs, &format!("{src}\n{text}"), "display read again", &V::of(&Value::from(e.clone())), &m) {
                obs.feat("displayed values");
            }
            if !markers {
                diff(obs, &format!("{src}\n{text}"), "display read as expression", &e, &Expression::from(v.clone()));
            }
        }
        Err(e) if !markers => obs.fail(&src, format!("display {text} could not be read again: {e}")),
        Err(_) => obs.feat("broken template displayed"),
    }
}

fn primitives(obs: &mut Obs, g: &mut G) {
    let u = match g.r.below(4) {
        0 => g.r.pick(&[0u64, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, 1 << 32, (1 << 53) + 1]).to_owned(),
        1 => g.r.u64(),
        2 => g.r.u64() >> g.r.below(64),
        _ => (g.r.u64() >> g.r.below(64)).wrapping_neg(),
    };
    let f = match g.r.below(5) {
        0 => *g.r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, f64::MAX, 0.1, 9007199254740993.0, 18446744073709551616.0, -9223372036854775808.0, 9223372036854775808.0]),
        1 => u as f64,
        2 => u as i64 as f64,
        3 => u as f64 / 8.0,
        _ => f64::from_bits(u),
    };
    let src = format!("{u} {f:?}");
    obs.case(&src, u != 0);
    macro_rules! ints {
        ($($t:ident)*) => {$({
            let x = u as $t;
            let n = N::from_i128(x as i128);
            diff(obs, &src, concat!("Value from ", stringify!($t)), &V::of(&Value::from(x)), &V::Num(n));
            diff(obs, &src, concat!("Expression from ", stringify!($t)), &conv::rs_expr(&Expression::from(x)), &Ok(E::Num(n)));
            diff(obs, &src, concat!("to_value of ", stringify!($t)), &hcl::to_value(x).map(|v| V::of(&v)).map_err(|e| e.to_string()), &Ok(V::Num(n)));
            diff(obs, &src, concat!("to_expression of ", stringify!($t)), &hcl::to_expression(x).map_err(|e| e.to_string()).and_then(|e| conv::rs_expr(&e)), &Ok(E::Num(n)));
            // Reading is exact or refused.
            let w = <$t>::try_from(u).ok();
            diff(obs, &src, concat!("Value read as ", stringify!($t)), &hcl::from_value::<$t>(Value::from(u)).ok(), &w);
            diff(obs, &src, concat!("Expression read as ", stringify!($t)), &<$t>::deserialize(Expression::from(u)).ok(), &w);
            let w = <$t>::try_from(u as i64).ok();
            diff(obs, &src, concat!("signed Value read as ", stringify!($t)), &hcl::from_value::<$t>(Value::from(u as i64)).ok(), &w);
            diff(obs, &src, concat!("signed Expression read as ", stringify!($t)), &<$t>::deserialize(Expression::from(u as i64)).ok(), &w);
            let w = (f.is_finite() && f.fract() == 0.0 && f.abs() < 1e30).then_some(f as i128).filter(|i| i64::try_from(*i).is_ok() || u64::try_from(*i).is_ok()).and_then(|i| <$t>::try_from(i).ok());
            diff(obs, &src, concat!("float Value read as ", stringify!($t)), &hcl::from_value::<$t>(Value::from(f)).ok(), &w);
            diff(obs, &src, concat!("float Expression read as ", stringify!($t)), &<$t>::deserialize(Expression::from(f)).ok(), &w);
        })*};
    }
    ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    diff(obs, &src, "Value from f64", &V::of(&Value::from(f)), &num(f));
    diff(obs, &src, "Value from f32", &V::of(&Value::from(f as f32)), &num(f as f32 as f64));
    diff(obs, &src, "to_value of f64", &V::of(&hcl::to_value(f).unwrap()), &num(f));
    diff(obs, &src, "to_value of f32", &V::of(&hcl::to_value(f as f32).unwrap()), &num(f as f32 as f64));
    if f.is_finite() {
        diff(obs, &src, "f64 read again", &hcl::from_value::<f64>(Value::from(f)).ok(), &Some(f));
        diff(obs, &src, "f64 of an expression", &f64::deserialize(Expression::from(f)).ok(), &Some(f));
    } else {
        diff(obs, &src, "not finite", &hcl::from_value::<f64>(Value::from(f)).is_err(), &true);
        diff(obs, &src, "not finite as expression", &Expression::from(f), &Expression::Null);
    }
    diff(obs, &src, "integer read as f64", &hcl::from_value::<f64>(Value::from(u)).ok(), &Some(u as f64));
    let s = g.string();
    let w = V::Str(s.clone());
    diff(obs, &src, "&str", &V::of(&Value::from(s.as_str())), &w);
    diff(obs, &src, "String", &V::of(&Value::from(s.clone())), &w);
    diff(obs, &src, "Cow", &V::of(&Value::from(Cow::Borrowed(s.as_str()))), &w);
    diff(obs, &src, "bool", &V::of(&Value::from(u % 2 == 0)), &V::Bool(u % 2 == 0));
    diff(obs, &src, "()", &V::of(&Value::from(())), &V::Null);
    diff(obs, &src, "Default", &V::of(&Value::default()), &V::Null);
    for e in [Expression::from(s.as_str()), Expression::from(s.clone()), Expression::from(Cow::Borrowed(s.as_str()))] {
        diff(obs, &src, "string expression", &e, &Expression::String(s.clone()));
    }
    // Collections
    let n = g.r.below(4);
    let vs: Vec<V> = (0..n).map(|_| g.val(1)).collect();
    let hs: Vec<Value> = vs.iter().map(V::to).collect();
    let src = format!("{vs:?}");
    let want = V::Arr(vs.clone());
    diff(obs, &src, "Vec", &V::of(&Value::from(hs.clone())), &want);
    diff(obs, &src, "slice", &V::of(&Value::from(hs.as_slice())), &want);
    diff(obs, &src, "collected", &V::of(&hs.iter().cloned().collect::<Value>()), &want);
    let we = ne(&want.expr(), Nf::Rs);
    let ex = |e: Expression| conv::rs_expr(&e).map(|e| ne(&e, Nf::Rs));
    diff(obs, &src, "Vec as expression", &ex(Expression::from(hs.clone())), &Ok(we.clone()));
    diff(obs, &src, "slice as expression", &ex(Expression::from(hs.as_slice())), &Ok(we.clone()));
    diff(obs, &src, "collected expression", &ex(hs.iter().cloned().collect::<Expression>()), &Ok(we));
    let o = g.val_obj(1, n);
    let V::Obj(items) = &o else { unreachable!() };
    let src = format!("{o:?}");
    diff(obs, &src, "collected items", &V::of(&items.iter().map(|(k, v)| (k.clone(), v.to())).collect::<Value>()), &o);
    diff(obs, &src, "map", &V::of(&Value::from(items.iter().map(|(k, v)| (k.clone(), v.to())).collect::<hcl::Map<_, _>>())), &o);
    diff(
        obs,
        &src,
        "items as expression",
        &ex(items.iter().map(|(k, v)| (k.clone(), v.to())).collect::<Expression>()),
        &Ok(ne(&o.expr(), Nf::Rs)),
    );
    // The macros
    let (a, b) = (g.val(1), g.val(1));
    let (x, y) = (a.to(), b.to());
    let k = g.string();
    let id = g.id();
    let mut o = vec![("fixed".to_string(), a.clone())];
    put(&mut o, k.clone(), V::Arr(vec![b.clone(), V::Null, V::Num(N::U(u)), V::Arr(vec![])]));
    put(&mut o, "z".into(), V::Obj(vec![]));
    let src = format!("{a:?} {b:?} {k:?} {id:?}");
    let got = hcl::value!({ fixed = (x.clone()), (k.clone()) = [(y.clone()), null, (u), []], "z" = {} });
    diff(obs, &src, "value!", &V::of(&got), &V::Obj(o.clone()));
    let got = hcl::expression!({ fixed = (x), (k) = [(y), null, (u), []], "z" = {} });
    diff(obs, &src, "expression! as value", &V::of(&Value::from(got)), &V::Obj(o));
    obs.feat("primitives");
}

/// The documented derive attributes of serde.
fn attributes(obs: &mut Obs, g: &mut G) {
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "type", rename_all = "kebab-case")]
    enum Tagged {
        UnitCase,
        Point { x: f64, y: i64 },
        Inner(Plain),
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    #[serde(untagged)]
    enum Untagged {
        Int(i64),
        Text(String),
        List(Vec<Untagged>),
        Plain(Plain),
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "t", content = "c")]
    enum Adjacent {
        Unit,
        One(u8),
        Two(u8, String),
        Three { a: Option<u8> },
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
    #[serde(default)]
    struct Plain {
        #[serde(rename = "odd name")]
        name: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        opt: Option<u16>,
        #[serde(skip)]
        skipped: (),
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    struct All {
        tagged: Vec<Tagged>,
        untagged: Vec<Untagged>,
        adjacent: Vec<Adjacent>,
        #[serde(flatten)]
        flat: Plain,
        #[serde(flatten)]
        rest: std::collections::BTreeMap<String, Value>,
    }
    fn plain(g: &mut G) -> Plain {
        Plain { name: g.string(), opt: g.r.bool().then(|| g.r.u64() as u16), skipped: () }
    }
    fn untagged(g: &mut G, d: usize) -> Untagged {
        match g.r.below(if d == 0 { 3 } else { 4 }) {
            0 => Untagged::Int(g.r.u64() as i64),
            1 => Untagged::Text(g.string()),
            2 => Untagged::Plain(plain(g)),
            _ => {
                let n = g.r.below(3);
                Untagged::List((0..n).map(|_| untagged(g, d - 1)).collect())
            }
        }
    }
    let n = g.r.below(3);
    let tagged = (0..n)
        .map(|_| match g.r.below(3) {
            0 => Tagged::UnitCase,
            1 => Tagged::Point { x: g.r.below(100) as f64 / 4.0, y: g.r.u64() as i64 },
            _ => Tagged::Inner(plain(g)),
        })
        .collect();
    let n = g.r.below(3);
    let untag = (0..n).map(|_| untagged(g, 2)).collect();
    let n = g.r.below(3);
    let adjacent = (0..n)
        .map(|_| match g.r.below(4) {
            0 => Adjacent::Unit,
            1 => Adjacent::One(g.r.u64() as u8),
            2 => Adjacent::Two(g.r.u64() as u8, g.string()),
            _ => Adjacent::Three { a: g.r.bool().then(|| g.r.u64() as u8) },
        })
        .collect();
    let n = g.r.below(3);
    let rest = (0..n).map(|i| (format!("rest-{i}"), g.val(2).to())).collect();
    let x = All { tagged, untagged: untag, adjacent, flat: plain(g), rest };
    let src = format!("{x:?}");
    obs.case(&src, true);
    let want = json(&serde_json::to_value(&x).expect("JSON"));
    match hcl::to_value(&x) {
        Ok(v) => {
            diff(obs, &src, "value", &V::of(&v), &want);
            diff(obs, &src, "value read again", &hcl::from_value::<All>(v).map_err(|e| e.to_string()), &Ok(x.clone()));
        }
        Err(e) => obs.fail(&src, format!("value: {e}")),
    }
    match hcl::to_expression(&x) {
        Ok(e) => {
            diff(obs, &src, "expression", &V::of(&Value::from(e.clone())), &want);
            if diff(obs, &src, "expression read again", &All::deserialize(e).map_err(|e| e.to_string()), &Ok(x.clone())) {
                obs.feat("serde attributes");
            }
        }
        Err(e) => obs.fail(&src, format!("expression: {e}")),
    }
}

/// Repeats keys of objects with other values.
fn repeat(g: &mut G, v: &V) -> V {
    match v {
        V::Arr(a) => V::Arr(a.iter().map(|v| repeat(g, v)).collect()),
        V::Obj(o) => {
            let mut o: Vec<(String, V)> = o.iter().map(|(k, v)| (k.clone(), repeat(g, v))).collect();
            for _ in 0..g.r.below(3) {
                if !o.is_empty() {
                    let k = o[g.r.below(o.len())].0.clone();
                    let at = g.r.below(o.len() + 1);
                    let v = g.val(1);
                    o.insert(at, (k, v));
                }
            }
            V::Obj(o)
        }
        v => v.clone(),
    }
}

fn merged(v: &V) -> V {
    match v {
        V::Arr(a) => V::Arr(a.iter().map(merged).collect()),
        V::Obj(o) => {
            let mut m = vec![];
            for (k, v) in o {
                put(&mut m, k.clone(), merged(v));
            }
            V::Obj(m)
        }
        v => v.clone(),
    }
}

fn json_text(v: &V) -> String {
    match v {
        V::Arr(a) => format!("[{}]", a.iter().map(json_text).collect::<Vec<_>>().join(",")),
        V::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", Json::from(k.as_str()), json_text(v))).collect::<Vec<_>>().join(",")),
        v => to_json(v).to_string(),
    }
}

/// Serializes an object with all its entries, also if keys repeat.
struct Entries<'a>(&'a V);

impl serde::Serialize for Entries<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            V::Arr(a) => s.collect_seq(a.iter().map(Entries)),
            V::Obj(o) => s.collect_map(o.iter().map(|(k, v)| (k, Entries(v)))),
            v => v.to().serialize(s),
        }
    }
}

/// Values read from other data formats.
fn foreign(obs: &mut Obs, g: &mut G) {
    use serde::Deserialize;
    let d = g.r.below(4);
    let v = g.val(d);
    let seed = g.r.u64();
    // Formats may repeat keys: as for JSON, the last value counts.
    let given = if g.r.one_in(3) { repeat(g, &v) } else { v };
    let v = merged(&given);
    if format!("{given:?}") != format!("{v:?}") {
        obs.feat("repeated keys");
        let src = format!("{given:?}");
        let got = hcl::to_value(Entries(&given)).map(|x| V::of(&x)).map_err(|e| e.to_string());
        diff(obs, &src, "value of data with repeated keys", &got, &Ok(v.clone()));
        let got = hcl::expr::to_expression(Entries(&given)).map_err(|e| e.to_string());
        let got = got.map(|e| V::of(&Value::from(e)));
        diff(obs, &src, "expression of data with repeated keys", &got, &Ok(v.clone()));
        let text = json_text(&given);
        let got = serde_json::from_str::<Value>(&text).map(|x| V::of(&x)).map_err(|e| e.to_string());
        let floats = format!("{v:?}").contains("F(");
        if !floats {
            diff(obs, &text, "value of JSON text with repeated keys", &got, &Ok(v.clone()));
        }
    }
    let src = format!("{given:?} with seed {seed}");
    obs.case(&src, true);
    obs.feat(v.kind());
    let got = Value::deserialize(serdyn::Foreign(&given, seed)).map(|x| V::of(&x)).map_err(|e| e.0);
    if diff(obs, &src, "value of a foreign format", &got, &Ok(v.clone())) {
        obs.feat("foreign value");
    }
    // Expressions are readable as long as there are no objects with keys in them.
    let mut keys = false;
    v.walk(&mut |v| keys |= matches!(v, V::Obj(o) if !o.is_empty()));
    match hcl::Expression::deserialize(serdyn::Foreign(&v, seed)) {
        Ok(e) => {
            let got = conv::rs_expr(&e).map(|e| ne(&e, Nf::Rs));
            if diff(obs, &src, "expression of a foreign format", &got, &Ok(ne(&v.expr(), Nf::Rs))) {
                obs.feat("foreign expression");
            }
        }
        Err(e) if keys => {
            obs.feat("foreign expression refused");
            let _ = e;
        }
        Err(e) => obs.fail(&src, format!("expression of a foreign format: {e}")),
    }
    if let V::Num(n) = &v {
        let got = hcl::Number::deserialize(serdyn::Foreign(&v, seed)).map(|x| conv::num_of(&x)).map_err(|e| e.0);
        if seed % 7 != 3 && diff(obs, &src, "number of a foreign format", &got, &Ok(*n)) {
            obs.feat("foreign number");
        }
    }
    if let V::Str(s) = &v {
        let got = hcl::Identifier::deserialize(serdyn::Foreign(&v, seed)).map(|x| x.to_string()).ok();
        let want = hcl_primitives::ident::is_ident(s).then(|| s.clone());
        if seed % 7 != 3 && diff(obs, &src, "identifier of a foreign format", &got, &want) {
            obs.feat("foreign identifier");
        }
        let got = hcl::Template::deserialize(serdyn::Foreign(&v, seed)).map_err(|e| e.0);
        let want = s.parse::<hcl::Template>().map_err(|e| e.to_string());
        if seed % 7 != 3 && diff(obs, &src, "template of a foreign format", &got, &want) {
            obs.feat("foreign template");
        }
    }
}

pub fn p15(m: &mut Mon) {
    m.rule = "a case is one value of a random type (converted to Value, Expression and JSON and back in all mixtures and compared with an independent implementation of the serde data model mapping), one value (its accessors, comparisons, display and conversions compared with the model), or one value read as another type than its own (compared with serde_json); nontrivial: the value is not null".into();
    m.assumptions = vec![
        "floats that are not finite become null; integral floats in the 64-bit range become integers".into(),
        "map keys of values are strings, characters or unit variants; everything else is refused".into(),
        "serde_json is the reference for what data of a wrong type is".into(),
    ];
    let ty = TyOpts { odd: true, blocks: true, exprs: false, keys: true };
    let plain = TyOpts { odd: false, blocks: true, exprs: false, keys: false };
    let n = m.n(300_000);
    m.cases("convert", n, |obs, rng, i| {
        let mut g = G::new(rng, rs_opts());
        g.budget = 30;
        let d = g.r.range(0, 5);
        let t = g.ty(if i % 2 == 0 { ty } else { plain }, d);
        let data = g.data(&t, 4);
        convert(obs, &t, &data);
    });
    let n = m.n(300_000);
    m.cases("mistyped", n, |obs, rng, i| {
        let mut g = G::new(rng, rs_opts());
        mistyped(obs, &mut g, TyOpts { keys: false, ..if i % 3 == 0 { ty } else { plain } });
    });
    let n = m.n(150_000);
    m.cases("values", n, |obs, rng, _| values(obs, &mut G::new(rng, rs_opts())));
    let n = m.n(40_000);
    let k = m.n(60_000);
    m.cases("foreign", k, |obs, rng, _| foreign(obs, &mut G::new(rng, rs_opts())));
    m.require("foreign value", 50_000);
    m.require("repeated keys", 1_000);
    m.require("foreign expression", 20_000);
    m.require("foreign number", 3_000);
    m.require("foreign identifier", 3_000);
    m.require("foreign template", 3_000);
    m.cases("primitives", n, |obs, rng, _| primitives(obs, &mut G::new(rng, rs_opts())));
    let n = m.n(40_000);
    m.cases("attributes", n, |obs, rng, _| attributes(obs, &mut G::new(rng, rs_opts())));
    for (f, n) in [
        ("data to value", 30_000),
        ("value to data", 20_000),
        ("data to expression", 30_000),
        ("expression to data", 20_000),
        ("data refused as value", 100),
        ("data refused as expression", 50),
        ("value of a fitting type", 500),
        ("value of a wrong type", 3000),
        ("expression of a fitting type", 500),
        ("equal values", 100),
        ("different values", 3000),
        ("displayed values", 10_000),
        ("primitives", 5000),
        ("serde attributes", 3000),
    ] {
        m.require(f, n);
    }
}
