//! P20: numbers.

use crate::conv::{num_of, num_to};
use crate::gen::G;
use crate::model::*;
use crate::refeval::{arith, cmp_num};
use crate::rng::Rng;
use crate::run::{guard, Mon, Obs};
use hcl::eval::{Context, Evaluate};
use hcl::{BinaryOp, BinaryOperator, Expression, Number, Value};
use hcl_edit::Formatted;
use serde::de::DeserializeOwned;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

const P63: f64 = 9_223_372_036_854_775_808.0;
const P64: f64 = 18_446_744_073_709_551_616.0;

/// Numbers next to the limits of the representations.
fn grid() -> Vec<N> {
    let mut v: Vec<N> = vec![];
    let ints: [i128; 26] = [
        0,
        1,
        2,
        3,
        7,
        10,
        255,
        256,
        u32::MAX as i128,
        u32::MAX as i128 + 1,
        (1 << 24) + 1,
        (1 << 53) - 1,
        1 << 53,
        (1 << 53) + 1,
        (1 << 62) + 1,
        i64::MAX as i128 - 1,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        i64::MAX as i128 + 2,
        u64::MAX as i128 - 2048,
        u64::MAX as i128 - 1024,
        u64::MAX as i128 - 1023,
        u64::MAX as i128 - 1,
        u64::MAX as i128,
        6_000_000_000,
        3_037_000_500,
    ];
    for i in ints {
        v.push(N::from_i128(i));
        if -i >= i64::MIN as i128 {
            v.push(N::from_i128(-i));
        }
    }
    v.push(N::I(i64::MIN));
    v.push(N::I(i64::MIN + 1));
    for f in [
        0.5,
        0.1,
        1.5,
        2.5,
        1e-300,
        5e-324,
        f64::MIN_POSITIVE,
        1.0 + f64::EPSILON,
        1.0 - f64::EPSILON / 2.0,
        4503599627370496.5,
        P64,
        P64 * (1.0 + f64::EPSILON),
        P63 * 1.999,
        P63 + 2048.0,
        1e19,
        1e22,
        1e39,
        1.8e154,
        f64::MAX,
        123456789.125,
        f64::from(f32::MAX),
    ] {
        v.push(N::from_f64(f).unwrap());
        v.push(N::from_f64(-f).unwrap());
    }
    v
}

fn near(r: &mut Rng, n: N) -> N {
    match r.below(8) {
        0 => n.neg(),
        1..=3 => match n.int() {
            Some(i) => N::from_i128(i + r.below(5) as i128 - 2),
            None => {
                let b = n.f64().to_bits();
                N::from_f64(f64::from_bits(if r.bool() { b.wrapping_add(1) } else { b.wrapping_sub(1) })).unwrap_or(n)
            }
        },
        4 => N::from_f64(n.f64()).unwrap(),
        5 => N::from_f64(n.f64() + 0.5).unwrap(),
        6 => N::from_f64(n.f64() * 2.0).unwrap_or(n),
        _ => n,
    }
}

fn some(r: &mut Rng, grid: &[N]) -> N {
    match r.below(6) {
        0..=1 => {
            let n = *r.pick(grid);
            near(r, n)
        }
        2 => {
            let bits = r.below(64);
            let n = N::U(r.u64() >> bits);
            if r.bool() {
                n
            } else {
                n.neg()
            }
        }
        3 => N::from_f64((r.u64() >> 12) as f64 / (1u64 << r.below(60)) as f64).unwrap(),
        4 => N::from_f64(((r.u64() % 4001) as f64 - 2000.0) / *r.pick(&[1.0, 2.0, 4.0, 10.0, 100.0])).unwrap(),
        _ => G::new(r, Default::default()).num(),
    }
}

fn hash(n: &Number) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

fn kind(n: N) -> &'static str {
    match n {
        N::U(_) => "unsigned",
        N::I(_) => "negative",
        N::F(_) => "float",
    }
}

fn is<X: PartialEq + Debug>(obs: &mut Obs, src: &str, what: &str, got: X, want: X) {
    if got != want {
        obs.fail(src, format!("{what} is {got:?}, should be {want:?}"));
    }
}

/// The decimal digits of the integer, or any text that denotes exactly the float.
fn spelled(obs: &mut Obs, src: &str, what: &str, text: &str, n: N) {
    match n.int() {
        Some(i) => is(obs, src, what, text, &i.to_string()),
        None => {
            let ok = text.parse::<f64>().is_ok_and(|f| f.to_bits() == n.f64().to_bits());
            if !ok {
                obs.fail(src, format!("{what} is {text:?}, which is not {:?}", n.f64()));
            }
        }
    }
}

#[derive(Deserialize, Debug)]
struct Doc<X> {
    a: X,
}

fn int_target<X>(obs: &mut Obs, src: &str, name: &str, num: Number, n: N)
where
    X: TryFrom<i128> + PartialEq + Debug + DeserializeOwned,
{
    let want: Option<X> = n.int().and_then(|i| X::try_from(i).ok());
    is(obs, src, &format!("Number read as {name}"), X::deserialize(num).ok(), want);
    let want: Option<X> = n.int().and_then(|i| X::try_from(i).ok());
    is(obs, src, &format!("Value read as {name}"), hcl::from_value(Value::Number(num)).ok(), want);
    let want: Option<X> = n.int().and_then(|i| X::try_from(i).ok());
    is(obs, src, &format!("Expression read as {name}"), X::deserialize(Expression::Number(num).into_deserializer()).ok(), want);
    let want: Option<X> = n.int().and_then(|i| X::try_from(i).ok());
    let doc = hcl::from_str::<Doc<X>>(&format!("a = {num}")).ok().map(|d| d.a);
    is(obs, src, &format!("document read as {name}"), doc, want);
    if n.int().is_some_and(|i| X::try_from(i).is_err()) {
        obs.feat("refused: out of the range of the type");
    }
}

/// Everything that can be asked about one number.
fn inspect(obs: &mut Obs, n: N, num: Number) {
    let src = &format!("{n:?}");
    obs.feat(kind(n));
    if num_of(&num) != n {
        obs.fail(src, format!("the number is {num:?}"));
        return;
    }
    let i = n.int();
    is(obs, src, "as_u64", num.as_u64(), i.and_then(|i| u64::try_from(i).ok()));
    is(obs, src, "as_i64", num.as_i64(), i.and_then(|i| i64::try_from(i).ok()));
    is(obs, src, "as_f64", num.as_f64().map(f64::to_bits), Some(n.f64().to_bits()));
    is(obs, src, "is_u64", num.is_u64(), num.as_u64().is_some());
    is(obs, src, "is_i64", num.is_i64(), num.as_i64().is_some());
    is(obs, src, "is_f64", num.is_f64(), i.is_none());
    let v = Value::Number(num);
    is(obs, src, "Value::as_u64", v.as_u64(), num.as_u64());
    is(obs, src, "Value::as_i64", v.as_i64(), num.as_i64());
    is(obs, src, "Value::as_f64", v.as_f64(), num.as_f64());
    is(obs, src, "Value::is_u64", v.is_u64(), num.is_u64());
    is(obs, src, "Value::is_i64", v.is_i64(), num.is_i64());
    is(obs, src, "Value::is_f64", v.is_f64(), num.is_f64());
    is(obs, src, "Value::is_number", v.is_number(), true);
    is(obs, src, "Value::as_number", v.as_number(), Some(&num));

    // Texts.
    let text = num.to_string();
    spelled(obs, src, "the number displayed", &text, n);
    spelled(obs, src, "the value displayed", &v.to_string(), n);
    spelled(obs, src, "the expression displayed", &Expression::Number(num).to_string(), n);
    spelled(obs, src, "the edit expression displayed", &hcl_edit::expr::Expression::from(num).to_string(), n);
    spelled(obs, src, "the formatted number displayed", &Formatted::new(num).to_string(), n);
    is(obs, src, "the debug output", format!("{num:?}"), format!("Number({text})"));
    match serde_json::to_string(&num) {
        Ok(t) => spelled(obs, src, "the JSON number", &t, n),
        Err(e) => obs.fail(src, format!("cannot be serialized to JSON: {e}")),
    }
    match hcl::to_string(&hcl::value!({ "a" = v })) {
        Ok(t) => {
            let t = t.strip_prefix("a = ").and_then(|t| t.strip_suffix('\n')).unwrap_or(&t).to_string();
            spelled(obs, src, "the serialized number", &t, n);
        }
        Err(e) => obs.fail(src, format!("cannot be serialized: {e}")),
    }
    match hcl_edit::parser::parse_body(&format!("a = {text}\n")) {
        Ok(b) => {
            let got = b.get_attribute("a").and_then(|a| a.value.as_number().copied());
            is(obs, src, "the displayed number parsed", got.map(|n| num_of(&n)), Some(n));
        }
        Err(e) => obs.fail(src, format!("the displayed number {text:?} cannot be parsed: {e}")),
    }
    match text.parse::<Expression>() {
        Ok(Expression::Number(m)) => is(obs, src, "the displayed number parsed by hcl-rs", num_of(&m), n),
        got => obs.fail(src, format!("the displayed number {text:?} is parsed as {got:?}")),
    }
    match format!("a = {text}").parse::<hcl::Body>().map(|b| b.into_attributes().next().map(|a| a.expr)) {
        Ok(Some(Expression::Number(m))) => is(obs, src, "the attribute parsed by hcl-rs", num_of(&m), n),
        got => obs.fail(src, format!("the displayed number {text:?} is parsed as {got:?}")),
    }
    match serde_json::from_str::<Number>(&text) {
        // The JSON parser is not exact.
        Ok(_) if i.is_none() && n.f64().abs() < 1e-290 => obs.feat("tiny float"),
        Ok(m) if i.is_none() => {
            let close = num_of(&m).f64() / n.f64();
            is(obs, src, "the float read as JSON", close > 0.999999 && close < 1.000001, true);
        }
        Ok(m) => is(obs, src, "the displayed number read as JSON", num_of(&m), n),
        Err(e) => obs.fail(src, format!("the displayed number {text:?} is no JSON: {e}")),
    }

    // Data.
    int_target::<u8>(obs, src, "u8", num, n);
    int_target::<u16>(obs, src, "u16", num, n);
    int_target::<u32>(obs, src, "u32", num, n);
    int_target::<u64>(obs, src, "u64", num, n);
    int_target::<usize>(obs, src, "usize", num, n);
    int_target::<i8>(obs, src, "i8", num, n);
    int_target::<i16>(obs, src, "i16", num, n);
    int_target::<i32>(obs, src, "i32", num, n);
    int_target::<i64>(obs, src, "i64", num, n);
    int_target::<isize>(obs, src, "isize", num, n);
    is(obs, src, "Number read as f64", f64::deserialize(num).ok().map(f64::to_bits), Some(n.f64().to_bits()));
    is(obs, src, "Value read as f64", hcl::from_value(v.clone()).ok().map(f64::to_bits), Some(n.f64().to_bits()));
    is(obs, src, "Number read as number", Number::deserialize(num).ok().map(|n| num_of(&n)), Some(n));
    is(obs, src, "Value read as number", hcl::from_value(v.clone()).ok().map(|n: Number| num_of(&n)), Some(n));
    is(obs, src, "Number read as bool", bool::deserialize(num).ok(), None);
    is(obs, src, "Number read as text", String::deserialize(num).ok(), None);
    is(obs, src, "Number to value", hcl::to_value(num).ok(), Some(v.clone()));
    is(obs, src, "Number to expression", hcl::to_expression(num).ok(), Some(Expression::Number(num)));
    is(obs, src, "the value of the expression", Value::from(Expression::Number(num)), v.clone());
    is(obs, src, "the expression of the value", Expression::from(v.clone()), Expression::Number(num));
    is(obs, src, "evaluated", Expression::Number(num).evaluate(&Context::new()).ok(), Some(v));

    // Negation.
    is(obs, src, "the negative", num_of(&-num), n.neg());
    is(obs, src, "the negative of the negative", num_of(&-(-num)), n.neg().neg());
}

const OPS: [(BinOp, BinaryOperator, &str); 5] = [
    (BinOp::Add, BinaryOperator::Plus, "+"),
    (BinOp::Sub, BinaryOperator::Minus, "-"),
    (BinOp::Mul, BinaryOperator::Mul, "*"),
    (BinOp::Div, BinaryOperator::Div, "/"),
    (BinOp::Mod, BinaryOperator::Mod, "%"),
];

fn pair(obs: &mut Obs, a: N, b: N) {
    let src = &format!("{a:?} and {b:?}");
    obs.case(src, true);
    let (x, y) = (num_to(a), num_to(b));
    let o = cmp_num(a, b);
    obs.feat(&format!("{} and {}", kind(a), kind(b)));
    if o == Ordering::Equal {
        obs.feat("equal numbers");
    } else if a.f64() == b.f64() {
        obs.feat("numbers of the same nearest float");
    }
    is(obs, src, "the order", x.partial_cmp(&y), Some(o));
    is(obs, src, "the reverse order", y.partial_cmp(&x), Some(o.reverse()));
    is(obs, src, "==", x == y, o == Ordering::Equal);
    is(obs, src, "!=", x != y, o != Ordering::Equal);
    is(obs, src, "<", x < y, o == Ordering::Less);
    is(obs, src, "<=", x <= y, o != Ordering::Greater);
    is(obs, src, ">", x > y, o == Ordering::Greater);
    is(obs, src, ">=", x >= y, o != Ordering::Less);
    if o == Ordering::Equal {
        is(obs, src, "the hash", hash(&x), hash(&y));
        is(obs, src, "the display", x.to_string(), y.to_string());
    }
    let (v, w) = (Value::Number(x), Value::Number(y));
    is(obs, src, "== of values", v == w, o == Ordering::Equal);
    is(
        obs,
        src,
        "== of expressions",
        Expression::Number(x) == Expression::Number(y),
        o == Ordering::Equal,
    );
    is(
        obs,
        src,
        "== of formatted numbers",
        Formatted::new(x) == Formatted::new(y),
        o == Ordering::Equal,
    );
    for (i, (op, rop, sign)) in OPS.iter().enumerate() {
        let want = arith(a, *op, b);
        let got = match i {
            0 => x.checked_add(y),
            1 => x.checked_sub(y),
            2 => x.checked_mul(y),
            3 => x.checked_div(y),
            _ => x.checked_rem(y),
        };
        is(obs, src, &format!("checked {sign}"), got.map(|n| num_of(&n)), want);
        let plain = guard(|| match i {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x / y,
            _ => x % y,
        });
        is(obs, src, sign, plain.ok().map(|n| num_of(&n)), want);
        let e = BinaryOp::new(x, *rop, y);
        is(
            obs,
            src,
            &format!("{sign} evaluated"),
            e.evaluate(&Context::new()).ok().map(|v| v.as_number().map(num_of)),
            want.map(Some),
        );
        match want {
            None => obs.feat("no finite result"),
            Some(N::F(_)) if a.int().is_some() && b.int().is_some() => obs.feat("float result of integers"),
            Some(N::F(_)) => obs.feat("float result"),
            Some(_) if a.int().is_some() && b.int().is_some() => obs.feat("integer result of integers"),
            Some(_) => obs.feat("integer result of floats"),
        }
    }
    for (rop, want) in [
        (BinaryOperator::Eq, o == Ordering::Equal),
        (BinaryOperator::NotEq, o != Ordering::Equal),
        (BinaryOperator::Less, o == Ordering::Less),
        (BinaryOperator::LessEq, o != Ordering::Greater),
        (BinaryOperator::Greater, o == Ordering::Greater),
        (BinaryOperator::GreaterEq, o != Ordering::Less),
    ] {
        let got = BinaryOp::new(x, rop, y).evaluate(&Context::new()).ok();
        is(obs, src, &format!("{rop} evaluated"), got, Some(Value::Bool(want)));
    }
}

macro_rules! made {
    ($obs:ident, $n:ident, $i:ident, $($t:ty),*) => {
        $(
            if let Ok(i) = <$t>::try_from($i) {
                let t = stringify!($t);
                let src = &format!("{i} of type {t}");
                $obs.feat(t);
                is($obs, src, "Number::from", num_of(&Number::from(i)), $n);
                is($obs, src, "Value::from", Value::from(i).as_number().map(num_of), Some($n));
                is($obs, src, "Expression::from", Expression::from(i), Expression::Number(num_to($n)));
                let e = hcl_edit::expr::Expression::from(i);
                is($obs, src, "edit::Expression::from", e.as_number().map(num_of), Some($n));
                let v = hcl::to_value(i).ok();
                is($obs, src, "to_value", v.and_then(|v| v.as_number().map(num_of)), Some($n));
                is($obs, src, "to_expression", hcl::to_expression(i).ok(), Some(Expression::Number(num_to($n))));
                let d: Result<Number, serde::de::value::Error> =
                    Number::deserialize(IntoDeserializer::into_deserializer(i));
                is($obs, src, "Number::deserialize", d.ok().map(|n| num_of(&n)), Some($n));
                let d: Result<Value, serde::de::value::Error> =
                    Value::deserialize(IntoDeserializer::into_deserializer(i));
                is($obs, src, "Value::deserialize", d.ok().and_then(|v| v.as_number().map(num_of)), Some($n));
            }
        )*
    };
}

fn make(obs: &mut Obs, n: N) {
    if let Some(i) = n.int() {
        made!(obs, n, i, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    }
    make_float(obs, n.f64());
    make_float(obs, f64::from(n.f64() as f32));
    let f = n.f64() as f32;
    let want = N::from_f64(f64::from(f));
    let src = &format!("{f:?} of type f32");
    is(obs, src, "Value::from", Value::from(f), want.map_or(Value::Null, |n| Value::Number(num_to(n))));
    is(obs, src, "Expression::from", Expression::from(f), want.map_or(Expression::Null, |n| Expression::Number(num_to(n))));
    is(obs, src, "to_value", hcl::to_value(f).ok(), Some(want.map_or(Value::Null, |n| Value::Number(num_to(n)))));
}

fn make_float(obs: &mut Obs, f: f64) {
    let src = &format!("{f:?} of type f64");
    let want = N::from_f64(f);
    obs.feat(if want.is_some() { "f64" } else { "f64: not finite" });
    is(obs, src, "Number::from_f64", Number::from_f64(f).map(|n| num_of(&n)), want);
    let v = want.map_or(Value::Null, |n| Value::Number(num_to(n)));
    let e = want.map_or(Expression::Null, |n| Expression::Number(num_to(n)));
    is(obs, src, "Value::from", Value::from(f), v.clone());
    is(obs, src, "Expression::from", Expression::from(f), e.clone());
    is(obs, src, "to_value", hcl::to_value(f).ok(), Some(v));
    is(obs, src, "to_expression", hcl::to_expression(f).ok(), Some(e));
    let x = hcl_edit::expr::Expression::from(f);
    is(obs, src, "edit::Expression::from", x.as_number().map(num_of), want);
    is(obs, src, "edit::Expression::from is null", x.is_null(), want.is_none());
    let d: Result<Number, serde::de::value::Error> =
        Number::deserialize(IntoDeserializer::into_deserializer(f));
    is(obs, src, "Number::deserialize", d.ok().map(|n| num_of(&n)), want);
}

/// A set of numbers: sorted, hashed, counted, added up.
fn set(obs: &mut Obs, ns: &[N]) {
    let src = &format!("{ns:?}");
    obs.case(src, true);
    let nums: Vec<Number> = ns.iter().map(|n| num_to(*n)).collect();
    let mut a = nums.clone();
    a.sort_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal));
    let mut b = ns.to_vec();
    b.sort_by(|x, y| cmp_num(*x, *y));
    let a: Vec<N> = a.iter().map(num_of).collect();
    is(obs, src, "sorted", &a, &b);
    let set: HashSet<Number> = nums.iter().copied().collect();
    b.dedup();
    is(obs, src, "the number of different numbers", set.len(), b.len());
    if b.len() < ns.len() {
        obs.feat("set with equal numbers");
    }
    let mut m: HashMap<Number, usize> = HashMap::new();
    for n in &nums {
        *m.entry(*n).or_default() += 1;
    }
    for (n, x) in ns.iter().zip(&nums) {
        let want = ns.iter().filter(|m| **m == *n).count();
        is(obs, src, "the count in the map", m.get(x).copied(), Some(want));
        is(obs, src, "contained", set.contains(&num_to(*n)), true);
    }
    let mut want = Some(N::U(0));
    let mut got = Some(Number::from(0u8));
    for (n, x) in ns.iter().zip(&nums) {
        want = want.and_then(|w| arith(w, BinOp::Add, *n));
        got = got.and_then(|g| g.checked_add(*x));
    }
    is(obs, src, "the sum", got.map(|n| num_of(&n)), want);
}

/// A number written in an unusual way.
fn spelling(obs: &mut Obs, r: &mut Rng, grid: &[N]) {
    let mut digits = |max: usize| -> String {
        let n = r.range(1, max);
        (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
    };
    let mut s = match digits(1).as_str() {
        "0" | "1" => digits(25),
        "2" | "3" => "0".to_string(),
        "4" | "5" => digits(3),
        "6" => format!("1844674407370955{}", digits(4)),
        "7" => format!("922337203685477{}", digits(4)),
        "8" => format!("900719925474{}", digits(4)),
        _ => digits(10),
    };
    let mut float = false;
    if r.bool() {
        float = true;
        s.push('.');
        s.push_str(&match r.below(4) {
            0 => "0".into(),
            1 => "5".into(),
            2 => format!("{:07}", r.below(10_000_000)),
            _ => (0..r.range(1, 30)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>(),
        });
    }
    if r.bool() {
        float = true;
        s.push(*r.pick(&['e', 'E']));
        s.push_str(r.pick(&["", "+", "-"]));
        let max = *r.pick(&[3, 25, 320, 400]);
        s.push_str(&r.below(max).to_string());
    }
    if r.one_in(6) {
        let n = *r.pick(grid);
        s = match n.int() {
            Some(i) => i.unsigned_abs().to_string(),
            None => format!("{:e}", n.f64().abs()),
        };
        float = n.int().is_none();
        if r.bool() {
            s.push_str(".0");
            if s.contains('e') {
                s.truncate(s.len() - 2);
            } else {
                float = true;
            }
        }
    }
    let want = if float {
        N::from_f64(s.parse().unwrap())
    } else {
        s.parse::<u64>().ok().map(N::U)
    };
    obs.case(&s, true);
    let got = match hcl_edit::parser::parse_body(&format!("a = {s}\n")) {
        Ok(b) => match b.get_attribute("a").map(|a| &a.value) {
            Some(hcl_edit::expr::Expression::Number(n)) => {
                let raw = n.as_repr().map(|r| r.to_string());
                if raw.as_deref().is_some_and(|t| t != s) {
                    obs.fail(&s, format!("the spelling is kept as {raw:?}"));
                }
                Some(num_of(n.value()))
            }
            other => {
                obs.fail(&s, format!("is parsed as {other:?}"));
                None
            }
        },
        Err(_) => None,
    };
    is(obs, &s, "parsed", got, want);
    let got = s.parse::<Expression>().ok().and_then(|e| match e {
        Expression::Number(n) => Some(num_of(&n)),
        _ => None,
    });
    is(obs, &s, "parsed by hcl-rs", got, want);
    let neg = hcl::from_str::<Doc<Number>>(&format!("a = -{s}")).ok().map(|d| num_of(&d.a));
    is(obs, &s, "the negative number read", neg, want.map(N::neg));
    let v = hcl::from_str::<Doc<Value>>(&format!("a = [ {s} , -{s} ]")).ok().map(|d| d.a);
    let w = want.map(|n| Value::from_iter([num_to(n), num_to(n.neg())]));
    is(obs, &s, "the numbers of a list", v, w);
    match want {
        None => obs.feat("spelling: refused"),
        Some(N::F(_)) => obs.feat("spelling: float"),
        Some(_) if float => obs.feat("spelling: integer with fraction or exponent"),
        Some(_) => obs.feat("spelling: integer"),
    }
}

pub fn p20(m: &mut Mon) {
    let g = grid();
    let k = g.len() as u64;
    m.cases("limits", k * k, |obs, _, i| {
        let (a, b) = (g[(i / k) as usize], g[(i % k) as usize]);
        if a == b {
            inspect(obs, a, num_to(a));
            make(obs, a);
        }
        pair(obs, a, b);
    });
    let n = m.n(120_000);
    m.cases("numbers", n, |obs, r, _| {
        let a = some(r, &g);
        obs.case(&format!("{a:?}"), true);
        inspect(obs, a, num_to(a));
        make(obs, a);
        if r.one_in(20) {
            make_float(obs, *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN, -0.0]));
        }
    });
    let n = m.n(800_000);
    m.cases("pairs", n, |obs, r, _| {
        let a = some(r, &g);
        let b = if r.one_in(3) { near(r, a) } else { some(r, &g) };
        pair(obs, a, b);
    });
    let n = m.n(100_000);
    m.cases("sets", n, |obs, r, _| {
        let mut ns: Vec<N> = vec![];
        for _ in 0..r.range(2, 14) {
            let x = if !ns.is_empty() && r.one_in(3) {
                let y = *r.pick(&ns);
                near(r, y)
            } else {
                some(r, &g)
            };
            ns.push(x);
        }
        set(obs, &ns);
    });
    let n = m.n(120_000);
    m.cases("spellings", n, |obs, r, _| spelling(obs, r, &g));
    for (f, n) in [
        ("equal numbers", 1000),
        ("numbers of the same nearest float", 200),
        ("no finite result", 1000),
        ("float result of integers", 1000),
        ("integer result of floats", 500),
        ("integer result of integers", 1000),
        ("refused: out of the range of the type", 1000),
        ("set with equal numbers", 500),
        ("spelling: refused", 500),
        ("spelling: float", 1000),
        ("spelling: integer with fraction or exponent", 1000),
        ("spelling: integer", 1000),
        ("f64: not finite", 100),
        ("isize", 500),
        ("u8", 200),
    ] {
        m.require(f, n);
    }
}
