//! Runs the macros of hcl-rs with many values of the variables used in them and reports what they
//! give and what they stand for. `hclmacros <seed> <rounds>` prints a line of JSON for each case.
#![allow(unused_variables, unused_parens, clippy::all)]

mod cases;

use hcl::expr::ObjectKey as K;
use hcl::structure::BlockLabel as L;
use hcl::{Attribute, Block, Body, Expression as E, Identifier, Number, Structure, Value as V};
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub struct Vars {
    t: fn(u64) -> u64,
    s: String,
    st: &'static str,
    u: u64,
    i: i64,
    f: f64,
    b: bool,
    o: Option<u64>,
    l: Vec<u64>,
    e: E,
    w: V,
    we: E,
    id: &'static str,
}

pub struct Outcome {
    kind: &'static str,
    got: String,
    want: String,
    equal: bool,
    ticks: usize,
    text: Option<&'static str>,
}

thread_local! {
    static LOG: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}

/// An expression whose evaluations are recorded.
fn tick(n: u64) -> u64 {
    LOG.with(|l| l.borrow_mut().push(n));
    n
}

fn outcome<T: PartialEq + Debug>(kind: &'static str, got: impl FnOnce() -> T, want: T, text: Option<&'static str>, ticks: &[u64]) -> Outcome {
    LOG.with(|l| l.borrow_mut().clear());
    let got = got();
    let mut log = LOG.with(|l| l.take());
    let mut ticks = ticks.to_vec();
    log.sort();
    ticks.sort();
    Outcome {
        kind,
        equal: got == want,
        got: format!("{got:?} evaluated {log:?}"),
        want: format!("{want:?} evaluated {ticks:?}"),
        ticks: ticks.len(),
        text,
    }
}

fn ident(s: &str) -> Identifier {
    Identifier::unchecked(s)
}

fn bod(s: Vec<Structure>) -> Body {
    s.into_iter().collect()
}

fn obj(items: Vec<(K, E)>) -> E {
    let mut o: Vec<(K, E)> = vec![];
    for (k, v) in items {
        match o.iter_mut().find(|(x, _)| *x == k) {
            Some((_, x)) => *x = v,
            None => o.push((k, v)),
        }
    }
    E::Object(o.into_iter().collect())
}

fn vobj(items: Vec<(String, V)>) -> V {
    let mut o: Vec<(String, V)> = vec![];
    for (k, v) in items {
        match o.iter_mut().find(|(x, _)| *x == k) {
            Some((_, x)) => *x = v,
            None => o.push((k, v)),
        }
    }
    V::Object(o.into_iter().collect())
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = (self.0 ^ (self.0 >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        x[self.below(x.len() as u64) as usize]
    }
}

const STRS: &[&str] = &["", "x", "a b", "${a}", "%{ if x }", "\"quoted\"", "é😀", "line\nline", "null", "1", "foo", "k1", "lit"];

fn vars(r: &mut Rng) -> Vars {
    let e = match r.below(8) {
        0 => E::Null,
        1 => E::from(hcl::expr::Variable::unchecked("var")),
        2 => E::from(hcl::expr::FuncCall::builder("f").arg(1u64).arg("a").build()),
        3 => E::from(hcl::expr::Traversal::new(hcl::expr::Variable::unchecked("a"), [hcl::expr::TraversalOperator::GetAttr(ident("b"))])),
        4 => E::Parenthesis(Box::new(E::Bool(true))),
        5 => E::from(hcl::expr::TemplateExpr::from("a ${b}")),
        6 => E::Array(vec![E::String("${a}".into()), E::from(hcl::expr::Variable::unchecked("b"))]),
        _ => obj(vec![(K::Identifier(ident("a")), E::Null), (K::Expression(E::from("b")), E::from(1u64))]),
    };
    let (w, we) = match r.below(6) {
        0 => (V::Null, E::Null),
        1 => (V::Bool(true), E::Bool(true)),
        2 => (V::String("${a}".into()), E::String("${a}".into())),
        3 => (V::Array(vec![V::Null, V::from(2u64)]), E::Array(vec![E::Null, E::from(2u64)])),
        4 => (
            vobj(vec![("b c".into(), V::from(1.5)), ("a".into(), V::Array(vec![]))]),
            obj(vec![(K::Expression(E::from("b c")), E::from(1.5)), (K::Expression(E::from("a")), E::Array(vec![]))]),
        ),
        _ => (V::from(-1), E::from(-1)),
    };
    Vars {
        t: tick,
        s: match r.below(3) {
            0 => format!("s{}", r.below(1000)),
            _ => r.pick(STRS).to_string(),
        },
        st: r.pick(STRS),
        u: r.pick(&[0, 1, 255, u64::MAX, 1 << 63, 77]) >> r.below(2),
        i: r.pick(&[0, -1, i64::MIN, i64::MAX, 5]),
        f: r.pick(&[0.0, 1.5, -2.25, 1e300, 0.1, 3.0]),
        b: r.below(2) == 0,
        o: if r.below(2) == 0 { None } else { Some(r.below(9)) },
        l: (0..r.below(4)).collect(),
        e,
        w,
        we,
        id: r.pick(&["a", "name", "key_1", "foo", "null", "x-y"]),
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What parsing the text gives.
fn parsed(kind: &str, text: &str) -> String {
    let body = |t: &str| hcl::parse(t).map_err(|e| e.to_string());
    let expr = |t: &str| t.parse::<hcl::edit::expr::Expression>().map(E::from).map_err(|e| e.to_string());
    let one = |t: &str| body(t).map(|b| b.into_iter().next().expect("structure"));
    let r = match kind {
        "body" => body(text).map(|b| format!("{b:?}")),
        "expression" => expr(text).map(|e| format!("{e:?}")),
        "value" => expr(text).map(|e| format!("{:?}", V::from(e))),
        "structure" => one(text).map(|s| format!("{s:?}")),
        "attribute" => one(text).map(|s| format!("{:?}", s.into_attribute().expect("attribute"))),
        _ => one(text).map(|s| format!("{:?}", s.into_block().expect("block"))),
    };
    r.map_or_else(|e| e, |r| r + " evaluated []")
}

fn main() {
    let mut a = std::env::args().skip(1);
    let seed: u64 = a.next().unwrap().parse().unwrap();
    let rounds: u64 = a.next().unwrap().parse().unwrap();
    for (n, c) in cases::CASES.iter().enumerate() {
        for i in 0..rounds {
            let v = vars(&mut Rng(seed.wrapping_mul(1_000_003) + n as u64 * 1_000_000_007 + i));
            let o = match std::panic::catch_unwind(|| c(&v)) {
                Ok(o) => o,
                Err(_) => Outcome { kind: "panic", got: "panicked".into(), want: String::new(), equal: false, ticks: 0, text: None },
            };
            // The same text parses to the same.
            let parsed = match o.text {
                Some(t) if i == 0 => format!("[{},{}]", json(t), json(&parsed(o.kind, t))),
                _ => "null".into(),
            };
            println!(
                "{{\"case\":{n},\"round\":{i},\"kind\":{},\"ticks\":{},\"equal\":{},\"got\":{},\"want\":{},\"parsed\":{parsed},\"vars\":{}}}",
                json(o.kind), o.ticks, o.equal, json(&o.got), json(&o.want), json(&format!("{v:?}"))
            );
        }
    }
    println!("done");
}
