//! P16, P17, P18, P19 and P26: evaluation.

use crate::conv;
use crate::evalgen::{EG, W};
use crate::model::*;
use crate::p_parse::first_diff;
use crate::refeval::{act, Env, Er, Ev, Func, FuncEr, Pt, R, WHATS};
use crate::render::{render_body, render_expr, render_template, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use crate::spec;
use crate::val::V;
use hcl::eval::{Context, ErrorKind, Evaluate, FuncArgs, FuncDef, ParamType};
use hcl::expr::FuncName;
use hcl::template::Template;
use hcl::{Expression, Identifier, Value};
use std::cell::RefCell;
use std::fmt::Debug;
use std::str::FromStr;

// --- the real functions -------------------------------------------------------------------------

/// A call that ran: what the function does, its arguments and the number of positional ones.
type Ran = (usize, Vec<V>, usize);

thread_local! {
    static LOG: RefCell<Vec<Ran>> = const { RefCell::new(vec![]) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn real<const WHAT: usize>(args: FuncArgs) -> Result<Value, String> {
    let pos: Vec<V> = args.positional_args().map(V::of).collect();
    let var: Vec<V> = args.variadic_args().map(V::of).collect();
    let all: Vec<V> = args.iter().map(V::of).collect();
    let n = pos.len();
    let parts: Vec<V> = pos.into_iter().chain(var).collect();
    if parts != all {
        BAD.with(|b| *b.borrow_mut() = Some(format!("positional and variadic arguments {parts:?}, but all are {all:?}")));
    }
    let owned: Vec<V> = args.into_values().iter().map(V::of).collect();
    if owned != all {
        BAD.with(|b| *b.borrow_mut() = Some(format!("into_values gives {owned:?}, the arguments are {all:?}")));
    }
    LOG.with(|l| l.borrow_mut().push((WHAT, all.clone(), n)));
    act(WHAT, &all, n).map(|v| v.to())
}

const REAL: [fn(FuncArgs) -> Result<Value, String>; WHATS] = [
    real::<0>,
    real::<1>,
    real::<2>,
    real::<3>,
    real::<4>,
    real::<5>,
    real::<6>,
    real::<7>,
];

fn take_log() -> Vec<Ran> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn param(p: &Pt) -> ParamType {
    match p {
        Pt::Any => ParamType::Any,
        Pt::Bool => ParamType::Bool,
        Pt::Num => ParamType::Number,
        Pt::Str => ParamType::String,
        Pt::Arr(p) => ParamType::array_of(param(p)),
        Pt::Obj(p) => ParamType::object_of(param(p)),
        Pt::OneOf(ps) => ParamType::one_of(ps.iter().map(param)),
        Pt::Nullable(p) => ParamType::nullable(param(p)),
    }
}

/// How a parameter type is named in errors.
fn param_name(p: &Pt) -> String {
    match p {
        Pt::Any => "`any`".into(),
        Pt::Bool => "`bool`".into(),
        Pt::Num => "`number`".into(),
        Pt::Str => "`string`".into(),
        Pt::Arr(p) => format!("`array({})`", param_name(p)),
        Pt::Obj(p) => format!("`object({})`", param_name(p)),
        Pt::Nullable(p) => format!("`nullable({})`", param_name(p)),
        Pt::OneOf(ps) => {
            let names: Vec<_> = ps.iter().map(param_name).collect();
            match names.split_last() {
                None => "`any`".into(),
                Some((last, [])) => last.clone(),
                Some((last, first)) => format!("{} or {last}", first.join(", ")),
            }
        }
    }
}

/// `how` selects one of the ways to build a definition.
fn def(f: &Func, how: usize) -> FuncDef {
    let params = f.params.iter().map(param);
    if how == 0 && f.variadic.is_none() {
        return FuncDef::new(REAL[f.what], params);
    }
    let mut b = FuncDef::builder();
    match how {
        1 => b = b.params(params),
        _ => {
            // Parameters accumulate.
            for p in params {
                b = b.param(p);
            }
        }
    }
    if let Some(v) = &f.variadic {
        b = b.variadic_param(param(v));
    }
    b.build(REAL[f.what])
}

fn ident(s: &str) -> Identifier {
    Identifier::new(s).expect("identifier")
}

fn fname(n: &str) -> FuncName {
    let mut ns: Vec<&str> = n.split("::").collect();
    let name = ns.pop().unwrap();
    FuncName::new(ident(name)).with_namespace(ns.into_iter().map(ident))
}

pub fn ctx(env: &Env, how: usize) -> Context<'static> {
    let mut c = Context::new();
    for (n, v) in &env.vars {
        c.declare_var(ident(n), v.to());
    }
    for (n, f) in &env.funcs {
        c.declare_func(fname(n), def(f, how));
    }
    c
}

// --- comparison ---------------------------------------------------------------------------------

fn er_eq(k: &ErrorKind, e: &Er) -> bool {
    match (k, e) {
        (ErrorKind::UndefinedVar(a), Er::UndefVar(b)) => a.as_str() == b,
        (ErrorKind::UndefinedFunc(a), Er::UndefFunc(b)) => a.to_string() == *b,
        (ErrorKind::Unexpected(a, _), Er::Unexpected(b, _)) => V::of(a) == *b,
        (ErrorKind::Index(a), Er::Index(b)) => *a as u64 == *b,
        (ErrorKind::UnaryOp(o, a), Er::Un(p, b)) => {
            o.as_str() == if *p == UnOp::Neg { "-" } else { "!" } && V::of(a) == *b
        }
        (ErrorKind::BinaryOp(a, o, b), Er::Bin(x, p, y)) => {
            o.as_str() == p.s() && V::of(a) == *x && V::of(b) == *y
        }
        (ErrorKind::NoSuchKey(a), Er::NoKey(b)) | (ErrorKind::KeyExists(a), Er::KeyExists(b)) => a == b,
        (ErrorKind::FuncCall(a, m), Er::Func(b, e)) => {
            a.to_string() == *b
                && match e {
                    FuncEr::Own(o) => m == o,
                    FuncEr::Count(want, got) => {
                        m.contains(&want.to_string()) && m.contains(&got.to_string())
                    }
                    FuncEr::Type(pos, _, p, v) => {
                        m.contains(&pos.to_string()) && m.contains(&param_name(p)) && m.contains(&v.to().to_string())
                    }
                }
        }
        _ => false,
    }
}

fn check<X: PartialEq + Debug>(
    obs: &mut Obs,
    src: &str,
    what: &str,
    got: Result<X, hcl::eval::Error>,
    want: &R<X>,
) -> bool {
    let ok = match (&got, want) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => {
            // Errors can be displayed.
            if a.to_string().is_empty() {
                obs.fail(src, format!("{what}: empty error message"));
            }
            er_eq(a.kind(), b)
        }
        _ => false,
    };
    if !ok {
        let g = match &got {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("error {:?}", e.kind()),
        };
        let w = match want {
            Ok(v) => format!("{v:?}"),
            Err(e) => format!("error {e:?}"),
        };
        obs.fail(src, format!("{what}: {}", first_diff(&g, &w)));
    }
    ok
}

fn record(obs: &mut Obs, ev: &Ev, r: Option<&Er>) {
    for (k, n) in &ev.feats {
        obs.feat_n(k, *n);
    }
    obs.feat(match r {
        None => "evaluates",
        Some(e) => e.kind(),
    });
}

fn describe(env: &Env, src: &str) -> String {
    let vars: Vec<String> = env.vars.iter().map(|(n, v)| format!("{n} = {}", v.to())).collect();
    let funcs: Vec<String> = env.funcs.iter().map(|(n, f)| format!("{n}: {f:?}")).collect();
    format!("{src}\n--- variables\n{}\n--- functions\n{}", vars.join("\n"), funcs.join("\n"))
}

fn values(r: Result<Value, hcl::eval::Error>) -> Result<V, hcl::eval::Error> {
    r.map(|v| V::of(&v))
}

/// Checks that exactly the expected calls ran.
fn check_log(obs: &mut Obs, src: &str, what: &str, want: &[Ran]) {
    let got = take_log();
    if got != want {
        obs.fail(
            src,
            format!("{what}: calls that ran: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))),
        );
    }
    if let Some(b) = BAD.with(|b| b.borrow_mut().take()) {
        obs.fail(src, format!("{what}: {b}"));
    }
}

fn mode(r: &mut Rng) -> Mode {
    if r.pct(30) {
        Mode::Wild
    } else {
        Mode::Plain
    }
}

// --- P16 ----------------------------------------------------------------------------------------

/// Evaluates an expression by all routes.
fn expr_case(obs: &mut Obs, r: &mut Rng, env: &Env, e: &E) {
    let n = ne(e, Nf::Rs);
    let mut ev = Ev::new(env);
    let want = ev.eval(&n);
    record(obs, &ev, want.as_ref().err());
    let m = mode(r);
    let (src, _) = render_expr(r, e, m);
    let all = describe(env, &src);
    let mut trivial = true;
    walk_e(e, &mut |e| trivial &= matches!(e, E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_)));
    obs.case(&all, !trivial);
    let c = ctx(env, r.below(3));
    take_log();
    let x = conv::to_rs_expr(e);
    check(obs, &all, "expression", values(x.evaluate(&c)), &want);
    check_log(obs, &all, "expression", &ev.log);
    match src.parse::<Expression>() {
        Ok(p) => {
            check(obs, &all, "parsed expression", values(p.evaluate(&c)), &want);
        }
        Err(e) => obs.fail(&all, format!("not parsed: {e}")),
    }
    take_log();
}

/// The types of the parts implement the evaluation, too.
fn parts(obs: &mut Obs, r: &mut Rng, env: &Env, e: &E) {
    let c = ctx(env, 1);
    let n = ne(e, Nf::Rs);
    let (src, _) = render_expr(r, e, Mode::Plain);
    let all = describe(env, &src);
    let ev = || Ev::new(env);
    let (kind, x) = (kind(e), conv::to_rs_expr(e));
    obs.case(&format!("part {all}"), true);
    obs.feat_n(kind, 1);
    match (x, &n) {
        (Expression::Array(a), E::Arr(v)) => {
            let want: R<Vec<V>> = {
                let mut ev = ev();
                v.iter().map(|e| ev.eval(e)).collect()
            };
            let got = a.evaluate(&c).map(|v| v.iter().map(V::of).collect());
            check(obs, &all, "array", got, &want);
        }
        (Expression::Object(o), E::Obj(v)) => {
            let want = ev().object(v);
            let got = o
                .evaluate(&c)
                .map(|o| o.iter().map(|(k, v)| (k.clone(), V::of(v))).collect::<Vec<_>>());
            check(obs, &all, "object", got, &want);
            for ((k, _), (m, _)) in o.iter().zip(v) {
                check(obs, &all, "object key", k.evaluate(&c), &ev().okey(m));
            }
        }
        (Expression::TemplateExpr(t), E::Tmpl(ts)) => {
            check(obs, &all, "template", values(t.evaluate(&c)), &ev().tmpl_value(ts));
            match Template::from_expr(&t) {
                Ok(t) => {
                    check(obs, &all, "template of expression", t.evaluate(&c), &ev().tmpl(ts));
                }
                Err(e) => obs.fail(&all, format!("no template: {e}")),
            }
        }
        (Expression::TemplateExpr(t), E::Heredoc(h)) => {
            check(obs, &all, "heredoc", values(t.evaluate(&c)), &ev().tmpl_value(&h.body));
        }
        (Expression::Traversal(t), E::Trav(..)) => {
            check(obs, &all, "traversal", values(t.evaluate(&c)), &ev().eval(&n));
        }
        (Expression::FuncCall(t), E::Call(x)) => {
            check(obs, &all, "call", values(t.evaluate(&c)), &ev().call(x));
        }
        (Expression::Conditional(t), E::Cond(x)) => {
            check(obs, &all, "conditional", values(t.evaluate(&c)), &ev().cond(x));
        }
        (Expression::Operation(t), _) => {
            let want = ev().eval(&n);
            check(obs, &all, "operation", values(t.evaluate(&c)), &want);
            match *t {
                hcl::expr::Operation::Unary(o) => check(obs, &all, "unary operation", values(o.evaluate(&c)), &want),
                hcl::expr::Operation::Binary(o) => check(obs, &all, "binary operation", values(o.evaluate(&c)), &want),
            };
        }
        (Expression::ForExpr(t), E::For(x)) => {
            check(obs, &all, "for expression", values(t.evaluate(&c)), &ev().for_(x));
        }
        _ => {}
    }
    take_log();
}

/// A body whose expressions are made for the environment.
fn gen_body(g: &mut EG, d: usize) -> B {
    let n = g.g.r.below(5);
    let mut b: B = vec![];
    for _ in 0..n {
        if d > 0 && g.g.r.pct(35) {
            let ident = (*g.g.r.pick(&["block", "a", "res", "x-y"])).to_string();
            let labels = (0..g.g.r.below(3))
                .map(|_| {
                    if g.g.r.bool() {
                        L::Id((*g.g.r.pick(&["l", "m", "é"])).to_string())
                    } else {
                        L::Str(g.g.string())
                    }
                })
                .collect();
            let body = gen_body(g, d - 1);
            b.push(S::Block(Block { ident, labels, body }));
        } else {
            let k = (*g.g.r.pick(&["a", "b", "c", "d", "foo", "é"])).to_string();
            if b.iter().any(|s| matches!(s, S::Attr(x, _) if *x == k)) {
                continue;
            }
            g.g.budget = 20;
            let d = g.g.r.range(1, 4);
            let e = g.e(W::Any, d);
            b.push(S::Attr(k, e));
        }
    }
    b
}

fn body_of(b: &hcl::Body) -> Result<B, String> {
    conv::rs_body(b)
}

fn bodies(obs: &mut Obs, r: &mut Rng) {
    let mut g = EG::new(r);
    g.fill_env();
    if g.g.r.pct(60) {
        g.wild = 0;
    }
    let b = gen_body(&mut g, 2);
    let env = std::mem::take(&mut g.env);
    let n = nb(&b, Nf::Rs);
    let mut ev = Ev::new(&env);
    let want = ev.body(&n);
    record(obs, &ev, want.as_ref().err());
    let m = mode(r);
    let (src, _) = render_body(r, &b, m);
    let all = describe(&env, &src);
    obs.case(&all, !b.is_empty());
    obs.feat(if want.is_ok() { "body evaluates" } else { "body fails" });
    let c = ctx(&env, 2);
    take_log();
    let x = conv::to_rs_body(&b);
    let model = |r: Result<hcl::Body, hcl::eval::Error>| r.map(|b| body_of(&b).unwrap());
    check(obs, &all, "body", model(x.evaluate(&c)), &want);
    check_log(obs, &all, "body", &ev.log);
    for (s, m) in x.iter().zip(&n) {
        let want = Ev::new(&env).body(std::slice::from_ref(m));
        let got = s.evaluate(&c).map(|s| body_of(&hcl::Body(vec![s])).unwrap());
        check(obs, &all, "structure", got, &want);
        let got = match s {
            hcl::Structure::Attribute(a) => a.evaluate(&c).map(hcl::Structure::Attribute),
            hcl::Structure::Block(b) => b.evaluate(&c).map(hcl::Structure::Block),
        };
        let got = got.map(|s| body_of(&hcl::Body(vec![s])).unwrap());
        check(obs, &all, "attribute or block", got, &want);
    }
    // Evaluation while deserializing.
    let got = hcl::eval::from_str::<hcl::Body>(&src, &c);
    match (&got, &want) {
        (Ok(b), Ok(w)) => {
            let b = body_of(b).unwrap();
            if b != *w {
                obs.fail(&all, format!("from_str: {}", first_diff(&format!("{b:?}"), &format!("{w:?}"))));
            }
        }
        (Err(hcl::Error::Eval(e)), Err(w)) if er_eq(e.kind(), w) => {}
        _ => obs.fail(&all, format!("from_str: {got:?}, expected {want:?}")),
    }
    if let Ok(w) = &want {
        let v = spec::body(w);
        match hcl::eval::from_str::<Value>(&src, &c) {
            Ok(x) if V::of(&x) == v => obs.feat("value from_str"),
            x => obs.fail(
                &all,
                format!("value from_str: {}", first_diff(&format!("{:?}", x.map(|x| V::of(&x))), &format!("Ok({v:?})"))),
            ),
        }
    } else if let Ok(v) = hcl::eval::from_str::<Value>(&src, &c) {
        obs.fail(&all, format!("from_str gives {v:?}, expected {want:?}"));
    }
    // Evaluation while serializing.
    match (hcl::eval::to_string(&x, &c), &want) {
        (Ok(s), Ok(w)) => match hcl::parse(&s).map(|b| body_of(&b).unwrap()) {
            Ok(b) => {
                obs.feat("to_string");
                let (b, w) = (strip_keys_b(b), strip_keys_b(w.clone()));
                if b != w {
                    obs.fail(&all, format!("to_string: {s}: {}", first_diff(&format!("{b:?}"), &format!("{w:?}"))));
                }
            }
            Err(e) => obs.fail(&all, format!("to_string gives {s}: {e}")),
        },
        (Err(hcl::Error::Eval(e)), Err(w)) if er_eq(e.kind(), w) => {}
        (got, want) => obs.fail(&all, format!("to_string: {got:?}, expected {want:?}")),
    }
    take_log();
}

/// Objects in serialized output may spell keys as identifiers.
fn strip_keys(e: E) -> E {
    match e {
        E::Arr(a) => E::Arr(a.into_iter().map(strip_keys).collect()),
        E::Obj(o) => E::Obj(
            o.into_iter()
                .map(|(k, e)| {
                    let k = match k {
                        K::Id(s) => K::Ex(E::Str(s)),
                        k => k,
                    };
                    (k, strip_keys(e))
                })
                .collect(),
        ),
        e => e,
    }
}

fn strip_keys_b(b: B) -> B {
    b.into_iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k, strip_keys(e)),
            S::Block(b) => S::Block(Block {
                body: strip_keys_b(b.body),
                ..b
            }),
        })
        .collect()
}

/// Operators over values of all types.
fn pool() -> Vec<V> {
    let n = |n| V::Num(n);
    let o = |o: &[(&str, V)]| V::Obj(o.iter().map(|(k, v)| (k.to_string(), v.clone())).collect());
    let mut v = vec![
        V::Null,
        V::Bool(true),
        V::Bool(false),
        V::Str(String::new()),
        V::Str("a".into()),
        V::Str("1".into()),
        V::Str("true".into()),
        V::Arr(vec![]),
        V::Arr(vec![n(N::U(1))]),
        V::Arr(vec![n(N::U(1)), n(N::U(2))]),
        V::Arr(vec![n(N::U(2)), n(N::U(1))]),
        V::Arr(vec![V::Null]),
        o(&[]),
        o(&[("a", n(N::U(1)))]),
        o(&[("a", n(N::U(1))), ("b", n(N::U(2)))]),
        o(&[("b", n(N::U(2))), ("a", n(N::U(1)))]),
        o(&[("a", o(&[("b", V::Null)]))]),
        o(&[("1", V::Bool(true)), ("true", n(N::U(3))), ("", V::Null)]),
        V::Arr(vec![o(&[("a", n(N::U(1)))]), o(&[("a", n(N::U(2)))])]),
    ];
    for u in [0, 1, 2, 3, 7, 10, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX] {
        v.push(n(N::U(u)));
    }
    for i in [-1, -2, -7, -(1i64 << 53) - 1, i64::MIN + 1, i64::MIN] {
        v.push(n(N::I(i)));
    }
    for f in [0.5, -0.5, 1.5, 2.5, 1e-300, 1e300, -1e300, f64::MAX, f64::MIN_POSITIVE, 1e20, -1e19, 18446744073709551616.0, 0.1] {
        v.push(n(N::from_f64(f).unwrap()));
    }
    v
}

/// The operand that denotes a value.
fn operand(v: &V) -> E {
    match v.expr() {
        E::Num(n) if n.f64() < 0.0 => E::Paren(Box::new(E::Num(n))),
        e => e,
    }
}

fn operators(obs: &mut Obs, r: &mut Rng, i: u64, pool: &[V]) {
    let (a, b) = (&pool[i as usize / pool.len()], &pool[i as usize % pool.len()]);
    let env = Env {
        vars: vec![("x".into(), a.clone()), ("y".into(), b.clone())],
        funcs: vec![],
    };
    let x = || Box::new(E::Var("x".into()));
    let y = || Box::new(E::Var("y".into()));
    for o in BINOPS {
        expr_case(obs, r, &env, &E::Bin(x(), o, y()));
        expr_case(obs, r, &env, &E::Bin(Box::new(operand(a)), o, Box::new(operand(b))));
    }
    expr_case(obs, r, &env, &E::Trav(x(), vec![Op::Idx(*y())]));
    expr_case(obs, r, &env, &E::Trav(Box::new(E::Paren(Box::new(a.expr()))), vec![Op::Idx(b.expr())]));
    expr_case(obs, r, &env, &E::Cond(Box::new((*x(), *y(), E::Null))));
    expr_case(obs, r, &env, &E::Obj(vec![(K::Ex(E::Paren(x())), *y()), (K::Id("a".into()), *x())]));
    expr_case(obs, r, &env, &E::Tmpl(vec![T::Interp(*x(), (false, false)), T::Lit("-".into()), T::Interp(*y(), (false, false))]));
    if i < pool.len() as u64 {
        for o in [UnOp::Neg, UnOp::Not] {
            expr_case(obs, r, &env, &E::Un(o, y()));
            expr_case(obs, r, &env, &E::Un(o, Box::new(E::Paren(Box::new(b.expr())))));
        }
        let mut ops = vec![Op::Attr("a".into()), Op::AttrSplat, Op::FullSplat];
        for i in [0, 1, 2, 5, u64::MAX] {
            ops.push(Op::Legacy(i));
        }
        for p in &ops {
            expr_case(obs, r, &env, &E::Trav(y(), vec![p.clone()]));
            for q in &ops {
                expr_case(obs, r, &env, &E::Trav(y(), vec![p.clone(), q.clone()]));
            }
        }
        for group in [false, true] {
            for kexpr in [None, Some(E::Var("k".into())), Some(E::Var("v".into())), Some(E::Str("same".into()))] {
                for cond in [None, Some(E::Bin(Box::new(E::Var("v".into())), BinOp::Ne, Box::new(E::Num(N::U(1))))), Some(E::Var("v".into()))] {
                    if group && kexpr.is_none() {
                        continue;
                    }
                    let f = For {
                        key: Some("k".into()),
                        val: "v".into(),
                        coll: *y(),
                        kexpr: kexpr.clone(),
                        vexpr: E::Arr(vec![E::Var("k".into()), E::Var("v".into())]),
                        group,
                        cond,
                    };
                    expr_case(obs, r, &env, &E::For(Box::new(f)));
                }
            }
        }
    }
}

pub fn p16(m: &mut Mon) {
    m.rule = "an expression with at least one operation, or a body with at least one structure".into();
    m.assumptions = vec![
        "the reference evaluator is a correct reading of the HCL specification and of the documented deviations of hcl-rs".into(),
    ];
    let pool = pool();
    m.cases("operators", (pool.len() * pool.len()) as u64, |obs, r, i| operators(obs, r, i, &pool));
    let n = m.n(300_000);
    m.cases("expressions", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        if g.g.r.pct(50) {
            g.wild = 0;
        }
        let d = g.g.r.range(1, 6);
        let e = g.e(W::Any, d);
        let env = std::mem::take(&mut g.env);
        expr_case(obs, r, &env, &e);
    });
    let n = m.n(40_000);
    m.cases("parts", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        g.wild = 3;
        let d = g.g.r.range(1, 4);
        let e = g.e(W::Any, d);
        let env = std::mem::take(&mut g.env);
        parts(obs, r, &env, &e);
    });
    // Any expressions, most of them fail.
    let n = m.n(20_000);
    m.cases("arbitrary", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        g.g.o.unique_keys = false;
        let d = g.g.r.range(1, 4);
        let e = g.g.expr(d);
        let env = std::mem::take(&mut g.env);
        expr_case(obs, r, &env, &e);
    });
    let n = m.n(40_000);
    m.cases("bodies", n, |obs, r, _| bodies(obs, r));
    for f in [
        "error: undefined variable",
        "error: undefined function",
        "error: unexpected type",
        "error: index out of range",
        "error: unary operator",
        "error: binary operator",
        "error: division by zero",
        "error: numeric operator",
        "error: no such key",
        "error: key exists",
        "error: of the function",
        "error: number of arguments",
        "error: type of argument",
        "evaluates",
        "body evaluates",
        "body fails",
        "value from_str",
        "to_string",
        "loop variable shadows",
        "for condition false",
        "for list element",
        "for group of several",
        "for object item",
        "attribute access",
        "legacy index",
        "string index",
        "number index",
        "splat on null",
        "full splat on list",
        "attribute splat on list",
        "splat on single value",
        "expanded argument",
        "variadic call",
        "positional call",
        "integer arithmetic",
        "float arithmetic",
        "condition true",
        "condition false",
        "unwrapped template",
        "object key given twice",
    ] {
        m.require(f, 50);
    }
}


// --- P17 ----------------------------------------------------------------------------------------

type Placed = Result<(), hcl::eval::Errors>;

/// Checks the reported errors.
fn check_errors(obs: &mut Obs, src: &str, what: &str, got: &Placed, want: &[Er]) {
    let got: Vec<&hcl::eval::Error> = match got {
        Ok(()) => vec![],
        Err(e) => {
            if e.len() == 0 || e.len() != e.iter().count() || e.to_string().is_empty() {
                obs.fail(src, format!("{what}: odd errors {e:?}"));
            }
            e.iter().collect()
        }
    };
    obs.feat(match want.len() {
        0 => "no error",
        1 => "one error",
        _ => "several errors",
    });
    if got.len() != want.len() || !got.iter().zip(want).all(|(a, b)| er_eq(a.kind(), b)) {
        let g: Vec<_> = got.iter().map(|e| e.kind()).collect();
        obs.fail(src, format!("{what}: errors {g:?}, expected {want:?}"));
    }
}

/// Removes some of the variables and functions.
fn lessen(r: &mut Rng, env: &Env) -> Env {
    let p = *r.pick(&[0, 10, 30, 60, 100]);
    let mut names: Vec<&String> = env.vars.iter().map(|(n, _)| n).chain(env.funcs.iter().map(|(n, _)| n)).collect();
    names.sort();
    names.dedup();
    let gone: Vec<String> = names.into_iter().filter(|_| r.pct(p)).cloned().collect();
    let mut e = env.clone();
    e.vars.retain(|(n, _)| !gone.contains(n));
    e.funcs.retain(|(n, _)| !gone.contains(n));
    e
}

fn rs(e: &Expression) -> E {
    ne(&conv::rs_expr(e).unwrap(), Nf::Rs)
}

fn sameness(obs: &mut Obs, src: &str, what: &str, got: &impl Debug, want: &impl Debug) -> bool {
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    if g != w {
        obs.fail(src, format!("{what}: {}", first_diff(&g, &w)));
    }
    g == w
}

/// The value once everything is known.
fn recovered<X: Debug>(obs: &mut Obs, src: &str, now: R<X>, orig: R<X>, merged: bool, eq: impl Fn(&X, &X) -> bool) {
    let ok = match (&now, &orig) {
        (Ok(a), Ok(b)) => {
            obs.feat("recovered");
            eq(a, b)
        }
        (Err(_), Err(_)) => true,
        // The failing value was replaced by a later entry of the same key.
        (Ok(_), Err(_)) => merged,
        _ => false,
    };
    if !ok {
        obs.fail(src, format!("evaluating again gives {now:?}, the original gives {orig:?}"));
    }
}

/// The outcome of the evaluation by the real code. Errors are reduced to a placeholder.
fn outcome<X>(r: Result<X, hcl::eval::Error>) -> R<X> {
    r.map_err(|_| Er::Index(0))
}

/// `merged`: entries of the same object key were merged, which may change the order.
fn same_value(v: &Value, e: &Expression, merged: bool) -> bool {
    let e = conv::rs_expr(e).unwrap();
    let v = V::of(v);
    v.expr() == e || merged && crate::refeval::same(&v, &spec::expr(&e))
}

fn same_body(a: &[S], b: &[S]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| match (a, b) {
            (S::Attr(k, a), S::Attr(l, b)) => k == l && crate::refeval::same(&spec::expr(a), &spec::expr(b)),
            (S::Block(a), S::Block(b)) => a.ident == b.ident && a.labels == b.labels && same_body(&a.body, &b.body),
            _ => false,
        })
}

fn place_expr(obs: &mut Obs, r: &mut Rng, env: &Env, e: &E) {
    let less = lessen(r, env);
    let n = ne(e, Nf::Rs);
    let mut ev = Ev::new(&less);
    let mut part = n.clone();
    let want = ev.place(&mut part);
    let merged = ev.merged;
    let (src, _) = render_expr(r, e, Mode::Plain);
    let src = describe(&less, &src);
    obs.case(&src, !matches!(e, E::Null | E::Bool(_) | E::Num(_) | E::Str(_)));
    for e in &want {
        obs.feat(e.kind());
    }
    if part != n && !want.is_empty() {
        obs.feat("partially evaluated");
    }
    let (c, full) = (ctx(&less, 0), ctx(env, 1));
    let x = conv::to_rs_expr(e);
    let mut y = x.clone();
    let got = y.evaluate_in_place(&c);
    check_errors(obs, &src, "expression", &got, &want);
    if got.is_ok() {
        // Ordinary evaluation gives the same.
        let v = x.evaluate(&c);
        match v {
            Ok(v) if same_value(&v, &y, merged) => {}
            v => obs.fail(&src, format!("in place gives {y:?}, evaluation {v:?}")),
        }
    }
    sameness(obs, &src, "expression", &rs(&y), &ne(&part, Nf::Rs));
    let vals = |r: Result<Value, hcl::eval::Error>| outcome(r.map(|v| V::of(&v)));
    recovered(obs, &src, vals(y.evaluate(&full)), vals(x.evaluate(&full)), merged, |a, b| {
        if merged { crate::refeval::same(a, b) } else { a == b }
    });
    // Evaluating the rest in place is the same again. It may fail where ordinary evaluation does
    // not: indexes behind a splat are not needed for an empty list.
    let mut ev = Ev::new(env);
    let want = ev.place(&mut part);
    let merged = merged || ev.merged;
    let z = y.evaluate(&full);
    let again = y.evaluate_in_place(&full);
    check_errors(obs, &src, "again", &again, &want);
    sameness(obs, &src, "again", &rs(&y), &ne(&part, Nf::Rs));
    match (z, again) {
        (Ok(v), Ok(())) if same_value(&v, &y, merged) => obs.feat("completed in place"),
        (_, Err(_)) => {}
        (z, again) => obs.fail(&src, format!("evaluation gives {z:?}, in place {again:?} with {y:?}")),
    }
    take_log();
}

/// In place evaluation of the parts evaluates what is nested.
fn place_part(obs: &mut Obs, r: &mut Rng, env: &Env, e: &E) {
    let less = lessen(r, env);
    let c = ctx(&less, 0);
    let n = ne(e, Nf::Rs);
    let mut want = n.clone();
    let mut ev = Ev::new(&less);
    let (src, _) = render_expr(r, e, Mode::Plain);
    let src = describe(&less, &src);
    obs.case(&format!("part {src}"), true);
    obs.feat(kind(e));
    let (got, x) = match conv::to_rs_expr(e) {
        Expression::Array(mut x) => (x.evaluate_in_place(&c), Expression::Array(x)),
        Expression::Object(mut x) => (x.evaluate_in_place(&c), Expression::Object(x)),
        Expression::Traversal(mut x) => (x.evaluate_in_place(&c), Expression::Traversal(x)),
        Expression::FuncCall(mut x) => (x.evaluate_in_place(&c), Expression::FuncCall(x)),
        Expression::Conditional(mut x) => (x.evaluate_in_place(&c), Expression::Conditional(x)),
        Expression::ForExpr(mut x) => (x.evaluate_in_place(&c), Expression::ForExpr(x)),
        Expression::TemplateExpr(mut x) => (x.evaluate_in_place(&c), Expression::TemplateExpr(x)),
        Expression::Operation(mut x) => {
            if r.bool() {
                (x.evaluate_in_place(&c), Expression::Operation(x))
            } else {
                use hcl::expr::Operation;
                match *x {
                    Operation::Unary(mut o) => (o.evaluate_in_place(&c), Expression::from(Operation::Unary(o))),
                    Operation::Binary(mut o) => (o.evaluate_in_place(&c), Expression::from(Operation::Binary(o))),
                }
            }
        }
        _ => return,
    };
    let errs = ev.nested(&mut want);
    check_errors(obs, &src, "part", &got, &errs);
    sameness(obs, &src, "part", &rs(&x), &ne(&want, Nf::Rs));
    take_log();
}

fn place_body(obs: &mut Obs, r: &mut Rng) {
    let mut g = EG::new(r);
    g.fill_env();
    g.wild = *g.g.r.pick(&[0, 0, 4]);
    let b = gen_body(&mut g, 2);
    let env = std::mem::take(&mut g.env);
    let less = lessen(r, &env);
    let n = nb(&b, Nf::Rs);
    let mut part = n.clone();
    let mut ev = Ev::new(&less);
    let want = ev.place_body(&mut part);
    let merged = ev.merged;
    let (src, _) = render_body(r, &b, Mode::Plain);
    let src = describe(&less, &src);
    obs.case(&src, !b.is_empty());
    let (c, full) = (ctx(&less, 0), ctx(&env, 1));
    let x = conv::to_rs_body(&b);
    let mut y = x.clone();
    let got = match r.below(3) {
        0 => y.evaluate_in_place(&c),
        1 => y.0.evaluate_in_place(&c),
        _ => {
            // One by one.
            let mut errs: Vec<hcl::eval::Error> = vec![];
            for s in y.iter_mut() {
                let e = match s {
                    hcl::Structure::Attribute(a) => a.evaluate_in_place(&c),
                    hcl::Structure::Block(b) => b.evaluate_in_place(&c),
                };
                errs.extend(e.err().into_iter().flatten());
            }
            let kinds: Vec<_> = errs.iter().map(|e| e.kind()).collect();
            if kinds.len() != want.len() || !kinds.iter().zip(&want).all(|(a, b)| er_eq(a, b)) {
                obs.fail(&src, format!("structures: errors {kinds:?}, expected {want:?}"));
            }
            match want.is_empty() {
                true => Ok(()),
                false => x.clone().evaluate_in_place(&c),
            }
        }
    };
    check_errors(obs, &src, "body", &got, &want);
    let model = |b: &hcl::Body| nb(&body_of(b).unwrap(), Nf::Rs);
    sameness(obs, &src, "body", &model(&y), &nb(&part, Nf::Rs));
    if want.len() > 1 && part != n {
        obs.feat("partially evaluated body");
    }
    if got.is_ok() {
        match x.evaluate(&c) {
            Ok(v) if merged => {
                if !same_body(&model(&v), &model(&y)) {
                    obs.fail(&src, format!("in place gives {y:?}, evaluation {v:?}"));
                }
            }
            Ok(v) => {
                sameness(obs, &src, "evaluated body", &model(&v), &model(&y));
            }
            Err(e) => obs.fail(&src, format!("in place succeeds, evaluation fails: {e}")),
        }
    }
    let (now, orig) = (y.evaluate(&full), x.evaluate(&full));
    recovered(obs, &src, outcome(now.map(|b| model(&b))), outcome(orig.map(|b| model(&b))), merged, |a, b| {
        if merged { same_body(a, b) } else { a == b }
    });
    take_log();
}

fn place_template(obs: &mut Obs, r: &mut Rng) {
    let mut g = EG::new(r);
    g.fill_env();
    g.wild = *g.g.r.pick(&[0, 0, 4]);
    g.heredocs = false;
    let d = g.g.r.range(1, 4);
    let ts = g.bare(d);
    let env = std::mem::take(&mut g.env);
    let less = lessen(r, &env);
    let n = nt(&ts, Nf::Rs);
    let mut part = n.clone();
    let mut ev = Ev::new(&less);
    let want = ev.place_tmpl(&mut part);
    let merged = ev.merged;
    let src = describe(&less, &conv::raw_template(&ts));
    obs.case(&format!("template {src}"), true);
    let (c, full) = (ctx(&less, 0), ctx(&env, 1));
    let x = conv::to_rs_template(&ts);
    let mut y = x.clone();
    let got = y.evaluate_in_place(&c);
    check_errors(obs, &src, "template", &got, &want);
    let model = |t: &Template| nt(&conv::rs_template(t).unwrap(), Nf::Rs);
    sameness(obs, &src, "template", &model(&y), &nt(&part, Nf::Rs));
    if got.is_ok() {
        obs.feat("template in place");
        let (a, b) = (x.evaluate(&c), y.evaluate(&c));
        // Branches that are not taken and the bodies of loops stay.
        if a != b {
            obs.fail(&src, format!("evaluated in place {b:?}, before {a:?}"));
        }
    }
    recovered(obs, &src, outcome(y.evaluate(&full)), outcome(x.evaluate(&full)), merged, |a, b| merged || a == b);
    take_log();
}

pub fn p17(m: &mut Mon) {
    m.rule = "an expression other than a literal, a body with at least one structure, or a template".into();
    m.assumptions = vec![
        "the reference evaluator is a correct reading of the HCL specification and of the documented deviations of hcl-rs".into(),
    ];
    let n = m.n(200_000);
    m.cases("expressions", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        g.wild = *g.g.r.pick(&[0, 0, 6]);
        let d = g.g.r.range(1, 6);
        let e = g.e(W::Any, d);
        let env = std::mem::take(&mut g.env);
        place_expr(obs, r, &env, &e);
    });
    let n = m.n(20_000);
    m.cases("arbitrary", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        let d = g.g.r.range(1, 4);
        let e = g.g.expr(d);
        let env = std::mem::take(&mut g.env);
        place_expr(obs, r, &env, &e);
    });
    let n = m.n(30_000);
    m.cases("parts", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        g.wild = *g.g.r.pick(&[0, 4]);
        let d = g.g.r.range(1, 5);
        let e = g.e(W::Any, d);
        let env = std::mem::take(&mut g.env);
        place_part(obs, r, &env, &e);
    });
    let n = m.n(60_000);
    m.cases("bodies", n, |obs, r, _| place_body(obs, r));
    let n = m.n(20_000);
    m.cases("templates", n, |obs, r, _| place_template(obs, r));
    for f in [
        "no error",
        "one error",
        "several errors",
        "partially evaluated",
        "partially evaluated body",
        "recovered",
        "completed in place",
        "template in place",
        "error: undefined variable",
        "error: undefined function",
    ] {
        m.require(f, 200);
    }
}


// --- P18 ----------------------------------------------------------------------------------------

/// Renders a template by all routes. `ts` can be written as a quoted template.
fn template_case(obs: &mut Obs, r: &mut Rng, env: &Env, ts: &[T]) {
    let c = ctx(env, 1);
    let n = nt(ts, Nf::Rs);
    let mut ev = Ev::new(env);
    let want = ev.tmpl(&n);
    record(obs, &ev, want.as_ref().err());
    let raw = conv::raw_template(ts);
    let all = describe(env, &raw);
    obs.case(&all, n.iter().any(|t| !matches!(t, T::Lit(_))));
    // Created by the program.
    let t = conv::to_rs_template(&n);
    check(obs, &all, "template", t.evaluate(&c), &want);
    // A bare template.
    let m = mode(r);
    let text = render_template(r, ts, m);
    match Template::from_str(&text) {
        Ok(t) => {
            check(obs, &all, &format!("parsed template {text:?}"), t.evaluate(&c), &want);
        }
        Err(e) => obs.fail(&all, format!("template {text:?} not parsed: {e}")),
    }
    // Quoted.
    let value = Ev::new(env).tmpl_value(&n);
    let q = hcl::expr::TemplateExpr::from(raw.as_str());
    check(obs, &all, "quoted", values(q.evaluate(&c)), &value);
    match Template::from_expr(&q) {
        Ok(t) => {
            check(obs, &all, "template of quoted", t.evaluate(&c), &want);
        }
        Err(e) => obs.fail(&all, format!("no template: {e}")),
    }
    if n.iter().all(|t| matches!(t, T::Lit(_))) {
        obs.feat("literal template");
        return;
    }
    let e = E::Tmpl(ts.to_vec());
    text_routes(obs, r, &all, &c, &e, &value);
}

/// Evaluates a template expression within a document.
fn text_routes(obs: &mut Obs, r: &mut Rng, all: &str, c: &Context, e: &E, want: &R<V>) {
    let m = mode(r);
    let (src, _) = render_expr(r, e, m);
    match src.parse::<Expression>() {
        Ok(x) => {
            check(obs, all, &format!("expression {src}"), values(x.evaluate(c)), want);
        }
        Err(e) => obs.fail(all, format!("expression {src} not parsed: {e}")),
    }
    let m = mode(r);
    let (src, _) = render_body(r, &[S::Attr("x".into(), e.clone())], m);
    match (hcl::eval::from_str::<Value>(&src, c), want) {
        (Ok(v), Ok(w)) => {
            let w = V::Obj(vec![("x".into(), w.clone())]);
            sameness(obs, all, &format!("document {src}"), &V::of(&v), &w);
        }
        (Err(hcl::Error::Eval(e)), Err(w)) if er_eq(e.kind(), w) => {}
        (got, want) => obs.fail(all, format!("document {src}: {got:?}, expected {want:?}")),
    }
    // Written by the library.
    let body = hcl::Body::builder().add_attribute(("x", conv::to_rs_expr(e))).build();
    match hcl::eval::to_string(&body, c) {
        Ok(s) => match (hcl::parse(&s).map(|b| body_of(&b).unwrap()), want) {
            (Ok(b), Ok(w)) => {
                sameness(
                    obs,
                    all,
                    "written document",
                    &strip_keys_b(b),
                    &strip_keys_b(vec![S::Attr("x".into(), w.expr())]),
                );
            }
            (b, w) => obs.fail(all, format!("written document {s}: {b:?}, expected {w:?}")),
        },
        Err(_) if want.is_err() => {}
        Err(e) => obs.fail(all, format!("not written: {e}")),
    }
}

fn heredoc_case(obs: &mut Obs, r: &mut Rng, env: &Env, h: &H) {
    let c = ctx(env, 1);
    let e = E::Heredoc(Box::new(h.clone()));
    let E::Heredoc(n) = ne(&e, Nf::Rs) else { unreachable!() };
    let mut ev = Ev::new(env);
    let want = ev.tmpl_value(&n.body);
    record(obs, &ev, want.as_ref().err());
    let (src, _) = render_expr(r, &e, Mode::Plain);
    let all = describe(env, &src);
    obs.case(&all, !h.body.is_empty());
    obs.feat(match (h.strip, n.body == merge_lits(h.body.clone())) {
        (false, _) => "heredoc",
        (true, true) => "indented heredoc without indent",
        (true, false) => "indented heredoc",
    });
    let x = conv::to_rs_expr(&e);
    check(obs, &all, "heredoc", values(x.evaluate(&c)), &want);
    if let Expression::TemplateExpr(t) = &x {
        match Template::from_expr(t) {
            Ok(t) => {
                check(obs, &all, "template of heredoc", t.evaluate(&c), &Ev::new(env).tmpl(&n.body));
            }
            Err(e) => obs.fail(&all, format!("no template: {e}")),
        }
    }
    text_routes(obs, r, &all, &c, &e, &want);
}

const BLANKS: &[&str] = &[
    "", " ", "  ", "\n", " \n", "\n ", " \n ", "\n\n", " \n \n ", "\t", "\t\n\t", "\r\n", " \r\n ", "\r", "\r ", " \r",
    "\u{a0}", "\u{2003}\n\u{a0}", "a", " a ", "a\n", "\na", "\na\n", " a \n b ", "\r\na\r\n", "\n\u{b}", "\\n", "\u{85}", "\u{2028}", "\u{feff}",
];

/// A small template whose literals are mostly blank, for the strip markers.
fn blank_template(r: &mut Rng, env: &Env) -> Vec<T> {
    fn lits(r: &mut Rng) -> T {
        T::Lit((*r.pick(BLANKS)).to_string())
    }
    fn strip(r: &mut Rng) -> Strip {
        (r.bool(), r.bool())
    }
    fn inner(r: &mut Rng, env: &Env, d: usize) -> Vec<T> {
        let mut v = vec![];
        if r.pct(85) {
            v.push(lits(r));
        }
        for _ in 0..r.below(if d == 0 { 1 } else { 3 }) {
            v.push(seq(r, env, d - 1));
            if r.pct(85) {
                v.push(lits(r));
            }
        }
        merge_lits(v)
    }
    fn seq(r: &mut Rng, env: &Env, d: usize) -> T {
        let var = |r: &mut Rng| E::Var(r.pick(&env.vars).0.clone());
        match r.below(5) {
            0 | 1 => T::Interp(var(r), strip(r)),
            2 | 3 => {
                let els = if r.bool() { Some((strip(r), inner(r, env, d))) } else { None };
                T::If(Box::new(If {
                    cond: E::Bool(r.bool()),
                    s1: strip(r),
                    then: inner(r, env, d),
                    els,
                    s3: strip(r),
                }))
            }
            _ => {
                let n = r.below(4) as u64;
                T::For(Box::new(ForD {
                    key: None,
                    val: "i".into(),
                    coll: E::Arr((0..n).map(|i| E::Num(N::U(i))).collect()),
                    s1: strip(r),
                    body: inner(r, env, d),
                    s2: strip(r),
                }))
            }
        }
    }
    let mut ts = inner(r, env, 3);
    if ts.iter().all(|t| matches!(t, T::Lit(_))) {
        ts.push(seq(r, env, 2));
    }
    ts
}

/// All strip markers of one interpolation or directive between two blank literals.
fn strip_matrix(obs: &mut Obs, r: &mut Rng, i: u64) {
    let b = BLANKS;
    let (x, y) = (b[i as usize / b.len()], b[i as usize % b.len()]);
    let env = Env::default();
    let lit = |s: &str| T::Lit(s.to_string());
    let bits = |n: usize, k: usize| (n >> (2 * k) & 1 == 1, n >> (2 * k + 1) & 1 == 1);
    let mut run = |ts: Vec<T>| template_case(obs, r, &env, &merge_lits(ts));
    for n in 0..4 {
        run(vec![lit(x), T::Interp(E::Num(N::U(1)), bits(n, 0)), lit(y)]);
        run(vec![T::Interp(E::Null, bits(n, 0)), lit(x), T::Interp(E::Bool(true), bits(n, 0)), lit(y)]);
    }
    for n in 0..16 {
        for c in [false, true] {
            run(vec![
                lit(x),
                T::If(Box::new(If {
                    cond: E::Bool(c),
                    s1: bits(n, 0),
                    then: merge_lits(vec![lit(y)]),
                    els: None,
                    s3: bits(n, 1),
                })),
                lit(x),
            ]);
        }
        run(vec![
            lit(x),
            T::For(Box::new(ForD {
                key: None,
                val: "i".into(),
                coll: E::Arr(vec![E::Num(N::U(1)), E::Num(N::U(2))]),
                s1: bits(n, 0),
                body: merge_lits(vec![lit(y), T::Interp(E::Var("i".into()), (false, false)), lit(x)]),
                s2: bits(n, 1),
            })),
            lit(y),
        ]);
    }
    for n in 0..64 {
        run(vec![
            lit(y),
            T::If(Box::new(If {
                cond: E::Bool(n % 2 == 0),
                s1: bits(n, 0),
                then: merge_lits(vec![lit(x)]),
                els: Some((bits(n, 1), merge_lits(vec![lit(y)]))),
                s3: bits(n, 2),
            })),
            lit(x),
        ]);
    }
}

pub fn p18(m: &mut Mon) {
    m.rule = "a template with at least one interpolation or directive, or a heredoc that is not empty".into();
    m.assumptions = vec![
        "the reference renderer is a correct reading of the template language as documented by hcl-rs".into(),
    ];
    let b = BLANKS.len() as u64;
    m.cases("strip markers", b * b, strip_matrix);
    let n = m.n(20_000);
    m.cases("blanks", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        let env = std::mem::take(&mut g.env);
        let ts = blank_template(r, &env);
        template_case(obs, r, &env, &ts);
    });
    let n = m.n(40_000);
    m.cases("templates", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        g.wild = *g.g.r.pick(&[0, 0, 3]);
        g.heredocs = g.g.r.pct(10);
        let d = g.g.r.range(1, 5);
        let ts = g.bare(d);
        let env = std::mem::take(&mut g.env);
        template_case(obs, r, &env, &ts);
    });
    let n = m.n(40_000);
    m.cases("heredocs", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        g.wild = *g.g.r.pick(&[0, 0, 3]);
        let d = g.g.r.range(1, 4);
        // Half of them from the other generator, which knows more about indents.
        let h = if g.g.r.bool() {
            g.heredoc(d)
        } else {
            let mut h = g.g.heredoc(1);
            // Mostly with expressions that can be evaluated.
            fn known(ts: &mut [T], g: &mut EG) {
                for t in ts {
                    match t {
                        T::Lit(_) => {}
                        T::Interp(e, _) => *e = g.e(W::Any, 1),
                        T::If(d) => {
                            d.cond = g.e(W::Bool, 1);
                            known(&mut d.then, g);
                            if let Some((_, e)) = &mut d.els {
                                known(e, g);
                            }
                        }
                        T::For(d) => {
                            d.coll = g.e(W::Arr, 1);
                            known(&mut d.body, g);
                        }
                    }
                }
            }
            g.heredocs = false;
            known(&mut h.body, &mut g);
            h
        };
        let env = std::mem::take(&mut g.env);
        heredoc_case(obs, r, &env, &h);
    });
    for f in [
        "stripped start",
        "stripped end",
        "stripped inside a directive",
        "interpolated string",
        "interpolated scalar",
        "interpolated collection",
        "if directive",
        "else directive",
        "for directive element",
        "unwrapped template",
        "heredoc",
        "indented heredoc",
        "indented heredoc without indent",
        "literal template",
        "evaluates",
        "error: unexpected type",
    ] {
        m.require(f, 200);
    }
}


// --- P19 ----------------------------------------------------------------------------------------

/// All types up to a depth.
fn types(d: usize) -> Vec<Pt> {
    let mut v = vec![Pt::Any, Pt::Bool, Pt::Num, Pt::Str];
    if d > 0 {
        for t in types(d - 1) {
            v.push(Pt::Arr(Box::new(t.clone())));
            v.push(Pt::Obj(Box::new(t.clone())));
            v.push(Pt::Nullable(Box::new(t)));
        }
        v.push(Pt::OneOf(vec![]));
        v.push(Pt::OneOf(vec![Pt::Bool]));
        v.push(Pt::OneOf(vec![Pt::Num, Pt::Str]));
        v.push(Pt::OneOf(vec![Pt::Str, Pt::Nullable(Box::new(Pt::Bool)), Pt::Arr(Box::new(Pt::Num))]));
    }
    v
}

/// One call of a declared function.
fn one_call(obs: &mut Obs, env: &Env, how: usize, c: &Call) {
    let mut ev = Ev::new(env);
    let want = ev.call(c);
    record(obs, &ev, want.as_ref().err());
    obs.feat(if ev.log.is_empty() { "does not run" } else { "runs" });
    let e = E::Call(Box::new(c.clone()));
    let src = conv::to_rs_expr(&e).to_string();
    let all = describe(env, &src);
    obs.case(&all, true);
    let cx = ctx(env, how);
    take_log();
    let Expression::FuncCall(x) = conv::to_rs_expr(&e) else { unreachable!() };
    check(obs, &all, "call", values(x.evaluate(&cx)), &want);
    check_log(obs, &all, "call", &ev.log);
    check(obs, &all, "call expression", values(Expression::FuncCall(x.clone()).evaluate(&cx)), &want);
    check_log(obs, &all, "call expression", &ev.log);
    // In place, arguments are evaluated first.
    let mut y = Expression::FuncCall(x);
    let r = y.evaluate_in_place(&cx);
    match (&r, &want) {
        (Ok(()), Ok(v)) if V::of(&Value::from(y.clone())) == *v => {}
        (Err(_), Err(_)) => {}
        _ => obs.fail(&all, format!("in place {r:?} with {y:?}, expected {want:?}")),
    }
    if want.is_ok() {
        check_log(obs, &all, "call in place", &ev.log);
    }
    take_log();
}

fn signatures(obs: &mut Obs, r: &mut Rng) {
    let mut g = EG::new(r);
    let mut f = g.func();
    let long = g.g.r.one_in(15);
    let n = if long && g.g.r.bool() { g.g.r.below(40) } else { g.g.r.below(4) };
    f.params = (0..n).map(|_| g.pt(if n > 4 { 1 } else { 3 })).collect();
    f.variadic = if g.g.r.bool() { Some(g.pt(2)) } else { None };
    let mut vals: Vec<V> = f.params.iter().map(|p| g.val_of(p, 3)).collect();
    if let Some(p) = &f.variadic {
        let n = if long { g.g.r.range(4, 40) } else { g.g.r.below(4) };
        for _ in 0..n {
            vals.push(g.val_of(p, if long { 1 } else { 2 }));
        }
    }
    if vals.len() > 8 {
        obs.feat("many arguments");
    }
    // Not quite right.
    match g.g.r.below(12) {
        0 | 1 => {
            vals.pop();
        }
        2 => {
            let v = g.val(W::Any, 2);
            vals.push(v);
        }
        3 | 4 if !vals.is_empty() => {
            let i = g.g.r.below(vals.len());
            vals[i] = g.val(W::Any, 2);
        }
        5 if !vals.is_empty() => {
            // Wrong somewhere inside.
            let i = g.g.r.below(vals.len());
            let w = g.val(W::Any, 1);
            match &mut vals[i] {
                V::Arr(a) => a.push(w),
                V::Obj(o) => o.push(("zz".into(), w)),
                v => *v = V::Arr(vec![v.clone()]),
            }
        }
        6 => vals.reverse(),
        _ => {}
    }
    let mut env = Env::default();
    // Arguments are literals, variables or expressions.
    let mut arg = |g: &mut EG, v: V| match g.g.r.below(4) {
        0 => {
            let n = format!("v{}", env.vars.len());
            env.vars.push((n.clone(), v));
            E::Var(n)
        }
        1 => E::Cond(Box::new((E::Bool(true), v.expr(), E::Null))),
        2 => E::Paren(Box::new(v.expr())),
        _ => v.expr(),
    };
    let mut expand = false;
    let mut args: Vec<E>;
    match g.g.r.below(8) {
        0..=2 => {
            expand = true;
            let rest = vals.split_off(g.g.r.below(vals.len() + 1));
            obs.feat(match rest.len() {
                0 => "expanded empty list",
                1 => "expanded list of one",
                _ => "expanded list",
            });
            args = vals.into_iter().map(|v| arg(&mut g, v)).collect();
            args.push(arg(&mut g, V::Arr(rest)));
        }
        3 if !vals.is_empty() => {
            // Whatever the final argument is.
            expand = true;
            args = vals.into_iter().map(|v| arg(&mut g, v)).collect();
        }
        _ => args = vals.into_iter().map(|v| arg(&mut g, v)).collect(),
    }
    if g.g.r.pct(3) {
        args.insert(0, E::Var("undefined".into()));
    }
    let ns: Vec<Id> = (0..g.g.r.below(3)).map(|i| format!("n{i}")).collect();
    let mut full: Vec<&str> = ns.iter().map(String::as_str).collect();
    full.push("fun");
    env.funcs.push((full.join("::"), f));
    // Functions of similar names.
    for n in ["fun", "n0::fun", "n1::fun", "n0::n1::fun", "n0::n1", "n0"] {
        if g.g.r.bool() && n != env.funcs[0].0 {
            env.funcs.push((n.into(), g.func()));
        }
    }
    let call = Call {
        ns,
        name: "fun".into(),
        args,
        expand,
    };
    let how = r.below(3);
    one_call(obs, &env, how, &call);
}

pub fn p19(m: &mut Mon) {
    m.rule = "a call of a declared function".into();
    m.assumptions = vec![
        "a value has a parameter type as documented for `ParamType`".into(),
    ];
    let pool = pool();
    let ts = types(2);
    m.cases("types", ts.len() as u64, |obs, _, i| {
        let t = &ts[i as usize];
        if param(t).to_string() != param_name(t) {
            obs.fail(format!("{t:?}"), format!("type is displayed as {}, expected {}", param(t), param_name(t)));
        }
        for v in &pool {
            for variadic in [false, true] {
                let f = Func {
                    params: if variadic { vec![Pt::Any] } else { vec![t.clone()] },
                    variadic: variadic.then(|| t.clone()),
                    what: 6,
                };
                let env = Env {
                    vars: vec![("v".into(), v.clone())],
                    funcs: vec![("f".into(), f)],
                };
                let mut args = vec![E::Var("v".into())];
                if variadic {
                    args.insert(0, E::Null);
                }
                let mut c = Call {
                    ns: vec![],
                    name: "f".into(),
                    args,
                    expand: false,
                };
                one_call(obs, &env, 1, &c);
                c.args = vec![E::Arr(c.args)];
                c.expand = true;
                one_call(obs, &env, 1, &c);
            }
        }
    });
    // Collections with many elements of which one has another type.
    let n = m.n(20_000);
    m.cases("large collections", n, |obs, r, _| {
        let t = r.pick(&ts).clone();
        let (obj, n) = (r.bool(), r.range(10, 120));
        let mut g = EG::new(r);
        let mut items: Vec<V> = (0..n).map(|_| g.val_of(&t, 1)).collect();
        if r.pct(70) {
            let i = r.below(n);
            items[i] = r.pick(&pool).clone();
        }
        let (v, t) = if obj {
            (V::Obj(items.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect()), Pt::Obj(Box::new(t)))
        } else {
            (V::Arr(items), Pt::Arr(Box::new(t)))
        };
        let variadic = r.one_in(4);
        let t = match r.below(4) {
            0 => Pt::Nullable(Box::new(t)),
            1 => Pt::OneOf(vec![Pt::Bool, t]),
            _ => t,
        };
        let f = Func { params: if variadic { vec![] } else { vec![t.clone()] }, variadic: variadic.then_some(t), what: 6 };
        let env = Env { vars: vec![("v".into(), v)], funcs: vec![("f".into(), f)] };
        let c = Call { ns: vec![], name: "f".into(), args: vec![E::Var("v".into())], expand: false };
        one_call(obs, &env, 1, &c);
    });
    let n = m.n(300_000);
    m.cases("signatures", n, |obs, r, _| signatures(obs, r));
    let n = m.n(80_000);
    m.cases("programs", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.fill_env();
        while g.env.funcs.len() < 3 {
            let f = g.func();
            let n = format!("fn{}", g.env.funcs.len());
            g.env.funcs.push((n, f));
        }
        g.wild = *g.g.r.pick(&[0, 0, 5]);
        let i = g.g.r.below(g.env.funcs.len());
        let n = g.env.funcs[i].0.clone();
        let f = g.env.func(&n).cloned();
        let d = g.g.r.range(1, 5);
        let e = g.call_of(&n, f, W::Any, d);
        let env = std::mem::take(&mut g.env);
        expr_case(obs, r, &env, &e);
    });
    for f in [
        "runs",
        "does not run",
        "variadic call",
        "positional call",
        "expanded argument",
        "expanded empty list",
        "expanded list of one",
        "expanded list",
        "many arguments",
        "error: of the function",
        "error: number of arguments",
        "error: type of argument",
        "error: unexpected type",
    ] {
        m.require(f, 200);
    }
}

// --- P26 ----------------------------------------------------------------------------------------

const FEW: &[&str] = &["a", "b"];

/// A sequence of declarations and evaluations.
fn history(obs: &mut Obs, r: &mut Rng) {
    let mut g = EG::new(r);
    g.names = if g.g.r.bool() { FEW } else { g.names };
    g.wild = 5;
    let mut env = Env::default();
    let mut c: Context<'static> = Context::new();
    // Some contexts have many names before anything else happens.
    if g.g.r.one_in(12) {
        obs.feat("many declarations");
        for i in 0..g.g.r.range(10, 70) {
            if g.g.r.bool() {
                let n = format!("m{i}");
                c.declare_var(ident(&n), V::Num(N::U(i as u64)).to());
                env.vars.push((n, V::Num(N::U(i as u64))));
            } else {
                let n = format!("m{i}::f");
                let f = g.func();
                let how = g.g.r.below(3);
                c.declare_func(fname(&n), def(&f, how));
                env.funcs.push((n, f));
            }
        }
    }
    // Snapshots, with what they must keep on giving.
    let mut kept: Vec<(Context<'static>, Env)> = vec![];
    // Expressions, with the debug output of when they were made.
    let mut exprs: Vec<(E, Expression, String)> = vec![];
    let mut steps = String::new();
    for _ in 0..g.g.r.range(3, 14) {
        match g.g.r.below(10) {
            0..=2 => {
                let n = g.name();
                let v = g.val(W::Any, 2);
                steps.push_str(&format!("var {n} = {}\n", v.to()));
                if env.vars.iter().any(|(x, _)| *x == n) {
                    obs.feat("redeclared variable");
                }
                c.declare_var(ident(&n), v.to());
                env.vars.push((n, v));
            }
            3 => {
                // A function of the same name as a variable.
                let n = if g.g.r.bool() { g.name() } else { (*g.g.r.pick(&["f", "a::b", "b::a"])).to_string() };
                let f = g.func();
                steps.push_str(&format!("func {n} = {f:?}\n"));
                if env.funcs.iter().any(|(x, _)| *x == n) {
                    obs.feat("redeclared function");
                }
                let how = g.g.r.below(3);
                c.declare_func(fname(&n), def(&f, how));
                env.funcs.push((n, f));
            }
            4 => kept.push((c.clone(), env.clone())),
            5 => {
                g.env = env.clone();
                g.g.budget = 25;
                let d = g.g.r.range(1, 5);
                let e = g.e(W::Any, d);
                let x = conv::to_rs_expr(&e);
                let s = format!("{x:?}");
                exprs.push((e, x, s));
            }
            6 if !exprs.is_empty() => {
                // Something that leaves the context alone, whatever it does.
                let i = g.g.r.below(exprs.len());
                let mut x = exprs[i].1.clone();
                let body = hcl::Body::builder().add_attribute(("a", x.clone())).build();
                let _ = x.evaluate_in_place(&c);
                let _ = hcl::eval::to_string(&body, &c);
                let _ = hcl::eval::from_str::<Value>(&hcl::to_string(&body).unwrap(), &c);
                take_log();
                steps.push_str("used\n");
                obs.feat("used in other ways");
            }
            _ => {
                if exprs.is_empty() {
                    continue;
                }
                let i = g.g.r.below(exprs.len());
                let (e, x, s) = &exprs[i];
                let k = g.g.r.below(kept.len() + 1);
                let (c, env) = if k == kept.len() { (&c, &env) } else { (&kept[k].0, &kept[k].1) };
                let n = ne(e, Nf::Rs);
                steps.push_str(&format!("evaluate {x}\n"));
                let mut ev = Ev::new(env);
                let want = ev.eval(&n);
                record(obs, &ev, want.as_ref().err());
                take_log();
                for _ in 0..2 {
                    check(obs, &steps, "evaluation", values(x.evaluate(c)), &want);
                    check_log(obs, &steps, "evaluation", &ev.log);
                }
                sameness(obs, &steps, "expression after evaluation", &format!("{x:?}"), s);
                obs.case(&steps, true);
            }
        }
        // Every name resolves as declared.
        if g.g.r.pct(30) {
            kept.push((c.clone(), env.clone()));
            for (c, env) in &kept {
                for n in ["a", "b", "k", "v", "x", "foo", "item"] {
                    let e = Expression::from(hcl::expr::Variable::new(n).unwrap());
                    let want = env.var(n).cloned().ok_or_else(|| Er::UndefVar(n.to_string()));
                    check(obs, &steps, "variable", values(e.evaluate(c)), &want);
                    obs.feat(if want.is_ok() { "declared" } else { "not declared" });
                }
            }
            kept.pop();
        }
    }
    take_log();
}

/// Nested loops over the same few names.
fn scopes(obs: &mut Obs, r: &mut Rng) {
    let mut g = EG::new(r);
    g.names = FEW;
    g.wild = 2;
    for n in FEW {
        if g.g.r.pct(70) {
            let v = g.val(W::Any, 2);
            g.env.vars.push((n.to_string(), v));
        }
    }
    /// A loop whose parts show which variables are visible in them.
    fn nest(g: &mut EG, d: usize) -> E {
        let var = |g: &mut EG| E::Var(g.name());
        let probe = |g: &mut EG| {
            let mut v = vec![var(g)];
            if g.g.r.bool() {
                v.push(var(g));
            }
            v
        };
        let inner = |g: &mut EG| {
            let mut v = probe(g);
            if d > 0 {
                let e = nest(g, d - 1);
                let at = g.g.r.below(v.len() + 1);
                v.insert(at, e);
            }
            v
        };
        let coll = match g.g.r.below(4) {
            0 => E::Arr(vec![var(g), var(g)]),
            1 => E::Obj(vec![(K::Id("p".into()), var(g)), (K::Id("q".into()), var(g))]),
            2 => E::Arr(inner(g)),
            _ => E::Arr(vec![E::Num(N::U(1)), E::Num(N::U(2))]),
        };
        let key = if g.g.r.bool() { Some(g.name()) } else { None };
        let val = g.name();
        let cond = if g.g.r.pct(30) {
            Some(E::Bin(Box::new(var(g)), BinOp::Ne, Box::new(E::Num(N::U(1)))))
        } else {
            None
        };
        match g.g.r.below(4) {
            0 => {
                let show = |g: &mut EG| {
                    let w = var(g);
                    T::Interp(E::Arr(vec![w]), (false, false))
                };
                let mut body = vec![show(g)];
                for e in inner(g) {
                    body.push(T::Interp(E::Arr(vec![e]), (false, false)));
                }
                E::Tmpl(vec![
                    show(g),
                    T::For(Box::new(ForD {
                        key,
                        val,
                        coll,
                        s1: (false, false),
                        body,
                        s2: (false, false),
                    })),
                    show(g),
                ])
            }
            1 => {
                let w = var(g);
                E::For(Box::new(For {
                    key,
                    val,
                    coll,
                    kexpr: Some(E::Tmpl(vec![T::Lit("k".into()), T::Interp(E::Arr(vec![w]), (false, false))])),
                    vexpr: E::Arr(inner(g)),
                    group: true,
                    cond,
                }))
            }
            _ => E::For(Box::new(For {
                key,
                val,
                coll,
                kexpr: None,
                vexpr: E::Arr(inner(g)),
                group: false,
                cond,
            })),
        }
    }
    let d = g.g.r.below(3);
    let (x, y) = (g.name(), g.name());
    // Before, within and behind the loops.
    let e = E::Arr(vec![E::Var(x.clone()), nest(&mut g, d), E::Var(y), nest(&mut g, 0), E::Var(x)]);
    let env = std::mem::take(&mut g.env);
    expr_case(obs, r, &env, &e);
    place_expr(obs, r, &env, &e);
}

pub fn p26(m: &mut Mon) {
    m.rule = "an evaluation in a history of declarations, or an expression with nested loops".into();
    m.assumptions = vec![
        "child contexts are only created by the library, for loops".into(),
    ];
    let n = m.n(80_000);
    m.cases("scopes", n, |obs, r, _| scopes(obs, r));
    let n = m.n(80_000);
    m.cases("history", n, |obs, r, _| history(obs, r));
    let n = m.n(80_000);
    m.cases("programs", n, |obs, r, _| {
        let mut g = EG::new(r);
        g.names = FEW;
        g.wild = 0;
        g.fill_env();
        let d = g.g.r.range(3, 6);
        let obj = g.g.r.bool();
        let e = E::For(Box::new(g.for_(obj, d)));
        let env = std::mem::take(&mut g.env);
        expr_case(obs, r, &env, &e);
    });
    for f in [
        "loop variable shadows",
        "redeclared variable",
        "redeclared function",
        "used in other ways",
        "many declarations",
        "declared",
        "not declared",
        "error: undefined variable",
        "evaluates",
        "recovered",
    ] {
        m.require(f, 200);
    }
}

/// Forgets the calls that were recorded on this thread.
pub fn reset() {
    take_log();
    BAD.with(|b| *b.borrow_mut() = None);
}
