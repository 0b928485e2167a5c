//! P25: histories and concurrency.

use crate::conv;
use crate::gen::G;
use crate::p_conv::rs_opts;
use crate::p_parse::first_diff;
use crate::rng::Rng;
use crate::run::{guard, Mon, Obs};
use crate::work::{self, KINDS};
use hcl::eval::{Context, Evaluate, FuncArgs, FuncDef};
use hcl::Expression;
use serde::de::Deserializer;
use serde::ser::Serializer;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::sync::Barrier;

// --- actions ------------------------------------------------------------------------------------

/// What happens inside of a call of the crates, in code of the user.
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Nothing,
    /// A work item runs.
    Work(usize, u64),
    /// A hooked call runs, which has hooks itself.
    Nested(u64),
    /// The call fails, maybe after work was done.
    Fail,
    /// The code panics.
    Panic,
    /// Several actions.
    All(Vec<Act>),
}

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static ACT: RefCell<Act> = const { RefCell::new(Act::Nothing) };
}

fn note(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}

/// The action; everything it notes becomes one note.
fn act(a: &Act) -> Result<(), String> {
    if *a == Act::Nothing {
        return Ok(());
    }
    let old = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let r = guard(|| perform_act(a));
    let inner = LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), old));
    note(format!("{} => {r:?}", inner.join("\n")));
    match r {
        Ok(r) => r,
        Err(p) => panic!("{p}"),
    }
}

fn perform_act(a: &Act) -> Result<(), String> {
    match a {
        Act::Nothing => Ok(()),
        Act::Work(k, seed) => {
            let old = work::FOREIGN.replace(false);
            let o = work::run(*k, &mut Rng::new(*seed));
            work::FOREIGN.set(old);
            note(o.text);
            Ok(())
        }
        Act::Nested(seed) => {
            let old = ACT.with(|a| a.replace(Act::Nothing));
            let r = guard(|| hooked(&mut Rng::new(*seed), true, 0));
            ACT.with(|a| *a.borrow_mut() = old);
            match r {
                Ok((_, t)) => note(t),
                Err(_) => note("panicked".into()),
            }
            Ok(())
        }
        Act::Fail => Err("the action fails".into()),
        Act::Panic => panic!("the action panics"),
        Act::All(v) => v.iter().try_for_each(perform_act),
    }
}

fn gen_act(r: &mut Rng, depth: usize) -> Act {
    match r.below(10) {
        0 => Act::Nothing,
        1 => Act::Fail,
        2 => Act::Panic,
        3 if depth > 0 => {
            let n = r.range(1, 3);
            Act::All((0..n).map(|_| gen_act(r, depth - 1)).collect())
        }
        4 if depth > 0 => Act::Nested(r.u64()),
        _ => Act::Work(*r.pick(&[1, 3, 4, 4, 5, 6, 6, 6, 7]), r.u64()),
    }
}

// --- types with hooks ---------------------------------------------------------------------------

/// Serialized as what it contains; acts before and after.
#[derive(Debug, Clone)]
struct Hook<T> {
    before: Act,
    x: T,
    after: Act,
}

impl<T: Serialize> Serialize for Hook<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        act(&self.before).map_err(serde::ser::Error::custom)?;
        let r = self.x.serialize(s);
        act(&self.after).map_err(serde::ser::Error::custom)?;
        r
    }
}

#[derive(Serialize, Clone)]
struct Inner<A, E> {
    first: A,
    second: E,
}

/// User data: `H` is either an expression or an expression with hooks.
#[derive(Serialize)]
struct Data<H: Serialize, B: Serialize> {
    one: Expression,
    hook: H,
    list: Vec<H>,
    opt: Option<H>,
    map: BTreeMap<String, H>,
    inner: Inner<Expression, H>,
    block: hcl::ser::Block<Inner<H, Expression>>,
    labeled: hcl::ser::LabeledBlock<BTreeMap<String, Inner<H, Option<H>>>>,
    #[serde(serialize_with = "hcl::ser::block")]
    body: B,
    #[serde(flatten)]
    rest: BTreeMap<String, H>,
    template: hcl::TemplateExpr,
    last: Expression,
}

impl<H: Serialize + Clone, B: Serialize> Data<H, B> {
    fn new(es: &[Expression], mut h: impl FnMut(&Expression) -> H, body: B) -> Self {
        let mut e = es.iter().cycle();
        let mut n = || e.next().unwrap();
        Data {
            one: n().clone(),
            hook: h(n()),
            list: vec![h(n()), h(n())],
            opt: Some(h(n())),
            map: BTreeMap::from([("a b".to_string(), h(n())), ("c".to_string(), h(n()))]),
            inner: Inner { first: n().clone(), second: h(n()) },
            block: hcl::ser::Block::new(Inner { first: h(n()), second: n().clone() }),
            labeled: hcl::ser::LabeledBlock::new(BTreeMap::from([
                ("x".to_string(), Inner { first: h(n()), second: None }),
                ("y".to_string(), Inner { first: h(n()), second: Some(h(n())) }),
            ])),
            body,
            rest: BTreeMap::from([("rest1".to_string(), h(n())), ("rest2".to_string(), h(n()))]),
            template: hcl::TemplateExpr::from("a${b}"),
            last: n().clone(),
        }
    }
}

/// Reads anything and acts.
#[derive(Debug, PartialEq)]
struct Read<T>(T);

impl<'de, T: Deserialize<'de>> Deserialize<'de> for Read<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let a = ACT.with(|a| a.borrow().clone());
        act(&a).map_err(serde::de::Error::custom)?;
        let x = T::deserialize(d)?;
        act(&a).map_err(serde::de::Error::custom)?;
        Ok(Read(x))
    }
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Target<H> {
    one: Expression,
    hook: H,
    list: Vec<H>,
    opt: Option<H>,
    map: BTreeMap<String, H>,
    last: Expression,
}

/// A writer that acts.
struct Writer {
    at: usize,
    n: usize,
    act: Act,
    text: Vec<u8>,
}

impl io::Write for Writer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n == self.at {
            act(&self.act).map_err(io::Error::other)?;
        }
        self.text.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn function(args: FuncArgs) -> Result<hcl::Value, String> {
    let a = ACT.with(|a| a.borrow().clone());
    act(&a)?;
    Ok(args.first().cloned().unwrap_or(hcl::Value::Null))
}

/// A call with hooks. With `acting` unset, the actions do not happen. Returns what the call is and
/// what was observed.
fn hooked(r: &mut Rng, acting: bool, depth: usize) -> (String, String) {
    // The actions are chosen before, so that the choices are always the same ones.
    let acts: Vec<Act> = (0..4).map(|_| gen_act(r, depth)).collect();
    let density = *r.pick(&[1, 3, 12]);
    let how = r.below(6);
    let mut g = G::new(r, rs_opts());
    g.budget = 12;
    let es: Vec<Expression> = (0..4).map(|_| conv::to_rs_expr(&g.expr(2))).collect();
    let body = conv::to_rs_body(&g.body(1));
    let places: Vec<usize> = (0..30).map(|_| g.r.below(4 * density)).collect();
    let pos = g.r.range(1, 12);
    let mut i = 0;
    let mut hook = |e: &Expression| {
        let mut a = || {
            i += 1;
            let a = acts.get(places[i % places.len()]).cloned().unwrap_or(Act::Nothing);
            if acting {
                a
            } else {
                Act::Nothing
            }
        };
        Hook { before: a(), x: e.clone(), after: a() }
    };
    let hook_act = if acting { acts[0].clone() } else { Act::Nothing };
    let name = format!("{how}: {acts:?} in {es:?}");
    let catch = |f: &mut dyn FnMut() -> String| match guard(f) {
        Ok(s) => s,
        Err(p) if p.contains("the action panics") => "the action panics".into(),
        Err(p) => format!("panicked: {p}"),
    };
    let text = match how {
        0 | 1 => {
            let data = Data::new(&es, &mut hook, Hook { before: hook_act.clone(), x: body.clone(), after: Act::Nothing });
            catch(&mut || match how {
                0 => format!("{:?}", hcl::to_string(&data).map_err(|e| e.to_string())),
                _ => format!("{:?}", hcl::Body::from_serializable(&data).map_err(|e| e.to_string())),
            })
        }
        2 => {
            let data = (hook(&es[0]), Inner { first: hook(&es[1]), second: hook(&es[2]) });
            catch(&mut || match density {
                1 => format!("{:?}", Expression::from_serializable(&data).map_err(|e| e.to_string())),
                _ => format!("{:?}", hcl::to_value(&data).map_err(|e| e.to_string())),
            })
        }
        3 => {
            let b = hcl::Body::builder()
                .add_attribute(("one", es[0].clone()))
                .add_attribute(("hook", es[1].clone()))
                .add_attribute(("list", vec![es[2].clone(), es[3].clone()]))
                .add_attribute(("map", Expression::Object([("k".into(), es[1].clone())].into_iter().collect())))
                .add_attribute(("opt", es[3].clone()))
                .add_attribute(("last", es[2].clone()))
                .build();
            let doc = hcl::format::to_string(&b).expect("formatted");
            let old = ACT.with(|a| a.replace(hook_act));
            let t = catch(&mut || match density {
                1 => format!("{:?}", hcl::from_str::<Target<Read<Expression>>>(&doc).map_err(|e| e.to_string())),
                3 => format!("{:?}", hcl::from_body::<BTreeMap<String, Read<Expression>>>(b.clone()).map_err(|e| e.to_string())),
                _ => format!("{:?}", hcl::from_str::<Target<Read<hcl::Value>>>(&doc).map_err(|e| e.to_string())),
            });
            ACT.with(|a| *a.borrow_mut() = old);
            t
        }
        4 => {
            let mut w = Writer { at: pos, n: 0, act: hook_act, text: vec![] };
            let t = catch(&mut || match density {
                1 => format!("{:?}", hcl::to_writer(&mut w, &body).map_err(|e| e.to_string())),
                3 => format!("{:?}", hcl::format::to_writer(&mut w, &body).map_err(|e| e.to_string())),
                _ => format!("{:?}", hcl::ser::Serializer::new(&mut w).serialize(&Data::new(&es, Clone::clone, ())).map_err(|e| e.to_string())),
            });
            format!("{t} {}", String::from_utf8_lossy(&w.text))
        }
        _ => {
            let mut c = Context::new();
            c.declare_var("x", 1);
            c.declare_func("h", FuncDef::builder().variadic_param(hcl::eval::ParamType::Any).build(function));
            let old = ACT.with(|a| a.replace(hook_act));
            let src = format!("[for k, v in [h(1, x), h([x])] : {{ \"${{k}}\" = h(v), y = {} }}]", es[0]);
            let t = catch(&mut || match src.parse::<Expression>() {
                Ok(e) => match density {
                    1 => format!("{:?}", e.evaluate(&c).map_err(|e| e.to_string())),
                    3 => {
                        let mut e = e.clone();
                        let r = e.evaluate_in_place(&c).map_err(|e| e.to_string());
                        format!("{r:?} {e:?}")
                    }
                    _ => format!("{:?}", hcl::eval::from_str::<hcl::Value>(&format!("a = {src}\n"), &c).map_err(|e| e.to_string())),
                },
                Err(e) => e.to_string(),
            });
            ACT.with(|a| *a.borrow_mut() = old);
            t
        }
    };
    (name, text)
}

// --- histories ----------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Step {
    Work(usize, u64),
    Hooked(u64),
}

/// Input, result and the log of the actions.
type Done = (String, String, Vec<String>);

fn perform(s: &Step) -> Done {
    LOG.with(|l| l.borrow_mut().clear());
    let (k, t) = match s {
        Step::Work(k, seed) => {
            let o = work::run(*k, &mut Rng::new(*seed));
            (o.key, o.text)
        }
        Step::Hooked(seed) => hooked(&mut Rng::new(*seed), true, 1),
    };
    // A panic leaves it as it was.
    work::FOREIGN.set(true);
    ACT.with(|a| *a.borrow_mut() = Act::Nothing);
    (k, t, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().expect("guarded"))
}

fn placeholder(obs: &mut Obs, key: &str, text: &str) {
    for p in ["$hcl::", "\\0$hcl", "\0$hcl", "u0000$hcl"] {
        if text.contains(p) && !key.contains(p) {
            obs.fail(key, format!("a placeholder in the output: {text}"));
        }
    }
}

fn same(obs: &mut Obs, key: &str, what: &str, got: &Done, want: &Done) {
    if got.0 != want.0 {
        obs.fail(key, format!("{what}: other input {}", first_diff(&got.0, &want.0)));
    } else if got.1 != want.1 {
        obs.fail(key, format!("{what}: {}", first_diff(&got.1, &want.1)));
    } else if got.2 != want.2 {
        obs.fail(key, format!("{what}: calls in user code: {}", first_diff(&got.2.join("\n"), &want.2.join("\n"))));
    }
}

fn gen_step(r: &mut Rng) -> Step {
    if r.pct(60) {
        Step::Hooked(r.u64())
    } else {
        Step::Work(r.below(KINDS.len()), r.u64())
    }
}

fn fails(a: &Act) -> bool {
    match a {
        Act::Fail | Act::Panic => true,
        Act::All(v) => v.iter().any(fails),
        _ => false,
    }
}

/// What the actions of a hooked call give when they are no part of a call.
fn free(a: &Act) -> Vec<String> {
    fresh(|| {
        let _ = guard(|| act(a));
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
    })
}

fn histories(obs: &mut Obs, r: &mut Rng) {
    let n = r.range(2, 7);
    let steps: Vec<Step> = (0..n).map(|_| gen_step(r)).collect();
    let want: Vec<Done> = steps.iter().map(|s| fresh(|| perform(s))).collect();
    let got: Vec<Done> = fresh(|| steps.iter().map(perform).collect());
    let key = format!("{steps:?}");
    obs.case(&key, true);
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let key = format!("step {i} of {key}\n{}", w.0);
        same(obs, &key, "after other calls the result differs", g, w);
        placeholder(obs, &w.0, &w.1);
        for l in &w.2 {
            placeholder(obs, &w.0, l);
        }
        obs.feat("steps");
        if w.1.contains("the action panics") {
            obs.feat("panicking calls");
        } else if w.1.contains("the action fails") {
            obs.feat("failing calls");
        } else if !w.2.is_empty() {
            obs.feat("calls with calls inside");
        }
        obs.feat_n("calls inside", w.2.len() as u64);
    }
    // The worker thread has seen many histories.
    let i = r.below(n);
    let g = perform(&steps[i]);
    same(obs, &format!("{key}\n{}", want[i].0), "on a long running thread the result differs", &g, &want[i]);
}

/// Hooks change nothing, for the outer and for the inner calls.
fn transparent(obs: &mut Obs, r: &mut Rng) {
    let seed = r.u64();
    let (key, plain) = fresh(|| hooked(&mut Rng::new(seed), false, 1));
    let (_, with, log) = fresh(|| perform(&Step::Hooked(seed)));
    obs.case(&key, true);
    placeholder(obs, &key, &with);
    let mut acts: Vec<Act> = {
        let mut r = Rng::new(seed);
        (0..4).map(|_| gen_act(&mut r, 1)).collect()
    };
    if !with.contains("the action fails") && !with.contains("the action panics") {
        if with != plain {
            obs.fail(&key, format!("calls inside change the result: {}", first_diff(&with, &plain)));
        }
        obs.feat("same result with calls inside");
    } else {
        obs.feat("aborted call");
    }
    // The results of the inner calls are among the results of the free actions.
    acts.retain(|a| *a != Act::Nothing);
    let all: Vec<String> = acts.iter().flat_map(free).collect();
    for l in &log {
        if !all.contains(l) {
            let near = all.iter().max_by_key(|f| f.bytes().zip(l.bytes()).take_while(|(a, b)| a == b).count());
            obs.fail(&key, format!("a call inside of a call gives another result: {}", first_diff(l, near.map_or("", |s| s))));
            return;
        }
        obs.feat("same inner result");
    }
    if acts.iter().any(fails) {
        obs.feat("with failing actions");
    }
}

// --- threads ------------------------------------------------------------------------------------

fn threads(obs: &mut Obs, r: &mut Rng, n: usize) {
    let steps: Vec<Vec<Step>> = {
        let common: Vec<Step> = (0..6).map(|_| gen_step(r)).collect();
        (0..n)
            .map(|i| {
                let mut v = common.clone();
                if i % 2 == 1 {
                    v.extend((0..3).map(|_| gen_step(r)));
                }
                r.shuffle(&mut v);
                v
            })
            .collect()
    };
    let want: Vec<Vec<Done>> = steps.iter().map(|v| v.iter().map(|s| fresh(|| perform(s))).collect()).collect();
    let barrier = Barrier::new(n);
    let got: Vec<Vec<Done>> = std::thread::scope(|s| {
        let hs: Vec<_> = steps
            .iter()
            .map(|v| {
                let barrier = &barrier;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        v.iter().map(perform).collect::<Vec<_>>()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("guarded")).collect()
    });
    let key = format!("{steps:?}");
    obs.case(&key, true);
    for ((gs, ws), ss) in got.iter().zip(&want).zip(&steps) {
        for ((g, w), s) in gs.iter().zip(ws).zip(ss) {
            same(obs, &format!("{s:?} on {n} threads\n{}", w.0), "at the same time as other calls the result differs", g, w);
            obs.feat("concurrent steps");
        }
    }
}

/// Shared data is only read.
fn shared(obs: &mut Obs, r: &mut Rng, n: usize) {
    let mut g = crate::evalgen::EG::new(r);
    g.fill_env();
    let e = g.e(crate::evalgen::W::Any, 3);
    let env = std::mem::take(&mut g.env);
    let b = g.g.body(2);
    let x = conv::to_rs_expr(&e);
    let body = hcl::Body::builder().add_attribute(("a", x.clone())).build();
    let edit = conv::to_edit_body(&b);
    let src = edit.to_string();
    let key = format!("{env:?}\n{e:?}\n{src}");
    obs.case(&key, true);
    let c = crate::p_eval::ctx(&env, 1);
    let v = x.evaluate(&c).unwrap_or_default();
    crate::p_eval::reset();
    let task = |order: usize| -> Vec<String> {
        let mut out = vec![String::new(); 7];
        for j in 0..7 {
            let j = (j + order) % 7;
            out[j] = match j {
                0 => format!("{:?}", x.evaluate(&c).map_err(|e| e.to_string())),
                1 => format!("{:?}", hcl::to_string(&body).map_err(|e| e.to_string())),
                2 => format!("{:?}", hcl::eval::to_string(&body, &c).map_err(|e| e.to_string())),
                3 => format!("{:?} {edit}", edit.clone()),
                4 => format!("{:?}", src.parse::<hcl_edit::structure::Body>().map_err(|e| e.to_string())),
                5 => format!("{v} {:?} {:?}", hcl::to_string(&v).map_err(|e| e.to_string()), serde_json::to_string(&v).map_err(|e| e.to_string())),
                _ => format!("{:?}", Expression::from_serializable(&[&x, &x]).map_err(|e| e.to_string())),
            };
        }
        crate::p_eval::reset();
        out
    };
    let want = fresh(|| task(0));
    let barrier = Barrier::new(n);
    let got: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (barrier, task) = (&barrier, &task);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        task(i)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("guarded")).collect()
    });
    for g in &got {
        if *g != want {
            obs.fail(&key, format!("shared data: {}", first_diff(&g.join("\n"), &want.join("\n"))));
        }
        obs.feat_n("results with shared data", g.len() as u64);
    }
}

// --- foreign serializers ------------------------------------------------------------------------

struct Foreign<'a>(&'a Expression);

impl Serialize for Foreign<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match serde_json::to_string(self.0) {
            Ok(t) => s.serialize_str(&t),
            Err(e) => Err(serde::ser::Error::custom(e)),
        }
    }
}

/// An expression that is converted to JSON by another serializer, as part of data that is
/// converted to HCL.
fn foreign(obs: &mut Obs, r: &mut Rng) {
    let mut g = G::new(r, rs_opts());
    g.budget = 8;
    let e = conv::to_rs_expr(&g.expr(2));
    let key = format!("{e:?}");
    let Ok(want) = serde_json::to_string(&e) else { return };
    obs.case(&key, true);
    obs.feat("other serializer inside");
    let x = BTreeMap::from([("a", Foreign(&e))]);
    let got = Expression::from_serializable(&x);
    let want = Expression::Object([("a".into(), Expression::from(want))].into_iter().collect());
    match got {
        Ok(Expression::Object(o)) if matches!(o.values().next(), Some(Expression::String(s)) if s.starts_with("{\"handle\":")) => {
            obs.fail(key, "a serializer of another crate that runs inside of a serialization gets the placeholder of the expression");
        }
        Ok(g) if g == want => obs.feat("other serializer inside is right"),
        g => obs.fail(key, format!("{g:?}, expected {want:?}")),
    }
}

// --- serializers of serde between the data and the crates -----------------------------------------

#[derive(Serialize)]
enum Choice {
    Fields { e: Expression, f: Option<Expression> },
    Elements(Expression, Expression),
    Unit,
    New(Vec<Expression>),
}

#[derive(Serialize)]
#[serde(tag = "kind")]
enum Inside<T> {
    New(T),
    Fields { e: Expression, x: T },
}

#[derive(Serialize)]
#[serde(tag = "kind", content = "c")]
enum Beside<T> {
    New(T),
    Tuple(T, Expression),
}

#[derive(Serialize)]
#[serde(untagged)]
enum Either<T> {
    New(T),
}

#[derive(Serialize)]
struct Flat<T> {
    before: Expression,
    #[serde(flatten)]
    x: T,
    after: Expression,
}

#[derive(Serialize)]
struct One<T> {
    a: T,
}

/// Serializes a value as what `to_value` makes of it.
struct Converted<T>(T);

impl<T: Serialize> Serialize for Converted<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        hcl::to_value(&self.0).map_err(serde::ser::Error::custom)?.serialize(s)
    }
}

fn adapters(obs: &mut Obs, r: &mut Rng) {
    let mut g = G::new(r, rs_opts());
    g.budget = 12;
    let es: Vec<Expression> = (0..4).map(|_| conv::to_rs_expr(&g.expr(2))).collect();
    let (e, f) = (es[0].clone(), es[1].clone());
    let key = format!("{es:?}");
    obs.case(&key, true);
    let id = |s: &str| hcl::ObjectKey::from(hcl::Identifier::unchecked(s));
    let st = |s: &str| hcl::ObjectKey::from(s);
    let o = |items: Vec<(hcl::ObjectKey, Expression)>| Expression::Object(items.into_iter().collect());
    let body = |items: Vec<(&str, Expression)>| items.into_iter().map(|(k, e)| hcl::Structure::from(hcl::Attribute::new(k, e))).collect::<hcl::Body>();
    let _ = id;
    let flat = |x: Vec<(&str, Expression)>| {
        let mut v = vec![("before", es[2].clone())];
        v.extend(x);
        v.push(("after", es[3].clone()));
        body(v)
    };
    macro_rules! flatten {
        ($x:expr) => {
            hcl::Body::from_serializable(&Flat { before: es[2].clone(), x: $x, after: es[3].clone() })
        };
    }
    let mut must = |what: &str, got: hcl::Result<hcl::Body>, want: hcl::Body| match got {
        Ok(g) if g == want => obs.feat("adapters keep expressions"),
        g => obs.fail(&key, format!("{what}: {}", first_diff(&format!("{g:?}"), &format!("Ok({want:?})")))),
    };
    must("flattened struct variant", flatten!(Choice::Fields { e: e.clone(), f: Some(f.clone()) }), flat(vec![("Fields", o(vec![(st("e"), e.clone()), (st("f"), f.clone())]))]));
    must("flattened tuple variant", flatten!(Choice::Elements(e.clone(), f.clone())), flat(vec![("Elements", Expression::Array(vec![e.clone(), f.clone()]))]));
    must("flattened newtype variant", flatten!(Choice::New(vec![e.clone()])), flat(vec![("New", Expression::Array(vec![e.clone()]))]));
    must("flattened unit variant", flatten!(Choice::Unit), flat(vec![("Unit", Expression::Null)]));
    must("flattened map", flatten!(BTreeMap::from([("x", e.clone()), ("y", f.clone())])), flat(vec![("x", e.clone()), ("y", f.clone())]));
    must("flattened struct", flatten!(Inner { first: e.clone(), second: &f }), flat(vec![("first", e.clone()), ("second", f.clone())]));
    must("flattened option", flatten!(Some(One { a: e.clone() })), flat(vec![("a", e.clone())]));
    must("untagged", hcl::Body::from_serializable(&One { a: Either::New(e.clone()) }), body(vec![("a", e.clone())]));
    must("tagged", hcl::Body::from_serializable(&Inside::Fields { e: e.clone(), x: f.clone() }), body(vec![("kind", "Fields".into()), ("e", e.clone()), ("x", f.clone())]));
    must("tagged struct", hcl::Body::from_serializable(&Inside::New(One { a: e.clone() })), body(vec![("kind", "New".into()), ("a", e.clone())]));
    must("adjacently tagged", hcl::Body::from_serializable(&Beside::New(e.clone())), body(vec![("kind", "New".into()), ("c", e.clone())]));
    must("adjacently tagged tuple", hcl::Body::from_serializable(&One { a: Beside::Tuple(e.clone(), f.clone()) }), body(vec![("a", o(vec![(st("kind"), "Tuple".into()), (st("c"), Expression::Array(vec![e.clone(), f.clone()]))]))]));

    // These have no sensible meaning or are not supported: what does not fail has to be right.
    let mut may = |what: &str, r: Result<hcl::Result<String>, String>| match r {
        Err(p) => obs.fail(&key, format!("{what} panicked: {p}")),
        Ok(Err(_)) => obs.feat("refused"),
        Ok(Ok(t)) => {
            obs.feat(what);
            if t.contains("handle") && !key.contains("handle") {
                obs.fail(&key, format!("{what} gives a placeholder: {t}"));
            }
        }
    };
    let text = |b: hcl::Result<hcl::Body>| b.and_then(|b| hcl::format::to_string(&b));
    may("flattened expression", guard(|| text(flatten!(e.clone()))));
    may("flattened attribute", guard(|| text(flatten!(hcl::Attribute::new("a", e.clone())))));
    may("flattened block", guard(|| text(flatten!(hcl::Block::builder("a").add_attribute(("x", e.clone())).build()))));
    may("flattened structure", guard(|| text(flatten!(hcl::Structure::from(hcl::Attribute::new("a", e.clone()))))));
    may("flattened body", guard(|| text(flatten!(body(vec![("x", e.clone())])))));
    may("flattened block of a map", guard(|| text(flatten!(hcl::ser::Block::new(BTreeMap::from([("x", e.clone())]))))));
    may("tagged expression", guard(|| hcl::to_string(&Inside::New(e.clone()))));
    may("tagged attribute", guard(|| hcl::to_string(&Inside::New(hcl::Attribute::new("a", e.clone())))));
    may("tagged expression in an attribute", guard(|| hcl::to_string(&One { a: Inside::New(e.clone()) })));
    may("labeled block of an expression", guard(|| hcl::to_string(&One { a: hcl::ser::LabeledBlock::new(e.clone()) })));
    may("labeled block of expressions", guard(|| hcl::to_string(&One { a: hcl::ser::LabeledBlock::new(BTreeMap::from([("k", e.clone())])) })));
    may("labeled block of structures", guard(|| hcl::to_string(&One { a: hcl::ser::LabeledBlock::new(body(vec![("x", e.clone())])) })));
    may("block of an expression", guard(|| hcl::to_string(&One { a: hcl::ser::Block::new(e.clone()) })));
    may("expression as key", guard(|| hcl::to_string(&One { a: hcl::ser::Block::new(vecmap::VecMap::from_iter([(e.clone(), 1)])) })));
    may("expression as key of an object", guard(|| hcl::to_string(&One { a: vecmap::VecMap::from_iter([(e.clone(), 1)]) })));

    // A conversion to a value within a serialization is what it is elsewhere.
    let want = hcl::to_value(&e).map(|v| body(vec![("a", v.into())])).map_err(|e| e.to_string());
    let got = hcl::Body::from_serializable(&One { a: Converted(&e) }).map_err(|e| e.to_string());
    if got != want {
        obs.fail(&key, format!("value: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
    if want.is_ok() {
        obs.feat("converted inside");
    }
}

fn adapters_case(obs: &mut Obs, r: &mut Rng, _: u64) {
    adapters(obs, r);
}

pub fn p25(m: &mut Mon) {
    m.rule = "a case is a history of calls (work items of P22 and calls into which user code with further calls, failures and panics is hooked: Serialize, Deserialize, Write implementations and functions), or a set of histories that run on several threads at the same time; every result is compared with that of the same call alone on a fresh thread; each case is nontrivial".into();
    m.assumptions = vec!["interleavings are those that the scheduler of the operating system produces with 2 to 16 threads on 8 cores; the crates have no unsafe code and only thread-local mutable state".into()];
    let n = m.n(2_500);
    m.cases("histories", n, |obs, r, _| histories(obs, r));
    let n = m.n(6_000);
    m.cases("hooks", n, |obs, r, _| transparent(obs, r));
    let n = m.n(60);
    m.cases("threads", n, |obs, r, _| {
        let n = *r.pick(&[2, 4, 8, 16]);
        threads(obs, r, n);
    });
    let n = m.n(400);
    m.cases("shared data", n, |obs, r, _| {
        let n = *r.pick(&[2, 4, 8]);
        shared(obs, r, n);
    });
    let n = m.n(4_000);
    m.cases("adapters", n, adapters_case);
    let n = m.n(20);
    m.cases("other serializers", n, |obs, r, _| foreign(obs, r));
    for (f, n) in [
        ("steps", 8000),
        ("panicking calls", 300),
        ("failing calls", 300),
        ("calls with calls inside", 1000),
        ("calls inside", 5000),
        ("same result with calls inside", 1000),
        ("same inner result", 5000),
        ("concurrent steps", 2000),
        ("adapters keep expressions", 20_000),
        ("refused", 10_000),
        ("converted inside", 500),
        ("labeled block of structures", 0),
        ("results with shared data", 5000),
    ] {
        m.require(f, n);
    }
    crate::run::sanitized(m, "tsan", &["--scale", "0.2"]);
}
