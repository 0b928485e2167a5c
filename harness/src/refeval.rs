//! An independent evaluator of the expression and template languages, over the model documents.

use crate::model::*;
use crate::val::V;
use std::collections::BTreeMap;

/// A parameter type.
#[derive(Clone, Debug, PartialEq)]
pub enum Pt {
    Any,
    Bool,
    Num,
    Str,
    Arr(Box<Pt>),
    Obj(Box<Pt>),
    OneOf(Vec<Pt>),
    Nullable(Box<Pt>),
}

impl Pt {
    pub fn takes(&self, v: &V) -> bool {
        match (self, v) {
            (Pt::Any, _)
            | (Pt::Bool, V::Bool(_))
            | (Pt::Num, V::Num(_))
            | (Pt::Str, V::Str(_))
            | (Pt::Nullable(_), V::Null) => true,
            (Pt::Arr(t), V::Arr(a)) => a.iter().all(|v| t.takes(v)),
            (Pt::Obj(t), V::Obj(o)) => o.iter().all(|(_, v)| t.takes(v)),
            (Pt::OneOf(ts), v) => ts.is_empty() || ts.iter().any(|t| t.takes(v)),
            (Pt::Nullable(t), v) => t.takes(v),
            _ => false,
        }
    }
}

/// A declared function: its signature and what it does.
#[derive(Clone, Debug)]
pub struct Func {
    pub params: Vec<Pt>,
    pub variadic: Option<Pt>,
    pub what: usize,
}

/// The number of things a function can do.
pub const WHATS: usize = 8;

/// What the functions do. Used by the real functions, too.
pub fn act(what: usize, args: &[V], positional: usize) -> Result<V, String> {
    match what {
        0 => Ok(V::Arr(args.to_vec())),
        1 => Err(format!("boom {}", args.len())),
        2 => Ok(V::Num(N::U(args.len() as u64))),
        3 => Ok(args.first().cloned().unwrap_or(V::Null)),
        4 => Ok(V::Str(
            args.iter()
                .filter_map(|a| match a {
                    V::Str(s) => Some(s.as_str()),
                    _ => None,
                })
                .collect(),
        )),
        5 => match args.first() {
            Some(V::Str(s)) => Ok(V::Str(s.to_uppercase())),
            Some(V::Arr(a)) => Ok(V::Num(N::U(a.len() as u64))),
            _ => Err("neither string nor list".into()),
        },
        6 => Ok(V::Obj(vec![
            ("pos".into(), V::Arr(args[..positional].to_vec())),
            ("var".into(), V::Arr(args[positional..].to_vec())),
        ])),
        _ => args.last().cloned().ok_or_else(|| "empty".to_string()),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub vars: Vec<(Id, V)>,
    /// By name with namespaces.
    pub funcs: Vec<(String, Func)>,
}

impl Env {
    pub fn var(&self, n: &str) -> Option<&V> {
        self.vars.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v)
    }
    pub fn func(&self, n: &str) -> Option<&Func> {
        self.funcs.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum FuncEr {
    /// The error of the function itself.
    Own(String),
    /// The number of parameters and of arguments.
    Count(usize, usize),
    /// The position of the wrong argument, whether it is variadic, and the type it should have.
    Type(usize, bool, Pt, V),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    UndefVar(Id),
    UndefFunc(String),
    Unexpected(V, &'static str),
    Index(u64),
    Un(UnOp, V),
    Bin(V, BinOp, V),
    NoKey(String),
    KeyExists(String),
    Func(String, FuncEr),
}

impl Er {
    pub fn kind(&self) -> &'static str {
        match self {
            Er::UndefVar(_) => "error: undefined variable",
            Er::UndefFunc(_) => "error: undefined function",
            Er::Unexpected(..) => "error: unexpected type",
            Er::Index(_) => "error: index out of range",
            Er::Un(..) => "error: unary operator",
            Er::Bin(_, BinOp::Div | BinOp::Mod, V::Num(N::U(0))) => "error: division by zero",
            Er::Bin(V::Num(_), _, V::Num(_)) => "error: numeric operator",
            Er::Bin(..) => "error: binary operator",
            Er::NoKey(_) => "error: no such key",
            Er::KeyExists(_) => "error: key exists",
            Er::Func(_, FuncEr::Own(_)) => "error: of the function",
            Er::Func(_, FuncEr::Count(..)) => "error: number of arguments",
            Er::Func(_, FuncEr::Type(..)) => "error: type of argument",
        }
    }
}

pub type R<X> = Result<X, Er>;

/// Object equality does not depend on the order.
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Obj(x), V::Obj(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w)))
        }
        _ => a == b,
    }
}

pub fn cmp_num(a: N, b: N) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    match (a.int(), b.int()) {
        (Some(a), Some(b)) => a.cmp(&b),
        (None, None) => a.f64().partial_cmp(&b.f64()).unwrap(),
        (Some(i), None) => int_vs_float(i, b.f64()),
        (None, Some(i)) => match int_vs_float(i, a.f64()) {
            Less => Greater,
            Greater => Less,
            Equal => Equal,
        },
    }
}

/// Compares exactly. `f` is not an integer in the range of `i64` and `u64`.
fn int_vs_float(i: i128, f: f64) -> std::cmp::Ordering {
    if f >= 1e30 {
        return std::cmp::Ordering::Less;
    }
    if f <= -1e30 {
        return std::cmp::Ordering::Greater;
    }
    let t = f.trunc();
    match i.cmp(&(t as i128)) {
        std::cmp::Ordering::Equal => 0.0f64.partial_cmp(&(f - t)).unwrap(),
        o => o,
    }
}

pub fn arith(a: N, o: BinOp, b: N) -> Option<N> {
    if let (Some(x), Some(y)) = (a.int(), b.int()) {
        let exact = match o {
            BinOp::Add => Some(x + y),
            BinOp::Sub => Some(x - y),
            BinOp::Mul => x.checked_mul(y),
            BinOp::Div if y != 0 && x % y == 0 => Some(x / y),
            BinOp::Mod if y != 0 => Some(x % y),
            _ => None,
        };
        if let Some(i) = exact {
            return Some(N::from_i128(i));
        }
    }
    let (x, y) = (a.f64(), b.f64());
    N::from_f64(match o {
        BinOp::Add => x + y,
        BinOp::Sub => x - y,
        BinOp::Mul => x * y,
        BinOp::Div => x / y,
        BinOp::Mod => x % y,
        _ => return None,
    })
}

pub fn text(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Num(n) => match n.int() {
            Some(i) => i.to_string(),
            None => crate::conv::num_to(*n).to_string(),
        },
        V::Str(s) => s.clone(),
        v => v.to().to_string(),
    }
}

/// Removes spaces up to and including one line break from the start.
fn trim_start(s: &str) -> &str {
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        match c {
            '\n' => return &s[i + 1..],
            '\r' => {
                return if s[i + 1..].starts_with('\n') { &s[i + 2..] } else { &s[i..] };
            }
            c if c.is_whitespace() => {}
            _ => return &s[i..],
        }
    }
    ""
}

fn trim_end(s: &str) -> &str {
    for (i, c) in s.char_indices().rev() {
        match c {
            '\n' => {
                return if s[..i].ends_with('\r') { &s[..i - 1] } else { &s[..i] };
            }
            c if c != '\r' && c.is_whitespace() => {}
            c => return &s[..i + c.len_utf8()],
        }
    }
    ""
}

pub fn start_strip(t: &T) -> bool {
    match t {
        T::Lit(_) => false,
        T::Interp(_, s) => s.0,
        T::If(d) => d.s1.0,
        T::For(d) => d.s1.0,
    }
}

pub fn end_strip(t: &T) -> bool {
    match t {
        T::Lit(_) => false,
        T::Interp(_, s) => s.1,
        T::If(d) => d.s3.1,
        T::For(d) => d.s2.1,
    }
}

#[derive(Default)]
pub struct Ev {
    pub env: Env,
    /// The calls that ran: what they do, their arguments and the number of positional arguments.
    pub log: Vec<(usize, Vec<V>, usize)>,
    pub feats: BTreeMap<&'static str, u64>,
    /// Whether entries of an object were merged while evaluating in place.
    pub merged: bool,
}


impl Ev {
    pub fn new(env: &Env) -> Ev {
        Ev {
            env: env.clone(),
            ..Ev::default()
        }
    }

    fn feat(&mut self, f: &'static str) {
        *self.feats.entry(f).or_insert(0) += 1;
    }

    pub fn bool(&mut self, e: &E) -> R<bool> {
        match self.eval(e)? {
            V::Bool(b) => Ok(b),
            v => Err(Er::Unexpected(v, "a boolean")),
        }
    }

    pub fn key(&mut self, e: &E) -> R<String> {
        match self.eval(e)? {
            v @ (V::Str(_) | V::Bool(_) | V::Num(_)) => Ok(text(&v)),
            v => Err(Er::Unexpected(v, "a string, boolean or number")),
        }
    }

    pub fn okey(&mut self, k: &K) -> R<String> {
        match k {
            K::Id(i) => Ok(i.clone()),
            K::Ex(e) => self.key(e),
        }
    }

    pub fn object(&mut self, items: &[(K, E)]) -> R<Vec<(String, V)>> {
        let mut o: Vec<(String, V)> = vec![];
        for (k, e) in items {
            let k = self.okey(k)?;
            let v = self.eval(e)?;
            if let Some(x) = o.iter_mut().find(|(x, _)| *x == k) {
                self.feat("object key given twice");
                x.1 = v;
            } else {
                o.push((k, v));
            }
        }
        Ok(o)
    }

    pub fn coll(&mut self, e: &E) -> R<Vec<(V, V)>> {
        match self.eval(e)? {
            V::Arr(a) => Ok(a
                .into_iter()
                .enumerate()
                .map(|(i, v)| (V::Num(N::U(i as u64)), v))
                .collect()),
            V::Obj(o) => Ok(o.into_iter().map(|(k, v)| (V::Str(k), v)).collect()),
            v => Err(Er::Unexpected(v, "an array or object")),
        }
    }

    /// Runs `f` with the loop variables in scope.
    pub fn scoped<X>(&mut self, key: Option<&Id>, val: &Id, kv: (V, V), f: impl FnOnce(&mut Ev) -> X) -> X {
        let n = self.env.vars.len();
        let outer = |ev: &Ev, i: &Id| ev.env.var(i).is_some();
        if outer(self, val) || key.is_some_and(|k| outer(self, k)) {
            self.feat("loop variable shadows");
        }
        if let Some(k) = key {
            self.env.vars.push((k.clone(), kv.0));
        }
        self.env.vars.push((val.clone(), kv.1));
        let x = f(self);
        self.env.vars.truncate(n);
        x
    }

    pub fn for_(&mut self, x: &For) -> R<V> {
        let coll = self.coll(&x.coll)?;
        let mut arr = vec![];
        let mut obj: Vec<(String, V)> = vec![];
        for kv in coll {
            self.scoped(x.key.as_ref(), &x.val, kv, |ev| {
                if let Some(c) = &x.cond {
                    if !ev.bool(c)? {
                        ev.feat("for condition false");
                        return Ok(());
                    }
                }
                let Some(k) = &x.kexpr else {
                    ev.feat("for list element");
                    arr.push(ev.eval(&x.vexpr)?);
                    return Ok(());
                };
                let k = ev.key(k)?;
                let v = ev.eval(&x.vexpr)?;
                let old = obj.iter_mut().find(|(o, _)| *o == k);
                match (x.group, old) {
                    (true, Some((_, V::Arr(a)))) => {
                        ev.feat("for group of several");
                        a.push(v);
                    }
                    (true, _) => obj.push((k, V::Arr(vec![v]))),
                    (false, None) => {
                        ev.feat("for object item");
                        obj.push((k, v));
                    }
                    (false, Some(_)) => return Err(Er::KeyExists(k)),
                }
                Ok(())
            })?;
        }
        Ok(if x.kexpr.is_some() { V::Obj(obj) } else { V::Arr(arr) })
    }

    fn attr(&mut self, v: V, k: &str) -> R<V> {
        match v {
            V::Obj(_) => v.get(k).cloned().ok_or_else(|| Er::NoKey(k.to_string())),
            v => Err(Er::Unexpected(v, "an object")),
        }
    }

    fn elem(&mut self, v: V, i: u64) -> R<V> {
        match v {
            V::Arr(a) => a.get(usize::try_from(i).unwrap()).cloned().ok_or(Er::Index(i)),
            v => Err(Er::Unexpected(v, "an array")),
        }
    }

    pub fn ops(&mut self, mut v: V, ops: &[Op]) -> R<V> {
        let mut i = 0;
        while i < ops.len() {
            match &ops[i] {
                Op::Attr(k) => {
                    v = self.attr(v, k)?;
                    self.feat("attribute access");
                }
                Op::Legacy(n) => {
                    v = self.elem(v, *n)?;
                    self.feat("legacy index");
                }
                Op::Idx(e) => match self.eval(e)? {
                    V::Str(k) => {
                        v = self.attr(v, &k)?;
                        self.feat("string index");
                    }
                    V::Num(N::U(n)) => {
                        v = self.elem(v, n)?;
                        self.feat("number index");
                    }
                    x @ V::Num(_) => return Err(Er::Unexpected(x, "an unsigned integer")),
                    x => return Err(Er::Unexpected(x, "an unsigned integer or string")),
                },
                op => {
                    let rest = &ops[i + 1..];
                    let n = if *op == Op::FullSplat {
                        rest.len()
                    } else {
                        rest.iter().take_while(|o| matches!(o, Op::Attr(_))).count()
                    };
                    self.feat(match (op, &v) {
                        (_, V::Null) => "splat on null",
                        (Op::FullSplat, V::Arr(_)) => "full splat on list",
                        (_, V::Arr(_)) => "attribute splat on list",
                        _ => "splat on single value",
                    });
                    let vs = match v {
                        V::Null => vec![],
                        V::Arr(a) => a,
                        v => vec![v],
                    };
                    v = V::Arr(
                        vs.into_iter()
                            .map(|v| self.ops(v, &rest[..n]))
                            .collect::<R<_>>()?,
                    );
                    i += n;
                }
            }
            i += 1;
        }
        Ok(v)
    }

    pub fn call(&mut self, c: &Call) -> R<V> {
        let name = c
            .ns
            .iter()
            .chain([&c.name])
            .map(String::as_str)
            .collect::<Vec<_>>()
            .join("::");
        let f = self
            .env
            .func(&name)
            .cloned()
            .ok_or_else(|| Er::UndefFunc(name.clone()))?;
        let mut args = vec![];
        for (i, a) in c.args.iter().enumerate() {
            let v = self.eval(a)?;
            if c.expand && i + 1 == c.args.len() {
                match v {
                    V::Arr(a) => {
                        self.feat("expanded argument");
                        args.extend(a);
                    }
                    v => return Err(Er::Unexpected(v, "an array")),
                }
            } else {
                args.push(v);
            }
        }
        let er = |e| Err(Er::Func(name.clone(), e));
        let n = f.params.len();
        if args.len() < n || args.len() > n && f.variadic.is_none() {
            return er(FuncEr::Count(n, args.len()));
        }
        for (i, a) in args.iter().enumerate() {
            match f.params.get(i) {
                Some(p) if !p.takes(a) => return er(FuncEr::Type(i, false, p.clone(), a.clone())),
                None if !f.variadic.as_ref().unwrap().takes(a) => {
                    return er(FuncEr::Type(i, true, f.variadic.clone().unwrap(), a.clone()))
                }
                _ => {}
            }
        }
        self.feat(if args.len() > n { "variadic call" } else { "positional call" });
        self.log.push((f.what, args.clone(), n));
        act(f.what, &args, n).or_else(|m| er(FuncEr::Own(m)))
    }

    pub fn un(&mut self, o: UnOp, e: &E) -> R<V> {
        match (o, self.eval(e)?) {
            (UnOp::Not, V::Bool(b)) => Ok(V::Bool(!b)),
            (UnOp::Neg, V::Num(n)) => Ok(V::Num(n.neg())),
            (o, v) => Err(Er::Un(o, v)),
        }
    }

    pub fn bin(&mut self, l: &E, o: BinOp, r: &E) -> R<V> {
        let l = self.eval(l)?;
        let r = self.eval(r)?;
        let fail = |l: V, r: V| Err(Er::Bin(l, o, r));
        let b = match o {
            BinOp::Eq => same(&l, &r),
            BinOp::Ne => !same(&l, &r),
            BinOp::And | BinOp::Or => match (&l, &r) {
                (V::Bool(x), V::Bool(y)) => {
                    if o == BinOp::And {
                        *x && *y
                    } else {
                        *x || *y
                    }
                }
                _ => return fail(l, r),
            },
            _ => match (&l, &r) {
                (V::Num(x), V::Num(y)) => {
                    let c = cmp_num(*x, *y);
                    match o {
                        BinOp::Lt => c.is_lt(),
                        BinOp::Gt => c.is_gt(),
                        BinOp::Le => c.is_le(),
                        BinOp::Ge => c.is_ge(),
                        _ => {
                            return match arith(*x, o, *y) {
                                Some(n) => {
                                    self.feat(match n {
                                        N::F(_) => "float arithmetic",
                                        _ => "integer arithmetic",
                                    });
                                    Ok(V::Num(n))
                                }
                                None => fail(l, r),
                            }
                        }
                    }
                }
                _ => return fail(l, r),
            },
        };
        Ok(V::Bool(b))
    }

    pub fn cond(&mut self, c: &(E, E, E)) -> R<V> {
        if self.bool(&c.0)? {
            self.feat("condition true");
            self.eval(&c.1)
        } else {
            self.feat("condition false");
            self.eval(&c.2)
        }
    }

    /// The value of a template expression.
    pub fn tmpl_value(&mut self, ts: &[T]) -> R<V> {
        match ts {
            [T::Interp(e, _)] => {
                self.feat("unwrapped template");
                self.eval(e)
            }
            ts => Ok(V::Str(self.tmpl(ts)?)),
        }
    }

    pub fn tmpl(&mut self, ts: &[T]) -> R<String> {
        let mut s = String::new();
        self.tmpl_in(ts, false, false, &mut s)?;
        Ok(s)
    }

    fn tmpl_in(&mut self, ts: &[T], prev: bool, next: bool, out: &mut String) -> R<()> {
        for (i, t) in ts.iter().enumerate() {
            match t {
                T::Lit(s) => {
                    let l = if i == 0 { prev } else { end_strip(&ts[i - 1]) };
                    let r = if i + 1 == ts.len() { next } else { start_strip(&ts[i + 1]) };
                    let mut s = s.as_str();
                    let n = s.len();
                    if l {
                        s = trim_start(s);
                        if s.len() < n {
                            self.feat(if i == 0 { "stripped inside a directive" } else { "stripped start" });
                        }
                    }
                    let n = s.len();
                    if r {
                        s = trim_end(s);
                        if s.len() < n {
                            self.feat(if i + 1 == ts.len() { "stripped inside a directive" } else { "stripped end" });
                        }
                    }
                    out.push_str(s);
                }
                T::Interp(e, _) => {
                    let v = self.eval(e)?;
                    self.feat(match v {
                        V::Str(_) => "interpolated string",
                        V::Arr(_) | V::Obj(_) => "interpolated collection",
                        _ => "interpolated scalar",
                    });
                    out.push_str(&text(&v));
                }
                T::If(d) => {
                    if self.bool(&d.cond)? {
                        self.feat("if directive");
                        let next = d.els.as_ref().map_or(d.s3.0, |(s, _)| s.0);
                        self.tmpl_in(&d.then, d.s1.1, next, out)?;
                    } else if let Some((s, e)) = &d.els {
                        self.feat("else directive");
                        self.tmpl_in(e, s.1, d.s3.0, out)?;
                    }
                }
                T::For(d) => {
                    for kv in self.coll(&d.coll)? {
                        self.feat("for directive element");
                        self.scoped(d.key.as_ref(), &d.val, kv, |ev| {
                            ev.tmpl_in(&d.body, d.s1.1, d.s2.0, out)
                        })?;
                    }
                }
            }
        }
        Ok(())
    }

    /// `e` must be normalised (`Nf::Rs`).
    pub fn eval(&mut self, e: &E) -> R<V> {
        Ok(match e {
            E::Null => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::Num(n) => V::Num(*n),
            E::Str(s) => V::Str(s.clone()),
            E::Tmpl(ts) => return self.tmpl_value(ts),
            E::Heredoc(h) => return self.tmpl_value(&h.body),
            E::Arr(v) => V::Arr(v.iter().map(|e| self.eval(e)).collect::<R<_>>()?),
            E::Obj(v) => V::Obj(self.object(v)?),
            E::Paren(e) => return self.eval(e),
            E::Var(i) => {
                let v = self.env.var(i).cloned().ok_or_else(|| Er::UndefVar(i.clone()))?;
                self.feat("variable");
                v
            }
            E::Cond(c) => return self.cond(c),
            E::Call(c) => return self.call(c),
            E::Trav(b, ops) => {
                let v = self.eval(b)?;
                return self.ops(v, ops);
            }
            E::Un(o, e) => return self.un(*o, e),
            E::Bin(l, o, r) => return self.bin(l, *o, r),
            E::For(x) => return self.for_(x),
        })
    }

    pub fn body(&mut self, b: &[S]) -> R<B> {
        b.iter()
            .map(|s| {
                Ok(match s {
                    S::Attr(k, e) => S::Attr(k.clone(), self.eval(e)?.expr()),
                    S::Block(b) => S::Block(Block {
                        ident: b.ident.clone(),
                        labels: b.labels.clone(),
                        body: self.body(&b.body)?,
                    }),
                })
            })
            .collect()
    }

    // --- in place --------------------------------------------------------------------------------

    /// Evaluates in place, returns the errors.
    pub fn place(&mut self, e: &mut E) -> Vec<Er> {
        if matches!(e, E::Null | E::Bool(_) | E::Num(_) | E::Str(_)) {
            return vec![];
        }
        let mut errs = self.nested(e);
        if errs.is_empty() {
            match self.eval(e) {
                Ok(v) => *e = v.expr(),
                Err(x) => errs.push(x),
            }
        }
        errs
    }

    /// Evaluates what is nested in an expression in place.
    pub fn nested(&mut self, e: &mut E) -> Vec<Er> {
        let mut errs = vec![];
        match e {
            E::Arr(v) => v.iter_mut().for_each(|e| errs.extend(self.place(e))),
            E::Obj(v) => {
                let mut new: Vec<(K, E)> = vec![];
                for (mut k, mut e) in v.drain(..) {
                    if let K::Ex(k) = &mut k {
                        errs.extend(self.place(k));
                    }
                    errs.extend(self.place(&mut e));
                    if let Some(i) = new.iter().position(|(o, _)| *o == k) {
                        self.merged = true;
                        // Another entry may be or become the same key, the last one counts.
                        let mut quiet = Ev::new(&self.env);
                        let name = quiet.okey(&k).ok();
                        let unsure = new.iter().any(|(o, _)| {
                            *o != k && quiet.okey(o).map_or(true, |o| Some(o) == name)
                        });
                        if unsure {
                            new.remove(i);
                            new.push((k, e));
                        } else {
                            new[i].1 = e;
                        }
                    } else {
                        new.push((k, e));
                    }
                }
                *v = new;
            }
            E::Trav(_, ops) => {
                for o in ops {
                    if let Op::Idx(e) = o {
                        errs.extend(self.place(e));
                    }
                }
            }
            E::Call(c) => c.args.iter_mut().for_each(|e| errs.extend(self.place(e))),
            E::Paren(e) => errs.extend(self.place(e)),
            E::Cond(c) => {
                errs.extend(self.place(&mut c.0));
                if errs.is_empty() {
                    match self.bool(&c.0) {
                        Ok(true) => errs.extend(self.place(&mut c.1)),
                        Ok(false) => errs.extend(self.place(&mut c.2)),
                        Err(e) => errs.push(e),
                    }
                }
            }
            E::Un(_, e) => errs.extend(self.place(e)),
            E::Bin(l, _, r) => {
                errs.extend(self.place(l));
                errs.extend(self.place(r));
            }
            E::For(x) => errs.extend(self.place(&mut x.coll)),
            _ => {}
        }
        errs
    }

    pub fn place_body(&mut self, b: &mut [S]) -> Vec<Er> {
        let mut errs = vec![];
        for s in b {
            match s {
                S::Attr(_, e) => errs.extend(self.place(e)),
                S::Block(b) => errs.extend(self.place_body(&mut b.body)),
            }
        }
        errs
    }

    pub fn place_tmpl(&mut self, ts: &mut [T]) -> Vec<Er> {
        let mut errs = vec![];
        for t in ts {
            match t {
                T::Lit(_) => {}
                T::Interp(e, _) => errs.extend(self.place(e)),
                T::If(d) => {
                    errs.extend(self.place(&mut d.cond));
                    errs.extend(self.place_tmpl(&mut d.then));
                    if let Some((_, e)) = &mut d.els {
                        errs.extend(self.place_tmpl(e));
                    }
                }
                T::For(d) => errs.extend(self.place(&mut d.coll)),
            }
        }
        errs
    }
}
