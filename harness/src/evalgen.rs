//! Type directed generator of expressions and templates which mostly evaluate without error in a
//! generated environment.

use crate::gen::*;
use crate::model::*;
use crate::refeval::*;
use crate::rng::Rng;
use crate::val::V;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum W {
    Any,
    Bool,
    Num,
    Str,
    Arr,
    Obj,
}

pub struct EG<'r> {
    pub g: G<'r>,
    pub env: Env,
    /// Percentage of expressions of a type that was not asked for.
    pub wild: usize,
    pub heredocs: bool,
    /// Only use few names, so that loops shadow often.
    pub names: &'static [&'static str],
}

const NAMES: &[&str] = &["a", "b", "k", "v", "x", "foo", "item", "each-1", "_", "é"];
const KEYS: &[&str] = &["a", "b", "id", "foo", "x y", "1", "true", "", "a.b", "${x}", "é"];
const FUNCS: &[&str] = &["f", "g", "len", "x", "provider::f", "a::b::c", "core::len"];

fn fits(w: W, v: &V) -> bool {
    match (w, v) {
        (W::Any, _)
        | (W::Bool, V::Bool(_))
        | (W::Num, V::Num(_))
        | (W::Str, V::Str(_))
        | (W::Arr, V::Arr(_))
        | (W::Obj, V::Obj(_)) => true,
        _ => false,
    }
}

fn ident(s: &str) -> bool {
    !RESERVED.contains(&s)
        && s.chars().next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
        && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
}

fn parens(e: E) -> E {
    E::Paren(Box::new(e))
}

/// Makes an expression an operand.
fn opnd(e: E) -> E {
    match e {
        E::Cond(_) | E::Bin(..) | E::Un(..) => parens(e),
        E::Num(N::I(_)) => parens(e),
        E::Num(N::F(f)) if f < 0.0 => parens(e),
        e => e,
    }
}

fn base(e: E) -> E {
    match e {
        E::Cond(_) | E::Bin(..) | E::Un(..) | E::Trav(..) | E::Num(_) | E::Heredoc(_) | E::Null => parens(e),
        e => e,
    }
}

impl<'r> EG<'r> {
    pub fn new(r: &'r mut Rng) -> EG<'r> {
        let o = Opts {
            width: 3,
            ..Opts::default()
        };
        let mut g = EG {
            g: G::new(r, o),
            env: Env::default(),
            wild: 6,
            heredocs: true,
            names: NAMES,
        };
        g.g.budget = 40;
        g
    }

    pub fn name(&mut self) -> Id {
        let names = self.names;
        (*self.g.r.pick(names)).to_string()
    }

    /// A value that is convenient for expressions.
    pub fn val(&mut self, w: W, d: usize) -> V {
        let w = match w {
            W::Any => *self.g.r.pick(&[W::Bool, W::Num, W::Num, W::Str, W::Str, W::Arr, W::Obj, W::Any]),
            w => w,
        };
        match w {
            W::Any => V::Null,
            W::Bool => V::Bool(self.g.r.bool()),
            W::Num => V::Num(self.num()),
            W::Str => V::Str(self.str()),
            W::Arr => {
                let n = if d == 0 { 0 } else { self.g.n(4).min(20) };
                let w = *self.g.r.pick(&[W::Any, W::Num, W::Str, W::Obj, W::Arr, W::Obj]);
                V::Arr((0..n).map(|_| self.val(w, d - 1)).collect())
            }
            W::Obj => {
                let n = if d == 0 { 0 } else { self.g.n(4).min(20) };
                let mut o: Vec<(String, V)> = vec![];
                for _ in 0..n {
                    let k = (*self.g.r.pick(KEYS)).to_string();
                    if o.iter().all(|(x, _)| *x != k) {
                        let v = self.val(W::Any, d - 1);
                        o.push((k, v));
                    }
                }
                V::Obj(o)
            }
        }
    }

    fn num(&mut self) -> N {
        match self.g.r.below(10) {
            0..=6 => N::U(self.g.r.below(6) as u64),
            7 => N::from_f64(self.g.r.below(40) as f64 / 8.0 - 2.0).unwrap(),
            _ => self.g.num(),
        }
    }

    fn str(&mut self) -> String {
        match self.g.r.below(10) {
            0..=6 => (*self.g.r.pick(&["a", "b", "id", "foo", "x y", "1", "true", "", " s ", "l\nm"])).to_string(),
            _ => self.g.string(),
        }
    }

    pub fn pt(&mut self, d: usize) -> Pt {
        match if d == 0 { self.g.r.below(5) } else { self.g.r.below(10) } {
            0 | 1 => Pt::Any,
            2 => Pt::Bool,
            3 => Pt::Num,
            4 => Pt::Str,
            5 => Pt::Arr(Box::new(self.pt(d - 1))),
            6 => Pt::Obj(Box::new(self.pt(d - 1))),
            7 | 8 => Pt::Nullable(Box::new(self.pt(d - 1))),
            _ => {
                let n = self.g.n(4).min(20);
                Pt::OneOf((0..n).map(|_| self.pt(d - 1)).collect())
            }
        }
    }

    pub fn func(&mut self) -> Func {
        let n = self.g.n(4).min(20);
        Func {
            params: (0..n).map(|_| if self.g.r.pct(50) { Pt::Any } else { self.pt(2) }).collect(),
            variadic: if self.g.r.pct(50) {
                Some(if self.g.r.pct(50) { Pt::Any } else { self.pt(2) })
            } else {
                None
            },
            what: if self.g.r.pct(10) { 1 } else { self.g.r.below(WHATS) },
        }
    }

    pub fn fill_env(&mut self) {
        for _ in 0..self.g.r.range(2, 8) {
            let n = self.name();
            let d = self.g.r.below(4);
            let v = self.val(W::Any, d);
            self.env.vars.push((n, v));
        }
        for _ in 0..self.g.r.below(6) {
            let n = (*self.g.r.pick(FUNCS)).to_string();
            let f = self.func();
            self.env.funcs.push((n, f));
        }
    }

    pub fn sample(&self, e: &E) -> Option<V> {
        Ev::new(&self.env).eval(&ne(e, Nf::Rs)).ok()
    }

    fn lit(&mut self, w: W) -> E {
        match w {
            W::Any => match self.g.r.below(6) {
                0 => E::Null,
                1 => self.lit(W::Bool),
                2 | 3 => self.lit(W::Num),
                4 => self.lit(W::Str),
                _ => self.val(W::Any, 1).expr(),
            },
            W::Bool => E::Bool(self.g.r.bool()),
            W::Num => E::Num(self.num()),
            W::Str => E::Str(self.str()),
            w => self.val(w, 2).expr(),
        }
    }

    /// A variable or path into a variable of the wanted type.
    fn path(&mut self, w: W) -> Option<E> {
        let mut found: Vec<(Id, Vec<Op>)> = vec![];
        fn go(v: &V, w: W, n: &Id, ops: &mut Vec<Op>, out: &mut Vec<(Id, Vec<Op>)>, d: usize) {
            if fits(w, v) {
                out.push((n.clone(), ops.clone()));
            }
            if d == 0 || out.len() > 40 {
                return;
            }
            match v {
                V::Arr(a) => {
                    for (i, v) in a.iter().enumerate() {
                        ops.push(Op::Legacy(i as u64));
                        go(v, w, n, ops, out, d - 1);
                        ops.pop();
                    }
                }
                V::Obj(o) => {
                    for (k, v) in o {
                        ops.push(Op::Idx(E::Str(k.clone())));
                        go(v, w, n, ops, out, d - 1);
                        ops.pop();
                    }
                }
                _ => {}
            }
        }
        let mut seen: Vec<&Id> = vec![];
        for (n, v) in self.env.vars.iter().rev() {
            if !seen.contains(&n) {
                seen.push(n);
                go(v, w, n, &mut vec![], &mut found, 3);
            }
        }
        if found.is_empty() {
            return None;
        }
        let (n, ops) = self.g.r.pick(&found).clone();
        let ops: Vec<Op> = ops
            .into_iter()
            .map(|o| match o {
                Op::Legacy(i) if self.g.r.pct(60) => Op::Idx(E::Num(N::U(i))),
                Op::Idx(E::Str(k)) if ident(&k) && self.g.r.pct(70) => Op::Attr(k),
                o => o,
            })
            .collect();
        Some(if ops.is_empty() {
            E::Var(n)
        } else {
            E::Trav(Box::new(E::Var(n)), ops)
        })
    }

    fn leaf(&mut self, w: W) -> E {
        self.g.budget = self.g.budget.saturating_sub(1);
        if self.g.r.pct(self.wild / 2) {
            return E::Var(self.name());
        }
        if self.g.r.pct(60) {
            if let Some(e) = self.path(w) {
                return e;
            }
        }
        self.lit(w)
    }

    fn any(&mut self) -> W {
        *self.g.r.pick(&[W::Any, W::Bool, W::Num, W::Num, W::Str, W::Str, W::Arr, W::Obj])
    }

    /// An expression. It is canonical.
    pub fn e(&mut self, w: W, d: usize) -> E {
        let w = if self.g.r.pct(self.wild) { self.any() } else { w };
        if d == 0 || self.g.budget == 0 {
            return self.leaf(w);
        }
        self.g.budget = self.g.budget.saturating_sub(1);
        let w = if w == W::Any { self.any() } else { w };
        // What is possible for every type.
        match self.g.r.below(22) {
            0..=3 => return self.leaf(w),
            4 => return parens(self.e(w, d - 1)),
            5 | 6 => {
                let c = self.e(W::Bool, d - 1);
                let c = match c {
                    E::Cond(_) => parens(c),
                    c => c,
                };
                let t = self.e(w, d - 1);
                let f = self.e(w, d - 1);
                return E::Cond(Box::new((c, t, f)));
            }
            7 => return E::Tmpl(vec![T::Interp(self.e(w, d - 1), (self.g.r.pct(20), self.g.r.pct(20)))]),
            8 => return self.index(w, d),
            9 | 10 => {
                if let Some(e) = self.call(w, d) {
                    return e;
                }
            }
            _ => {}
        }
        match w {
            W::Any => self.leaf(w),
            W::Bool => match self.g.r.below(9) {
                0 => E::Un(UnOp::Not, Box::new(opnd(self.e(W::Bool, d - 1)))),
                1..=3 => {
                    let o = *self.g.r.pick(&[BinOp::And, BinOp::Or]);
                    self.bin(W::Bool, o, d)
                }
                4..=6 => {
                    let o = *self.g.r.pick(&[BinOp::Lt, BinOp::Le, BinOp::Gt, BinOp::Ge]);
                    self.bin(W::Num, o, d)
                }
                _ => {
                    let o = *self.g.r.pick(&[BinOp::Eq, BinOp::Ne]);
                    let w = self.any();
                    if self.g.r.pct(30) {
                        // Most likely equal.
                        let l = opnd(self.e(w, d - 1));
                        let r = match self.sample(&l) {
                            Some(v) => opnd(v.expr()),
                            None => l.clone(),
                        };
                        return E::Bin(Box::new(l), o, Box::new(r));
                    }
                    self.bin(w, o, d)
                }
            },
            W::Num => match self.g.r.below(8) {
                0 => match self.e(W::Num, d - 1) {
                    e @ E::Num(_) => E::Un(UnOp::Neg, Box::new(parens(e))),
                    e => E::Un(UnOp::Neg, Box::new(opnd(e))),
                },
                _ => {
                    let o = *self.g.r.pick(&[BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod]);
                    self.bin(W::Num, o, d)
                }
            },
            W::Str => {
                if self.heredocs && self.g.r.pct(25) {
                    E::Heredoc(Box::new(self.heredoc(d - 1)))
                } else {
                    E::Tmpl(self.quoted(d - 1))
                }
            }
            W::Arr => match self.g.r.below(8) {
                0..=2 => {
                    let n = self.g.n(4).min(20);
                    let w = self.any();
                    E::Arr((0..n).map(|_| self.e(w, d - 1)).collect())
                }
                3..=5 => E::For(Box::new(self.for_(false, d))),
                _ => self.splat(d),
            },
            W::Obj => match self.g.r.below(8) {
                0..=3 => self.object(d),
                _ => E::For(Box::new(self.for_(true, d))),
            },
        }
    }

    fn bin(&mut self, w: W, o: BinOp, d: usize) -> E {
        let l = opnd(self.e(w, d - 1));
        let r = opnd(self.e(w, d - 1));
        E::Bin(Box::new(l), o, Box::new(r))
    }

    pub fn object(&mut self, d: usize) -> E {
        let n = self.g.n(4).min(20);
        let mut o: Vec<(K, E)> = vec![];
        for _ in 0..n {
            let k = match self.g.r.below(8) {
                0..=3 => K::Id((*self.g.r.pick(&["a", "b", "id", "foo", "é"])).to_string()),
                4 => K::Ex(E::Str(self.str())),
                5 => {
                    let h = std::mem::replace(&mut self.heredocs, false);
                    let k = K::Ex(parens(self.e(W::Str, d - 1)));
                    self.heredocs = h;
                    k
                }
                6 => K::Ex(E::Num(N::U(self.g.r.below(3) as u64))),
                _ => {
                    let w = *self.g.r.pick(&[W::Bool, W::Num]);
                    let h = std::mem::replace(&mut self.heredocs, false);
                    let k = K::Ex(parens(self.e(w, d - 1)));
                    self.heredocs = h;
                    k
                }
            };
            let e = self.e(W::Any, d - 1);
            if o.iter().all(|(x, _)| *x != k) {
                o.push((k, e));
            }
        }
        E::Obj(o)
    }

    /// An index or attribute access on a literal collection or expression.
    fn index(&mut self, w: W, d: usize) -> E {
        if self.g.r.bool() {
            let n = self.g.r.range(1, 3);
            let beyond = usize::from(self.g.r.pct(10));
            let i = self.g.r.below(n + beyond);
            let a: Vec<E> = (0..n).map(|_| self.e(w, d - 1)).collect();
            let op = match self.g.r.below(3) {
                0 => Op::Legacy(i as u64),
                1 => Op::Idx(E::Num(N::U(i as u64))),
                _ => Op::Idx(self.e(W::Num, d - 1)),
            };
            E::Trav(Box::new(E::Arr(a)), vec![op])
        } else {
            let k = (*self.g.r.pick(&["a", "b", "id"])).to_string();
            let e = self.e(w, d - 1);
            let mut o = vec![(K::Id(k.clone()), e)];
            if self.g.r.bool() {
                let x = (*self.g.r.pick(&["a", "b", "id"])).to_string();
                if x != k {
                    let e = self.e(w, d - 1);
                    o.insert(self.g.r.below(2), (K::Id(x), e));
                }
            }
            let op = match self.g.r.below(3) {
                0 => Op::Attr(k),
                1 => Op::Idx(E::Str(k)),
                _ => Op::Idx(self.e(W::Str, d - 1)),
            };
            E::Trav(Box::new(E::Obj(o)), vec![op])
        }
    }

    fn splat(&mut self, d: usize) -> E {
        let k = (*self.g.r.pick(&["a", "b", "id"])).to_string();
        let mut ops = vec![if self.g.r.bool() { Op::AttrSplat } else { Op::FullSplat }];
        let b = if self.g.r.pct(30) {
            ops.extend([Op::Attr(k.clone())]);
            base(self.e(W::Arr, d - 1))
        } else {
            // Objects with one more level below.
            let k2 = (*self.g.r.pick(&["a", "b", "c"])).to_string();
            let n = self.g.n(4);
            let a = (0..n)
                .map(|_| {
                    let x = E::Arr((0..self.g.r.range(1, 3)).map(|_| self.e(W::Any, d - 1)).collect());
                    E::Obj(vec![(K::Id(k.clone()), E::Obj(vec![(K::Id(k2.clone()), x)]))])
                })
                .collect();
            let all = [
                Op::Attr(k.clone()),
                Op::Attr(k2),
                Op::Idx(E::Num(N::U(self.g.r.below(2) as u64))),
            ];
            let n = self.g.r.below(4);
            ops.extend(all.into_iter().take(n));
            let b = E::Arr(a);
            match (self.g.r.below(8), b) {
                (0, E::Arr(mut a)) if !a.is_empty() => parens(a.remove(0)),
                (1, _) => parens(E::Null),
                (_, b) => b,
            }
        };
        if self.g.r.pct(15) {
            let op = match self.g.r.below(4) {
                0 => Op::AttrSplat,
                1 => Op::FullSplat,
                2 => Op::Attr(k),
                _ => Op::Legacy(self.g.r.below(2) as u64),
            };
            ops.push(op);
        }
        E::Trav(Box::new(b), ops)
    }

    fn call(&mut self, w: W, d: usize) -> Option<E> {
        if self.g.r.pct(self.wild) {
            let mut n = (*self.g.r.pick(&["nofunc", "f", "x::y"])).to_string();
            if !self.env.funcs.is_empty() && self.g.r.bool() {
                // The name of a function in another namespace.
                let k = self.g.r.below(self.env.funcs.len());
                n = match (self.g.r.below(4), self.env.funcs[k].0.as_str()) {
                    (0, f) => format!("x::{f}"),
                    (1, f) => format!("x::y::{f}"),
                    (2, f) => format!("{f}::{f}"),
                    (_, f) => f.rsplit("::").next().unwrap_or(f).to_string(),
                };
            }
            let f = self.env.func(&n).cloned();
            return Some(self.call_of(&n, f, w, d));
        }
        if self.env.funcs.is_empty() {
            return None;
        }
        let i = self.g.r.below(self.env.funcs.len());
        let n = self.env.funcs[i].0.clone();
        let f = self.env.func(&n).unwrap().clone();
        Some(self.call_of(&n, Some(f), w, d))
    }

    /// A call which mostly has the right arguments.
    pub fn call_of(&mut self, n: &str, f: Option<Func>, w: W, d: usize) -> E {
        let mut args = vec![];
        if let Some(f) = &f {
            for p in &f.params {
                args.push(self.arg(p, w, d));
            }
            if let Some(p) = &f.variadic {
                for _ in 0..self.g.r.below(3) {
                    args.push(self.arg(p, w, d));
                }
            }
            match self.g.r.below(30) {
                0 => {
                    args.pop();
                }
                1 => args.push(self.e(W::Any, d - 1)),
                _ => {}
            }
        } else if self.g.r.bool() {
            args.push(self.e(W::Any, d - 1));
        }
        let mut expand = false;
        if self.g.r.pct(25) {
            // Move some of the final arguments into an expanded list.
            expand = true;
            let n = args.len() - self.g.r.below(args.len() + 1);
            let rest = args.split_off(n);
            args.push(E::Arr(rest));
        } else if self.g.r.pct(5) && !args.is_empty() {
            expand = true;
        }
        let mut ns: Vec<Id> = n.split("::").map(str::to_string).collect();
        let name = ns.pop().unwrap();
        E::Call(Box::new(Call { ns, name, args, expand }))
    }

    fn arg(&mut self, p: &Pt, w: W, d: usize) -> E {
        match p {
            Pt::Any => self.e(w, d - 1),
            Pt::Bool => self.e(W::Bool, d - 1),
            Pt::Num => self.e(W::Num, d - 1),
            Pt::Str => self.e(W::Str, d - 1),
            p => {
                let v = self.val_of(p, 2);
                v.expr()
            }
        }
    }

    /// A value that satisfies the type.
    pub fn val_of(&mut self, p: &Pt, d: usize) -> V {
        match p {
            Pt::Any => self.val(W::Any, d.min(2)),
            Pt::Bool => self.val(W::Bool, 0),
            Pt::Num => self.val(W::Num, 0),
            Pt::Str => self.val(W::Str, 0),
            Pt::Arr(p) => {
                let n = self.g.n(3).min(20);
                V::Arr((0..n).map(|_| self.val_of(p, d)).collect())
            }
            Pt::Obj(p) => {
                let n = self.g.n(3).min(40);
                V::Obj((0..n).map(|i| (KEYS.get(i).map_or_else(|| format!("k{i}"), |k| k.to_string()), self.val_of(p, d))).collect())
            }
            Pt::OneOf(ps) if ps.is_empty() => self.val(W::Any, 1),
            Pt::OneOf(ps) => {
                let i = self.g.r.below(ps.len());
                self.val_of(&ps[i], d)
            }
            Pt::Nullable(p) => {
                if self.g.r.bool() {
                    V::Null
                } else {
                    self.val_of(p, d)
                }
            }
        }
    }

    fn vars(&mut self) -> (Option<Id>, Id) {
        let k = if self.g.r.bool() { Some(self.name()) } else { None };
        (k, self.name())
    }

    /// Puts the loop variables of the first element of a collection in scope.
    fn enter(&mut self, k: Option<&Id>, v: &Id, coll: &E) -> usize {
        let n = self.env.vars.len();
        let (key, val) = match self.sample(coll) {
            Some(V::Arr(a)) => (V::Num(N::U(0)), a.into_iter().next().unwrap_or(V::Null)),
            Some(V::Obj(o)) => o
                .into_iter()
                .next()
                .map(|(k, v)| (V::Str(k), v))
                .unwrap_or((V::Str("a".into()), V::Null)),
            _ => (V::Null, V::Null),
        };
        if let Some(k) = k {
            self.env.vars.push((k.clone(), key));
        }
        self.env.vars.push((v.clone(), val));
        n
    }

    pub fn for_(&mut self, obj: bool, d: usize) -> For {
        let w = *self.g.r.pick(&[W::Arr, W::Obj]);
        let coll = self.e(w, d - 1);
        let (key, val) = self.vars();
        let n = self.enter(key.as_ref(), &val, &coll);
        let kexpr = if obj {
            Some(match self.g.r.below(4) {
                0 => E::Tmpl(vec![T::Lit("k".into()), T::Interp(E::Var(val.clone()), (false, false))]),
                1 if key.is_some() => E::Var(key.clone().unwrap()),
                _ => {
                    let w = *self.g.r.pick(&[W::Str, W::Num]);
                    self.e(w, d - 1)
                }
            })
        } else {
            None
        };
        let vexpr = self.e(W::Any, d - 1);
        let cond = if self.g.r.pct(40) { Some(self.e(W::Bool, d - 1)) } else { None };
        self.env.vars.truncate(n);
        For {
            key,
            val,
            coll,
            kexpr,
            vexpr,
            group: obj && self.g.r.pct(50),
            cond,
        }
    }

    fn strip(&mut self) -> Strip {
        (self.g.r.pct(30), self.g.r.pct(30))
    }

    fn lit_text(&mut self, heredoc: bool) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.g.n(3) {
            s.push_str(match self.g.r.below(if heredoc { 16 } else { 20 }) {
                0..=2 => " ",
                3 => "  ",
                4 | 5 => "\n",
                6 => "\t",
                7 => "a",
                8 => "foo ",
                9 => "\n  x",
                10 => "é",
                11 => "${b}",
                12 => "%{c}",
                13 => "\"q\"",
                14 => "\u{a0}",
                15 => "{ }",
                16 => "\r\n",
                17 => "\\n",
                18 => "\r",
                _ => "\u{1}",
            });
        }
        s
    }

    /// Elements of a template.
    pub fn elems(&mut self, d: usize, heredoc: bool) -> Vec<T> {
        let n = 1 + self.g.n(4);
        let mut out = vec![];
        for _ in 0..n {
            match self.g.r.below(if d == 0 { 8 } else { 13 }) {
                0..=4 => {
                    let s = self.lit_text(heredoc);
                    out.push(T::Lit(s));
                }
                5..=7 => {
                    let w = *self.g.r.pick(&[W::Str, W::Str, W::Num, W::Any]);
                    let h = std::mem::replace(&mut self.heredocs, false);
                    let e = self.e(w, d.saturating_sub(1));
                    self.heredocs = h;
                    out.push(T::Interp(e, self.strip()));
                }
                8 | 9 | 10 => {
                    let h = std::mem::replace(&mut self.heredocs, false);
                    let cond = self.e(W::Bool, d - 1);
                    self.heredocs = h;
                    let then = self.elems_opt(d - 1, heredoc);
                    let els = if self.g.r.bool() {
                        Some((self.strip(), self.elems_opt(d - 1, heredoc)))
                    } else {
                        None
                    };
                    out.push(T::If(Box::new(If {
                        cond,
                        s1: self.strip(),
                        then,
                        els,
                        s3: self.strip(),
                    })));
                }
                _ => {
                    let h = std::mem::replace(&mut self.heredocs, false);
                    let w = *self.g.r.pick(&[W::Arr, W::Obj]);
                    let coll = self.e(w, d - 1);
                    self.heredocs = h;
                    let (key, val) = self.vars();
                    let n = self.enter(key.as_ref(), &val, &coll);
                    let body = self.elems_opt(d - 1, heredoc);
                    self.env.vars.truncate(n);
                    out.push(T::For(Box::new(ForD {
                        key,
                        val,
                        coll,
                        s1: self.strip(),
                        body,
                        s2: self.strip(),
                    })));
                }
            }
        }
        fix_lits(merge_lits(out))
    }

    fn elems_opt(&mut self, d: usize, heredoc: bool) -> Vec<T> {
        if self.g.r.pct(10) {
            vec![]
        } else {
            self.elems(d, heredoc)
        }
    }

    pub fn bare(&mut self, d: usize) -> Vec<T> {
        fix_tail(self.elems(d, false), false)
    }

    pub fn quoted(&mut self, d: usize) -> Vec<T> {
        let mut ts = self.bare(d);
        if ts.iter().all(|t| matches!(t, T::Lit(_))) {
            let e = self.leaf(W::Any);
            ts.push(T::Interp(e, self.strip()));
        }
        ts
    }

    pub fn heredoc(&mut self, d: usize) -> H {
        let strip = self.g.r.bool();
        let mut ts = vec![];
        if strip && self.g.r.pct(70) {
            ts.push(T::Lit(" ".repeat(self.g.n(5))));
        }
        ts.extend(self.elems(d, true));
        let pad = " ".repeat(self.g.r.below(4));
        for t in &mut ts {
            if let (T::Lit(s), true) = (t, strip) {
                *s = s.replace('\n', &format!("\n{pad}"));
            }
        }
        ts.push(T::Lit("\n".into()));
        H {
            delim: "EOT".into(),
            strip,
            indent: None,
            body: fix_tail(fix_lits(merge_lits(ts)), true),
        }
    }
}
