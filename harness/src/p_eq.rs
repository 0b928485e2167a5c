//! P24: equality, cloning and decoration of hcl-edit documents.

use crate::conv;
use crate::model::*;
use crate::p_edit::prog_opts;
use crate::p_parse::{edit_opts, first_diff, gen_body, require_kinds};
use crate::render::{render_body, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use hcl_edit::expr as ee;
use hcl_edit::expr::{Expression, ObjectKey, ObjectValueAssignment, ObjectValueTerminator, TraversalOperator};
use hcl_edit::structure::{Body, BlockLabel};
use hcl_edit::template::{Directive, Element, Template};
use hcl_edit::{Decor, Decorate, Span};

enum Node<'a> {
    Expr(&'a mut Expression),
    Decor(&'a mut Decor),
}

/// Walks over everything that has a decor, in the order of the text.
struct Walk<'f> {
    n: usize,
    /// `(true, i)`: node i starts, `(false, i)`: it ends.
    seq: Vec<(bool, usize)>,
    f: &'f mut dyn FnMut(usize, Node),
}

impl<'f> Walk<'f> {
    fn new(f: &'f mut dyn FnMut(usize, Node)) -> Walk<'f> {
        Walk { n: 0, seq: vec![], f }
    }
    fn enter(&mut self, node: Node) -> usize {
        let i = self.n;
        self.n += 1;
        (self.f)(i, node);
        self.seq.push((true, i));
        i
    }
    fn exit(&mut self, i: usize) {
        self.seq.push((false, i));
    }
    fn leaf(&mut self, d: &mut Decor) {
        let i = self.enter(Node::Decor(d));
        self.exit(i);
    }
    fn body(&mut self, b: &mut Body) {
        let i = self.enter(Node::Decor(b.decor_mut()));
        for mut s in b.iter_mut() {
            if let Some(mut a) = s.as_attribute_mut() {
                let i = self.enter(Node::Decor(a.decor_mut()));
                self.leaf(a.key_decor_mut());
                self.expr(a.value_mut());
                self.exit(i);
            } else if let Some(b) = s.as_block_mut() {
                let i = self.enter(Node::Decor(b.decor_mut()));
                self.leaf(b.ident.decor_mut());
                for l in &mut b.labels {
                    self.leaf(match l {
                        BlockLabel::Ident(l) => l.decor_mut(),
                        BlockLabel::String(l) => l.decor_mut(),
                    });
                }
                self.body(&mut b.body);
                self.exit(i);
            }
        }
        self.exit(i);
    }
    fn expr(&mut self, e: &mut Expression) {
        let i = self.enter(Node::Expr(e));
        match e {
            Expression::Array(a) => a.iter_mut().for_each(|e| self.expr(e)),
            Expression::Object(o) => {
                for (mut k, v) in o.iter_mut() {
                    // The parts of a key cannot be changed, but its decor can.
                    self.leaf(k.decor_mut());
                    self.expr(v.expr_mut());
                }
            }
            Expression::StringTemplate(t) => t.iter_mut().for_each(|e| self.elem(e)),
            Expression::HeredocTemplate(h) => self.template(&mut h.template),
            Expression::Parenthesis(p) => self.expr(p.inner_mut()),
            Expression::Conditional(x) => {
                self.expr(&mut x.cond_expr);
                self.expr(&mut x.true_expr);
                self.expr(&mut x.false_expr);
            }
            Expression::FuncCall(x) => {
                for i in &mut x.name.namespace {
                    self.leaf(i.decor_mut());
                }
                self.leaf(x.name.name.decor_mut());
                let i = self.enter(Node::Decor(x.args.decor_mut()));
                x.args.iter_mut().for_each(|e| self.expr(e));
                self.exit(i);
            }
            Expression::Traversal(x) => {
                self.expr(&mut x.expr);
                for o in &mut x.operators {
                    let i = self.enter(Node::Decor(o.decor_mut()));
                    match o.value_mut() {
                        TraversalOperator::AttrSplat(s) | TraversalOperator::FullSplat(s) => self.leaf(s.decor_mut()),
                        TraversalOperator::GetAttr(s) => self.leaf(s.decor_mut()),
                        TraversalOperator::LegacyIndex(s) => self.leaf(s.decor_mut()),
                        TraversalOperator::Index(e) => self.expr(e),
                    }
                    self.exit(i);
                }
            }
            Expression::UnaryOp(x) => self.expr(&mut x.expr),
            Expression::BinaryOp(x) => {
                self.expr(&mut x.lhs_expr);
                self.leaf(x.operator.decor_mut());
                self.expr(&mut x.rhs_expr);
            }
            Expression::ForExpr(x) => {
                let i = self.enter(Node::Decor(x.intro.decor_mut()));
                if let Some(k) = &mut x.intro.key_var {
                    self.leaf(k.decor_mut());
                }
                self.leaf(x.intro.value_var.decor_mut());
                self.expr(&mut x.intro.collection_expr);
                self.exit(i);
                if let Some(k) = &mut x.key_expr {
                    self.expr(k);
                }
                self.expr(&mut x.value_expr);
                if let Some(c) = &mut x.cond {
                    let i = self.enter(Node::Decor(c.decor_mut()));
                    self.expr(&mut c.expr);
                    self.exit(i);
                }
            }
            _ => {}
        }
        self.exit(i);
    }
    fn template(&mut self, t: &mut Template) {
        t.iter_mut().for_each(|e| self.elem(e));
    }
    fn elem(&mut self, e: &mut Element) {
        match e {
            Element::Literal(_) => {}
            Element::Interpolation(i) => self.expr(&mut i.expr),
            Element::Directive(d) => match &mut **d {
                Directive::If(d) => {
                    self.expr(&mut d.if_expr.cond_expr);
                    self.template(&mut d.if_expr.template);
                    if let Some(e) = &mut d.else_expr {
                        self.template(&mut e.template);
                    }
                }
                Directive::For(d) => {
                    if let Some(k) = &mut d.for_expr.key_var {
                        self.leaf(k.decor_mut());
                    }
                    self.leaf(d.for_expr.value_var.decor_mut());
                    self.expr(&mut d.for_expr.collection_expr);
                    self.template(&mut d.for_expr.template);
                }
            },
        }
    }
}

fn decor<'a>(n: Node<'a>) -> &'a mut Decor {
    match n {
        Node::Expr(e) => e.decor_mut(),
        Node::Decor(d) => d,
    }
}

/// Resets the layout of collections and directives, which is no content and no decoration.
fn plain_layout(b: &mut Body) {
    fn elem(e: &mut Element) {
        if let Element::Directive(d) = e {
            match &mut **d {
                Directive::If(d) => {
                    d.if_expr.set_preamble("");
                    d.if_expr.template.iter_mut().for_each(elem);
                    if let Some(e) = &mut d.else_expr {
                        e.set_preamble("");
                        e.set_trailing("");
                        e.template.iter_mut().for_each(elem);
                    }
                    d.endif_expr.set_preamble("");
                    d.endif_expr.set_trailing("");
                }
                Directive::For(d) => {
                    d.for_expr.set_preamble("");
                    d.for_expr.template.iter_mut().for_each(elem);
                    d.endfor_expr.set_preamble("");
                    d.endfor_expr.set_trailing("");
                }
            }
        }
    }
    let mut f = |_, n: Node| {
        if let Node::Expr(e) = n {
            match e {
                Expression::Array(a) => {
                    a.set_trailing("");
                    a.set_trailing_comma(false);
                }
                Expression::Object(o) => {
                    o.set_trailing("");
                    for (_, v) in o.iter_mut() {
                        v.set_assignment(ObjectValueAssignment::Equals);
                        v.set_terminator(ObjectValueTerminator::Comma);
                    }
                }
                Expression::FuncCall(c) => {
                    c.args.set_trailing("");
                    c.args.set_trailing_comma(false);
                }
                Expression::HeredocTemplate(h) => {
                    h.set_trailing("");
                    h.template.iter_mut().for_each(elem);
                }
                Expression::StringTemplate(t) => t.iter_mut().for_each(elem),
                _ => {}
            }
        }
    };
    Walk::new(&mut f).body(b);
}

/// Whether the document has an expression in an object key, whose layout cannot be changed.
fn expr_keys(b: &[S]) -> bool {
    let mut found = false;
    walk_b(b, &mut |e| {
        if let E::Obj(o) = e {
            found |= o.iter().any(|(k, _)| matches!(k, K::Ex(E::Arr(_) | E::Obj(_) | E::Call(_) | E::Tmpl(_) | E::Heredoc(_) | E::Paren(_) | E::Trav(..) | E::For(_) | E::Bin(..) | E::Un(..) | E::Cond(_))));
        }
    });
    found
}

// --- small changes of the model ----------------------------------------------------------------

pub fn mut_e(e: &mut E, f: &mut dyn FnMut(&mut E)) {
    f(e);
    match e {
        E::Tmpl(t) => mut_t(t, f),
        E::Heredoc(h) => mut_t(&mut h.body, f),
        E::Arr(a) => a.iter_mut().for_each(|e| mut_e(e, f)),
        E::Obj(o) => o.iter_mut().for_each(|(k, e)| {
            if let K::Ex(k) = k {
                mut_e(k, f);
            }
            mut_e(e, f);
        }),
        E::Paren(e) => mut_e(e, f),
        E::Cond(c) => {
            mut_e(&mut c.0, f);
            mut_e(&mut c.1, f);
            mut_e(&mut c.2, f);
        }
        E::Call(c) => c.args.iter_mut().for_each(|e| mut_e(e, f)),
        E::Trav(e, ops) => {
            mut_e(e, f);
            for o in ops {
                if let Op::Idx(e) = o {
                    mut_e(e, f);
                }
            }
        }
        E::Un(_, e) => mut_e(e, f),
        E::Bin(a, _, b) => {
            mut_e(a, f);
            mut_e(b, f);
        }
        E::For(x) => {
            mut_e(&mut x.coll, f);
            if let Some(k) = &mut x.kexpr {
                mut_e(k, f);
            }
            mut_e(&mut x.vexpr, f);
            if let Some(c) = &mut x.cond {
                mut_e(c, f);
            }
        }
        _ => {}
    }
}

fn mut_t(ts: &mut [T], f: &mut dyn FnMut(&mut E)) {
    for t in ts {
        match t {
            T::Lit(_) => {}
            T::Interp(e, _) => mut_e(e, f),
            T::If(d) => {
                mut_e(&mut d.cond, f);
                mut_t(&mut d.then, f);
                if let Some((_, t)) = &mut d.els {
                    mut_t(t, f);
                }
            }
            T::For(d) => {
                mut_e(&mut d.coll, f);
                mut_t(&mut d.body, f);
            }
        }
    }
}

fn mut_b(b: &mut [S], f: &mut dyn FnMut(&mut E)) {
    for s in b {
        match s {
            S::Attr(_, e) => mut_e(e, f),
            S::Block(b) => mut_b(&mut b.body, f),
        }
    }
}

fn flip(r: &mut Rng, s: &mut Strip) {
    if r.bool() {
        s.0 = !s.0;
    } else {
        s.1 = !s.1;
    }
}

fn tweak_ts(r: &mut Rng, ts: &mut Vec<T>) {
    if ts.is_empty() {
        ts.push(T::Lit("x".into()));
        return;
    }
    let i = r.below(ts.len());
    if r.one_in(5) {
        ts.remove(i);
        return;
    }
    match &mut ts[i] {
        T::Lit(s) => s.push('!'),
        T::Interp(_, s) => flip(r, s),
        T::If(d) => match r.below(4) {
            0 => flip(r, &mut d.s1),
            1 => flip(r, &mut d.s3),
            2 => match &mut d.els {
                Some((s, _)) if r.bool() => flip(r, s),
                Some(_) => d.els = None,
                None => d.els = Some(((false, false), vec![])),
            },
            _ => tweak_ts(r, &mut d.then),
        },
        T::For(d) => match r.below(4) {
            0 => flip(r, &mut d.s1),
            1 => flip(r, &mut d.s2),
            2 => d.key = if d.key.is_some() { None } else { Some("k9".into()) },
            _ => tweak_ts(r, &mut d.body),
        },
    }
}

fn tweak_e(r: &mut Rng, e: &mut E) {
    if r.one_in(12) {
        *e = E::Var("other".into());
        return;
    }
    match e {
        E::Null => *e = E::Bool(r.bool()),
        E::Bool(b) => *b = !*b,
        E::Num(n) => {
            *n = match (*n, r.below(3)) {
                (N::U(u), 0) => N::U(u ^ 1),
                (N::U(u), 1) => N::U(u ^ (1 << 63)),
                (n, 0) => n.neg(),
                (n, _) => {
                    let f = n.f64() + 0.5;
                    N::from_f64(f).unwrap_or(N::U(3))
                }
            }
        }
        E::Str(s) => {
            if r.bool() {
                s.push('x');
            } else if s.pop().is_none() {
                s.push(' ');
            }
        }
        E::Tmpl(t) => tweak_ts(r, t),
        E::Heredoc(h) => match r.below(3) {
            0 => h.delim.push('X'),
            1 => {
                h.strip = !h.strip;
                h.indent = h.strip.then_some(0);
            }
            _ => tweak_ts(r, &mut h.body),
        },
        E::Arr(a) => match r.below(3) {
            0 => a.push(E::Null),
            1 if a.len() > 1 => {
                let i = r.below(a.len() - 1);
                a.swap(i, i + 1);
            }
            _ => {
                if a.pop().is_none() {
                    a.push(E::Null);
                }
            }
        },
        E::Obj(o) => match r.below(3) {
            0 => o.push((K::Id("other_key".into()), E::Null)),
            1 if !o.is_empty() => {
                let i = r.below(o.len());
                o[i].0 = K::Id("another_key".into());
            }
            _ => {
                if o.pop().is_none() {
                    o.push((K::Id("k".into()), E::Null));
                }
            }
        },
        E::Paren(x) => *e = (**x).clone(),
        E::Var(s) => s.push('x'),
        E::Cond(c) => {
            let (a, b, d) = (**c).clone();
            **c = if r.bool() { (a, d, b) } else { (b, a, d) };
        }
        E::Call(c) => match r.below(4) {
            0 => c.name.push('x'),
            1 => c.ns.push("ns".into()),
            2 if !c.args.is_empty() => c.expand = !c.expand,
            _ => {
                if c.args.pop().is_none() {
                    c.args.push(E::Null);
                }
            }
        },
        E::Trav(_, ops) => match r.below(3) {
            0 => ops.push(Op::FullSplat),
            1 if ops.len() > 1 => {
                ops.pop();
            }
            _ => {
                let i = r.below(ops.len());
                ops[i] = match &ops[i] {
                    Op::Attr(s) => Op::Idx(E::Str(s.clone())),
                    Op::Idx(_) => Op::Legacy(0),
                    Op::Legacy(n) => Op::Legacy(n ^ 1),
                    Op::AttrSplat => Op::FullSplat,
                    Op::FullSplat => Op::AttrSplat,
                };
            }
        },
        E::Un(o, _) => *o = if *o == UnOp::Neg { UnOp::Not } else { UnOp::Neg },
        E::Bin(_, o, _) => {
            let i = BINOPS.iter().position(|x| x == o).unwrap();
            *o = BINOPS[(i + 1 + r.below(12)) % 13];
        }
        E::For(f) => match r.below(5) {
            0 => f.key = if f.key.is_some() { None } else { Some("k9".into()) },
            1 => f.val.push('x'),
            2 if f.kexpr.is_some() => f.group = !f.group,
            3 => f.cond = if f.cond.is_some() { None } else { Some(E::Bool(true)) },
            _ => f.kexpr = if f.kexpr.is_some() { None } else { Some(E::Null) },
        },
    }
}

fn tweak_b(r: &mut Rng, b: &mut Vec<S>) {
    let mut n = 0;
    mut_b(b, &mut |_| n += 1);
    if n > 0 && r.pct(75) {
        let target = r.below(n);
        let mut i = 0;
        mut_b(b, &mut |e| {
            if i == target {
                tweak_e(r, e);
            }
            i += 1;
        });
        return;
    }
    if b.is_empty() {
        b.push(S::Attr("fresh".into(), E::Null));
        return;
    }
    let i = r.below(b.len());
    match r.below(5) {
        0 => {
            b.remove(i);
        }
        1 if b.len() > 1 => {
            let i = r.below(b.len() - 1);
            b.swap(i, i + 1);
        }
        _ => match &mut b[i] {
            S::Attr(k, _) => k.push_str("_9"),
            S::Block(x) => match r.below(4) {
                0 => x.ident.push_str("_9"),
                1 => x.labels.push(L::Str("l".into())),
                2 if !x.labels.is_empty() => {
                    let i = r.below(x.labels.len());
                    x.labels[i] = match &x.labels[i] {
                        L::Id(s) => L::Str(s.clone()),
                        L::Str(s) => L::Str(format!("{s}x")),
                    };
                }
                _ => tweak_b(r, &mut x.body),
            },
        },
    }
}

// --- checks --------------------------------------------------------------------------------------

macro_rules! same {
    ($obs:expr, $src:expr, $what:expr, $a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            $obs.fail($src.to_string(), format!("{}: got {}", $what, first_diff(&format!("{a:?}"), &format!("{b:?}"))));
            return;
        }
    }};
}

const JUNK: [&str; 7] = ["", " ", "  /* c */ ", "\n", "# c\n", "\t", "\u{1F600}"];

/// Equality does not see decoration, spans and spelling; clones are independent.
fn equality(obs: &mut Obs, rng: &mut Rng, src: &str, body: &Body) {
    let text = body.to_string();
    let mut other = body.clone();
    same!(obs, src, "text of a clone", other.to_string(), text);
    if !(other == *body) || other != *body {
        obs.fail(src, "a clone is not equal");
        return;
    }
    // Redecorate.
    let p = [100, 50, 10][rng.below(3)];
    let mut n = 0;
    let mut f = |_: usize, node: Node| {
        if !rng.pct(p) {
            return;
        }
        n += 1;
        let node = match node {
            Node::Expr(Expression::Number(x)) if rng.bool() => {
                x.format();
                return;
            }
            n => n,
        };
        let d = decor(node);
        match rng.below(5) {
            0 => d.clear(),
            1 => d.set_prefix(JUNK[rng.below(7)]),
            2 => d.set_suffix(JUNK[rng.below(7)]),
            3 => *d = Decor::new(JUNK[rng.below(7)], JUNK[rng.below(7)]),
            _ => *d = Decor::from((JUNK[rng.below(7)].to_string(), JUNK[rng.below(7)])),
        }
    };
    Walk::new(&mut f).body(&mut other);
    other.set_prefer_oneline(rng.bool());
    other.set_prefer_omit_trailing_newline(rng.bool());
    obs.feat_n("redecorated nodes", n);
    if other != *body || *body != other {
        obs.fail(src, format!("changing decoration changed equality: {other:?}"));
        return;
    }
    same!(obs, src, "content behind redecoration", conv::edit_body(&other), conv::edit_body(body));
    // Raw template text keeps the decoration of interpolations, so the meaning is compared, and
    // the decoration has to be valid.
    let mut clear = body.clone();
    Walk::new(&mut |_, n| decor(n).clear()).body(&mut clear);
    same!(obs, src, "converted tree of a document without decoration", rs(&clear), rs(body));
    same!(obs, src, "text of the original behind changes of a clone", body.to_string(), text);
    // Object lookups do not see decoration either.
    let mut keys = vec![];
    let mut f = |_: usize, n: Node| {
        if let Node::Expr(Expression::Object(o)) = n {
            let ks: Vec<ObjectKey> = o.iter().map(|(k, _)| k.clone()).collect();
            for mut k in ks {
                k.decorate((" /* k */ ", "\n"));
                keys.push(o.get(&k).is_some() && o.contains_key(&k));
            }
        }
    };
    Walk::new(&mut f).body(&mut other);
    obs.feat_n("looked up keys", keys.len() as u64);
    if keys.contains(&false) {
        obs.fail(src, "an object does not find its own key with another decoration");
    }
}

/// Two documents are equal exactly when their models are.
fn distinct(obs: &mut Obs, rng: &mut Rng, m1: &[S], a: &Body) {
    let mut m2 = m1.to_vec();
    let changed = rng.pct(85);
    if changed {
        tweak_b(rng, &mut m2);
    }
    let b = conv::to_edit_body(&m2);
    let (n1, n2) = (conv::edit_body(a), conv::edit_body(&b));
    let same = n1 == n2;
    obs.feat(if same { "equal pair" } else { "different pair" });
    let src = format!("{a}\n--- other\n{b}");
    if (*a == b) != same || (b == *a) != same || (*a != b) == same {
        obs.fail(src, format!("documents are equal: {} and {}, but their content is equal: {same}", *a == b, b == *a));
        return;
    }
    // Expression by expression.
    let (mut a, mut b) = (a.clone(), b);
    let mut xs: Vec<Expression> = vec![];
    let mut f = |_: usize, n: Node| {
        if let Node::Expr(e) = n {
            xs.push(e.clone());
        }
    };
    Walk::new(&mut f).body(&mut a);
    Walk::new(&mut f).body(&mut b);
    for _ in 0..12.min(xs.len() * xs.len()) {
        let (x, y, z) = (rng.pick(&xs), rng.pick(&xs), rng.pick(&xs));
        let same = conv::edit_expr(x) == conv::edit_expr(y);
        if (x == y) != same {
            obs.fail(format!("{x}\n--- other\n{y}"), format!("expressions are equal: {}, but their content is equal: {same}", x == y));
            return;
        }
        if (x == y) != (y == x) || x != x || (x == y && y == z && x != z) {
            obs.fail(format!("{x}\n--- other\n{y}\n--- third\n{z}"), "equality is not an equivalence");
            return;
        }
        if same && re(x) != re(y) {
            obs.fail(format!("{x}\n--- other\n{y}"), "equal expressions are converted to different ones");
            return;
        }
        obs.feat("compared expressions");
    }
}

fn rs(b: &Body) -> Result<Vec<S>, String> {
    conv::rs_body(&hcl::Body::from(b.clone())).map(|b| nb(&b, Nf::Rs)).map_err(|e| format!("{e:?}"))
}

fn re(e: &Expression) -> hcl::Expression {
    e.clone().into()
}

/// Prefix and suffix appear around the node.
fn decoration(obs: &mut Obs, rng: &mut Rng, src: &str, body: &Body) {
    let p = [100, 40, 8][rng.below(3)];
    let seed = rng.u64();
    let mut bad = None;
    let mut seq = vec![];
    let mut texts = vec![];
    for marked in [false, true] {
        let mut b = body.clone();
        let mut r = Rng::new(seed);
        let mut which = vec![];
        let mut f = |i: usize, node: Node| {
            let k = if r.pct(p) { 1 + r.below(7) } else { 0 };
            which.push(k);
            if k == 0 {
                return;
            }
            let (pre, suf) = if marked { (format!("\u{27e6}{i}<\u{27e7}"), format!("\u{27e6}{i}>\u{27e7}")) } else { (String::new(), String::new()) };
            let d = decor(node);
            let old = d.clone();
            match k {
                1 => {
                    d.set_prefix(pre.as_str());
                    d.set_suffix(suf.clone());
                }
                2 => *d = Decor::new(pre.clone(), suf.as_str()),
                3 => {
                    d.set_prefix(pre.clone());
                    if d.suffix() != old.suffix() {
                        bad = Some("set_prefix changed the suffix");
                    }
                }
                4 => {
                    d.set_suffix(suf.clone());
                    if d.prefix() != old.prefix() {
                        bad = Some("set_suffix changed the prefix");
                    }
                }
                5 => *d = (pre.clone(), suf.clone()).into(),
                6 => {
                    // One side only: it replaces both.
                    *d = Decor::default();
                    d.set_prefix(pre.clone());
                    if d.suffix().is_some() {
                        bad = Some("a new decor has a suffix");
                    }
                    d.set_suffix(suf.clone());
                }
                _ => {
                    d.clear();
                    if d.prefix().is_some() || d.suffix().is_some() {
                        bad = Some("a cleared decor is not empty");
                    }
                    d.set_suffix(suf.clone());
                    d.set_prefix(pre.clone());
                }
            }
            if k != 4 && d.prefix().map(|p| p.to_string()) != Some(pre) || k != 3 && d.suffix().map(|p| p.to_string()) != Some(suf) {
                bad = Some("the decor does not return what was set");
            }
        };
        let mut w = Walk::new(&mut f);
        w.body(&mut b);
        seq = w.seq;
        seq.retain(|(start, i)| match which[*i] {
            0 => false,
            3 => *start,
            4 => !*start,
            _ => true,
        });
        texts.push(b.to_string());
    }
    if let Some(b) = bad {
        obs.fail(src, b);
        return;
    }
    // Take the marks out of the text.
    let mut found = vec![];
    let mut plain = String::new();
    let mut at = std::collections::HashMap::new();
    let mut rest = texts[1].as_str();
    while let Some(i) = rest.find('\u{27e6}') {
        plain.push_str(&rest[..i]);
        rest = &rest[i + '\u{27e6}'.len_utf8()..];
        let Some((mark, r)) = rest.split_once('\u{27e7}') else { break };
        let start = mark.ends_with('<');
        let n: usize = mark[..mark.len() - 1].parse().unwrap_or(usize::MAX);
        found.push((start, n));
        at.insert((start, n), plain.len());
        rest = r;
    }
    plain.push_str(rest);
    obs.feat_n("decoration marks", found.len() as u64);
    if plain != texts[0] {
        obs.fail(format!("{src}\n--- decorated\n{}", texts[1]), format!("decoration changed other text: {}", first_diff(&plain, &texts[0])));
        return;
    }
    if found != seq {
        let i = found.iter().zip(&seq).take_while(|(a, b)| a == b).count();
        obs.fail(
            format!("{src}\n--- decorated\n{}", texts[1]),
            format!("decoration appears in the wrong place: mark {i} is {:?}, expected {:?}", found.get(i), seq.get(i)),
        );
        return;
    }
    // The text between the marks of an expression is the text of the expression.
    let mut b = body.clone();
    let mut r = Rng::new(seed);
    let mut exprs = std::collections::HashMap::new();
    let mut f = |i: usize, node: Node| {
        let k = if r.pct(p) { 1 + r.below(7) } else { 0 };
        if k == 0 {
            return;
        }
        let d = decor(node);
        if k != 4 {
            d.set_prefix("");
        }
        if k != 3 {
            d.set_suffix("");
        }
        let _ = i;
    };
    Walk::new(&mut f).body(&mut b);
    let mut f = |i: usize, node: Node| {
        if let Node::Expr(e) = node {
            exprs.insert(i, e.to_string());
        }
    };
    Walk::new(&mut f).body(&mut b);
    for (i, e) in &exprs {
        if let (Some(s), Some(t)) = (at.get(&(true, *i)), at.get(&(false, *i))) {
            obs.feat("delimited expressions");
            if plain.get(*s..*t) != Some(e) {
                obs.fail(
                    format!("{src}\n--- decorated\n{}", texts[1]),
                    format!("the text between prefix and suffix is {:?}, the expression is {e:?}", plain.get(*s..*t)),
                );
                return;
            }
        }
    }
}

/// Kinds and contents as seen by the accessors.
fn accessors(obs: &mut Obs, src: &str, body: &Body) {
    let mut b = body.clone();
    let mut bad: Option<String> = None;
    let mut f = |_: usize, n: Node| {
        let Node::Expr(e) = n else { return };
        let m = conv::edit_expr(e);
        let is = [
            e.is_null(),
            e.is_bool(),
            e.is_number(),
            e.is_str(),
            e.is_array(),
            e.is_object(),
            e.is_string_template(),
            e.is_heredoc_template(),
            e.is_parenthesis(),
            e.is_variable(),
            e.is_conditional(),
            e.is_func_call(),
            e.is_traversal(),
            e.is_unary_op(),
            e.is_binary_op(),
            e.is_for_expr(),
        ];
        let some = [
            e.is_null(),
            e.as_bool().is_some(),
            e.as_number().is_some(),
            e.as_str().is_some(),
            e.as_array().is_some(),
            e.as_object().is_some(),
            e.as_string_template().is_some(),
            e.as_heredoc_template().is_some(),
            e.as_parenthesis().is_some(),
            e.as_variable().is_some(),
            e.as_conditional().is_some(),
            e.as_func_call().is_some(),
            e.as_traversal().is_some(),
            e.as_unary_op().is_some(),
            e.as_binary_op().is_some(),
            e.as_for_expr().is_some(),
        ];
        let want = match &m {
            E::Null => 0,
            E::Bool(_) => 1,
            E::Num(_) => 2,
            E::Str(_) => 3,
            E::Arr(_) => 4,
            E::Obj(_) => 5,
            E::Tmpl(_) => 6,
            E::Heredoc(_) => 7,
            E::Paren(_) => 8,
            E::Var(_) => 9,
            E::Cond(_) => 10,
            E::Call(_) => 11,
            E::Trav(..) => 12,
            E::Un(..) => 13,
            E::Bin(..) => 14,
            E::For(_) => 15,
        };
        obs.feat("accessed expressions");
        for i in 0..16 {
            if is[i] != (i == want) || some[i] != (i == want) {
                bad = Some(format!("accessor {i} of {m:?}: is {} as {}", is[i], some[i]));
            }
        }
        let template = want == 6 || want == 7;
        if e.is_template() != template || e.as_template().is_some() != template {
            bad = Some(format!("is_template or as_template of {m:?}"));
        }
        if e.as_array_mut().is_some() != (want == 4) || e.as_object_mut().is_some() != (want == 5) {
            bad = Some(format!("as_array_mut or as_object_mut of {m:?}"));
        }
        let content = match &m {
            E::Bool(x) => e.as_bool() == Some(*x),
            E::Num(x) => e.as_number().map(conv::num_of) == Some(*x),
            E::Str(x) => e.as_str() == Some(x),
            E::Arr(x) => e.as_array().map(|a| a.iter().map(conv::edit_expr).collect::<Vec<_>>()).as_ref() == Some(x),
            E::Obj(x) => e.as_object().map(ee::Object::len) == Some(x.len()),
            E::Tmpl(x) => e.as_template().map(conv::edit_template).as_ref() == Some(x),
            E::Heredoc(x) => e.as_template().map(conv::edit_template).as_ref() == Some(&x.body) && e.as_heredoc_template().map(|h| h.delimiter.as_str()) == Some(&x.delim),
            E::Paren(x) => e.as_parenthesis().map(|p| conv::edit_expr(p.inner())).as_ref() == Some(x),
            E::Var(x) => e.as_variable().map(|v| v.as_str()) == Some(x),
            E::Un(_, x) => e.as_unary_op().map(|u| conv::edit_expr(&u.expr)).as_ref() == Some(x),
            _ => true,
        };
        if !content {
            bad = Some(format!("the accessor returns another content than {m:?}"));
        }
    };
    Walk::new(&mut f).body(&mut b);
    if let Some(b) = bad {
        obs.fail(src, b);
    }
}

/// What is set on nodes is what their getters return, and a clone keeps it.
fn layout(obs: &mut Obs, rng: &mut Rng, src: &str, body: &Body) {
    let mut b = body.clone();
    let mut bad: Option<&str> = None;
    let mut n = 0;
    let mut f = |_: usize, node: Node| {
        let Node::Expr(e) = node else { return };
        let (s, y) = (JUNK[rng.below(7)], rng.bool());
        let mut ok = |what: &'static str, x: bool| {
            n += 1;
            if !x {
                bad = Some(what);
            }
        };
        // A decoration with one side only replaces both sides.
        let (old, mut half) = (e.decor().clone(), Decor::default());
        if y {
            half.set_prefix(s);
        } else {
            half.set_suffix(s);
        }
        e.decorate(half.clone());
        ok("one-sided decoration", *e.decor() == half && e.decor().prefix().is_some() == y && e.decor().suffix().is_some() != y);
        e.decorate(old);
        match e {
            Expression::Array(a) => {
                a.set_trailing(s);
                a.set_trailing_comma(y);
                ok("trailing of an array", &**a.trailing() == s && a.trailing_comma() == y);
                let c = a.clone();
                ok("layout of a cloned array", c.trailing() == a.trailing() && c.trailing_comma() == y);
            }
            Expression::Object(o) => {
                o.set_trailing(s);
                ok("trailing of an object", &**o.trailing() == s);
                for (_, v) in o.iter_mut() {
                    let a = *rng.pick(&[ObjectValueAssignment::Colon, ObjectValueAssignment::Equals]);
                    let t = *rng.pick(&[ObjectValueTerminator::None, ObjectValueTerminator::Newline, ObjectValueTerminator::Comma]);
                    v.set_assignment(a);
                    v.set_terminator(t);
                    ok("assignment and terminator of an object item", v.assignment() == a && v.terminator() == t);
                    let c = v.clone();
                    ok("layout of a cloned object item", c.assignment() == a && c.terminator() == t && c.into_expr() == *v.expr());
                }
            }
            Expression::FuncCall(c) => {
                c.args.set_trailing(s);
                c.args.set_trailing_comma(y);
                let x = c.args.expand_final();
                c.args.set_expand_final(!x);
                ok("layout of arguments", &**c.args.trailing() == s && c.args.trailing_comma() == y && c.args.expand_final() != x);
            }
            Expression::HeredocTemplate(h) => {
                h.set_trailing(s);
                h.set_indent(5);
                ok("layout of a heredoc", &**h.trailing() == s && h.indent() == Some(5));
            }
            Expression::ForExpr(x) => {
                x.set_trailing(s);
                ok("trailing of a for expression", &**x.trailing() == s);
            }
            _ => {}
        }
    };
    Walk::new(&mut f).body(&mut b);
    for (one, omit) in [(true, false), (false, true), (true, true), (false, false)] {
        b.set_prefer_oneline(one);
        b.set_prefer_omit_trailing_newline(omit);
        if b.prefer_oneline() != one || b.prefer_omit_trailing_newline() != omit {
            bad = Some("preferences of a body");
        }
        let c = b.clone();
        if c.prefer_oneline() != one || c.prefer_omit_trailing_newline() != omit || c.to_string() != b.to_string() {
            bad = Some("preferences of a cloned body");
        }
    }
    obs.feat_n("layout accessors", n);
    if let Some(b) = bad {
        obs.fail(src, format!("{b} is not what was set"));
    }
}

pub fn p24(m: &mut Mon) {
    m.rule = "a document counts when it has at least two structures or a nested expression".into();
    require_kinds(m);
    for (f, n) in [
        ("redecorated nodes", 10_000),
        ("equal pair", 500),
        ("different pair", 3000),
        ("decoration marks", 20_000),
        ("delimited expressions", 5000),
        ("compared expressions", 10_000),
        ("accessed expressions", 10_000),
        ("layout accessors", 3000),
        ("compared renderings", 300),
        ("looked up keys", 500),
    ] {
        m.require(f, n);
    }
    m.cases("parsed", m.n(8000), |obs, rng, _| {
        let mut o = edit_opts();
        o.heredocs = true;
        o.marker_tail = false; // see the finding of P12
        let b = gen_body(rng, o);
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        let (src, _) = render_body(rng, &b, Mode::Lossless);
        obs.case(&src, b.len() > 1);
        let Ok(body) = src.parse::<Body>() else {
            obs.feat("unparsed");
            return;
        };
        equality(obs, rng, &src, &body);
        decoration(obs, rng, &src, &body);
        accessors(obs, &src, &body);
        layout(obs, rng, &src, &body);
        // Spans do not matter either: a parsed document has none once it is rebuilt, and another
        // rendering of the model has other ones.
        let mode = if rng.bool() { Mode::Wild } else { Mode::Lossless };
        let (src2, _) = render_body(rng, &b, mode);
        if let Ok(mut x) = src2.parse::<Body>() {
            let mut y = body.clone();
            plain_layout(&mut x);
            plain_layout(&mut y);
            if !expr_keys(&b) {
                let same = conv::edit_body(&x) == conv::edit_body(&y);
                if (x == y) != same {
                    obs.fail(format!("{src}\n--- other\n{src2}"), format!("renderings of one document are equal: {}, but their content is equal: {same}", x == y));
                }
                obs.feat("compared renderings");
            }
        }
    });
    m.cases("built", m.n(8000), |obs, rng, _| {
        let b = gen_body(rng, prog_opts());
        let body = conv::to_edit_body(&b);
        let src = body.to_string();
        obs.case(&src, b.len() > 1);
        if body.span().is_some() {
            obs.fail(src.clone(), "a built body has a span");
        }
        equality(obs, rng, &src, &body);
        distinct(obs, rng, &b, &body);
        decoration(obs, rng, &src, &body);
    });
}
