//! P10: visitors reach every node exactly once, in document order.

use crate::conv;
use crate::gen::Opts;
use crate::model::*;
use crate::p_parse::{edit_opts, first_diff, gen_body, require_kinds};
use crate::p_edit::prog_opts;
use crate::render::{render_body, Mode};
use crate::rng::{hash64, Rng};
use crate::run::{Mon, Obs};
use hcl_edit::expr::{self as ee, *};
use hcl_edit::structure::{Attribute, AttributeMut, Block as EBlock, BlockLabel, Body, Structure, StructureMut};
use hcl_edit::template::{self as et, *};
use hcl_edit::visit::{self, Visit};
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decorated, Formatted, Ident, Number, Spanned};

/// A recorded call of a hook: `In` and `Out` of one that descends, or a leaf.
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    In(&'static str, String),
    Out,
    Leaf(&'static str, String),
}

#[derive(Default)]
struct Log {
    ev: Vec<Ev>,
    /// Hooks which do not descend.
    prune: Vec<&'static str>,
}

impl Log {
    fn leaf(&mut self, n: &'static str, p: impl ToString) {
        self.ev.push(Ev::Leaf(n, p.to_string()));
    }
    fn enter(&mut self, n: &'static str, p: impl ToString) -> bool {
        if self.prune.contains(&n) {
            self.leaf(n, p);
            return false;
        }
        self.ev.push(Ev::In(n, p.to_string()));
        true
    }
    fn exit(&mut self) {
        self.ev.push(Ev::Out);
    }
}

fn sig(x: &impl std::fmt::Debug) -> String {
    let s = format!("{x:?}");
    if s.len() < 60 {
        s
    } else {
        format!("{}~{:x}", s.chars().take(24).collect::<String>(), hash64(s.as_bytes()))
    }
}

// --- the expected log ------------------------------------------------------------------------

struct Want {
    l: Log,
    mutable: bool,
}

impl Want {
    fn node(&mut self, n: &'static str, p: impl ToString, f: impl FnOnce(&mut Want)) {
        if self.l.enter(n, p) {
            f(self);
            self.l.exit();
        }
    }

    fn ident(&mut self, s: &str) {
        self.l.leaf("ident", s);
    }

    fn body(&mut self, b: &[S]) {
        self.node("body", sig(&b), |w| {
            for s in b {
                w.node("structure", sig(s), |w| match s {
                    S::Attr(k, v) => w.node("attr", sig(s), |w| {
                        if !w.mutable {
                            w.ident(k);
                        }
                        w.expr(v);
                    }),
                    S::Block(b) => w.node("block", sig(b), |w| {
                        w.ident(&b.ident);
                        for l in &b.labels {
                            w.node("label", sig(l), |w| match l {
                                L::Id(s) => w.ident(s),
                                L::Str(s) => w.l.leaf("string", s),
                            });
                        }
                        w.body(&b.body);
                    }),
                });
            }
        });
    }

    fn expr(&mut self, e: &E) {
        self.node("expr", sig(e), |w| match e {
            E::Null => w.l.leaf("null", ""),
            E::Bool(b) => w.l.leaf("bool", b),
            E::Num(n) => w.l.leaf("number", sig(n)),
            E::Str(s) => w.l.leaf("string", s),
            E::Tmpl(t) => w.node("string template", sig(t), |w| t.iter().for_each(|t| w.elem(t))),
            E::Heredoc(h) => w.node("heredoc", &h.delim, |w| w.template(&h.body)),
            E::Arr(a) => w.node("array", sig(a), |w| a.iter().for_each(|e| w.expr(e))),
            E::Obj(o) => w.node("object", o.len(), |w| {
                for (k, v) in o {
                    w.node("object item", sig(k), |w| {
                        if w.mutable {
                            w.l.leaf("object key", sig(k));
                        } else {
                            w.node("object key", sig(k), |w| match k {
                                K::Id(s) => w.ident(s),
                                K::Ex(e) => w.expr(e),
                            });
                        }
                        w.node("object value", sig(v), |w| w.expr(v));
                    });
                }
            }),
            E::Paren(e) => w.node("parenthesis", "", |w| w.expr(e)),
            E::Var(s) => w.ident(s),
            E::Cond(c) => w.node("conditional", "", |w| {
                w.expr(&c.0);
                w.expr(&c.1);
                w.expr(&c.2);
            }),
            E::Call(c) => w.node("call", c.expand, |w| {
                w.node("call name", &c.name, |w| {
                    c.ns.iter().for_each(|s| w.ident(s));
                    w.ident(&c.name);
                });
                w.node("call args", c.args.len(), |w| c.args.iter().for_each(|e| w.expr(e)));
            }),
            E::Trav(e, ops) => w.node("traversal", ops.len(), |w| {
                w.expr(e);
                for o in ops {
                    w.node("traversal operator", sig(o), |w| match o {
                        Op::Attr(s) => w.ident(s),
                        Op::Idx(e) => w.expr(e),
                        Op::Legacy(u) => w.l.leaf("u64", u),
                        Op::AttrSplat | Op::FullSplat => w.l.leaf("splat", ""),
                    });
                }
            }),
            E::Un(o, e) => w.node("unary", "", |w| {
                w.l.leaf("unary operator", sig(o));
                w.expr(e);
            }),
            E::Bin(a, o, b) => w.node("binary", "", |w| {
                w.expr(a);
                w.l.leaf("binary operator", o.s());
                w.expr(b);
            }),
            E::For(f) => w.node("for expr", f.group, |w| {
                w.node("for intro", &f.val, |w| {
                    if let Some(k) = &f.key {
                        w.ident(k);
                    }
                    w.ident(&f.val);
                    w.expr(&f.coll);
                });
                if let Some(k) = &f.kexpr {
                    w.expr(k);
                }
                w.expr(&f.vexpr);
                if let Some(c) = &f.cond {
                    w.node("for cond", "", |w| w.expr(c));
                }
            }),
        });
    }

    fn template(&mut self, t: &[T]) {
        self.node("template", sig(&t), |w| t.iter().for_each(|t| w.elem(t)));
    }

    fn elem(&mut self, t: &T) {
        self.node("element", sig(t), |w| match t {
            T::Lit(s) => w.l.leaf("literal", s),
            T::Interp(e, s) => w.node("interpolation", sig(s), |w| w.expr(e)),
            T::If(d) => w.node("directive", "if", |w| {
                w.node("if directive", d.els.is_some(), |w| {
                    w.node("if", sig(&d.s1), |w| {
                        w.expr(&d.cond);
                        w.template(&d.then);
                    });
                    if let Some((s, t)) = &d.els {
                        w.node("else", sig(s), |w| w.template(t));
                    }
                    w.l.leaf("endif", sig(&d.s3));
                });
            }),
            T::For(d) => w.node("directive", "for", |w| {
                w.node("for directive", "", |w| {
                    w.node("for", sig(&d.s1), |w| {
                        if let Some(k) = &d.key {
                            w.ident(k);
                        }
                        w.ident(&d.val);
                        w.expr(&d.coll);
                        w.template(&d.body);
                    });
                    w.l.leaf("endfor", sig(&d.s2));
                });
            }),
        });
    }
}

// --- the recording visitors ------------------------------------------------------------------

fn strip(s: hcl_edit::template::Strip) -> Strip2 {
    use hcl_edit::template::Strip as X;
    match s {
        X::None => (false, false),
        X::Start => (true, false),
        X::End => (false, true),
        X::Both => (true, true),
    }
}
fn reader() -> conv::ReadEdit {
    conv::ReadEdit { exact: true, ..Default::default() }
}
fn rb(b: &Body) -> B {
    reader().body(b)
}
fn rx(e: &Expression) -> E {
    reader().expr(e)
}
fn rt(t: &et::Template) -> Vec<T> {
    reader().template(t)
}
type Strip2 = (bool, bool);

fn elem(e: &Element) -> T {
    rt(&et::Template::from(vec![e.clone()])).remove(0)
}
fn elems(es: &[Element]) -> Vec<T> {
    es.iter().map(elem).collect()
}
fn telems(t: &et::Template) -> Vec<T> {
    t.iter().map(elem).collect()
}
fn key(k: &ObjectKey) -> K {
    match k {
        ObjectKey::Ident(i) => K::Id(i.as_str().to_string()),
        ObjectKey::Expression(e) => K::Ex(rx(e)),
    }
}
fn structure(s: &Structure) -> S {
    match s {
        Structure::Attribute(a) => attr(a),
        Structure::Block(b) => S::Block(block(b)),
    }
}
fn attr(a: &Attribute) -> S {
    S::Attr(a.key.as_str().to_string(), rx(&a.value))
}
fn block(b: &EBlock) -> Block {
    Block {
        ident: b.ident.as_str().to_string(),
        labels: b.labels.iter().map(label).collect(),
        body: rb(&b.body),
    }
}
fn label(l: &BlockLabel) -> L {
    match l {
        BlockLabel::Ident(i) => L::Id(i.as_str().to_string()),
        BlockLabel::String(s) => L::Str(s.as_str().to_string()),
    }
}
fn op(o: &TraversalOperator) -> Op {
    match o {
        TraversalOperator::AttrSplat(_) => Op::AttrSplat,
        TraversalOperator::FullSplat(_) => Op::FullSplat,
        TraversalOperator::GetAttr(i) => Op::Attr(i.as_str().to_string()),
        TraversalOperator::Index(e) => Op::Idx(rx(e)),
        TraversalOperator::LegacyIndex(u) => Op::Legacy(**u),
    }
}
fn unop(o: ee::UnaryOperator) -> UnOp {
    match o {
        ee::UnaryOperator::Neg => UnOp::Neg,
        ee::UnaryOperator::Not => UnOp::Not,
    }
}

macro_rules! record {
    ($(leaf $lf:ident / $lm:ident : $lt:ty = $ln:literal, |$lx:ident| $lp:expr;)*
     $(node $nf:ident / $nm:ident : $nt:ty = $nn:literal, |$nx:ident| $np:expr;)*) => {
        impl Visit for Log {
            $(fn $lf(&mut self, $lx: &$lt) { self.leaf($ln, $lp); })*
            $(fn $nf(&mut self, $nx: &$nt) { if self.enter($nn, $np) { visit::$nf(self, $nx); self.exit(); } })*
            fn visit_structure(&mut self, n: &Structure) {
                if self.enter("structure", sig(&structure(n))) { visit::visit_structure(self, n); self.exit(); }
            }
            fn visit_attr(&mut self, n: &Attribute) {
                if self.enter("attr", sig(&attr(n))) { visit::visit_attr(self, n); self.exit(); }
            }
            fn visit_object_key(&mut self, n: &ObjectKey) {
                if self.enter("object key", sig(&key(n))) { visit::visit_object_key(self, n); self.exit(); }
            }
            fn visit_object_item(&mut self, k: &ObjectKey, v: &ObjectValue) {
                if self.enter("object item", sig(&key(k))) { visit::visit_object_item(self, k, v); self.exit(); }
            }
        }
        impl VisitMut for Log {
            $(fn $lm(&mut self, $lx: &mut $lt) { self.leaf($ln, $lp); })*
            $(fn $nm(&mut self, $nx: &mut $nt) { if self.enter($nn, $np) { visit_mut::$nm(self, $nx); self.exit(); } })*
            fn visit_structure_mut(&mut self, n: StructureMut) {
                let s = match (n.as_attribute(), n.as_block()) {
                    (Some(a), None) => attr(a),
                    (None, Some(b)) => S::Block(block(b)),
                    _ => panic!("StructureMut is neither attribute nor block"),
                };
                if self.enter("structure", sig(&s)) { visit_mut::visit_structure_mut(self, n); self.exit(); }
            }
            fn visit_attr_mut(&mut self, n: AttributeMut) {
                if self.enter("attr", sig(&attr(n.get()))) { visit_mut::visit_attr_mut(self, n); self.exit(); }
            }
            fn visit_object_key_mut(&mut self, n: ObjectKeyMut) {
                self.leaf("object key", sig(&key(n.get())));
            }
            fn visit_object_item_mut(&mut self, k: ObjectKeyMut, v: &mut ObjectValue) {
                if self.enter("object item", sig(&key(k.get()))) { visit_mut::visit_object_item_mut(self, k, v); self.exit(); }
            }
        }
    };
}

record! {
    leaf visit_ident / visit_ident_mut : Decorated<Ident> = "ident", |n| n.as_str();
    leaf visit_null / visit_null_mut : Decorated<Null> = "null", |_n| "";
    leaf visit_bool / visit_bool_mut : Decorated<bool> = "bool", |n| **n;
    leaf visit_u64 / visit_u64_mut : Decorated<u64> = "u64", |n| **n;
    leaf visit_number / visit_number_mut : Formatted<Number> = "number", |n| sig(&conv::num_of(n));
    leaf visit_string / visit_string_mut : Decorated<String> = "string", |n| n.as_str();
    leaf visit_splat / visit_splat_mut : Decorated<Splat> = "splat", |_n| "";
    leaf visit_literal / visit_literal_mut : Spanned<String> = "literal", |n| n.as_str();
    leaf visit_unary_operator / visit_unary_operator_mut : Spanned<ee::UnaryOperator> = "unary operator", |n| sig(&unop(**n));
    leaf visit_binary_operator / visit_binary_operator_mut : Decorated<BinaryOperator> = "binary operator", |n| n.as_str();
    leaf visit_endif_template_expr / visit_endif_template_expr_mut : EndifTemplateExpr = "endif", |n| sig(&strip(n.strip));
    leaf visit_endfor_template_expr / visit_endfor_template_expr_mut : EndforTemplateExpr = "endfor", |n| sig(&strip(n.strip));
    node visit_body / visit_body_mut : Body = "body", |n| sig(&rb(n));
    node visit_block / visit_block_mut : EBlock = "block", |n| sig(&block(n));
    node visit_block_label / visit_block_label_mut : BlockLabel = "label", |n| sig(&label(n));
    node visit_expr / visit_expr_mut : Expression = "expr", |n| sig(&rx(n));
    node visit_array / visit_array_mut : Array = "array", |n| sig(&n.iter().map(rx).collect::<Vec<_>>());
    node visit_object / visit_object_mut : Object = "object", |n| n.len();
    node visit_object_value / visit_object_value_mut : ObjectValue = "object value", |n| sig(&rx(n.expr()));
    node visit_parenthesis / visit_parenthesis_mut : Parenthesis = "parenthesis", |_n| "";
    node visit_conditional / visit_conditional_mut : Conditional = "conditional", |_n| "";
    node visit_unary_op / visit_unary_op_mut : ee::UnaryOp = "unary", |_n| "";
    node visit_binary_op / visit_binary_op_mut : ee::BinaryOp = "binary", |_n| "";
    node visit_traversal / visit_traversal_mut : Traversal = "traversal", |n| n.operators.len();
    node visit_traversal_operator / visit_traversal_operator_mut : TraversalOperator = "traversal operator", |n| sig(&op(n));
    node visit_func_call / visit_func_call_mut : FuncCall = "call", |n| n.args.expand_final();
    node visit_func_name / visit_func_name_mut : FuncName = "call name", |n| n.name.as_str();
    node visit_func_args / visit_func_args_mut : FuncArgs = "call args", |n| n.len();
    node visit_for_expr / visit_for_expr_mut : ForExpr = "for expr", |n| n.grouping;
    node visit_for_intro / visit_for_intro_mut : ForIntro = "for intro", |n| n.value_var.as_str();
    node visit_for_cond / visit_for_cond_mut : ForCond = "for cond", |_n| "";
    node visit_string_template / visit_string_template_mut : StringTemplate = "string template", |n| sig(&elems(&n.iter().cloned().collect::<Vec<_>>()));
    node visit_heredoc_template / visit_heredoc_template_mut : HeredocTemplate = "heredoc", |n| n.delimiter.as_str();
    node visit_template / visit_template_mut : et::Template = "template", |n| sig(&telems(n));
    node visit_element / visit_element_mut : Element = "element", |n| sig(&elem(n));
    node visit_interpolation / visit_interpolation_mut : Interpolation = "interpolation", |n| sig(&strip(n.strip));
    node visit_directive / visit_directive_mut : Directive = "directive", |n| match n { Directive::If(_) => "if", Directive::For(_) => "for" };
    node visit_if_directive / visit_if_directive_mut : IfDirective = "if directive", |n| n.else_expr.is_some();
    node visit_for_directive / visit_for_directive_mut : ForDirective = "for directive", |_n| "";
    node visit_if_template_expr / visit_if_template_expr_mut : IfTemplateExpr = "if", |n| sig(&strip(n.strip));
    node visit_else_template_expr / visit_else_template_expr_mut : ElseTemplateExpr = "else", |n| sig(&strip(n.strip));
    node visit_for_template_expr / visit_for_template_expr_mut : ForTemplateExpr = "for", |n| sig(&strip(n.strip));
}

/// The names of all hooks.
const HOOKS: [&str; 46] = [
    "ident", "null", "bool", "u64", "number", "string", "splat", "literal", "unary operator", "binary operator", "endif", "endfor", "body", "structure", "attr",
    "block", "label", "expr", "array", "object", "object item", "object key", "object value", "parenthesis", "conditional", "unary", "binary", "traversal",
    "traversal operator", "call", "call name", "call args", "for expr", "for intro", "for cond", "string template", "heredoc", "template", "element", "interpolation",
    "directive", "if directive", "for directive", "if", "else", "for",
];

/// Visits only the leaves, with every other hook left to its default.
#[derive(Default)]
struct Leaves(Vec<String>);

impl Visit for Leaves {
    fn visit_ident(&mut self, n: &Decorated<Ident>) {
        self.0.push(n.as_str().into());
    }
    fn visit_string(&mut self, n: &Decorated<String>) {
        self.0.push(n.as_str().into());
    }
    fn visit_literal(&mut self, n: &Spanned<String>) {
        self.0.push(n.as_str().into());
    }
    fn visit_number(&mut self, n: &Formatted<Number>) {
        self.0.push(sig(&conv::num_of(n)));
    }
}

/// Changes nothing.
struct Noop;
impl VisitMut for Noop {}

// --- rewriting ---------------------------------------------------------------------------------

/// Numbers the leaves in the order in which they are visited and rewrites all whose kind is
/// selected. The same code rewrites the real document and the model.
#[derive(Clone)]
struct Rw {
    n: u64,
    kinds: u32,
    /// Leaves are rewritten when the number is divisible by this.
    step: u64,
    changed: u64,
}

impl Rw {
    fn hit(&mut self, kind: u32) -> Option<u64> {
        self.n += 1;
        let hit = self.kinds & (1 << kind) != 0 && self.n % self.step == 0;
        self.changed += u64::from(hit);
        hit.then_some(self.n)
    }
    fn ident(&mut self, s: &str) -> Option<String> {
        self.hit(0).map(|n| format!("{s}_{n}"))
    }
    fn string(&mut self, s: &str) -> Option<String> {
        self.hit(1).map(|n| format!("{s}<{n}>"))
    }
    fn literal(&mut self, s: &str) -> Option<String> {
        self.hit(2).map(|n| format!("<{n}>{s}"))
    }
    fn boolean(&mut self, b: bool) -> Option<bool> {
        self.hit(3).map(|_| !b)
    }
    fn u64(&mut self, _: u64) -> Option<u64> {
        self.hit(4)
    }
    fn number(&mut self) -> Option<u64> {
        self.hit(5)
    }
    fn unop(&mut self, o: UnOp) -> Option<UnOp> {
        self.hit(6).map(|_| if o == UnOp::Neg { UnOp::Not } else { UnOp::Neg })
    }
    fn binop(&mut self, o: BinOp) -> Option<BinOp> {
        self.hit(7).map(|n| BINOPS[(BINOPS.iter().position(|x| *x == o).unwrap() + 1 + n as usize) % BINOPS.len()])
    }
}

impl VisitMut for Rw {
    fn visit_ident_mut(&mut self, n: &mut Decorated<Ident>) {
        if let Some(s) = self.ident(n.as_str()) {
            *n.value_mut() = Ident::new(s);
        }
    }
    fn visit_string_mut(&mut self, n: &mut Decorated<String>) {
        if let Some(s) = self.string(n.as_str()) {
            *n.value_mut() = s;
        }
    }
    fn visit_literal_mut(&mut self, n: &mut Spanned<String>) {
        if let Some(s) = self.literal(n.as_str()) {
            *n.value_mut() = s;
        }
    }
    fn visit_bool_mut(&mut self, n: &mut Decorated<bool>) {
        if let Some(b) = self.boolean(**n) {
            *n.value_mut() = b;
        }
    }
    fn visit_u64_mut(&mut self, n: &mut Decorated<u64>) {
        if let Some(b) = self.u64(**n) {
            *n.value_mut() = b;
        }
    }
    fn visit_number_mut(&mut self, n: &mut Formatted<Number>) {
        if let Some(b) = self.number() {
            *n.value_mut() = Number::from(b);
        }
    }
    fn visit_unary_operator_mut(&mut self, n: &mut Spanned<ee::UnaryOperator>) {
        if let Some(o) = self.unop(unop(**n)) {
            *n.value_mut() = if o == UnOp::Neg { ee::UnaryOperator::Neg } else { ee::UnaryOperator::Not };
        }
    }
    fn visit_binary_operator_mut(&mut self, n: &mut Decorated<BinaryOperator>) {
        if let Some(o) = self.binop(BinOp::of(n.as_str())) {
            *n.value_mut() = conv::binop_to(o);
        }
    }
}

impl Rw {
    fn set(s: &mut String, new: Option<String>) {
        if let Some(x) = new {
            *s = x;
        }
    }
    fn m_body(&mut self, b: &mut [S]) {
        for s in b {
            match s {
                S::Attr(_, v) => self.m_expr(v),
                S::Block(b) => {
                    let n = self.ident(&b.ident);
                    Self::set(&mut b.ident, n);
                    for l in &mut b.labels {
                        match l {
                            L::Id(s) => {
                                let n = self.ident(s);
                                Self::set(s, n);
                            }
                            L::Str(s) => {
                                let n = self.string(s);
                                Self::set(s, n);
                            }
                        }
                    }
                    self.m_body(&mut b.body);
                }
            }
        }
    }
    fn m_id(&mut self, s: &mut String) {
        let n = self.ident(s);
        Self::set(s, n);
    }
    fn m_expr(&mut self, e: &mut E) {
        match e {
            E::Null => {}
            E::Bool(b) => {
                if let Some(x) = self.boolean(*b) {
                    *b = x;
                }
            }
            E::Num(n) => {
                if let Some(x) = self.number() {
                    *n = N::U(x);
                }
            }
            E::Str(s) => {
                let n = self.string(s);
                Self::set(s, n);
            }
            E::Tmpl(t) => self.m_tmpl(t),
            E::Heredoc(h) => self.m_tmpl(&mut h.body),
            E::Arr(a) => a.iter_mut().for_each(|e| self.m_expr(e)),
            E::Obj(o) => o.iter_mut().for_each(|(_, e)| self.m_expr(e)),
            E::Paren(e) => self.m_expr(e),
            E::Var(s) => self.m_id(s),
            E::Cond(c) => {
                self.m_expr(&mut c.0);
                self.m_expr(&mut c.1);
                self.m_expr(&mut c.2);
            }
            E::Call(c) => {
                c.ns.iter_mut().for_each(|s| self.m_id(s));
                self.m_id(&mut c.name);
                c.args.iter_mut().for_each(|e| self.m_expr(e));
            }
            E::Trav(e, ops) => {
                self.m_expr(e);
                for o in ops {
                    match o {
                        Op::Attr(s) => self.m_id(s),
                        Op::Idx(e) => self.m_expr(e),
                        Op::Legacy(u) => {
                            if let Some(x) = self.u64(*u) {
                                *u = x;
                            }
                        }
                        _ => {}
                    }
                }
            }
            E::Un(o, e) => {
                if let Some(x) = self.unop(*o) {
                    *o = x;
                }
                self.m_expr(e);
            }
            E::Bin(a, o, b) => {
                self.m_expr(a);
                if let Some(x) = self.binop(*o) {
                    *o = x;
                }
                self.m_expr(b);
            }
            E::For(f) => {
                if let Some(k) = &mut f.key {
                    self.m_id(k);
                }
                self.m_id(&mut f.val);
                self.m_expr(&mut f.coll);
                if let Some(k) = &mut f.kexpr {
                    self.m_expr(k);
                }
                self.m_expr(&mut f.vexpr);
                if let Some(c) = &mut f.cond {
                    self.m_expr(c);
                }
            }
        }
    }
    fn m_tmpl(&mut self, ts: &mut [T]) {
        for t in ts {
            match t {
                T::Lit(s) => {
                    let n = self.literal(s);
                    Self::set(s, n);
                }
                T::Interp(e, _) => self.m_expr(e),
                T::If(d) => {
                    self.m_expr(&mut d.cond);
                    self.m_tmpl(&mut d.then);
                    if let Some((_, t)) = &mut d.els {
                        self.m_tmpl(t);
                    }
                }
                T::For(d) => {
                    if let Some(k) = &mut d.key {
                        self.m_id(k);
                    }
                    self.m_id(&mut d.val);
                    self.m_expr(&mut d.coll);
                    self.m_tmpl(&mut d.body);
                }
            }
        }
    }
}

fn diff(obs: &mut Obs, src: &str, what: &str, got: &[Ev], want: &[Ev]) -> bool {
    if got == want {
        return true;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    obs.fail(
        src,
        format!(
            "{what}: call {i} is {:?}, the tree has {:?} (after {:?})",
            got.get(i),
            want.get(i),
            &got[i.saturating_sub(3)..i]
        ),
    );
    false
}

fn check(obs: &mut Obs, rng: &mut Rng, src: &str, body: &mut Body, text: &str) {
    let model = rb(body);
    for round in 0..2 {
        let mut prune: Vec<&'static str> = vec![];
        if round == 1 {
            for _ in 0..rng.range(1, 4) {
                prune.push(HOOKS[rng.below(HOOKS.len())]);
            }
            if rng.bool() {
                prune.retain(|p| !["body", "structure", "expr", "attr"].contains(p));
            }
        }
        for mutable in [false, true] {
            let mut w = Want { l: Log { ev: vec![], prune: prune.clone() }, mutable };
            w.body(&model);
            let mut l = Log { ev: vec![], prune: prune.clone() };
            if mutable {
                l.visit_body_mut(body);
            } else {
                l.visit_body(body);
            }
            let what = format!("{} visitor{}", if mutable { "mutable" } else { "immutable" }, if prune.is_empty() { String::new() } else { format!(" pruned at {prune:?}") });
            if !diff(obs, src, &what, &l.ev, &w.l.ev) {
                return;
            }
            obs.feat_n(if mutable { "mutable hook calls" } else { "immutable hook calls" }, l.ev.len() as u64);
            if round == 0 && !mutable {
                let leaves: Vec<String> = l
                    .ev
                    .iter()
                    .filter_map(|e| match e {
                        Ev::Leaf(n, p) if ["ident", "string", "literal", "number"].contains(n) => Some(p.clone()),
                        _ => None,
                    })
                    .collect();
                let mut v = Leaves::default();
                v.visit_body(body);
                if v.0 != leaves {
                    obs.fail(src, format!("a visitor with default hooks saw {:?} instead of {leaves:?}", v.0));
                }
                for e in &l.ev {
                    if let Ev::In(n, _) | Ev::Leaf(n, _) = e {
                        obs.feat(n);
                    }
                }
            }
        }
    }
    // Nothing has changed so far.
    Noop.visit_body_mut(body);
    if body.to_string() != text {
        obs.fail(src, format!("a visitor which changes nothing changed the text to {body}"));
        return;
    }
    if rb(body) != model {
        obs.fail(src, "a visitor which changes nothing changed the document");
        return;
    }
    // Rewriting.
    let rw = Rw {
        n: 0,
        kinds: if rng.bool() { !0 } else { 1 << rng.below(8) },
        step: [1, 1, 2, 3, 7][rng.below(5)],
        changed: 0,
    };
    let (mut a, mut b) = (rw.clone(), rw);
    let mut want = model.clone();
    let mut edited = body.clone();
    a.visit_body_mut(&mut edited);
    b.m_body(&mut want);
    let got = rb(&edited);
    if got != want {
        obs.fail(src, format!("rewriting visitor: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
        return;
    }
    if a.n != b.n {
        obs.fail(src, format!("rewriting visitor saw {} leaves instead of {}", a.n, b.n));
    }
    obs.feat_n("rewritten leaves", b.changed);
    // The clone's original is unaffected.
    if rb(body) != model {
        obs.fail(src, "rewriting a clone changed the original");
    }
}

/// P10: visitors.
pub fn p10(m: &mut Mon) {
    m.rule = "a document counts when its tree has at least five nodes below the body".into();
    require_kinds(m);
    for h in HOOKS {
        m.require(h, 30);
    }
    m.require("rewritten leaves", 5000);
    m.cases("parsed", m.n(8000), |obs, rng, _| {
        let b = gen_body(rng, edit_opts());
        let (src, _) = render_body(rng, &b, Mode::Lossless);
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        obs.case(&src, b.len() > 1);
        let mut body: Body = match src.parse() {
            Ok(b) => b,
            Err(e) => {
                obs.feat("unparsed");
                let _: hcl_edit::parser::Error = e;
                return;
            }
        };
        let text = body.to_string();
        check(obs, rng, &src, &mut body, &text);
    });
    m.cases("built", m.n(4000), |obs, rng, _| {
        let o: Opts = prog_opts();
        let b = gen_body(rng, o);
        let mut body = conv::to_edit_body(&b);
        let text = body.to_string();
        obs.case(&text, b.len() > 1);
        check(obs, rng, &text.clone(), &mut body, &text);
    });
}
