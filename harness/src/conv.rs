//! Conversions between the model and the ASTs of the crates under test.

use crate::model as m;
use crate::model::{Call, ForD, Op, B, E, H, K, L, N, S, T};
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::{Decorated, Ident, Span};
use std::ops::Range;

// --- numbers ----------------------------------------------------------------------------------

pub fn num_of(n: &hcl::Number) -> N {
    if n.is_f64() {
        N::F(n.as_f64().unwrap())
    } else if let Some(u) = n.as_u64() {
        N::U(u)
    } else {
        N::I(n.as_i64().expect("integer"))
    }
}

pub fn num_to(n: N) -> hcl::Number {
    match n {
        N::U(u) => u.into(),
        N::I(i) => i.into(),
        N::F(f) => hcl::Number::from_f64(f).expect("finite"),
    }
}

fn strip_of(s: hcl::template::Strip) -> m::Strip {
    (s.strip_start(), s.strip_end())
}

fn unop_of(o: hcl::expr::UnaryOperator) -> m::UnOp {
    match o {
        hcl::expr::UnaryOperator::Neg => m::UnOp::Neg,
        hcl::expr::UnaryOperator::Not => m::UnOp::Not,
    }
}

fn unop_to(o: m::UnOp) -> hcl::expr::UnaryOperator {
    match o {
        m::UnOp::Neg => hcl::expr::UnaryOperator::Neg,
        m::UnOp::Not => hcl::expr::UnaryOperator::Not,
    }
}

fn binop_of(o: hcl::expr::BinaryOperator) -> m::BinOp {
    use hcl::expr::BinaryOperator as O;
    match o {
        O::Eq => m::BinOp::Eq,
        O::NotEq => m::BinOp::Ne,
        O::LessEq => m::BinOp::Le,
        O::GreaterEq => m::BinOp::Ge,
        O::Less => m::BinOp::Lt,
        O::Greater => m::BinOp::Gt,
        O::Plus => m::BinOp::Add,
        O::Minus => m::BinOp::Sub,
        O::Mul => m::BinOp::Mul,
        O::Div => m::BinOp::Div,
        O::Mod => m::BinOp::Mod,
        O::And => m::BinOp::And,
        O::Or => m::BinOp::Or,
    }
}

pub fn binop_to(o: m::BinOp) -> hcl::expr::BinaryOperator {
    use hcl::expr::BinaryOperator as O;
    match o {
        m::BinOp::Eq => O::Eq,
        m::BinOp::Ne => O::NotEq,
        m::BinOp::Le => O::LessEq,
        m::BinOp::Ge => O::GreaterEq,
        m::BinOp::Lt => O::Less,
        m::BinOp::Gt => O::Greater,
        m::BinOp::Add => O::Plus,
        m::BinOp::Sub => O::Minus,
        m::BinOp::Mul => O::Mul,
        m::BinOp::Div => O::Div,
        m::BinOp::Mod => O::Mod,
        m::BinOp::And => O::And,
        m::BinOp::Or => O::Or,
    }
}

// --- hcl-edit -> model --------------------------------------------------------------------------

/// Reads the AST of hcl-edit and records the spans of its nodes in source order.
#[derive(Default)]
pub struct ReadEdit {
    pub spans: Vec<(&'static str, Option<Range<usize>>)>,
    /// Do not merge literals.
    pub exact: bool,
}

impl ReadEdit {
    fn sp(&mut self, k: &'static str, x: &impl Span) {
        self.spans.push((k, x.span()));
    }

    fn id(&mut self, i: &Decorated<Ident>) -> String {
        self.sp("id", i);
        i.as_str().to_string()
    }

    pub fn expr(&mut self, e: &ee::Expression) -> E {
        self.sp("expr", e);
        match e {
            ee::Expression::Null(_) => E::Null,
            ee::Expression::Bool(b) => E::Bool(*b.value()),
            ee::Expression::Number(n) => E::Num(num_of(n.value())),
            ee::Expression::String(s) => E::Str(s.value().clone()),
            ee::Expression::Array(a) => E::Arr(a.iter().map(|e| self.expr(e)).collect()),
            ee::Expression::Object(o) => E::Obj(
                o.iter()
                    .map(|(k, v)| {
                        let k = match k {
                            ee::ObjectKey::Ident(i) => K::Id(self.id(i)),
                            ee::ObjectKey::Expression(e) => K::Ex(self.expr(e)),
                        };
                        (k, self.expr(v.expr()))
                    })
                    .collect(),
            ),
            ee::Expression::StringTemplate(t) => {
                let ts: Vec<T> = t.iter().map(|e| self.elem(e)).collect();
                E::Tmpl(self.fin(ts))
            }
            ee::Expression::HeredocTemplate(h) => {
                let ts: Vec<T> = h.template.iter().map(|e| self.elem(e)).collect();
                E::Heredoc(Box::new(H {
                    delim: h.delimiter.as_str().to_string(),
                    strip: h.indent().is_some(),
                    indent: h.indent(),
                    body: self.fin(ts),
                }))
            }
            ee::Expression::Parenthesis(p) => E::Paren(Box::new(self.expr(p.inner()))),
            ee::Expression::Variable(v) => E::Var(v.as_str().to_string()),
            ee::Expression::Conditional(c) => {
                let a = self.expr(&c.cond_expr);
                let b = self.expr(&c.true_expr);
                let d = self.expr(&c.false_expr);
                E::Cond(Box::new((a, b, d)))
            }
            ee::Expression::FuncCall(c) => {
                let ns = c.name.namespace.iter().map(|i| self.id(i)).collect();
                let name = self.id(&c.name.name);
                let args = c.args.iter().map(|e| self.expr(e)).collect();
                E::Call(Box::new(Call {
                    ns,
                    name,
                    args,
                    expand: c.args.expand_final(),
                }))
            }
            ee::Expression::Traversal(t) => {
                let b = self.expr(&t.expr);
                let ops = t
                    .operators
                    .iter()
                    .map(|o| {
                        self.sp("top", o);
                        match o.value() {
                            ee::TraversalOperator::AttrSplat(_) => Op::AttrSplat,
                            ee::TraversalOperator::FullSplat(_) => Op::FullSplat,
                            ee::TraversalOperator::GetAttr(i) => Op::Attr(self.id(i)),
                            ee::TraversalOperator::Index(e) => Op::Idx(self.expr(e)),
                            ee::TraversalOperator::LegacyIndex(n) => Op::Legacy(*n.value()),
                        }
                    })
                    .collect();
                E::Trav(Box::new(b), ops)
            }
            ee::Expression::UnaryOp(u) => {
                self.sp("unop", &u.operator);
                let o = unop_of(*u.operator.value());
                E::Un(o, Box::new(self.expr(&u.expr)))
            }
            ee::Expression::BinaryOp(b) => {
                let l = self.expr(&b.lhs_expr);
                self.sp("binop", &b.operator);
                let o = binop_of(*b.operator.value());
                let r = self.expr(&b.rhs_expr);
                E::Bin(Box::new(l), o, Box::new(r))
            }
            ee::Expression::ForExpr(f) => {
                let key = f.intro.key_var.as_ref().map(|i| self.id(i));
                let val = self.id(&f.intro.value_var);
                let coll = self.expr(&f.intro.collection_expr);
                let kexpr = f.key_expr.as_ref().map(|e| self.expr(e));
                let vexpr = self.expr(&f.value_expr);
                let cond = f.cond.as_ref().map(|c| self.expr(&c.expr));
                E::For(Box::new(m::For {
                    key,
                    val,
                    coll,
                    kexpr,
                    vexpr,
                    group: f.grouping,
                    cond,
                }))
            }
        }
    }

    fn fin(&self, ts: Vec<T>) -> Vec<T> {
        if self.exact {
            ts
        } else {
            m::merge_lits(ts)
        }
    }

    pub fn template(&mut self, t: &et::Template) -> Vec<T> {
        let ts: Vec<T> = t.iter().map(|e| self.elem(e)).collect();
        self.fin(ts)
    }

    fn elem(&mut self, e: &et::Element) -> T {
        self.sp("elem", e);
        match e {
            et::Element::Literal(s) => T::Lit(s.value().clone()),
            et::Element::Interpolation(i) => T::Interp(self.expr(&i.expr), strip_of(i.strip)),
            et::Element::Directive(d) => match &**d {
                et::Directive::If(d) => {
                    let cond = self.expr(&d.if_expr.cond_expr);
                    let then = self.template(&d.if_expr.template);
                    let els = d
                        .else_expr
                        .as_ref()
                        .map(|e| (strip_of(e.strip), self.template(&e.template)));
                    T::If(Box::new(m::If {
                        cond,
                        s1: strip_of(d.if_expr.strip),
                        then,
                        els,
                        s3: strip_of(d.endif_expr.strip),
                    }))
                }
                et::Directive::For(d) => {
                    let key = d.for_expr.key_var.as_ref().map(|i| self.id(i));
                    let val = self.id(&d.for_expr.value_var);
                    let coll = self.expr(&d.for_expr.collection_expr);
                    let body = self.template(&d.for_expr.template);
                    T::For(Box::new(ForD {
                        key,
                        val,
                        coll,
                        s1: strip_of(d.for_expr.strip),
                        body,
                        s2: strip_of(d.endfor_expr.strip),
                    }))
                }
            },
        }
    }

    pub fn attr(&mut self, a: &es::Attribute) -> (String, E) {
        self.sp("attr", a);
        let k = self.id(&a.key);
        (k, self.expr(&a.value))
    }

    pub fn block(&mut self, b: &es::Block) -> m::Block {
        self.sp("block", b);
        let ident = self.id(&b.ident);
        let labels = b
            .labels
            .iter()
            .map(|l| {
                self.sp("id", l);
                match l {
                    es::BlockLabel::Ident(i) => L::Id(i.as_str().to_string()),
                    es::BlockLabel::String(s) => L::Str(s.value().clone()),
                }
            })
            .collect();
        m::Block {
            ident,
            labels,
            body: self.body(&b.body),
        }
    }

    pub fn body(&mut self, b: &es::Body) -> B {
        b.iter()
            .map(|s| match s {
                es::Structure::Attribute(a) => {
                    let (k, e) = self.attr(a);
                    S::Attr(k, e)
                }
                es::Structure::Block(b) => S::Block(self.block(b)),
            })
            .collect()
    }
}

pub fn edit_body(b: &es::Body) -> B {
    ReadEdit::default().body(b)
}

pub fn edit_expr(e: &ee::Expression) -> E {
    ReadEdit::default().expr(e)
}

pub fn edit_template(t: &et::Template) -> Vec<T> {
    ReadEdit::default().template(t)
}

// --- model -> hcl-edit --------------------------------------------------------------------------

fn did(s: &str) -> Decorated<Ident> {
    Decorated::new(Ident::new(s))
}

pub fn to_edit_expr(e: &E) -> ee::Expression {
    match e {
        E::Null => ee::Expression::null(),
        E::Bool(b) => (*b).into(),
        E::Num(n) => num_to(*n).into(),
        E::Str(s) => s.as_str().into(),
        E::Tmpl(ts) => et::StringTemplate::from(to_edit_template(ts)).into(),
        E::Heredoc(h) => {
            let mut x = et::HeredocTemplate::new(Ident::new(h.delim.as_str()), to_edit_template(&h.body));
            if h.strip {
                x.set_indent(h.indent.unwrap_or(0));
            }
            x.into()
        }
        E::Arr(v) => {
            let mut a = ee::Array::new();
            for e in v {
                a.push(to_edit_expr(e));
            }
            a.into()
        }
        E::Obj(v) => {
            let mut o = ee::Object::new();
            for (k, e) in v {
                o.insert(to_edit_key(k), ee::ObjectValue::new(to_edit_expr(e)));
            }
            o.into()
        }
        E::Paren(e) => ee::Parenthesis::new(to_edit_expr(e)).into(),
        E::Var(i) => Ident::new(i.as_str()).into(),
        E::Cond(c) => {
            ee::Conditional::new(to_edit_expr(&c.0), to_edit_expr(&c.1), to_edit_expr(&c.2)).into()
        }
        E::Call(c) => {
            let mut name = ee::FuncName::new(did(&c.name));
            name.set_namespace(c.ns.iter().map(|s| did(s)));
            let mut args = ee::FuncArgs::new();
            for a in &c.args {
                args.push(to_edit_expr(a));
            }
            args.set_expand_final(c.expand);
            ee::FuncCall::new(name, args).into()
        }
        E::Trav(b, ops) => {
            let ops = ops
                .iter()
                .map(|o| {
                    Decorated::new(match o {
                        Op::Attr(i) => ee::TraversalOperator::GetAttr(did(i)),
                        Op::Idx(e) => ee::TraversalOperator::Index(to_edit_expr(e)),
                        Op::Legacy(n) => ee::TraversalOperator::LegacyIndex((*n).into()),
                        Op::AttrSplat => {
                            ee::TraversalOperator::AttrSplat(Decorated::new(ee::Splat))
                        }
                        Op::FullSplat => {
                            ee::TraversalOperator::FullSplat(Decorated::new(ee::Splat))
                        }
                    })
                })
                .collect();
            ee::Traversal::new(to_edit_expr(b), ops).into()
        }
        E::Un(o, e) => ee::UnaryOp::new(unop_to(*o), to_edit_expr(e)).into(),
        E::Bin(l, o, r) => {
            ee::BinaryOp::new(to_edit_expr(l), binop_to(*o), to_edit_expr(r)).into()
        }
        E::For(f) => {
            let mut intro = ee::ForIntro::new(did(&f.val), to_edit_expr(&f.coll));
            intro.key_var = f.key.as_deref().map(did);
            let mut x = ee::ForExpr::new(intro, to_edit_expr(&f.vexpr));
            x.key_expr = f.kexpr.as_ref().map(to_edit_expr);
            x.grouping = f.group;
            x.cond = f.cond.as_ref().map(|c| ee::ForCond::new(to_edit_expr(c)));
            x.into()
        }
    }
}

pub fn to_edit_key(k: &K) -> ee::ObjectKey {
    match k {
        K::Id(i) => ee::ObjectKey::Ident(did(i)),
        K::Ex(e) => ee::ObjectKey::Expression(to_edit_expr(e)),
    }
}

pub fn to_edit_template(ts: &[T]) -> et::Template {
    ts.iter().map(to_edit_elem).collect()
}

pub fn to_edit_elem(t: &T) -> et::Element {
    match t {
        T::Lit(s) => et::Element::from(s.as_str()),
        T::Interp(e, s) => {
            let mut i = et::Interpolation::new(to_edit_expr(e));
            i.strip = (*s).into();
            i.into()
        }
        T::If(d) => {
            let mut i = et::IfTemplateExpr::new(to_edit_expr(&d.cond), to_edit_template(&d.then));
            i.strip = d.s1.into();
            let e = d.els.as_ref().map(|(s, e)| {
                let mut x = et::ElseTemplateExpr::new(to_edit_template(e));
                x.strip = (*s).into();
                x
            });
            let mut end = et::EndifTemplateExpr::new();
            end.strip = d.s3.into();
            et::Directive::If(et::IfDirective::new(i, e, end)).into()
        }
        T::For(d) => {
            let mut f = et::ForTemplateExpr::new(
                d.key.as_deref().map(did),
                did(&d.val),
                to_edit_expr(&d.coll),
                to_edit_template(&d.body),
            );
            f.strip = d.s1.into();
            let mut end = et::EndforTemplateExpr::new();
            end.strip = d.s2.into();
            et::Directive::For(et::ForDirective::new(f, end)).into()
        }
    }
}

pub fn to_edit_label(l: &L) -> es::BlockLabel {
    match l {
        L::Id(i) => es::BlockLabel::from(Ident::new(i.as_str())),
        L::Str(s) => es::BlockLabel::from(s.as_str()),
    }
}

pub fn to_edit_block(b: &m::Block) -> es::Block {
    let mut x = es::Block::new(Ident::new(b.ident.as_str()));
    x.labels = b.labels.iter().map(to_edit_label).collect();
    x.body = to_edit_body(&b.body);
    x
}

pub fn to_edit_struct(s: &S) -> es::Structure {
    match s {
        S::Attr(k, e) => es::Attribute::new(Ident::new(k.as_str()), to_edit_expr(e)).into(),
        S::Block(b) => to_edit_block(b).into(),
    }
}

pub fn to_edit_body(b: &[S]) -> es::Body {
    let mut x = es::Body::new();
    for s in b {
        x.push(to_edit_struct(s));
    }
    x
}

// --- hcl-rs -> model ----------------------------------------------------------------------------

use hcl::expr as re;
use hcl::structure as rs;
use hcl::template as rt;
use hcl::Identifier;

/// `Err` if a template does not parse.
pub fn rs_expr(e: &re::Expression) -> Result<E, String> {
    Ok(match e {
        re::Expression::Null => E::Null,
        re::Expression::Bool(b) => E::Bool(*b),
        re::Expression::Number(n) => E::Num(num_of(n)),
        re::Expression::String(s) => E::Str(s.clone()),
        re::Expression::Array(v) => E::Arr(v.iter().map(rs_expr).collect::<Result<_, _>>()?),
        re::Expression::Object(o) => E::Obj(
            o.iter()
                .map(|(k, v)| {
                    Ok((
                        match k {
                            re::ObjectKey::Identifier(i) => K::Id(i.as_str().to_string()),
                            re::ObjectKey::Expression(e) => K::Ex(rs_expr(e)?),
                            _ => return Err("unknown object key".to_string()),
                        },
                        rs_expr(v)?,
                    ))
                })
                .collect::<Result<_, String>>()?,
        ),
        re::Expression::TemplateExpr(t) => {
            let tmpl = rt::Template::from_expr(t).map_err(|e| e.to_string())?;
            let body = rs_template(&tmpl)?;
            match &**t {
                re::TemplateExpr::QuotedString(_) => E::Tmpl(body),
                re::TemplateExpr::Heredoc(h) => E::Heredoc(Box::new(H {
                    delim: h.delimiter.as_str().to_string(),
                    strip: h.strip == re::HeredocStripMode::Indent,
                    indent: None,
                    body,
                })),
            }
        }
        re::Expression::Variable(v) => E::Var(v.as_str().to_string()),
        re::Expression::Traversal(t) => E::Trav(
            Box::new(rs_expr(&t.expr)?),
            t.operators
                .iter()
                .map(|o| {
                    Ok(match o {
                        re::TraversalOperator::AttrSplat => Op::AttrSplat,
                        re::TraversalOperator::FullSplat => Op::FullSplat,
                        re::TraversalOperator::GetAttr(i) => Op::Attr(i.as_str().to_string()),
                        re::TraversalOperator::Index(e) => Op::Idx(rs_expr(e)?),
                        re::TraversalOperator::LegacyIndex(n) => Op::Legacy(*n),
                    })
                })
                .collect::<Result<_, String>>()?,
        ),
        re::Expression::FuncCall(c) => E::Call(Box::new(Call {
            ns: c.name.namespace.iter().map(|i| i.as_str().to_string()).collect(),
            name: c.name.name.as_str().to_string(),
            args: c.args.iter().map(rs_expr).collect::<Result<_, _>>()?,
            expand: c.expand_final,
        })),
        re::Expression::Parenthesis(e) => E::Paren(Box::new(rs_expr(e)?)),
        re::Expression::Conditional(c) => E::Cond(Box::new((
            rs_expr(&c.cond_expr)?,
            rs_expr(&c.true_expr)?,
            rs_expr(&c.false_expr)?,
        ))),
        re::Expression::Operation(o) => match &**o {
            re::Operation::Unary(u) => E::Un(unop_of(u.operator), Box::new(rs_expr(&u.expr)?)),
            re::Operation::Binary(b) => E::Bin(
                Box::new(rs_expr(&b.lhs_expr)?),
                binop_of(b.operator),
                Box::new(rs_expr(&b.rhs_expr)?),
            ),
        },
        re::Expression::ForExpr(f) => {
            let o = |e: &Option<re::Expression>| e.as_ref().map(rs_expr).transpose();
            E::For(Box::new(m::For {
                key: f.key_var.as_ref().map(|i| i.as_str().to_string()),
                val: f.value_var.as_str().to_string(),
                coll: rs_expr(&f.collection_expr)?,
                kexpr: o(&f.key_expr)?,
                vexpr: rs_expr(&f.value_expr)?,
                group: f.grouping,
                cond: o(&f.cond_expr)?,
            }))
        }
        _ => return Err("unknown expression".into()),
    })
}

pub fn rs_template(t: &rt::Template) -> Result<Vec<T>, String> {
    let ts: Vec<T> = t
        .elements()
        .iter()
        .map(|e| {
            Ok(match e {
                rt::Element::Literal(s) => T::Lit(s.clone()),
                rt::Element::Interpolation(i) => T::Interp(rs_expr(&i.expr)?, strip_of(i.strip)),
                rt::Element::Directive(d) => match &**d {
                    rt::Directive::If(d) => T::If(Box::new(m::If {
                        cond: rs_expr(&d.cond_expr)?,
                        s1: strip_of(d.if_strip),
                        then: rs_template(&d.true_template)?,
                        els: match &d.false_template {
                            Some(t) => Some((strip_of(d.else_strip), rs_template(t)?)),
                            None => None,
                        },
                        s3: strip_of(d.endif_strip),
                    })),
                    rt::Directive::For(d) => T::For(Box::new(ForD {
                        key: d.key_var.as_ref().map(|i| i.as_str().to_string()),
                        val: d.value_var.as_str().to_string(),
                        coll: rs_expr(&d.collection_expr)?,
                        s1: strip_of(d.for_strip),
                        body: rs_template(&d.template)?,
                        s2: strip_of(d.endfor_strip),
                    })),
                },
            })
        })
        .collect::<Result<_, String>>()?;
    Ok(m::merge_lits(ts))
}

pub fn rs_body(b: &rs::Body) -> Result<B, String> {
    b.iter()
        .map(|s| {
            Ok(match s {
                rs::Structure::Attribute(a) => {
                    S::Attr(a.key.as_str().to_string(), rs_expr(&a.expr)?)
                }
                rs::Structure::Block(b) => S::Block(rs_block(b)?),
            })
        })
        .collect()
}

pub fn rs_block(b: &rs::Block) -> Result<m::Block, String> {
    Ok(m::Block {
        ident: b.identifier.as_str().to_string(),
        labels: b
            .labels
            .iter()
            .map(|l| match l {
                rs::BlockLabel::Identifier(i) => L::Id(i.as_str().to_string()),
                rs::BlockLabel::String(s) => L::Str(s.clone()),
            })
            .collect(),
        body: rs_body(&b.body)?,
    })
}

// --- model -> hcl-rs ----------------------------------------------------------------------------

fn rid(s: &str) -> Identifier {
    Identifier::new(s).expect("identifier")
}

/// Writes a template without escape sequences, as in `TemplateExpr`. Expressions are written by
/// the plain renderer of the harness.
pub fn raw_template(ts: &[T]) -> String {
    let mut r = crate::rng::Rng::new(1);
    crate::render::render_template(&mut r, ts, crate::render::Mode::Plain)
}

pub fn to_rs_expr(e: &E) -> re::Expression {
    match e {
        E::Null => re::Expression::Null,
        E::Bool(b) => re::Expression::Bool(*b),
        E::Num(n) => re::Expression::Number(num_to(*n)),
        E::Str(s) => re::Expression::String(s.clone()),
        E::Tmpl(ts) => re::Expression::from(re::TemplateExpr::QuotedString(raw_template(ts))),
        E::Heredoc(h) => re::Expression::from(re::TemplateExpr::Heredoc(re::Heredoc {
            delimiter: rid(&h.delim),
            template: raw_template(&h.body),
            strip: if h.strip {
                re::HeredocStripMode::Indent
            } else {
                re::HeredocStripMode::None
            },
        })),
        E::Arr(v) => re::Expression::Array(v.iter().map(to_rs_expr).collect()),
        E::Obj(v) => re::Expression::Object(
            v.iter()
                .map(|(k, e)| {
                    (
                        match k {
                            K::Id(i) => re::ObjectKey::Identifier(rid(i)),
                            K::Ex(e) => re::ObjectKey::Expression(to_rs_expr(e)),
                        },
                        to_rs_expr(e),
                    )
                })
                .collect(),
        ),
        E::Paren(e) => re::Expression::Parenthesis(Box::new(to_rs_expr(e))),
        E::Var(i) => re::Expression::from(re::Variable::new(i.as_str()).expect("variable")),
        E::Cond(c) => re::Expression::from(re::Conditional {
            cond_expr: to_rs_expr(&c.0),
            true_expr: to_rs_expr(&c.1),
            false_expr: to_rs_expr(&c.2),
        }),
        E::Call(c) => re::Expression::from(re::FuncCall {
            name: re::FuncName {
                namespace: c.ns.iter().map(|s| rid(s)).collect(),
                name: rid(&c.name),
            },
            args: c.args.iter().map(to_rs_expr).collect(),
            expand_final: c.expand,
        }),
        E::Trav(b, ops) => re::Expression::from(re::Traversal {
            expr: to_rs_expr(b),
            operators: ops
                .iter()
                .map(|o| match o {
                    Op::Attr(i) => re::TraversalOperator::GetAttr(rid(i)),
                    Op::Idx(e) => re::TraversalOperator::Index(to_rs_expr(e)),
                    Op::Legacy(n) => re::TraversalOperator::LegacyIndex(*n),
                    Op::AttrSplat => re::TraversalOperator::AttrSplat,
                    Op::FullSplat => re::TraversalOperator::FullSplat,
                })
                .collect(),
        }),
        E::Un(o, e) => re::Expression::from(re::Operation::Unary(re::UnaryOp {
            operator: unop_to(*o),
            expr: to_rs_expr(e),
        })),
        E::Bin(l, o, r) => re::Expression::from(re::Operation::Binary(re::BinaryOp {
            lhs_expr: to_rs_expr(l),
            operator: binop_to(*o),
            rhs_expr: to_rs_expr(r),
        })),
        E::For(f) => re::Expression::from(re::ForExpr {
            key_var: f.key.as_deref().map(rid),
            value_var: rid(&f.val),
            collection_expr: to_rs_expr(&f.coll),
            key_expr: f.kexpr.as_ref().map(to_rs_expr),
            value_expr: to_rs_expr(&f.vexpr),
            grouping: f.group,
            cond_expr: f.cond.as_ref().map(to_rs_expr),
        }),
    }
}

pub fn to_rs_template(ts: &[T]) -> rt::Template {
    let mut t = rt::Template::new();
    for x in ts {
        t = t.add_element(match x {
            T::Lit(s) => rt::Element::Literal(s.clone()),
            T::Interp(e, s) => rt::Element::Interpolation(
                rt::Interpolation::new(to_rs_expr(e)).with_strip((*s).into()),
            ),
            T::If(d) => rt::Element::Directive(Box::new(rt::Directive::If(rt::IfDirective {
                cond_expr: to_rs_expr(&d.cond),
                true_template: to_rs_template(&d.then),
                false_template: d.els.as_ref().map(|(_, e)| to_rs_template(e)),
                if_strip: d.s1.into(),
                else_strip: d.els.as_ref().map_or((false, false), |(s, _)| *s).into(),
                endif_strip: d.s3.into(),
            }))),
            T::For(d) => rt::Element::Directive(Box::new(rt::Directive::For(rt::ForDirective {
                key_var: d.key.as_deref().map(rid),
                value_var: rid(&d.val),
                collection_expr: to_rs_expr(&d.coll),
                template: to_rs_template(&d.body),
                for_strip: d.s1.into(),
                endfor_strip: d.s2.into(),
            }))),
        });
    }
    t
}

pub fn to_rs_struct(s: &S) -> rs::Structure {
    match s {
        S::Attr(k, e) => rs::Structure::Attribute(rs::Attribute {
            key: rid(k),
            expr: to_rs_expr(e),
        }),
        S::Block(b) => rs::Structure::Block(rs::Block {
            identifier: rid(&b.ident),
            labels: b
                .labels
                .iter()
                .map(|l| match l {
                    L::Id(i) => rs::BlockLabel::Identifier(rid(i)),
                    L::Str(s) => rs::BlockLabel::String(s.clone()),
                })
                .collect(),
            body: to_rs_body(&b.body),
        }),
    }
}

pub fn to_rs_body(b: &[S]) -> rs::Body {
    rs::Body(b.iter().map(to_rs_struct).collect())
}
