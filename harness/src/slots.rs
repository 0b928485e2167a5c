//! A walk over the expressions of a hcl-edit document at which any other expression may be put.
//! It does not use the visitors of the crate, which have their own check.

use hcl_edit::expr::{Expression, TraversalOperator};
use hcl_edit::structure::Body;
use hcl_edit::template::{Directive, Element, Template};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ctx {
    /// Line breaks are allowed between the tokens of the expression.
    pub nl: bool,
    /// Any expression may be put here (not only an operand).
    pub full: bool,
    /// The decoration separates the expression from a word.
    pub keep: bool,
    /// Within a heredoc.
    pub heredoc: bool,
}

/// Returns `true` if the walk should not descend into the expression.
pub type F<'a> = dyn FnMut(&mut Expression, Ctx) -> bool + 'a;

pub fn body(b: &mut Body, f: &mut F) {
    for mut s in b.iter_mut() {
        if let Some(mut a) = s.as_attribute_mut() {
            let c = Ctx { nl: false, full: true, keep: false, heredoc: false };
            expr(a.value_mut(), c, f);
        } else if let Some(b) = s.as_block_mut() {
            body(&mut b.body, f);
        }
    }
}

pub fn expr(e: &mut Expression, c: Ctx, f: &mut F) {
    if f(e, c) {
        return;
    }
    let full = Ctx { full: true, keep: false, ..c };
    let open = Ctx { nl: true, ..full };
    let part = Ctx { full: false, keep: true, ..c };
    match e {
        Expression::Array(a) => a.iter_mut().for_each(|e| expr(e, open, f)),
        Expression::Object(o) => o
            .iter_mut()
            .for_each(|(_, v)| expr(v.expr_mut(), Ctx { nl: false, ..full }, f)),
        Expression::StringTemplate(t) => t.iter_mut().for_each(|e| element(e, full, f)),
        Expression::HeredocTemplate(h) => {
            template(&mut h.template, Ctx { heredoc: true, ..full }, f);
        }
        Expression::Parenthesis(p) => expr(p.inner_mut(), open, f),
        Expression::Conditional(x) => {
            expr(&mut x.cond_expr, part, f);
            expr(&mut x.true_expr, full, f);
            expr(&mut x.false_expr, full, f);
        }
        Expression::FuncCall(x) => x.args.iter_mut().for_each(|e| expr(e, open, f)),
        Expression::Traversal(x) => {
            expr(&mut x.expr, part, f);
            for o in &mut x.operators {
                if let TraversalOperator::Index(e) = o.value_mut() {
                    expr(e, open, f);
                }
            }
        }
        Expression::UnaryOp(x) => expr(&mut x.expr, part, f),
        Expression::BinaryOp(x) => {
            expr(&mut x.lhs_expr, part, f);
            expr(&mut x.rhs_expr, part, f);
        }
        Expression::ForExpr(x) => {
            let has_cond = x.cond.is_some();
            expr(&mut x.intro.collection_expr, open, f);
            if let Some(k) = &mut x.key_expr {
                expr(k, open, f);
            }
            expr(&mut x.value_expr, Ctx { keep: has_cond, ..open }, f);
            if let Some(k) = &mut x.cond {
                expr(&mut k.expr, open, f);
            }
        }
        _ => {}
    }
}

pub fn template(t: &mut Template, c: Ctx, f: &mut F) {
    t.iter_mut().for_each(|e| element(e, c, f));
}

pub fn element(e: &mut Element, c: Ctx, f: &mut F) {
    let open = Ctx { nl: true, full: true, keep: false, ..c };
    match e {
        Element::Literal(_) => {}
        Element::Interpolation(i) => expr(&mut i.expr, open, f),
        Element::Directive(d) => match &mut **d {
            Directive::If(d) => {
                expr(&mut d.if_expr.cond_expr, open, f);
                template(&mut d.if_expr.template, c, f);
                if let Some(e) = &mut d.else_expr {
                    template(&mut e.template, c, f);
                }
            }
            Directive::For(d) => {
                expr(&mut d.for_expr.collection_expr, open, f);
                template(&mut d.for_expr.template, c, f);
            }
        },
    }
}

/// All bodies of a document, outer ones first.
pub fn bodies(b: &mut Body, f: &mut dyn FnMut(&mut Body, usize), depth: usize) {
    f(b, depth);
    for mut s in b.iter_mut() {
        if let Some(b) = s.as_block_mut() {
            bodies(&mut b.body, f, depth + 1);
        }
    }
}
