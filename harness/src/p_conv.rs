//! P12: conversions between the trees of hcl-edit and hcl-rs.

use crate::conv;
use crate::model::*;
use crate::p_edit::prog_opts;
use crate::p_parse::{edit_opts, first_diff, gen_body, gen_expr, require_kinds};
use crate::gen::Opts;
use crate::render::{render_body, render_expr, render_template, Mode};
use crate::run::{Mon, Obs};
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;

fn same<X: PartialEq + std::fmt::Debug>(obs: &mut Obs, src: &str, what: &str, got: &X, want: &X) -> bool {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
    got == want
}

fn model(obs: &mut Obs, src: &str, what: &str, got: Result<B, String>, want: &[S]) {
    match got {
        Ok(b) => {
            same(obs, src, what, &nb(&b, Nf::Rs), &nb(want, Nf::Rs));
        }
        Err(e) => obs.fail(src, format!("{what}: broken template: {e}")),
    }
}

/// hcl-edit models as hcl-rs sees them.
fn eb(b: &es::Body) -> B {
    nb(&conv::edit_body(b), Nf::Rs)
}

fn ex(e: &ee::Expression) -> E {
    ne(&conv::edit_expr(e), Nf::Rs)
}

pub fn rs_opts() -> Opts {
    Opts { marker_tail: false, ..prog_opts() }
}

/// Every node of a document is converted by itself, through the conversions of its own type.
fn pieces_edit(obs: &mut Obs, src: &str, b: &es::Body) {
    for s in b {
        let r = hcl::Structure::from(s.clone());
        let back = es::Structure::from(r.clone());
        let one = |s: es::Structure| eb(&[s].into_iter().collect());
        same(obs, src, "structure to hcl-rs and back", &one(back), &one(s.clone()));
        match s {
            es::Structure::Attribute(a) => {
                let x = hcl::Attribute::from(a.clone());
                same(obs, src, "converted attribute", &hcl::Structure::Attribute(x.clone()), &r);
                same(obs, src, "attribute key", &x.key.as_str(), &a.key.as_str());
                let back = es::Attribute::from(x);
                same(obs, src, "attribute to hcl-rs and back", &one(back.into()), &one(a.clone().into()));
                piece_expr(obs, src, &a.value);
            }
            es::Structure::Block(b) => {
                let x = hcl::Block::from(b.clone());
                same(obs, src, "converted block", &hcl::Structure::Block(x.clone()), &r);
                for (i, l) in b.labels.iter().enumerate() {
                    same(obs, src, "converted label", &hcl::BlockLabel::from(l.clone()), &x.labels[i]);
                    same(obs, src, "label to hcl-rs and back", &es::BlockLabel::from(x.labels[i].clone()), l);
                }
                let back = es::Block::from(x);
                same(obs, src, "block to hcl-rs and back", &one(back.into()), &one(b.clone().into()));
                obs.feat("single structures");
                pieces_edit(obs, src, &b.body);
            }
        }
    }
}

fn piece_expr(obs: &mut Obs, src: &str, e: &ee::Expression) {
    use hcl::expr as re;
    let r = hcl::Expression::from(e.clone());
    let back = ee::Expression::from(r.clone());
    if !same(obs, src, "expression to hcl-rs and back", &ex(&back), &ex(e)) {
        return;
    }
    obs.feat("single expressions");
    same(obs, src, "expression to hcl-rs, back and to hcl-rs again", &hcl::Expression::from(back), &r);
    match e {
        ee::Expression::Array(a) => a.iter().for_each(|e| piece_expr(obs, src, e)),
        ee::Expression::Object(o) => {
            for (k, v) in o.iter() {
                let rk = re::ObjectKey::from(k.clone());
                let want = match k {
                    ee::ObjectKey::Ident(i) => re::ObjectKey::Identifier(hcl::Identifier::from(i.value().clone())),
                    ee::ObjectKey::Expression(e) => re::ObjectKey::Expression(hcl::Expression::from(e.clone())),
                };
                same(obs, src, "converted object key", &rk, &want);
                let back = ee::ObjectKey::from(rk);
                same(obs, src, "object key kind", &back.is_ident(), &k.is_ident());
                let rv = hcl::Expression::from(v.clone());
                same(obs, src, "converted object value", &rv, &v.expr().clone().into());
                same(obs, src, "object value to hcl-rs and back", &ex(ee::ObjectValue::from(rv).expr()), &ex(v.expr()));
                if let ee::ObjectKey::Expression(e) = k {
                    piece_expr(obs, src, e);
                }
                piece_expr(obs, src, v.expr());
            }
        }
        ee::Expression::Parenthesis(p) => {
            let hcl::Expression::Parenthesis(x) = &r else {
                obs.fail(src, "parentheses are not kept");
                return;
            };
            same(obs, src, "parenthesized expression", &**x, &p.inner().clone().into());
            piece_expr(obs, src, p.inner());
        }
        ee::Expression::Conditional(c) => {
            let x = re::Conditional::from((**c).clone());
            same(obs, src, "converted conditional", &hcl::Expression::from(x.clone()), &r);
            same(obs, src, "conditional to hcl-rs and back", &ex(&ee::Conditional::from(x).into()), &ex(e));
            piece_expr(obs, src, &c.cond_expr);
            piece_expr(obs, src, &c.true_expr);
            piece_expr(obs, src, &c.false_expr);
        }
        ee::Expression::FuncCall(c) => {
            let x = re::FuncCall::from((**c).clone());
            same(obs, src, "converted call", &hcl::Expression::from(x.clone()), &r);
            same(obs, src, "converted function name", &re::FuncName::from(c.name.clone()), &x.name);
            same(obs, src, "function name to hcl-rs and back", &ee::FuncName::from(x.name.clone()), &c.name);
            same(obs, src, "argument expansion", &x.expand_final, &c.args.expand_final());
            same(obs, src, "call to hcl-rs and back", &ex(&ee::FuncCall::from(x).into()), &ex(e));
            c.args.iter().for_each(|e| piece_expr(obs, src, e));
        }
        ee::Expression::Traversal(t) => {
            let x = re::Traversal::from((**t).clone());
            same(obs, src, "converted traversal", &hcl::Expression::from(x.clone()), &r);
            for (o, xo) in t.operators.iter().zip(&x.operators) {
                same(obs, src, "converted traversal operator", &re::TraversalOperator::from(o.value().clone()), xo);
                same(obs, src, "converted decorated traversal operator", &re::TraversalOperator::from(o.clone()), xo);
                if let ee::TraversalOperator::Index(e) = o.value() {
                    piece_expr(obs, src, e);
                } else {
                    same(obs, src, "traversal operator to hcl-rs and back", &ee::TraversalOperator::from(xo.clone()), o.value());
                }
            }
            same(obs, src, "traversal to hcl-rs and back", &ex(&ee::Traversal::from(x).into()), &ex(e));
            piece_expr(obs, src, &t.expr);
        }
        ee::Expression::UnaryOp(u) => {
            let x = re::UnaryOp::from((**u).clone());
            same(obs, src, "converted unary operation", &hcl::Expression::from(x.clone()), &r);
            same(obs, src, "converted unary operation", &re::Operation::from((**u).clone()), &re::Operation::Unary(x.clone()));
            same(obs, src, "unary operation to hcl-rs and back", &ex(&ee::UnaryOp::from(x).into()), &ex(e));
            piece_expr(obs, src, &u.expr);
        }
        ee::Expression::BinaryOp(b) => {
            let x = re::BinaryOp::from((**b).clone());
            same(obs, src, "converted binary operation", &hcl::Expression::from(x.clone()), &r);
            same(obs, src, "converted binary operation", &re::Operation::from((**b).clone()), &re::Operation::Binary(x.clone()));
            same(obs, src, "binary operation to hcl-rs and back", &ex(&ee::BinaryOp::from(x).into()), &ex(e));
            piece_expr(obs, src, &b.lhs_expr);
            piece_expr(obs, src, &b.rhs_expr);
        }
        ee::Expression::ForExpr(f) => {
            let x = re::ForExpr::from((**f).clone());
            same(obs, src, "converted for expression", &hcl::Expression::from(x.clone()), &r);
            same(obs, src, "for expression to hcl-rs and back", &ex(&ee::ForExpr::from(x).into()), &ex(e));
            piece_expr(obs, src, &f.value_expr);
        }
        ee::Expression::StringTemplate(t) => {
            let x = re::TemplateExpr::from(t.clone());
            same(obs, src, "converted string template", &hcl::Expression::from(x.clone()), &r);
            match hcl::Template::from_expr(&x) {
                Ok(got) => {
                    same(obs, src, "template of a converted string template", &conv::rs_template(&got).map(|t| nt(&t, Nf::Rs)), &Ok(nt(&conv::edit_template(&et::Template::from(t.clone())), Nf::Rs)));
                }
                Err(e) => obs.fail(src, format!("broken template: {e}")),
            }
            piece_template(obs, src, &et::Template::from(t.clone()));
        }
        ee::Expression::HeredocTemplate(h) => {
            let x = re::Heredoc::from((**h).clone());
            same(obs, src, "converted heredoc", &hcl::Expression::from(x.clone()), &r);
            same(obs, src, "converted heredoc", &re::TemplateExpr::Heredoc(x.clone()), &re::TemplateExpr::from(x.clone()));
            same(obs, src, "heredoc delimiter", &x.delimiter.as_str(), &h.delimiter.as_str());
            same(obs, src, "heredoc to hcl-rs and back", &ex(&et::HeredocTemplate::from(x).into()), &ex(e));
            piece_template(obs, src, &h.template);
        }
        ee::Expression::Variable(v) => {
            let x = hcl::expr::Variable::from(v.value().clone());
            same(obs, src, "converted variable", &hcl::Expression::from(x), &r);
        }
        _ => {}
    }
}

fn piece_template(obs: &mut Obs, src: &str, t: &et::Template) {
    use hcl::template as rt;
    let norm = |t: &et::Template| nt(&conv::edit_template(t), Nf::Rs);
    let one = |e: et::Element| norm(&[e].into_iter().collect());
    let x = rt::Template::from(t.clone());
    same(obs, src, "converted template", &conv::rs_template(&x).map(|t| nt(&t, Nf::Rs)), &Ok(norm(t)));
    let back = et::Template::from(x.clone());
    same(obs, src, "template to hcl-rs and back", &norm(&back), &norm(t));
    obs.feat("single templates");
    if x.elements().len() != t.len() {
        obs.fail(src, "a converted template has another number of elements");
        return;
    }
    for (e, x) in t.iter().zip(x.elements()) {
        same(obs, src, "converted template element", &rt::Element::from(e.clone()), x);
        same(obs, src, "template element to hcl-rs and back", &one(et::Element::from(x.clone())), &one(e.clone()));
        match (e, x) {
            (et::Element::Interpolation(i), rt::Element::Interpolation(xi)) => {
                same(obs, src, "converted interpolation", &rt::Interpolation::from(i.clone()), xi);
                same(obs, src, "interpolation to hcl-rs and back", &one(et::Interpolation::from(xi.clone()).into()), &one(e.clone()));
                piece_expr(obs, src, &i.expr);
            }
            (et::Element::Directive(d), rt::Element::Directive(xd)) => {
                same(obs, src, "converted directive", &rt::Directive::from((**d).clone()), &**xd);
                same(obs, src, "directive to hcl-rs and back", &one(et::Directive::from((**xd).clone()).into()), &one(e.clone()));
                match (&**d, &**xd) {
                    (et::Directive::If(d), rt::Directive::If(x)) => {
                        same(obs, src, "converted if directive", &rt::IfDirective::from(d.clone()), x);
                        same(obs, src, "if directive to hcl-rs and back", &one(et::Directive::If(et::IfDirective::from(x.clone())).into()), &one(e.clone()));
                        piece_template(obs, src, &d.if_expr.template);
                        if let Some(e) = &d.else_expr {
                            piece_template(obs, src, &e.template);
                        }
                    }
                    (et::Directive::For(d), rt::Directive::For(x)) => {
                        same(obs, src, "converted for directive", &rt::ForDirective::from(d.clone()), x);
                        same(obs, src, "for directive to hcl-rs and back", &one(et::Directive::For(et::ForDirective::from(x.clone())).into()), &one(e.clone()));
                        piece_template(obs, src, &d.for_expr.template);
                    }
                    _ => obs.fail(src, "a directive is converted to another kind"),
                }
            }
            (et::Element::Literal(_), rt::Element::Literal(_)) => {}
            _ => obs.fail(src, "a template element is converted to another kind"),
        }
    }
}

pub fn p12(m: &mut Mon) {
    m.rule = "a document counts when it has at least two structures or a nested expression".into();
    require_kinds(m);
    for (f, n) in [("single structures", 1000), ("single expressions", 10_000), ("single templates", 1000), ("compared expressions", 1000), ("compared templates", 1000)] {
        m.require(f, n);
    }
    // The source is the document; hcl-rs has to agree with hcl-edit.
    m.cases("parsed", m.n(12_000), |obs, rng, _| {
        let b = gen_body(rng, Opts { marker_tail: false, ..edit_opts() });
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        let mode = if rng.bool() { Mode::Lossless } else { Mode::Wild };
        let (src, _) = render_body(rng, &b, mode);
        obs.case(&src, b.len() > 1 || src.len() > 20);
        let Ok(e) = src.parse::<es::Body>() else {
            obs.feat("unparsed");
            return;
        };
        let r = hcl::Body::from(e.clone());
        model(obs, &src, "document converted to hcl-rs", conv::rs_body(&r), &b);
        match hcl::parse(&src) {
            Ok(p) => {
                same(obs, &src, "document parsed by hcl-rs", &p, &r);
            }
            Err(e) => obs.fail(&src, format!("hcl-rs rejects the document: {e}")),
        }
        match src.parse::<hcl::Body>() {
            Ok(p) => {
                same(obs, &src, "document parsed by hcl-rs (FromStr)", &p, &r);
            }
            Err(e) => obs.fail(&src, format!("hcl-rs rejects the document: {e}")),
        }
        match hcl::from_str::<hcl::Body>(&src) {
            Ok(p) => {
                same(obs, &src, "document deserialized by hcl-rs", &p, &r);
            }
            Err(e) => obs.fail(&src, format!("hcl-rs rejects the document: {e}")),
        }
        let back = es::Body::from(r.clone());
        same(obs, &src, "document converted to hcl-rs and back", &eb(&back), &eb(&e));
        same(obs, &src, "document converted to hcl-rs, back and to hcl-rs again", &hcl::Body::from(back), &r);
        pieces_edit(obs, &src, &e);
    });
    // The tree of hcl-rs is the document.
    m.cases("built", m.n(12_000), |obs, rng, _| {
        let b = gen_body(rng, rs_opts());
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        let r = conv::to_rs_body(&b);
        let src = format!("{r:?}");
        obs.case(&src, src.len() > 60);
        model(obs, &src, "built document", conv::rs_body(&r), &b);
        let e = es::Body::from(r.clone());
        model(obs, &src, "document converted to hcl-edit", Ok(conv::edit_body(&e)), &b);
        same(obs, &src, "document converted to hcl-edit and back", &hcl::Body::from(e.clone()), &r);
        pieces_edit(obs, &src, &e);
    });
    m.cases("expressions", m.n(12_000), |obs, rng, _| {
        let m1 = gen_expr(rng, Opts { marker_tail: false, ..edit_opts() });
        let mode = if rng.bool() { Mode::Lossless } else { Mode::Wild };
        let (src, _) = render_expr(rng, &m1, mode);
        obs.case(&src, src.len() > 5);
        let Ok(e) = src.parse::<ee::Expression>() else {
            obs.feat("unparsed");
            return;
        };
        obs.feat("compared expressions");
        let r = hcl::Expression::from(e.clone());
        same(obs, &src, "expression converted to hcl-rs", &conv::rs_expr(&r).map(|e| ne(&e, Nf::Rs)), &Ok(ne(&m1, Nf::Rs)));
        match src.parse::<hcl::Expression>() {
            Ok(p) => {
                same(obs, &src, "expression parsed by hcl-rs", &p, &r);
            }
            Err(e) => obs.fail(&src, format!("hcl-rs rejects the expression: {e}")),
        }
    });
    m.cases("templates", m.n(12_000), |obs, rng, i| {
        let o = Opts { marker_tail: false, ..edit_opts() };
        let mut g = crate::gen::G::new(rng, o);
        g.budget = 30;
        let m1 = g.bare(3);
        let src = render_template(rng, &m1, if i % 3 == 0 { Mode::Wild } else { Mode::Lossless });
        obs.case(&src, src.len() > 5);
        let Ok(t) = src.parse::<et::Template>() else {
            obs.feat("unparsed");
            return;
        };
        obs.feat("compared templates");
        let r = hcl::Template::from(t.clone());
        same(obs, &src, "template converted to hcl-rs", &conv::rs_template(&r).map(|e| nt(&e, Nf::Rs)), &Ok(nt(&m1, Nf::Rs)));
        match src.parse::<hcl::Template>() {
            Ok(p) => {
                same(obs, &src, "template parsed by hcl-rs", &p, &r);
            }
            Err(e) => obs.fail(&src, format!("hcl-rs rejects the template: {e}")),
        }
        piece_template(obs, &src, &t);
        // A tree that was built, not parsed.
        let mut g = crate::gen::G::new(rng, Opts { marker_tail: false, ..rs_opts() });
        g.budget = 30;
        let m1 = g.bare(3);
        let src = format!("{m1:?}");
        let built = conv::to_rs_template(&m1);
        let e = et::Template::from(built.clone());
        same(obs, &src, "built template converted to hcl-edit", &nt(&conv::edit_template(&e), Nf::Rs), &nt(&m1, Nf::Rs));
        same(obs, &src, "built template converted to hcl-edit and back", &hcl::Template::from(e), &built);
    });
    // A literal that ends in `$` in front of an interpolation can be written with an escape
    // sequence, which the raw template text of hcl-rs cannot express.
    m.once("escaped marker", |obs| {
        for (src, what) in [
            ("a = \"\\u0024${x}\"", "`\\u0024${x}` is converted to the escaped marker `$${x}`"),
            ("a = \"\\u0025%{ if x }%{ endif }\"", "`\\u0025%{ if x }` is converted to the escaped marker `%%{ if x }`"),
        ] {
            obs.case(src, true);
            let Ok(e) = src.parse::<es::Body>() else { continue };
            let got = hcl::parse(src).map_err(|e| e.to_string()).and_then(|r| conv::rs_body(&r));
            if got != Ok(conv::edit_body(&e)) {
                obs.fail(src, what);
            }
        }
    });
}
