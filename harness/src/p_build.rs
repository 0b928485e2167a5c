//! P28: every way to build a tree gives the same tree. A model is built once by the plain
//! converters of the harness and once along randomly chosen constructors, builders, conversions and
//! collections; both results have to be the same.

use crate::conv::{self, binop_to, num_to};
use crate::gen::G;
use crate::model as m;
use crate::model::*;
use crate::p_conv::rs_opts;
use crate::p_edit::prog_opts;
use crate::p_parse::{edit_opts, first_diff, gen_body, gen_expr, require_kinds};
use crate::render::{render_body, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use crate::val::V;
use hcl::expr as re;
use hcl::structure as rs;
use hcl::template as rt;
use hcl::{Identifier, Value};
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::{Decor, Decorate, Decorated, Formatted, Ident, RawString, Span, Spanned};
use std::borrow::Cow;

struct Alt<'a> {
    r: &'a mut Rng,
    obs: &'a mut Obs,
}

/// Picks one of several expressions of the same type.
macro_rules! pick {
    ($s:ident, $($name:literal => $e:expr),+ $(,)?) => {{
        const NAMES: &[&str] = &[$($name),+];
        let name = NAMES[$s.r.below(NAMES.len())];
        $s.obs.feat(name);
        match name {
            $($name => $e,)+
            _ => unreachable!(),
        }
    }};
}

impl Alt<'_> {
    // --- hcl-edit -------------------------------------------------------------------------------

    fn did(&mut self, s: &str) -> Decorated<Ident> {
        pick!(self, "Decorated::new" => Decorated::new(Ident::new(s)), "Decorated::from" => Decorated::from(Ident::new(s)))
    }

    fn number(&mut self, n: N) -> hcl::Number {
        match n {
            N::U(u) => match self.r.below(5) {
                0 if u < 1 << 8 => (u as u8).into(),
                1 if u < 1 << 16 => (u as u16).into(),
                2 if u < 1 << 32 => (u as u32).into(),
                3 if u < 1 << 63 => (u as i64).into(),
                4 => (u as usize).into(),
                _ => u.into(),
            },
            N::I(i) => match self.r.below(4) {
                0 if i >= -128 => (i as i8).into(),
                1 if i >= -(1 << 15) => (i as i16).into(),
                2 if i >= -(1 << 31) => (i as i32).into(),
                3 => (i as isize).into(),
                _ => i.into(),
            },
            N::F(f) => hcl::Number::from_f64(f).expect("finite"),
        }
    }

    fn edit_number(&mut self, n: N) -> ee::Expression {
        if let N::F(f) = n {
            if f64::from(f as f32) == f {
                return pick!(self, "edit f32" => (f as f32).into(), "edit f64" => f.into());
            }
        }
        match (n, self.r.below(6)) {
            (N::F(f), 0..=2) => f.into(),
            (N::U(u), 0) => u.into(),
            (N::U(u), 1) => (u as usize).into(),
            (N::U(u), 2) if u < 1 << 32 => (u as u32).into(),
            (N::I(i), 0) => i.into(),
            (N::I(i), 1) => (i as isize).into(),
            (N::I(i), 2) if i >= -128 => (i as i8).into(),
            (n, 3) => Formatted::new(num_to(n)).into(),
            (n, 4) => ee::Expression::Number(Formatted::from(self.number(n))),
            (n, _) => self.number(n).into(),
        }
    }

    fn edit_array(&mut self, v: &[E]) -> ee::Expression {
        let mut xs: Vec<ee::Expression> = v.iter().map(|e| self.edit(e)).collect();
        pick!(self,
            "edit expression from vec" => ee::Expression::from(xs),
            "edit expression from slice" => ee::Expression::from(xs.as_slice()),
            "edit expression collected" => xs.into_iter().collect(),
            "edit array from vec" => ee::Array::from(xs).into(),
            "edit array collected" => xs.into_iter().collect::<ee::Array>().into(),
            "edit array extended" => {
                let at = self.r.below(xs.len() + 1);
                let rest = xs.split_off(at);
                let mut a: ee::Array = xs.into_iter().collect();
                a.extend(rest);
                a.into()
            },
            "edit array inserted" => {
                let mut a = ee::Array::with_capacity(self.r.below(5));
                for x in xs.into_iter().rev() {
                    a.insert(0, x);
                }
                ee::Expression::Array(a)
            },
        )
    }

    fn edit_key(&mut self, k: &K) -> ee::ObjectKey {
        match k {
            K::Id(i) => pick!(self, "edit key from ident" => Ident::new(i.as_str()).into(), "edit key from decorated ident" => self.did(i).into()),
            K::Ex(e) => self.edit(e).into(),
        }
    }

    fn edit_object(&mut self, v: &[(K, E)]) -> ee::Expression {
        let mut xs: Vec<(ee::ObjectKey, ee::ObjectValue)> = v
            .iter()
            .map(|(k, e)| {
                let k = self.edit_key(k);
                let e = self.edit(e);
                (k, pick!(self, "edit object value new" => ee::ObjectValue::new(e), "edit object value from" => e.into()))
            })
            .collect();
        pick!(self,
            "edit object in expression collected" => xs.into_iter().collect(),
            "edit object collected" => xs.into_iter().collect::<ee::Object>().into(),
            "edit object from map" => ee::Object::from(xs.into_iter().collect::<vecmap::VecMap<_, _>>()).into(),
            "edit object extended" => {
                let at = self.r.below(xs.len() + 1);
                let rest = xs.split_off(at);
                let mut o: ee::Object = xs.into_iter().collect();
                o.extend(rest);
                o.into()
            },
            "edit object from expressions" => xs.into_iter().map(|(k, v)| (k, v.into_expr())).collect(),
        )
    }

    fn edit_args(&mut self, v: &[E]) -> ee::FuncArgs {
        let mut xs: Vec<ee::Expression> = v.iter().map(|e| self.edit(e)).collect();
        pick!(self,
            "edit args from vec" => ee::FuncArgs::from(xs),
            "edit args collected" => xs.into_iter().collect(),
            "edit args extended" => {
                let at = self.r.below(xs.len() + 1);
                let rest = xs.split_off(at);
                let mut a: ee::FuncArgs = xs.into_iter().collect();
                a.extend(rest);
                a
            },
            "edit args inserted" => {
                let mut a = ee::FuncArgs::with_capacity(1);
                for x in xs.into_iter().rev() {
                    a.insert(0, x);
                }
                a
            },
        )
    }

    fn edit(&mut self, e: &E) -> ee::Expression {
        match e {
            E::Null => ee::Expression::null(),
            E::Bool(b) => pick!(self, "edit bool" => (*b).into(), "edit decorated bool" => Decorated::new(*b).into()),
            E::Num(n) => self.edit_number(*n),
            E::Str(s) => pick!(self,
                "edit str" => s.as_str().into(),
                "edit String" => s.clone().into(),
                "edit Cow borrowed" => Cow::Borrowed(s.as_str()).into(),
                "edit Cow owned" => Cow::<str>::Owned(s.clone()).into(),
                "edit decorated String" => Decorated::new(s.clone()).into(),
            ),
            E::Tmpl(ts) => {
                let t = self.edit_template(ts);
                pick!(self,
                    "edit string template from template" => et::StringTemplate::from(t).into(),
                    "edit string template collected" => t.into_iter().collect::<et::StringTemplate>().into(),
                    "edit string template from vec" => et::StringTemplate::from(t.into_iter().collect::<Vec<_>>()).into(),
                    "edit string template extended" => {
                        let mut x = if self.r.bool() { et::StringTemplate::new() } else { et::StringTemplate::with_capacity(2) };
                        x.extend(t);
                        x.into()
                    },
                    "edit string template pushed" => {
                        let mut x = et::StringTemplate::default();
                        for e in t {
                            x.push(e);
                        }
                        ee::Expression::StringTemplate(x)
                    },
                )
            }
            E::Heredoc(h) => {
                let mut x = et::HeredocTemplate::new(Ident::new(h.delim.as_str()), self.edit_template(&h.body));
                if h.strip {
                    x.set_indent(h.indent.unwrap_or(0));
                }
                x.into()
            }
            E::Arr(v) => self.edit_array(v),
            E::Obj(v) => self.edit_object(v),
            E::Paren(e) => {
                let x = self.edit(e);
                pick!(self,
                    "edit parenthesis" => ee::Parenthesis::new(x).into(),
                    "edit boxed parenthesis" => ee::Expression::Parenthesis(Box::new(ee::Parenthesis::new(x))),
                    "edit parenthesis set" => {
                        let mut p = ee::Parenthesis::new(ee::Expression::null());
                        *p.inner_mut() = x;
                        p.into()
                    },
                )
            }
            E::Var(i) => pick!(self, "edit ident" => Ident::new(i.as_str()).into(), "edit decorated ident" => self.did(i).into()),
            E::Cond(c) => ee::Conditional::new(self.edit(&c.0), self.edit(&c.1), self.edit(&c.2)).into(),
            E::Call(c) => {
                let mut name: ee::FuncName = pick!(self,
                    "edit func name new" => ee::FuncName::new(Ident::new(c.name.as_str())),
                    "edit func name from ident" => Ident::new(c.name.as_str()).into(),
                    "edit func name from decorated ident" => self.did(&c.name).into(),
                );
                let ns: Vec<_> = c.ns.iter().map(|s| self.did(s)).collect();
                pick!(self,
                    "edit namespace set" => name.set_namespace(ns),
                    "edit namespace of idents" => name.set_namespace(c.ns.iter().map(|s| Ident::new(s.as_str()))),
                );
                if name.is_namespaced() == c.ns.is_empty() {
                    self.obs.fail(format!("{e:?}"), "is_namespaced");
                }
                let mut args = self.edit_args(&c.args);
                args.set_expand_final(c.expand);
                ee::FuncCall::new(name, args).into()
            }
            E::Trav(b, ops) => {
                let ops = ops
                    .iter()
                    .map(|o| {
                        Decorated::new(match o {
                            Op::Attr(i) => ee::TraversalOperator::GetAttr(self.did(i)),
                            Op::Idx(e) => ee::TraversalOperator::Index(self.edit(e)),
                            Op::Legacy(n) => ee::TraversalOperator::LegacyIndex((*n).into()),
                            Op::AttrSplat => ee::TraversalOperator::AttrSplat(ee::Splat.into()),
                            Op::FullSplat => ee::TraversalOperator::FullSplat(ee::Splat.into()),
                        })
                    })
                    .collect();
                ee::Traversal::new(self.edit(b), ops).into()
            }
            E::Un(o, e) => {
                let o = if *o == UnOp::Neg { ee::UnaryOperator::Neg } else { ee::UnaryOperator::Not };
                let x = self.edit(e);
                pick!(self, "edit unary" => ee::UnaryOp::new(o, x).into(), "edit unary decorated" => ee::UnaryOp::new(Spanned::from(o), x).into())
            }
            E::Bin(l, o, r) => {
                let (l, r) = (self.edit(l), self.edit(r));
                pick!(self,
                    "edit binary" => ee::BinaryOp::new(l, binop_to(*o), r).into(),
                    "edit binary decorated" => ee::BinaryOp::new(l, Decorated::from(binop_to(*o)), r).into(),
                )
            }
            E::For(f) => {
                let mut intro = ee::ForIntro::new(self.did(&f.val), self.edit(&f.coll));
                intro.key_var = f.key.as_deref().map(|k| self.did(k));
                let mut x = ee::ForExpr::new(intro, self.edit(&f.vexpr));
                x.key_expr = f.kexpr.as_ref().map(|e| self.edit(e));
                x.grouping = f.group;
                if let Some(c) = &f.cond {
                    let c = self.edit(c);
                    x.cond = Some(pick!(self, "edit for cond new" => ee::ForCond::new(c), "edit for cond from" => c.into()));
                }
                x.into()
            }
        }
    }

    fn edit_template(&mut self, ts: &[T]) -> et::Template {
        let mut xs: Vec<et::Element> = ts.iter().map(|t| self.edit_elem(t)).collect();
        pick!(self,
            "edit template collected" => xs.into_iter().collect(),
            "edit template from vec" => et::Template::from(xs),
            "edit template from string template" => et::Template::from(et::StringTemplate::from(xs)),
            "edit template extended" => {
                let at = self.r.below(xs.len() + 1);
                let rest = xs.split_off(at);
                let mut t: et::Template = xs.into_iter().collect();
                t.extend(rest);
                t
            },
            "edit template pushed" => {
                let mut t = et::Template::with_capacity(1);
                for x in xs {
                    t.push(x);
                }
                t
            },
            "edit template inserted" => {
                let mut t = et::Template::new();
                for x in xs.into_iter().rev() {
                    t.insert(0, x);
                }
                t
            },
        )
    }

    fn edit_elem(&mut self, t: &T) -> et::Element {
        match t {
            T::Lit(s) => pick!(self,
                "edit literal str" => s.as_str().into(),
                "edit literal String" => s.clone().into(),
                "edit literal spanned" => Spanned::new(s.clone()).into(),
            ),
            T::Interp(e, s) => {
                let mut i = et::Interpolation::new(self.edit(e));
                i.strip = (*s).into();
                pick!(self, "edit interpolation" => i.into(), "edit interpolation variant" => et::Element::Interpolation(i))
            }
            T::If(d) => {
                let mut i = et::IfTemplateExpr::new(self.edit(&d.cond), self.edit_template(&d.then));
                i.strip = d.s1.into();
                let e = d.els.as_ref().map(|(s, e)| {
                    let mut x = et::ElseTemplateExpr::new(self.edit_template(e));
                    x.strip = (*s).into();
                    x
                });
                let mut end = if self.r.bool() { et::EndifTemplateExpr::new() } else { Default::default() };
                end.strip = d.s3.into();
                let d = et::IfDirective::new(i, e, end);
                pick!(self, "edit if directive" => et::Directive::from(d).into(), "edit if variant" => et::Element::Directive(Box::new(et::Directive::If(d))))
            }
            T::For(d) => {
                let mut f = et::ForTemplateExpr::new(d.key.as_deref().map(|k| self.did(k)), self.did(&d.val), self.edit(&d.coll), self.edit_template(&d.body));
                f.strip = d.s1.into();
                let mut end = if self.r.bool() { et::EndforTemplateExpr::new() } else { Default::default() };
                end.strip = d.s2.into();
                let d = et::ForDirective::new(f, end);
                pick!(self, "edit for directive" => et::Directive::from(d).into(), "edit for variant" => et::Element::Directive(Box::new(et::Directive::For(d))))
            }
        }
    }

    fn edit_label(&mut self, l: &L) -> es::BlockLabel {
        let (x, s, id) = match l {
            L::Id(i) => (pick!(self, "edit label ident" => Ident::new(i.as_str()).into(), "edit label decorated ident" => self.did(i).into()), i, true),
            L::Str(s) => (
                pick!(self,
                    "edit label str" => es::BlockLabel::from(s.as_str()),
                    "edit label String" => s.clone().into(),
                    "edit label decorated String" => Decorated::new(s.clone()).into(),
                ),
                s,
                false,
            ),
        };
        if x.is_ident() != id || x.is_string() == id || x.as_str() != s || &*x != s.as_str() || x.as_ref() != s.as_str() {
            self.obs.fail(format!("{l:?}"), format!("accessors of the label {x:?}"));
        }
        x
    }

    fn edit_block(&mut self, b: &m::Block) -> es::Block {
        let labels: Vec<_> = b.labels.iter().map(|l| self.edit_label(l)).collect();
        let body: Vec<_> = b.body.iter().map(|s| self.edit_struct(s)).collect();
        pick!(self,
            "edit block new" => {
                let mut x = es::Block::new(self.did(&b.ident));
                x.labels = labels;
                x.body = body.into();
                x
            },
            "edit block builder" => es::Block::builder(Ident::new(b.ident.as_str())).labels(labels).structures(body).build(),
            "edit block built in steps" => {
                let mut x = es::Block::builder(self.did(&b.ident));
                for l in labels {
                    x = x.label(l);
                }
                let mut rest = body.into_iter().peekable();
                while let Some(s) = rest.next() {
                    x = match s {
                        es::Structure::Attribute(a) if self.r.bool() => {
                            // A run of attributes.
                            let mut v = vec![a];
                            while let Some(es::Structure::Attribute(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_attribute().unwrap());
                            }
                            x.attributes(v)
                        }
                        es::Structure::Block(b) if self.r.bool() => {
                            let mut v = vec![b];
                            while let Some(es::Structure::Block(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_block().unwrap());
                            }
                            x.blocks(v)
                        }
                        es::Structure::Attribute(a) => x.attribute(a),
                        es::Structure::Block(b) => x.block(b),
                    };
                }
                x.into()
            },
        )
    }

    fn edit_struct(&mut self, s: &S) -> es::Structure {
        match s {
            S::Attr(k, e) => {
                let e = self.edit(e);
                let a = pick!(self, "edit attribute ident" => es::Attribute::new(Ident::new(k.as_str()), e), "edit attribute decorated ident" => es::Attribute::new(self.did(k), e));
                pick!(self, "edit attribute structure" => a.into(), "edit attribute variant" => es::Structure::Attribute(a))
            }
            S::Block(b) => {
                let b = self.edit_block(b);
                pick!(self, "edit block structure" => b.into(), "edit block variant" => es::Structure::Block(b))
            }
        }
    }

    fn edit_body(&mut self, b: &[S]) -> es::Body {
        let mut xs: Vec<_> = b.iter().map(|s| self.edit_struct(s)).collect();
        pick!(self,
            "edit body from vec" => es::Body::from(xs),
            "edit body collected" => xs.into_iter().collect(),
            "edit body extended" => {
                let at = self.r.below(xs.len() + 1);
                let rest = xs.split_off(at);
                let mut t: es::Body = xs.into_iter().collect();
                t.extend(rest);
                t
            },
            "edit body builder" => es::Body::builder().structures(xs).build(),
            "edit body built in steps" => {
                let mut x = es::Body::builder();
                let mut rest = xs.into_iter().peekable();
                while let Some(s) = rest.next() {
                    x = match s {
                        es::Structure::Attribute(a) if self.r.bool() => {
                            let mut v = vec![a];
                            while let Some(es::Structure::Attribute(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_attribute().unwrap());
                            }
                            x.attributes(v)
                        }
                        es::Structure::Block(b) if self.r.bool() => {
                            let mut v = vec![b];
                            while let Some(es::Structure::Block(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_block().unwrap());
                            }
                            x.blocks(v)
                        }
                        es::Structure::Attribute(a) => x.attribute(a),
                        es::Structure::Block(b) => x.block(b),
                    };
                }
                x.into()
            },
            "edit body inserted" => {
                let mut x = es::Body::with_capacity(1);
                for s in xs.into_iter().rev() {
                    x.insert(0, s);
                }
                x
            },
        )
    }

    // --- hcl-rs ---------------------------------------------------------------------------------

    fn rid(&mut self, s: &str) -> Identifier {
        pick!(self,
            "Identifier::new" => Identifier::new(s).expect("identifier"),
            "Identifier::unchecked" => Identifier::unchecked(s),
            "Identifier::sanitized" => Identifier::sanitized(s),
            "Identifier from str" => s.into(),
            "Identifier from String" => s.to_string().into(),
            "Identifier from Cow" => Cow::Borrowed(s).into(),
            "Identifier from Ident" => Ident::new(s).into(),
            "Identifier from Variable" => re::Variable::unchecked(s).into(),
        )
    }

    fn rs_number(&mut self, n: N) -> re::Expression {
        if let N::F(f) = n {
            if f64::from(f as f32) == f {
                return pick!(self, "rs f32" => (f as f32).into(), "rs f64" => f.into());
            }
        }
        match (n, self.r.below(5)) {
            (N::F(f), 0..=2) => f.into(),
            (N::U(u), 0) => u.into(),
            (N::U(u), 1) => (u as usize).into(),
            (N::U(u), 2) if u < 1 << 16 => (u as u16).into(),
            (N::I(i), 0) => i.into(),
            (N::I(i), 1) => (i as isize).into(),
            (N::I(i), 2) if i >= -(1 << 31) => (i as i32).into(),
            (n, 3) => Value::Number(self.number(n)).into(),
            (n, _) => self.number(n).into(),
        }
    }

    fn rs_var(&mut self, s: &str) -> re::Variable {
        pick!(self,
            "Variable::new" => re::Variable::new(s).expect("variable"),
            "Variable::unchecked" => re::Variable::unchecked(s.to_string()),
            "Variable::sanitized" => re::Variable::sanitized(s),
            "Variable from Identifier" => self.rid(s).into(),
        )
    }

    fn rs_key(&mut self, k: &K) -> re::ObjectKey {
        match k {
            K::Id(i) => self.rid(i).into(),
            K::Ex(E::Str(s)) => pick!(self, "rs key from str" => s.as_str().into(), "rs key from String" => s.clone().into(), "rs key from expression" => re::Expression::from(s.as_str()).into()),
            K::Ex(e) => self.rs(e).into(),
        }
    }

    fn rs(&mut self, e: &E) -> re::Expression {
        match e {
            E::Null => pick!(self, "rs unit" => ().into(), "rs null value" => Value::Null.into(), "rs unit value" => Value::from(()).into()),
            E::Bool(b) => pick!(self, "rs bool" => (*b).into(), "rs bool value" => Value::Bool(*b).into()),
            E::Num(n) => self.rs_number(*n),
            E::Str(s) => pick!(self,
                "rs str" => s.as_str().into(),
                "rs String" => s.clone().into(),
                "rs Cow" => Cow::Borrowed(s.as_str()).into(),
                "rs Cow owned" => Cow::<str>::Owned(s.clone()).into(),
                "rs string value" => Value::String(s.clone()).into(),
            ),
            E::Tmpl(ts) => {
                let s = conv::raw_template(ts);
                pick!(self,
                    "rs template str" => re::TemplateExpr::from(s.as_str()).into(),
                    "rs template String" => re::TemplateExpr::from(s).into(),
                    "rs template variant" => re::Expression::TemplateExpr(Box::new(re::TemplateExpr::QuotedString(s))),
                )
            }
            E::Heredoc(h) => {
                let strip = if h.strip { re::HeredocStripMode::Indent } else { re::HeredocStripMode::None };
                let x = re::Heredoc::new(self.rid(&h.delim), conv::raw_template(&h.body)).with_strip_mode(strip);
                pick!(self, "rs heredoc" => x.into(), "rs heredoc template" => re::TemplateExpr::from(x).into())
            }
            E::Arr(v) => {
                let xs: Vec<_> = v.iter().map(|e| self.rs(e)).collect();
                pick!(self,
                    "rs array from vec" => xs.into(),
                    "rs array from slice" => xs.as_slice().into(),
                    "rs array collected" => xs.into_iter().collect(),
                )
            }
            E::Obj(v) => {
                let xs: Vec<_> = v.iter().map(|(k, e)| (self.rs_key(k), self.rs(e))).collect();
                pick!(self,
                    "rs object collected" => xs.into_iter().collect(),
                    "rs object from map" => xs.into_iter().collect::<hcl::Object<re::ObjectKey, re::Expression>>().into(),
                )
            }
            E::Paren(e) => re::Expression::Parenthesis(Box::new(self.rs(e))),
            E::Var(i) => self.rs_var(i).into(),
            E::Cond(c) => re::Conditional::new(self.rs(&c.0), self.rs(&c.1), self.rs(&c.2)).into(),
            E::Call(c) => {
                let ns: Vec<_> = c.ns.iter().map(|s| self.rid(s)).collect();
                let name = pick!(self,
                    "rs func name" => re::FuncName::new(c.name.as_str()).with_namespace(ns),
                    "rs func name from" => re::FuncName::from(self.rid(&c.name)).with_namespace(c.ns.iter().map(|s| s.as_str())),
                );
                if name.is_namespaced() == c.ns.is_empty() {
                    self.obs.fail(format!("{e:?}"), "is_namespaced");
                }
                let args: Vec<_> = c.args.iter().map(|e| self.rs(e)).collect();
                pick!(self,
                    "rs func call builder" => {
                        let mut b = re::FuncCall::builder(name);
                        let first = self.r.bool();
                        if first {
                            b = b.expand_final(c.expand);
                        }
                        for a in args {
                            b = b.arg(a);
                        }
                        if !first {
                            b = b.expand_final(c.expand);
                        }
                        b.build().into()
                    },
                    "rs func call new" => {
                        let mut f = re::FuncCall::new(name);
                        f.args = args;
                        f.expand_final = c.expand;
                        f.into()
                    },
                )
            }
            E::Trav(b, ops) => {
                let base = self.rs(b);
                let plain = ops.iter().all(|o| !matches!(o, Op::Legacy(_)));
                if plain && self.r.bool() {
                    self.obs.feat("rs traversal builder");
                    let mut t = re::Traversal::builder(base);
                    for o in ops {
                        t = match o {
                            Op::Attr(i) => t.attr(self.rid(i)),
                            Op::Idx(e) => t.index(self.rs(e)),
                            Op::AttrSplat => t.attr_splat(),
                            Op::FullSplat => t.full_splat(),
                            Op::Legacy(_) => unreachable!(),
                        };
                    }
                    return t.build().into();
                }
                self.obs.feat("rs traversal new");
                let ops: Vec<re::TraversalOperator> = ops
                    .iter()
                    .map(|o| match o {
                        Op::Attr(i) => self.rid(i).into(),
                        Op::Idx(e) => self.rs(e).into(),
                        Op::Legacy(n) => (*n).into(),
                        Op::AttrSplat => re::TraversalOperator::AttrSplat,
                        Op::FullSplat => re::TraversalOperator::FullSplat,
                    })
                    .collect();
                re::Traversal::new(base, ops).into()
            }
            E::Un(o, e) => {
                let x = re::UnaryOp::new(if *o == UnOp::Neg { re::UnaryOperator::Neg } else { re::UnaryOperator::Not }, self.rs(e));
                pick!(self, "rs unary" => x.into(), "rs unary operation" => re::Operation::from(x).into())
            }
            E::Bin(l, o, r) => {
                let x = re::BinaryOp::new(self.rs(l), binop_to(*o), self.rs(r));
                pick!(self, "rs binary" => x.into(), "rs binary operation" => re::Operation::from(x).into())
            }
            E::For(f) => {
                let mut x = re::ForExpr::new(self.rid(&f.val), self.rs(&f.coll), self.rs(&f.vexpr));
                let mut steps = [0, 1, 2, 3];
                self.r.shuffle(&mut steps);
                for s in steps {
                    x = match (s, &f.key, &f.kexpr, &f.cond) {
                        (0, Some(k), _, _) => x.with_key_var(self.rid(k)),
                        (1, _, Some(k), _) => x.with_key_expr(self.rs(k)),
                        (2, _, _, Some(c)) => x.with_cond_expr(self.rs(c)),
                        (3, ..) => x.with_grouping(f.group),
                        _ => x,
                    };
                }
                x.into()
            }
        }
    }

    fn rs_template(&mut self, ts: &[T]) -> rt::Template {
        if self.r.one_in(3) {
            self.obs.feat("rs template collected");
            let v: Vec<_> = ts.iter().map(|t| self.rs_elem(t)).collect();
            return v.into_iter().collect();
        }
        let mut x = rt::Template::new();
        for t in ts {
            let e = self.rs_elem(t);
            x = match e {
                rt::Element::Literal(s) if self.r.bool() => x.add_literal(s),
                rt::Element::Interpolation(i) if self.r.bool() => {
                    if i.strip == rt::Strip::None {
                        x.add_interpolation(i.expr)
                    } else {
                        x.add_interpolation(i)
                    }
                }
                rt::Element::Directive(d) if self.r.bool() => match *d {
                    rt::Directive::If(d) => x.add_directive(d),
                    rt::Directive::For(d) => x.add_directive(d),
                },
                e => x.add_element(e),
            };
        }
        x
    }

    fn rs_elem(&mut self, t: &T) -> rt::Element {
        match t {
            T::Lit(s) => pick!(self, "rs literal str" => s.as_str().into(), "rs literal String" => s.clone().into()),
            T::Interp(e, s) => {
                let e = self.rs(e);
                pick!(self,
                    "rs interpolation new" => rt::Interpolation::new(e).with_strip((*s).into()).into(),
                    "rs interpolation from" => rt::Interpolation::from(e).with_strip((*s).into()).into(),
                )
            }
            T::If(d) => {
                let mut x = rt::IfDirective::new(self.rs(&d.cond), self.rs_template(&d.then));
                let mut steps = [0, 1, 2, 3];
                self.r.shuffle(&mut steps);
                for s in steps {
                    x = match (s, &d.els) {
                        (0, _) => x.with_if_strip(d.s1.into()),
                        (1, Some((s, _))) => x.with_else_strip((*s).into()),
                        (2, _) => x.with_endif_strip(d.s3.into()),
                        (3, Some((_, t))) => x.with_false_template(self.rs_template(t)),
                        _ => x,
                    };
                }
                rt::Directive::from(x).into()
            }
            T::For(d) => {
                let mut x = rt::ForDirective::new(self.rid(&d.val), self.rs(&d.coll), self.rs_template(&d.body));
                let mut steps = [0, 1, 2];
                self.r.shuffle(&mut steps);
                for s in steps {
                    x = match (s, &d.key) {
                        (0, _) => x.with_for_strip(d.s1.into()),
                        (1, _) => x.with_endfor_strip(d.s2.into()),
                        (2, Some(k)) => x.with_key_var(self.rid(k)),
                        _ => x,
                    };
                }
                rt::Directive::from(x).into()
            }
        }
    }

    fn rs_label(&mut self, l: &L) -> rs::BlockLabel {
        match l {
            L::Id(i) => self.rid(i).into(),
            L::Str(s) => pick!(self,
                "rs label str" => s.as_str().into(),
                "rs label String" => s.clone().into(),
                "rs label &String" => s.into(),
                "rs label Cow" => Cow::Borrowed(s.as_str()).into(),
                "rs label variant" => rs::BlockLabel::String(s.clone()),
            ),
        }
    }

    fn rs_block(&mut self, b: &m::Block) -> rs::Block {
        let labels: Vec<_> = b.labels.iter().map(|l| self.rs_label(l)).collect();
        let body: Vec<_> = b.body.iter().map(|s| self.rs_struct(s)).collect();
        pick!(self,
            "rs block new" => {
                let mut x = rs::Block::new(self.rid(&b.ident));
                x.labels = labels;
                x.body = body.into();
                x
            },
            "rs block from" => if labels.is_empty() { (self.rid(&b.ident), body).into() } else { (self.rid(&b.ident), labels, body).into() },
            "rs block builder" => rs::Block::builder(self.rid(&b.ident)).add_labels(labels).add_structures(body).build(),
            "rs block built in steps" => {
                let mut x = rs::Block::builder(self.rid(&b.ident));
                // The labels may come at any time.
                let mut labels = labels.into_iter();
                let mut rest = body.into_iter().peekable();
                while let Some(s) = rest.next() {
                    if self.r.bool() {
                        if let Some(l) = labels.next() {
                            x = x.add_label(l);
                        }
                    }
                    x = match s {
                        rs::Structure::Attribute(a) if self.r.bool() => {
                            let mut v = vec![a];
                            while let Some(rs::Structure::Attribute(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_attribute().unwrap());
                            }
                            x.add_attributes(v)
                        }
                        rs::Structure::Block(b) if self.r.bool() => {
                            let mut v = vec![b];
                            while let Some(rs::Structure::Block(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_block().unwrap());
                            }
                            x.add_blocks(v)
                        }
                        rs::Structure::Attribute(a) if self.r.bool() => x.add_attribute((a.key, a.expr)),
                        rs::Structure::Attribute(a) => x.add_attribute(a),
                        rs::Structure::Block(b) if self.r.bool() => x.add_block(b),
                        s => x.add_structure(s),
                    };
                }
                x.add_labels(labels).build()
            },
        )
    }

    fn rs_struct(&mut self, s: &S) -> rs::Structure {
        match s {
            S::Attr(k, e) => {
                let e = self.rs(e);
                let k = self.rid(k);
                pick!(self, "rs attribute new" => rs::Attribute::new(k, e).into(), "rs attribute from" => rs::Attribute::from((k, e)).into())
            }
            S::Block(b) => self.rs_block(b).into(),
        }
    }

    fn rs_body(&mut self, b: &[S]) -> rs::Body {
        let mut xs: Vec<_> = b.iter().map(|s| self.rs_struct(s)).collect();
        if xs.len() == 1 && self.r.bool() {
            self.obs.feat("rs body from one");
            let s = xs.pop().unwrap();
            return match s {
                rs::Structure::Attribute(a) => a.into(),
                s => s.into(),
            };
        }
        if xs.len() == 2 && self.r.bool() {
            self.obs.feat("rs body from array");
            let b = xs.pop().unwrap();
            return [xs.pop().unwrap(), b].into();
        }
        pick!(self,
            "rs body from vec" => xs.into(),
            "rs body from slice" => xs.as_slice().into(),
            "rs body from mutable slice" => xs.as_mut_slice().into(),
            "rs body collected" => xs.into_iter().collect(),
            "rs body extended" => {
                let at = self.r.below(xs.len() + 1);
                let rest = xs.split_off(at);
                let mut t: rs::Body = xs.into_iter().collect();
                t.extend(rest);
                t
            },
            "rs body builder" => rs::Body::builder().add_structures(xs).build(),
            "rs body built in steps" => {
                let mut x = rs::Body::builder();
                let mut rest = xs.into_iter().peekable();
                while let Some(s) = rest.next() {
                    x = match s {
                        rs::Structure::Attribute(a) if self.r.bool() => {
                            let mut v = vec![a];
                            while let Some(rs::Structure::Attribute(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_attribute().unwrap());
                            }
                            x.add_attributes(v)
                        }
                        rs::Structure::Block(b) if self.r.bool() => {
                            let mut v = vec![b];
                            while let Some(rs::Structure::Block(_)) = rest.peek() {
                                v.push(rest.next().unwrap().into_block().unwrap());
                            }
                            x.add_blocks(v)
                        }
                        rs::Structure::Attribute(a) => x.add_attribute(a),
                        rs::Structure::Block(b) if self.r.bool() => x.add_block(b),
                        s => x.add_structure(s),
                    };
                }
                x.build()
            },
        )
    }

    // --- values ---------------------------------------------------------------------------------

    fn value(&mut self, v: &V) -> Value {
        match v {
            V::Null => pick!(self, "value unit" => ().into(), "value null" => Value::Null, "value default" => Value::default()),
            V::Bool(b) => (*b).into(),
            V::Num(n) => {
                if let N::F(f) = *n {
                    if f64::from(f as f32) == f {
                        return pick!(self, "value f32" => (f as f32).into(), "value f64" => f.into());
                    }
                }
                match (*n, self.r.below(5)) {
                    (N::F(f), 0..=2) => f.into(),
                    (N::U(u), 0) => u.into(),
                    (N::U(u), 1) => (u as usize).into(),
                    (N::U(u), 2) if u < 1 << 8 => (u as u8).into(),
                    (N::I(i), 0) => i.into(),
                    (N::I(i), 1) => (i as isize).into(),
                    (N::I(i), 2) if i >= -(1 << 15) => (i as i16).into(),
                    (n, 3) => self.rs_number(n).into(),
                    (n, _) => self.number(n).into(),
                }
            }
            V::Str(s) => pick!(self,
                "value str" => s.as_str().into(),
                "value String" => s.clone().into(),
                "value Cow" => Cow::Borrowed(s.as_str()).into(),
                "value string expression" => re::Expression::String(s.clone()).into(),
            ),
            V::Arr(a) => {
                let xs: Vec<_> = a.iter().map(|e| self.value(e)).collect();
                pick!(self,
                    "value array from vec" => xs.into(),
                    "value array from slice" => xs.as_slice().into(),
                    "value array collected" => xs.into_iter().collect(),
                )
            }
            V::Obj(o) => {
                let xs: Vec<(String, Value)> = o.iter().map(|(k, v)| (k.clone(), self.value(v))).collect();
                pick!(self,
                    "value object collected" => xs.into_iter().collect(),
                    "value object of str" => xs.iter().map(|(k, v)| (k.as_str(), v.clone())).collect(),
                    "value object from map" => xs.into_iter().collect::<hcl::Map<String, Value>>().into(),
                )
            }
        }
    }
}


fn same<X: PartialEq + std::fmt::Debug>(obs: &mut Obs, src: &str, what: &str, got: &X, want: &X) {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
}

/// The wrappers that carry spans, decoration and representations, with two different values.
macro_rules! wrapper {
    ($obs:ident, $rng:ident, $wrap:ident, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let name = format!("{}({a:?}), {b:?}", stringify!($wrap));
        let mut w = if $rng.bool() { $wrap::new(a.clone()) } else { $wrap::from(a.clone()) };
        $obs.feat(stringify!($wrap));
        same($obs, &name, "value", w.value(), &a);
        same($obs, &name, "deref", &*w, &a);
        same($obs, &name, "as_ref", AsRef::as_ref(&w), &a);
        same($obs, &name, "into_value", &w.clone().into_value(), &a);
        same($obs, &name, "value_into", &w.clone().value_into(), &a);
        same($obs, &name, "span", &w.span(), &None);
        same($obs, &name, "equal to a clone", &w.clone(), &w);
        same($obs, &name, "equal to another", &(w == $wrap::new(b.clone())), &(a == b));
        match $rng.below(3) {
            0 => *w.value_mut() = b.clone(),
            1 => *w = b.clone(),
            _ => *w.as_mut() = b.clone(),
        }
        same($obs, &name, "changed value", w.value(), &b);
        same($obs, &name, "changed value taken", &w.clone().into_value(), &b);
        w
    }};
}

const DECOR: &[&str] = &["", " ", "\n", "/* c */", " # x\n", "\t"];
const DECOR_PARTS: &[&str] = &[" ", "  ", "\n", "\r\n", "\t", "# x\n", "// y \r\n", "/* c */", "/* é\r\n😀 */", "\n\n", "/**/", " \r\n"];

/// Text for decoration and raw strings: short, long, with either line ending, with other scripts.
fn raw_text(r: &mut Rng) -> String {
    if r.bool() {
        return r.pick(DECOR).to_string();
    }
    let n = if r.one_in(20) { r.range(20, 60) } else { r.range(1, 9) };
    (0..n).map(|_| *r.pick(DECOR_PARTS)).collect()
}

macro_rules! decorated {
    ($obs:ident, $rng:ident, $w:expr) => {{
        let w = $w;
        let name = format!("{w:?}");
        let (p, s) = (raw_text($rng), raw_text($rng));
        let (p, s) = (p.as_str(), s.as_str());
        let d = match $rng.below(3) {
            0 => w.clone().decorated((p, s)),
            1 => w.clone().decorated(Decor::new(p, s)),
            _ => {
                let mut x = w.clone();
                x.decor_mut().set_prefix(Cow::<str>::Owned(p.to_string()));
                x.decor_mut().set_suffix(s.to_string());
                x
            }
        };
        same($obs, &name, "decor", &(d.decor().prefix().map(|x| x.to_string()), d.decor().suffix().map(|x| x.to_string())), &(Some(p.to_string()), Some(s.to_string())));
        same($obs, &name, "value of the decorated", d.value(), w.value());
        same($obs, &name, "text of the decorated", &d.to_string(), &w.to_string());
        let mut c = d.clone();
        c.decor_mut().clear();
        same($obs, &name, "cleared decor", c.decor(), &Decor::default());
        c.decorate(d.decor().clone());
        same($obs, &name, "decor taken over", c.decor(), d.decor());
        // A decoration with one side only replaces both sides.
        let q = raw_text($rng);
        let mut half = Decor::default();
        let front = $rng.bool();
        if front {
            half.set_prefix(q.as_str());
        } else {
            half.set_suffix(Cow::Borrowed(q.as_str()));
        }
        let want = if front { (Some(q.clone()), None) } else { (None, Some(q.clone())) };
        if $rng.bool() {
            c.decorate(half);
        } else {
            c = c.decorated(half);
        }
        same($obs, &name, "one side of a decor", &(c.decor().prefix().map(|x| x.to_string()), c.decor().suffix().map(|x| x.to_string())), &want);
        $obs.feat("one-sided decoration");
    }};
}

fn wrappers(obs: &mut Obs, rng: &mut Rng) {
    let mut g = G::new(rng, edit_opts());
    let (i, j, n, k) = (g.id(), g.id(), g.num(), g.num());
    let (s, t) = (g.string(), g.string());
    let (i, j, n, k) = (Ident::new(i), Ident::new(j), num_to(n), num_to(k));
    obs.case(&format!("{i} {j} {n} {k} {s} {t}"), true);
    let w = wrapper!(obs, rng, Decorated, i.clone(), j.clone());
    same(obs, &format!("{w:?}"), "text", &w.to_string(), &j.to_string());
    decorated!(obs, rng, w);
    let w = wrapper!(obs, rng, Decorated, rng.bool(), rng.bool());
    same(obs, &format!("{w:?}"), "text", &w.to_string(), &w.value().to_string());
    decorated!(obs, rng, w);
    let w = wrapper!(obs, rng, Decorated, rng.u64(), rng.u64());
    same(obs, &format!("{w:?}"), "text", &w.to_string(), &w.value().to_string());
    decorated!(obs, rng, w);
    wrapper!(obs, rng, Decorated, s.clone(), t.clone());
    wrapper!(obs, rng, Spanned, s, t);
    wrapper!(obs, rng, Spanned, i, j);
    let mut w = wrapper!(obs, rng, Formatted, n.clone(), k.clone());
    same(obs, &format!("{w:?}"), "text", &w.to_string(), &k.to_string());
    same(obs, &format!("{w:?}"), "repr", &w.as_repr().map(|r| r.to_string()), &None);
    decorated!(obs, rng, w.clone());
    w.format();
    same(obs, &format!("{w:?}"), "repr of the formatted", &w.as_repr().map(|r| r.to_string()), &Some(k.to_string()));
    same(obs, &format!("{w:?}"), "text of the formatted", &w.to_string(), &k.to_string());
    decorated!(obs, rng, w.clone());
    *w.value_mut() = n.clone();
    same(obs, &format!("{w:?}"), "text of the changed", &w.to_string(), &n.to_string());
    // Raw strings.
    let text = raw_text(rng);
    let text = text.as_str();
    let r: RawString = match rng.below(5) {
        0 => text.into(),
        1 => text.to_string().into(),
        2 => Cow::Borrowed(text).into(),
        3 => Cow::<str>::Owned(text.to_string()).into(),
        _ => hcl_primitives::InternalString::from(text).into(),
    };
    same(obs, text, "raw string", &(r.to_string(), &*r, Cow::from(&r), Cow::from(r.clone())), &(text.to_string(), text, Cow::Borrowed(text), Cow::Borrowed(text)));
}

/// The guards that iterators over mutable bodies and objects give.
fn guards(obs: &mut Obs, src: &str, body: &mut es::Body) {
    let want = body.clone();
    for (mut s, w) in body.iter_mut().zip(&want) {
        same(obs, src, "decor of the guard", &s.decor(), &w.decor());
        same(obs, src, "span of the guard", &s.span(), &w.span());
        same(obs, src, "kind of the guard", &(s.is_attribute(), s.is_block(), s.as_attribute(), s.as_block()), &(w.is_attribute(), w.is_block(), w.as_attribute(), w.as_block()));
        s.decor_mut().set_prefix("\n# guard\n");
        same(obs, src, "decor set through the guard", &s.decor().prefix().map(|p| p.to_string()), &Some("\n# guard\n".into()));
        *s.decor_mut() = w.decor().clone();
        if let Some(mut a) = s.as_attribute_mut() {
            let w = w.as_attribute().unwrap();
            obs.feat("attribute guard");
            same(obs, src, "attribute of the guard", &(a.get(), &*a, a.decor(), a.span()), &(w, w, w.decor(), w.span()));
            same(obs, src, "decor of the key", &&*a.key_decor_mut(), &w.key.decor());
            objects(obs, src, a.value_mut(), &w.value);
        }
        if let Some(b) = s.as_block_mut() {
            guards(obs, src, &mut b.body);
        }
    }
    same(obs, src, "text after the visit", &body.to_string(), &want.to_string());
}

fn objects(obs: &mut Obs, src: &str, e: &mut ee::Expression, w: &ee::Expression) {
    if let (Some(o), Some(w)) = (e.as_object_mut(), w.as_object()) {
        for ((mut k, v), (wk, wv)) in o.iter_mut().zip(w) {
            obs.feat("object key guard");
            same(obs, src, "key of the guard", &(k.get(), &*k, k.decor(), k.span()), &(wk, wk, wk.decor(), wk.span()));
            k.decor_mut().set_suffix(" /* k */ ");
            same(obs, src, "decor set through the key", &k.decor().suffix().map(|p| p.to_string()), &Some(" /* k */ ".into()));
            *k.decor_mut() = wk.decor().clone();
            same(obs, src, "value of the guard", &v.expr(), &wv.expr());
            objects(obs, src, v.expr_mut(), wv.expr());
        }
    }
}

pub fn p28(m: &mut Mon) {
    m.rule = "a case is a generated tree, template or value, built twice: by one fixed construction and along a random mix of constructors, builders, conversions and collections; the trees and their texts are compared; nontrivial: a text of more than 12 bytes".into();
    require_kinds(m);
    m.cases("edit bodies", m.n(60_000), |obs, rng, _| {
        let b = gen_body(rng, prog_opts());
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        let want = conv::to_edit_body(&b);
        let text = want.to_string();
        obs.case(&text, text.len() > 12);
        let got = Alt { r: rng, obs }.edit_body(&b);
        same(obs, &text, "body", &conv::edit_body(&got), &conv::edit_body(&want));
        same(obs, &text, "text of the body", &got.to_string(), &text);
        same(obs, &text, "bodies compare equal", &(got == want), &true);
    });
    m.cases("edit expressions", m.n(90_000), |obs, rng, _| {
        let e = gen_expr(rng, prog_opts());
        walk_e(&e, &mut |e| obs.feat(kind(e)));
        let want = conv::to_edit_expr(&e);
        let text = want.to_string();
        obs.case(&text, text.len() > 12);
        let got = Alt { r: rng, obs }.edit(&e);
        same(obs, &text, "expression", &conv::edit_expr(&got), &conv::edit_expr(&want));
        same(obs, &text, "text of the expression", &got.to_string(), &text);
        same(obs, &text, "expressions compare equal", &(got == want), &true);
    });
    m.cases("rs bodies", m.n(60_000), |obs, rng, _| {
        let b = gen_body(rng, rs_opts());
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        let want = conv::to_rs_body(&b);
        let text = format!("{b:?}");
        obs.case(&text, text.len() > 40);
        let got = Alt { r: rng, obs }.rs_body(&b);
        same(obs, &text, "body", &got, &want);
        same(obs, &text, "bodies print", &format!("{got:?}"), &format!("{want:?}"));
    });
    m.cases("rs expressions", m.n(90_000), |obs, rng, _| {
        let e = gen_expr(rng, rs_opts());
        walk_e(&e, &mut |e| obs.feat(kind(e)));
        let want = conv::to_rs_expr(&e);
        let text = format!("{e:?}");
        obs.case(&text, text.len() > 40);
        let got = Alt { r: rng, obs }.rs(&e);
        same(obs, &text, "expression", &got, &want);
        same(obs, &text, "expressions print", &format!("{got:?}"), &format!("{want:?}"));
    });
    m.cases("rs templates", m.n(40_000), |obs, rng, _| {
        let mut g = G::new(rng, rs_opts());
        g.budget = g.r.range(5, 40);
        let d = g.r.range(1, 4);
        let t = g.quoted(d);
        let want = conv::to_rs_template(&t);
        let text = format!("{t:?}");
        obs.case(&text, text.len() > 40);
        let got = Alt { r: rng, obs }.rs_template(&t);
        same(obs, &text, "template", &got, &want);
        obs.feat("rs templates compared");
    });
    m.cases("values", m.n(60_000), |obs, rng, _| {
        let mut g = G::new(rng, edit_opts());
        let d = g.r.range(0, 4);
        let v = g.val(d);
        let want = v.to();
        let text = format!("{v:?}");
        obs.case(&text, text.len() > 12);
        let got = Alt { r: rng, obs }.value(&v);
        same(obs, &text, "value", &got, &want);
        same(obs, &text, "values print", &format!("{got:?}"), &format!("{want:?}"));
        obs.feat("values compared");
    });
    m.cases("wrappers", m.n(40_000), |obs, rng, _| wrappers(obs, rng));
    m.cases("guards", m.n(15_000), |obs, rng, _| {
        let b = gen_body(rng, edit_opts());
        let mode = if rng.bool() { Mode::Lossless } else { Mode::Wild };
        let (src, _) = render_body(rng, &b, mode);
        obs.case(&src, src.len() > 12);
        if let Ok(mut body) = src.parse::<es::Body>() {
            guards(obs, &src, &mut body);
        }
    });
    for f in ["Decorated", "Spanned", "Formatted", "attribute guard", "object key guard", "values compared", "rs templates compared"] {
        m.require(f, 1000);
    }
    for f in ["edit block built in steps", "edit body built in steps", "rs block built in steps", "rs body built in steps", "rs traversal builder", "rs func call builder", "rs block from", "edit object from map", "value object of str"] {
        m.require(f, 200);
    }
}
