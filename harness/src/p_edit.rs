//! Checks of building and editing hcl-edit documents.

use crate::conv;
use crate::gen::{Opts, G};
use crate::model::*;
use crate::p_parse::{edit_opts, first_diff, gen_body, gen_expr, require_kinds};
use crate::render::{self, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use crate::slots::{self, Ctx};
use hcl_edit::expr::{Expression, ObjectKey, ObjectValue};
use hcl_edit::structure::{BlockLabel, Body, Structure};
use hcl_edit::template::{Element, Template};
use hcl_edit::{Decorate, Decorated, Ident};

/// Options for documents that are built through the API.
pub fn prog_opts() -> Opts {
    Opts {
        odd_bases: false,
        dedented: true,
        ..edit_opts()
    }
}

/// Gives indented heredocs a random indent.
fn indents(rng: &mut Rng, body: &mut Body) {
    slots::body(body, &mut |e, _| {
        if let Expression::HeredocTemplate(h) = e {
            if h.indent().is_some() {
                h.set_indent(rng.below(7));
            }
        }
        false
    });
}

fn reparses(obs: &mut Obs, input: &str, body: &Body, want: &[S], how: &str) -> bool {
    let text = body.to_string();
    let show = || format!("{input}\n--- printed\n{text}");
    match text.parse::<Body>() {
        Err(e) => {
            obs.fail(show(), format!("{how} document does not parse: {e}"));
            false
        }
        Ok(again) => {
            let got = nb(&conv::edit_body(&again), Nf::Keep);
            let want = nb(want, Nf::Keep);
            if got != want {
                obs.fail(
                    show(),
                    format!("{how} document parses to a different one: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))),
                );
                return false;
            }
            true
        }
    }
}

/// P03: printed documents parse back equal.
pub fn p03(m: &mut Mon) {
    m.rule = "a document counts when it has at least two structures or a nested expression".into();
    require_kinds(m);
    for (f, n) in [
        ("one-line body", 100),
        ("replaced expression", 1000),
        ("moved structure", 1000),
        ("removed structure", 500),
        ("changed string", 300),
        ("changed number", 100),
        ("changed label", 300),
        ("changed literal", 100),
        ("changed list", 300),
        ("changed object", 300),
        ("changed layout flag", 300),
    ] {
        m.require(f, n);
    }
    let n = m.n(50_000);
    m.cases("built", n, |obs, rng, _| {
        let b = gen_body(rng, prog_opts());
        let mut body = conv::to_edit_body(&b);
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        if rng.pct(60) {
            indents(rng, &mut body);
        }
        if rng.pct(40) {
            slots::bodies(
                &mut body,
                &mut |b, d| {
                    if d > 0 && rng.bool() {
                        b.set_prefer_oneline(true);
                        obs.feat("one-line body");
                    }
                    if d == 0 && rng.bool() {
                        b.set_prefer_omit_trailing_newline(true);
                    }
                },
                0,
            );
        }
        let input = format!("{b:?}");
        obs.case(&input, input.len() > 40);
        if conv::edit_body(&body).len() != b.len() {
            obs.fail(&input, "the built body has a different number of structures");
        }
        if reparses(obs, &input, &body, &b, "the built") {
            // Printing is deterministic, and a clone prints the same.
            if body.clone().to_string() != body.to_string() {
                obs.fail(&input, "a clone prints differently");
            }
        }
    });
    let n = m.n(50_000);
    m.cases("built-expr", n, |obs, rng, _| {
        let e = gen_expr(rng, prog_opts());
        let x = conv::to_edit_expr(&e);
        let text = x.to_string();
        obs.case(&text, text.len() > 5);
        match text.parse::<Expression>() {
            Err(err) => obs.fail(format!("{e:?}\n{text}"), format!("the built expression does not parse: {err}")),
            Ok(y) => {
                let got = ne(&conv::edit_expr(&y), Nf::Keep);
                let want = ne(&e, Nf::Keep);
                if got != want {
                    obs.fail(&text, format!("the built expression parses to a different one: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
                }
            }
        }
    });
    let n = m.n(20_000);
    m.cases("built-template", n, |obs, rng, _| {
        let mut g = G::new(rng, prog_opts());
        let d = g.r.range(1, 4);
        let ts = g.bare(d);
        let text = conv::to_edit_template(&ts).to_string();
        obs.case(&text, text.len() > 5);
        match text.parse::<Template>() {
            Err(err) => obs.fail(format!("{ts:?}\n{text}"), format!("the built template does not parse: {err}")),
            Ok(y) => {
                let got = nt(&conv::edit_template(&y), Nf::Keep);
                let want = nt(&ts, Nf::Keep);
                if got != want {
                    obs.fail(&text, format!("the built template parses to a different one: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
                }
            }
        }
    });
    let n = m.n(60_000);
    m.cases("edited", n, |obs, rng, _| {
        let (a, b) = (gen_body(rng, edit_opts()), gen_body(rng, edit_opts()));
        let (sa, _) = render::render_body(rng, &a, Mode::Wild);
        let (sb, _) = render::render_body(rng, &b, Mode::Wild);
        let (Ok(mut doc), Ok(mut other)) = (sa.parse::<Body>(), sb.parse::<Body>()) else {
            return;
        };
        let mut log = String::new();
        for _ in 0..rng.range(1, 5) {
            random_edit(obs, rng, &mut doc, &mut other, &mut log);
        }
        let input = format!("{sa}\n--- other\n{sb}\n--- edits{log}");
        obs.case(&input, sa.len() > 20);
        let want = conv::edit_body(&doc);
        reparses(obs, &input, &doc, &want, "the edited");
    });
}

/// Any expression that may be put at a place with the given context.
fn donor(rng: &mut Rng, other: &mut Body, c: Ctx) -> Expression {
    if rng.pct(50) {
        let mut found = vec![];
        slots::body(other, &mut |e, d| {
            if c.nl || !d.nl {
                found.push(e.clone());
            }
            false
        });
        if !found.is_empty() {
            let mut e = found.swap_remove(rng.below(found.len()));
            e.decor_mut().clear();
            return e;
        }
    }
    conv::to_edit_expr(&gen_expr(rng, prog_opts()))
}

fn count_slots(b: &mut Body, want: impl Fn(&Expression, Ctx) -> bool) -> usize {
    let mut n = 0;
    slots::body(b, &mut |e, c| {
        n += usize::from(want(e, c));
        false
    });
    n
}

/// Calls `f` for a random expression accepted by `want`.
fn with_slot(
    rng: &mut Rng,
    b: &mut Body,
    want: impl Fn(&Expression, Ctx) -> bool,
    f: &mut dyn FnMut(&mut Rng, &mut Expression, Ctx),
) -> bool {
    let n = count_slots(b, &want);
    if n == 0 {
        return false;
    }
    let k = rng.below(n);
    let mut i = 0;
    let mut done = false;
    slots::body(b, &mut |e, c| {
        if !done && want(e, c) {
            if i == k {
                f(rng, e, c);
                done = true;
            }
            i += 1;
        }
        done
    });
    true
}

fn with_body(rng: &mut Rng, b: &mut Body, f: &mut dyn FnMut(&mut Rng, &mut Body, usize)) {
    let mut n = 0;
    slots::bodies(b, &mut |_, _| n += 1, 0);
    let k = rng.below(n);
    let mut i = 0;
    slots::bodies(
        b,
        &mut |b, d| {
            if i == k {
                f(rng, b, d);
            }
            i += 1;
        },
        0,
    );
}

fn fresh_key(rng: &mut Rng, b: &Body) -> String {
    loop {
        let k = format!("{}{}", *rng.pick(&["fresh", "é", "_k-", "z"]), rng.below(1000));
        if !b.has_attribute(&k) {
            return k;
        }
    }
}

fn random_edit(obs: &mut Obs, rng: &mut Rng, doc: &mut Body, other: &mut Body, log: &mut String) {
    let what = rng.below(12);
    match what {
        0 | 1 => {
            with_slot(rng, doc, |_, c| c.full, &mut |rng, e, c| {
                let mut new = donor(rng, &mut other.clone(), c);
                if c.keep || rng.bool() {
                    new.decorate(e.decor().clone());
                }
                log.push_str(&format!("\nreplace {e} by {new}"));
                *e = new;
                obs.feat("replaced expression");
            });
        }
        2 | 3 => {
            // Move a structure.
            let mut donors: Vec<(Structure, bool)> = vec![];
            slots::bodies(
                other,
                &mut |b, _| {
                    let one = b.prefer_oneline();
                    donors.extend(b.iter().map(|s| (s.clone(), one)));
                },
                0,
            );
            let mut s = if donors.is_empty() || rng.pct(20) {
                let mut g = G::new(rng, prog_opts());
                conv::to_edit_struct(&S::Block(g.block(1)))
            } else {
                let (mut s, _) = donors.swap_remove(rng.below(donors.len()));
                s.decor_mut().clear();
                s
            };
            with_body(rng, doc, &mut |rng, b, _| {
                if let Structure::Attribute(a) = &mut s {
                    let k = fresh_key(rng, b);
                    *a.key.value_mut() = Ident::new(k);
                }
                let i = rng.below(b.len() + 1);
                log.push_str(&format!("\ninsert {:?} at {i}", conv::edit_body(&Body::from(vec![s.clone()]))));
                match rng.below(4) {
                    0 => b.push(s.clone()),
                    1 => b.try_push(s.clone()).expect("fresh"),
                    2 => b.try_insert(i, s.clone()).expect("fresh"),
                    _ => b.insert(i, s.clone()),
                }
                obs.feat("moved structure");
            });
        }
        4 => with_body(rng, doc, &mut |rng, b, _| {
            if b.is_empty() {
                return;
            }
            let i = rng.below(b.len());
            log.push_str(&format!("\nremove structure {i}"));
            match &b.get(i).unwrap().clone() {
                Structure::Attribute(a) if rng.bool() => {
                    b.remove_attribute(a.key.as_str()).expect("present");
                }
                Structure::Block(x) if rng.one_in(3) => {
                    b.remove_blocks(x.ident.as_str());
                }
                _ => {
                    b.remove(i);
                }
            }
            obs.feat("removed structure");
        }),
        5 => {
            with_slot(rng, doc, |e, _| matches!(e, Expression::String(_)), &mut |rng, e, _| {
                let s = G::new(rng, Opts::default()).text(6);
                if let Expression::String(x) = e {
                    log.push_str(&format!("\nstring {s:?}"));
                    *x.value_mut() = s;
                    obs.feat("changed string");
                }
            });
        }
        6 => {
            with_slot(rng, doc, |e, c| c.full && matches!(e, Expression::Number(_)), &mut |rng, e, _| {
                let n = G::new(rng, Opts::default()).num();
                if let Expression::Number(x) = e {
                    log.push_str(&format!("\nnumber {n:?}"));
                    *x.value_mut() = conv::num_to(n);
                    if rng.bool() {
                        x.format();
                    }
                    obs.feat("changed number");
                }
            });
        }
        7 => with_body(rng, doc, &mut |rng, b, _| {
            let n = b.blocks().count();
            if n == 0 {
                return;
            }
            let k = rng.below(n);
            let Some(b) = b.blocks_mut().nth(k) else { return };
            let l = if rng.bool() {
                BlockLabel::from(G::new(rng, Opts::default()).text(4))
            } else {
                let mut l = Decorated::new(Ident::new(G::new(rng, Opts::default()).id()));
                // The decoration in front of it may be empty.
                l.decorate((" ", " "));
                BlockLabel::from(l)
            };
            log.push_str(&format!("\nlabel {l:?}"));
            match rng.below(4) {
                0 => *b.ident.value_mut() = Ident::new(G::new(rng, Opts::default()).id()),
                1 if !b.labels.is_empty() => {
                    let i = rng.below(b.labels.len());
                    b.labels[i] = l;
                }
                2 if !b.labels.is_empty() => {
                    b.labels.pop();
                }
                _ => b.labels.push(l),
            }
            obs.feat("changed label");
        }),
        8 => {
            with_slot(rng, doc, |e, _| matches!(e, Expression::StringTemplate(_)), &mut |rng, e, _| {
                if let Expression::StringTemplate(t) = e {
                    for el in t.iter_mut() {
                        match el {
                            Element::Literal(l) => {
                                let mut s = G::new(rng, Opts::default()).text(4);
                                s.push('x');
                                log.push_str(&format!("\nliteral {s:?}"));
                                *l.value_mut() = s;
                                obs.feat("changed literal");
                            }
                            Element::Interpolation(i) => {
                                i.strip = (rng.bool(), rng.bool()).into();
                            }
                            Element::Directive(_) => {}
                        }
                    }
                    if rng.bool() && !matches!(t.get(0), Some(Element::Literal(_))) {
                        t.insert(0, Element::from("new "));
                    }
                }
            });
        }
        9 => {
            with_slot(
                rng,
                doc,
                |e, _| matches!(e, Expression::Array(_) | Expression::FuncCall(_)),
                &mut |rng, e, c| {
                    let c = Ctx { nl: true, ..c };
                    let mut new = donor(rng, &mut other.clone(), c);
                    new.decor_mut().clear();
                    obs.feat("changed list");
                    log.push_str(&format!("\nlist {e} with {new}"));
                    match e {
                        Expression::Array(a) => match rng.below(4) {
                            0 => a.push(new),
                            1 if !a.is_empty() => {
                                a.remove(rng.below(a.len()));
                            }
                            2 if !a.is_empty() => {
                                let i = rng.below(a.len());
                                *a.get_mut(i).unwrap() = new;
                            }
                            _ => a.insert(rng.below(a.len() + 1), new),
                        },
                        Expression::FuncCall(f) => {
                            let a = &mut f.args;
                            match rng.below(4) {
                                0 => a.push(new),
                                1 if !a.is_empty() => {
                                    a.remove(rng.below(a.len()));
                                    if a.is_empty() {
                                        a.set_expand_final(false);
                                    }
                                }
                                2 if !a.is_empty() => {
                                    let i = rng.below(a.len());
                                    *a.get_mut(i).unwrap() = new;
                                }
                                _ => a.insert(rng.below(a.len() + 1), new),
                            }
                        }
                        _ => {}
                    }
                },
            );
        }
        10 => {
            with_slot(rng, doc, |e, _| matches!(e, Expression::Object(_)), &mut |rng, e, c| {
                let c = Ctx { nl: false, ..c };
                let new = donor(rng, &mut other.clone(), c);
                let Expression::Object(o) = e else { return };
                obs.feat("changed object");
                log.push_str(&format!("\nobject {o:?} with {new}"));
                let keys: Vec<ObjectKey> = o.iter().map(|(k, _)| k.clone()).collect();
                match rng.below(4) {
                    0 if !keys.is_empty() => {
                        o.remove(rng.pick(&keys));
                    }
                    1 if !keys.is_empty() => {
                        o.insert(rng.pick(&keys).clone(), new);
                    }
                    _ => {
                        let k = G::new(rng, Opts::default()).key(0);
                        let k = match k {
                            K::Ex(E::Str(s)) => K::Ex(E::Str(s)),
                            K::Id(i) => K::Id(i),
                            _ => K::Id("other".into()),
                        };
                        o.insert(conv::to_edit_key(&k), ObjectValue::new(new));
                    }
                }
            });
        }
        _ => {
            with_slot(
                rng,
                doc,
                |e, _| matches!(e, Expression::Array(_) | Expression::FuncCall(_) | Expression::Object(_)),
                &mut |rng, e, _| {
                    obs.feat("changed layout flag");
                    log.push_str(&format!("\nlayout of {e}"));
                    match e {
                        Expression::Array(a) => a.set_trailing_comma(!a.trailing_comma()),
                        Expression::FuncCall(f) => {
                            if rng.bool() || f.args.is_empty() {
                                f.args.set_trailing_comma(!f.args.trailing_comma());
                            } else {
                                f.args.set_expand_final(!f.args.expand_final());
                            }
                        }
                        Expression::Object(o) => {
                            for (_, v) in o.iter_mut() {
                                use hcl_edit::expr::{ObjectValueAssignment as A, ObjectValueTerminator as T};
                                v.set_assignment(if rng.bool() { A::Colon } else { A::Equals });
                                let comment = v.expr().decor().suffix().is_some_and(|s| s.contains('#') || s.contains("//"));
                                if comment {
                                    // A line comment needs the line break.
                                    continue;
                                }
                                v.set_terminator(if rng.bool() { T::Comma } else { T::Newline });
                            }
                        }
                        _ => {}
                    }
                },
            );
        }
    }
}
