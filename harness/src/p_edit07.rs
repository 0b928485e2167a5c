//! P07: edits change only what they touch. The expected text is computed from the source text and
//! the spans of the parsed nodes.

use crate::conv;
use crate::gen::{Opts, G};
use crate::model::*;
use crate::p_edit::prog_opts;
use crate::p_parse::{edit_opts, first_diff, gen_body, gen_expr};
use crate::render::{self, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use crate::slots;
use hcl_edit::expr::{Expression, ObjectKey, ObjectValue, ObjectValueTerminator, TraversalOperator};
use hcl_edit::structure::{Attribute, BlockLabel, Body, Structure};
use hcl_edit::{Decor, Decorate, Decorated, Ident, RawString, Span};
use std::ops::Range;

fn dlen(s: Option<&RawString>) -> usize {
    s.map_or(0, |s| s.len())
}

/// The range of a node and its decoration.
fn outer<T: Span + Decorate>(x: &T) -> Range<usize> {
    let r = x.span().expect("span");
    r.start - dlen(x.decor().prefix())..r.end + dlen(x.decor().suffix())
}

fn splice(src: &str, r: Range<usize>, new: &str) -> String {
    format!("{}{}{}", &src[..r.start], new, &src[r.end..])
}

/// An expression without decoration.
fn new_expr(rng: &mut Rng) -> (Expression, String) {
    let o = Opts {
        max_depth: 3,
        ..prog_opts()
    };
    let mut g = G::new(rng, o);
    g.budget = 12;
    let d = g.r.range(0, 3);
    let e = conv::to_edit_expr(&g.expr(d));
    let t = e.to_string();
    (e, t)
}

fn new_id(rng: &mut Rng) -> String {
    format!("new{}{}", G::new(rng, Opts::default()).id(), rng.below(1000))
}

/// How to undo an edit of an object.
enum Undo {
    Put(ObjectKey, ObjectValue),
    Insert(ObjectKey, ObjectValue),
    Remove(ObjectKey),
    No,
}

struct Edit<'a> {
    obs: &'a mut Obs,
    src: &'a str,
    what: String,
}

impl Edit<'_> {
    fn check(&mut self, got: &str, want: &str) {
        if got != want {
            let what = format!("{}: {} (got vs expected)", self.what, first_diff(got, want));
            self.obs.fail(self.src, what);
        }
    }
}

/// Runs `f` on the body with the number `k`.
fn at_body<R>(doc: &mut Body, k: usize, f: impl FnOnce(&mut Body, usize) -> R) -> R {
    let mut i = 0;
    let mut f = Some(f);
    let mut r = None;
    slots::bodies(
        doc,
        &mut |b, d| {
            if i == k {
                r = Some((f.take().unwrap())(b, d));
            }
            i += 1;
        },
        0,
    );
    r.expect("body")
}

fn count_bodies(doc: &mut Body) -> usize {
    let mut n = 0;
    slots::bodies(doc, &mut |_, _| n += 1, 0);
    n
}

fn at_expr<R>(doc: &mut Body, k: usize, f: impl FnOnce(&mut Expression) -> R) -> R {
    let mut i = 0;
    let mut f = Some(f);
    let mut r = None;
    slots::body(doc, &mut |e, _| {
        if i == k && f.is_some() {
            r = Some((f.take().unwrap())(e));
        }
        i += 1;
        r.is_some()
    });
    r.expect("expression")
}

/// The numbers of the expressions accepted by `want`.
fn exprs(doc: &mut Body, mut want: impl FnMut(&Expression, slots::Ctx) -> bool) -> Vec<usize> {
    let mut i = 0;
    let mut v = vec![];
    slots::body(doc, &mut |e, c| {
        if want(e, c) {
            v.push(i);
        }
        i += 1;
        false
    });
    v
}

pub fn p07(m: &mut Mon) {
    m.rule = "a case counts when an edit was applied and the text compared".into();
    for f in [
        "replace expressions",
        "rename identifiers",
        "change labels",
        "remove structure",
        "reinsert structure",
        "insert structure",
        "insert at the end",
        "array insert",
        "array remove",
        "argument insert",
        "argument remove",
        "object insert",
        "object overwrite",
        "object remove",
        "traversal operator",
        "scalar in place",
        "strip marker",
        "literal",
        "decorate",
        "emptied list",
        "trailing",
        "comma",
        "through iterators",
        "remove blocks",
        "insert label",
        "template element",
        "last structure without newline",
        "one-line body edited",
    ] {
        m.require(f, 100);
    }
    let n = m.n(80_000);
    m.cases("edit", n, |obs, rng, i| {
        let o = Opts {
            plain_ws: true,
            ..edit_opts()
        };
        let b = if i % 3 == 0 {
            vec![S::Attr("a".into(), gen_expr(rng, o)), S::Attr("b".into(), E::Null)]
        } else {
            gen_body(rng, o)
        };
        let (src, _) = render::render_body(rng, &b, Mode::Lossless);
        let Ok(doc) = src.parse::<Body>() else { return };
        if doc.to_string() != src {
            // P02.
            return;
        }
        obs.case(&format!("{src}{i}"), !b.is_empty());
        for _ in 0..6 {
            let mut doc = doc.clone();
            let what = rng.below(25);
            edit(obs, rng, &mut doc, &src, what);
        }
    });
}

fn edit(obs: &mut Obs, rng: &mut Rng, doc: &mut Body, src: &str, what: usize) {
    let mut ed = Edit {
        obs,
        src,
        what: String::new(),
    };
    match what {
        // Replace any number of expressions, then undo.
        0 | 1 => {
            let slots_ = exprs(doc, |_, c| c.full && !c.keep);
            if slots_.is_empty() {
                return;
            }
            let original = doc.clone();
            let p = *rng.pick(&[1usize, 20, 60]);
            let one = *rng.pick(&slots_);
            let mut edits: Vec<(Range<usize>, String)> = vec![];
            let mut i = 0;
            let mut r2 = rng.clone();
            slots::body(doc, &mut |e, c| {
                let k = i;
                i += 1;
                if !c.full || c.keep || !(k == one || r2.pct(p)) {
                    return false;
                }
                let r = e.span().unwrap();
                let (mut new, text) = new_expr(&mut r2);
                new.decorate(e.decor().clone());
                edits.push((r, text));
                *e = new;
                // The new expressions are not part of the count.
                true
            });
            rng.u64();
            if edits.is_empty() {
                return;
            }
            edits.sort_by_key(|(r, _)| r.start);
            let mut want = src.to_string();
            for (r, t) in edits.iter().rev() {
                want = splice(&want, r.clone(), t);
            }
            ed.obs.feat_n("replace expressions", edits.len() as u64);
            ed.what = format!("replaced {} expressions {edits:?}", edits.len());
            ed.check(&doc.to_string(), &want);
            // Undo with the original nodes.
            let mut saved = original.clone();
            let ranges: Vec<Range<usize>> = edits.iter().map(|(r, _)| r.clone()).collect();
            let mut old = vec![];
            slots::body(&mut saved, &mut |e, c| {
                if c.full && !c.keep && e.span().is_some_and(|r| ranges.contains(&r)) {
                    old.push(e.clone());
                    return true;
                }
                false
            });
            let mut it = old.into_iter();
            slots::body(doc, &mut |e, _| {
                if e.span().is_none() {
                    if let Some(o) = it.next() {
                        *e = o;
                    }
                    return true;
                }
                false
            });
            ed.what = "undoing the replacement".into();
            ed.check(&doc.to_string(), src);
        }
        // Rename keys and identifiers.
        2 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let id = new_id(rng);
            let pick = rng.u64() as usize;
            let r = at_body(doc, k, |b, _| {
                let mut n = b.len();
                if n == 0 {
                    return None;
                }
                n = pick % n;
                if b.get(n).unwrap().is_block() {
                    let b = b.get_mut(n).unwrap().as_block_mut().unwrap();
                    let r = b.ident.span().unwrap();
                    *b.ident.value_mut() = Ident::new(id.clone());
                    Some(r)
                } else {
                    // Keys are changed by taking the attribute out.
                    let Structure::Attribute(mut a) = b.remove(n) else { unreachable!() };
                    let r = a.key.span().unwrap();
                    *a.key.value_mut() = Ident::new(id.clone());
                    if b.has_attribute(&id) {
                        return None;
                    }
                    b.insert(n, a);
                    Some(r)
                }
            });
            let Some(r) = r else { return };
            ed.obs.feat("rename identifiers");
            ed.what = format!("renamed the identifier at {r:?} to {id}");
            ed.check(&doc.to_string(), &splice(src, r, &id));
        }
        3 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let text = G::new(rng, Opts::default()).text(4);
            let pick = rng.u64() as usize;
            let remove = rng.one_in(3);
            let r = at_body(doc, k, |b, _| {
                let n = b.blocks().count();
                if n == 0 {
                    return None;
                }
                let b = b.blocks_mut().nth(pick % n).unwrap();
                if b.labels.is_empty() {
                    return None;
                }
                let i = (pick >> 8) % b.labels.len();
                if remove {
                    let l = b.labels.remove(i);
                    return Some((outer(&l), String::new()));
                }
                let l = &mut b.labels[i];
                let r = l.span().unwrap();
                let mut s = Decorated::new(text.clone());
                s.decorate(l.decor().clone());
                *l = BlockLabel::String(s);
                let shown = Expression::from(text.as_str()).to_string();
                Some((r, shown))
            });
            let Some((r, t)) = r else { return };
            ed.obs.feat("change labels");
            ed.what = format!("changed the label at {r:?} to {t}");
            ed.check(&doc.to_string(), &splice(src, r, &t));
        }
        // Remove and reinsert.
        4..=6 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let pick = rng.u64() as usize;
            let how = rng.below(4);
            let out = at_body(doc, k, |b, depth| {
                if b.is_empty() {
                    return None;
                }
                let n = b.len();
                let i = pick % n;
                let one = b.prefer_oneline() && b.len() == 1;
                let s = b.get(i).unwrap();
                let mut r = outer(s);
                let tail = depth == 0 && !src[r.end..].starts_with('\n');
                if one {
                } else if tail {
                    // No line end behind the last structure of the document.
                    assert!(i + 1 == n, "structure without newline");
                    if i > 0 {
                        r.start -= 1;
                    }
                } else {
                    r.end += 1;
                }
                let s = match (how, s) {
                    (0, Structure::Attribute(a)) => {
                        let key = a.key.as_str().to_string();
                        b.remove_attribute(&key).map(Structure::from)
                    }
                    (1, Structure::Block(x)) => {
                        let id = x.ident.as_str().to_string();
                        if b.get_blocks(&id).count() == 1 {
                            b.remove_blocks(&id).pop().map(Structure::from)
                        } else {
                            Some(b.remove(i))
                        }
                    }
                    (2, _) if i + 1 == n => b.pop(),
                    _ => Some(b.remove(i)),
                };
                Some((r, i, s, tail, one))
            });
            let Some((r, i, s, tail, one)) = out else { return };
            if tail {
                ed.obs.feat("last structure without newline");
            }
            if one {
                ed.obs.feat("one-line body edited");
            }
            ed.obs.feat("remove structure");
            ed.what = format!("removed the structure at {r:?}");
            let Some(s) = s else {
                ed.obs.fail(src, "removing an existing structure returned nothing");
                return;
            };
            ed.check(&doc.to_string(), &splice(src, r.clone(), ""));
            ed.obs.feat("reinsert structure");
            ed.what = format!("reinserted the structure at {r:?}");
            let mut r2 = rng.clone();
            at_body(doc, k, |b, _| {
                if i == b.len() && r2.bool() {
                    b.push(s);
                } else {
                    b.insert(i, s);
                }
            });
            ed.check(&doc.to_string(), src);
        }
        // Insert a structure.
        7 | 8 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let s: Structure = if rng.bool() {
                let (e, _) = new_expr(rng);
                Attribute::new(Ident::new(new_id(rng)), e).into()
            } else {
                let mut g = G::new(rng, prog_opts());
                g.budget = 6;
                conv::to_edit_struct(&S::Block(g.block(1)))
            };
            let text = Body::from(vec![s.clone()]).to_string();
            let pick = rng.u64() as usize;
            let out = at_body(doc, k, |b, depth| {
                if b.prefer_oneline() && b.len() <= 1 {
                    return None;
                }
                if s.as_attribute().is_some_and(|a| b.has_attribute(a.key.as_str())) {
                    return None;
                }
                let n = b.len();
                let i = pick % (n + 1);
                let (pos, text) = if i < n {
                    (outer(b.get(i).unwrap()).start, text.clone())
                } else if n > 0 {
                    let r = outer(b.get(n - 1).unwrap());
                    if depth == 0 && !src[r.end..].starts_with('\n') {
                        (r.end, format!("\n{}", &text[..text.len() - 1]))
                    } else {
                        (r.end + 1, text.clone())
                    }
                } else if depth == 0 {
                    // An empty document may consist of comments without a line end.
                    return None;
                } else {
                    return None;
                };
                match (pick >> 20) % 5 {
                    4 if i == n => b.extend([s]),
                    0 if i == n => b.push(s),
                    1 if i == n => b.try_push(s).unwrap(),
                    2 => b.try_insert(i, s).unwrap(),
                    _ => b.insert(i, s),
                }
                Some((pos, text, i == n, i))
            });
            let Some((pos, text, end, i)) = out else { return };
            ed.obs.feat(if end { "insert at the end" } else { "insert structure" });
            ed.what = format!("inserted {text:?} at {pos}");
            ed.check(&doc.to_string(), &splice(src, pos..pos, &text));
            at_body(doc, k, |b, _| {
                b.remove(i);
            });
            ed.what = "removed the inserted structure".into();
            ed.check(&doc.to_string(), src);
        }
        // Arrays and arguments.
        9 | 10 | 11 => {
            let want_array = what != 10;
            let c = exprs(doc, |e, _| match e {
                Expression::Array(a) => want_array && !a.is_empty(),
                Expression::FuncCall(f) => !want_array && !f.args.is_empty(),
                _ => false,
            });
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let (e, text) = new_expr(rng);
            let op = rng.below(3);
            let pick = rng.u64() as usize;
            macro_rules! list {
                ($a:expr) => {{
                    let a = $a;
                    let n = a.len();
                    let rs: Vec<Range<usize>> = a.iter().map(outer).collect();
                    let i = pick % n;
                    match op {
                        0 => {
                            let old = if i + 1 == n && pick & 8192 == 0 { a.pop().unwrap() } else { a.remove(i) };
                            let r = if n == 1 {
                                let mut r = rs[0].clone();
                                if a.trailing_comma() {
                                    r.end += 1;
                                }
                                r
                            } else if i + 1 < n {
                                rs[i].start..rs[i + 1].start
                            } else {
                                rs[i - 1].end..rs[i].end
                            };
                            (r, String::new(), Some((i, Some(old))), "remove")
                        }
                        1 => {
                            // In front of element i.
                            a.insert(i, e);
                            let t = if i == 0 { format!("{text},") } else { format!(" {text},") };
                            (rs[i].start..rs[i].start, t, Some((i, None)), "insert")
                        }
                        _ => {
                            if pick & 1024 == 0 {
                                a.push(e);
                            } else if pick & 2048 == 0 {
                                a.extend([e]);
                            } else {
                                a.insert(n, e);
                            }
                            (rs[n - 1].end..rs[n - 1].end, format!(", {text}"), Some((n, None)), "insert")
                        }
                    }
                }};
            }
            // `f(a...)` without arguments makes no sense.
            let (r, t, undo, name) = at_expr(doc, k, |x| match x {
                Expression::Array(a) => list!(a),
                Expression::FuncCall(f) => {
                    if f.args.len() == 1 && f.args.expand_final() {
                        (0..0, String::new(), None, "")
                    } else {
                        list!(&mut f.args)
                    }
                }
                _ => unreachable!(),
            });
            let Some((i, old)) = undo else { return };
            ed.obs.feat(&format!("{} {name}", if want_array { "array" } else { "argument" }));
            ed.what = format!("{name} of a list element at {r:?} {t:?}");
            ed.check(&doc.to_string(), &splice(src, r, &t));
            at_expr(doc, k, |x| match (x, old) {
                (Expression::Array(a), Some(o)) => a.insert(i, o),
                (Expression::FuncCall(f), Some(o)) => f.args.insert(i, o),
                (Expression::Array(a), None) => {
                    a.remove(i);
                }
                (Expression::FuncCall(f), None) => {
                    f.args.remove(i);
                }
                _ => unreachable!(),
            });
            ed.what = format!("undoing the {name} of a list element");
            ed.check(&doc.to_string(), src);
        }
        // Objects.
        12 | 13 => {
            let c = exprs(doc, |e, _| matches!(e, Expression::Object(a) if !a.is_empty()));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let (e, text) = new_expr(rng);
            let id = new_id(rng);
            let op = rng.below(3);
            let pick = rng.u64() as usize;
            let out = at_expr(doc, k, |x| {
                let Expression::Object(o) = x else { unreachable!() };
                let n = o.len();
                let items: Vec<(ObjectKey, Range<usize>, Range<usize>, bool)> = o
                    .iter()
                    .map(|(k, v)| {
                        let kr = outer(k);
                        let vr = outer(v.expr());
                        let none = v.terminator() == ObjectValueTerminator::None;
                        (k.clone(), kr, vr.start..vr.end + usize::from(!none), none)
                    })
                    .collect();
                let i = pick % n;
                match op {
                    0 => {
                        let (_, _, last, none) = &items[n - 1];
                        if pick & 8192 == 0 {
                            let r = o.insert(Ident::new(id.clone()), ObjectValue::new(e));
                            assert!(r.is_none(), "a new key had a value");
                        } else {
                            o.extend([(Ident::new(id.clone()), ObjectValue::new(e))]);
                        }
                        let sep = if *none { "," } else { "" };
                        Some((last.end..last.end, format!("{sep}{id} = {text},"), "object insert", Undo::Remove(Ident::new(id.clone()).into())))
                    }
                    1 => {
                        let (key, kr, vr, _) = &items[i];
                        // The existing key stays in its place, with what is around it.
                        let mut new = key.clone();
                        if pick & 4096 != 0 {
                            new.decor_mut().clear();
                        }
                        let old = if pick & 8192 == 0 {
                            o.insert(new, ObjectValue::new(e)).unwrap()
                        } else {
                            let old = o.get(key).unwrap().clone();
                            o.extend([(new, ObjectValue::new(e))]);
                            old
                        };
                        Some((kr.end..vr.end, format!("= {text},"), "object overwrite", Undo::Put(key.clone(), old)))
                    }
                    _ => {
                        let (key, kr, vr, _) = &items[i];
                        let old = if pick & 8192 == 0 { o.remove_entry(key)? } else { (key.clone(), o.remove(key)?) };
                        let undo = if i + 1 == n { Undo::Insert(old.0, old.1) } else { Undo::No };
                        Some((kr.start..vr.end, String::new(), "object remove", undo))
                    }
                }
            });
            let Some((r, t, name, undo)) = out else {
                ed.obs.fail(src, "an existing object key was not found");
                return;
            };
            ed.obs.feat(name);
            ed.what = format!("{name} at {r:?} {t:?}");
            ed.check(&doc.to_string(), &splice(src, r, &t));
            if !matches!(undo, Undo::No) {
                at_expr(doc, k, |x| {
                    let Expression::Object(o) = x else { unreachable!() };
                    match undo {
                        Undo::Put(key, old) => *o.get_mut(&key).unwrap() = old,
                        Undo::Insert(key, old) => assert!(o.insert(key, old).is_none(), "the removed key had a value"),
                        Undo::Remove(key) => {
                            if pick & 16384 == 0 {
                                o.remove(&key);
                            } else {
                                o.remove_entry(&key);
                            }
                        }
                        Undo::No => {}
                    }
                });
                ed.what = format!("undoing {name}");
                ed.check(&doc.to_string(), src);
            }
        }
        // Scalars, in place.
        14 if rng.one_in(3) => {
            let c = exprs(doc, |e, _| matches!(e, Expression::Number(_) | Expression::Bool(_) | Expression::String(_)));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let n = if rng.bool() { rng.below(100) as u64 } else { rng.u64() };
            let lit = G::new(rng, Opts::default()).text(3);
            let (r, t) = at_expr(doc, k, |x| {
                let r = x.span().unwrap();
                match x {
                    Expression::Number(x) => {
                        *x.value_mut() = n.into();
                        (r, n.to_string())
                    }
                    Expression::Bool(x) => {
                        *x.value_mut() = n % 2 == 0;
                        (r, (n % 2 == 0).to_string())
                    }
                    Expression::String(x) => {
                        *x.value_mut() = lit.clone();
                        (r, Expression::from(lit.as_str()).to_string())
                    }
                    _ => unreachable!(),
                }
            });
            ed.obs.feat("scalar in place");
            ed.what = format!("changed the scalar at {r:?} to {t}");
            ed.check(&doc.to_string(), &splice(src, r, &t));
        }
        // Operators of traversals.
        14 => {
            let c = exprs(doc, |e, _| matches!(e, Expression::Traversal(_)));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let pick = rng.u64() as usize;
            let id = new_id(rng);
            let n = pick % 1000;
            let (r, t) = at_expr(doc, k, |x| {
                let Expression::Traversal(x) = x else { unreachable!() };
                let i = pick % x.operators.len();
                if pick & 4096 != 0 && x.operators.len() > 1 {
                    let o = x.operators.remove(i);
                    return (outer(&o), String::new());
                }
                match x.operators[i].value_mut() {
                    TraversalOperator::GetAttr(a) => {
                        let r = a.span().unwrap();
                        *a.value_mut() = Ident::new(id.clone());
                        (r, id)
                    }
                    TraversalOperator::LegacyIndex(a) => {
                        let r = a.span().unwrap();
                        *a.value_mut() = n as u64;
                        (r, n.to_string())
                    }
                    _ => {
                        let o = &mut x.operators[i];
                        let r = o.span().unwrap();
                        *o.value_mut() = TraversalOperator::GetAttr(Decorated::new(Ident::new(id.clone())));
                        (r, format!(".{id}"))
                    }
                }
            });
            ed.obs.feat("traversal operator");
            ed.what = format!("changed the traversal operator at {r:?} to {t}");
            ed.check(&doc.to_string(), &splice(src, r, &t));
        }
        // Elements of string templates.
        15 => {
            let c = exprs(doc, |e, _| matches!(e, Expression::StringTemplate(_)));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let pick = rng.u64() as usize;
            let lit = {
                let mut s = G::new(rng, Opts::default()).text(3);
                s.push('.');
                s
            };
            let shown = {
                let q = Expression::from(lit.as_str()).to_string();
                q[1..q.len() - 1].to_string()
            };
            let out = at_expr(doc, k, |x| {
                use hcl_edit::template::Element;
                let Expression::StringTemplate(t) = x else { unreachable!() };
                let i = pick % t.len();
                match t.get_mut(i).unwrap() {
                    Element::Literal(l) => {
                        let r = l.span().unwrap();
                        *l.value_mut() = lit;
                        Some((r, shown, "literal"))
                    }
                    Element::Interpolation(x) => {
                        let r = x.span().unwrap();
                        let (a, b) = (x.strip.strip_start(), x.strip.strip_end());
                        let text = &src[r.clone()];
                        let inner = &text[2 + usize::from(a)..text.len() - 1 - usize::from(b)];
                        let (c, d) = (pick & 64 == 0, pick & 128 == 0);
                        x.strip = (c, d).into();
                        let t = format!("${{{}{inner}{}}}", if c { "~" } else { "" }, if d { "~" } else { "" });
                        // `${~` in front of `~}`.
                        Some((r, t, "strip marker"))
                    }
                    Element::Directive(_) => None,
                }
            });
            let Some((r, t, name)) = out else { return };
            ed.obs.feat(name);
            ed.what = format!("changed the {name} at {r:?} to {t:?}");
            ed.check(&doc.to_string(), &splice(src, r, &t));
        }
        // Everything in a list.
        17 => {
            let c = exprs(doc, |e, _| match e {
                Expression::Array(a) => !a.is_empty(),
                Expression::FuncCall(f) => !f.args.is_empty() && !f.args.expand_final(),
                Expression::Object(o) => !o.is_empty(),
                _ => false,
            });
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let pick = rng.u64() as usize;
            // Emptied one by one from the front or from the back, or at once.
            macro_rules! empty {
                ($a:expr) => {{
                    let a = $a;
                    let mut r = outer(a.get(0).unwrap()).start..outer(a.get(a.len() - 1).unwrap()).end;
                    if a.trailing_comma() {
                        r.end += 1;
                    }
                    match pick % 4 {
                        0 => {
                            while !a.is_empty() {
                                a.remove(0);
                            }
                        }
                        1 => while a.pop().is_some() {},
                        2 => {
                            while !a.is_empty() {
                                a.remove(a.len() - 1);
                            }
                        }
                        _ => a.clear(),
                    }
                    r
                }};
            }
            let r = at_expr(doc, k, |x| match x {
                Expression::Array(a) => empty!(a),
                Expression::FuncCall(f) => empty!(&mut f.args),
                Expression::Object(o) => {
                    let start = outer(o.iter().next().unwrap().0).start;
                    let last = o.iter().last().unwrap().1;
                    let end = outer(last.expr()).end + usize::from(last.terminator() != ObjectValueTerminator::None);
                    match pick % 4 {
                        0 | 1 => {
                            let mut keys: Vec<ObjectKey> = o.iter().map(|(k, _)| k.clone()).collect();
                            if pick % 4 == 1 {
                                keys.reverse();
                            }
                            for k in keys {
                                o.remove(&k);
                            }
                        }
                        2 => {
                            let keys: Vec<ObjectKey> = o.iter().map(|(k, _)| k.clone()).collect();
                            for k in keys {
                                o.remove_entry(&k);
                            }
                        }
                        _ => o.clear(),
                    }
                    start..end
                }
                _ => unreachable!(),
            });
            ed.obs.feat("emptied list");
            ed.what = format!("emptied the list at {r:?} ({})", pick % 4);
            ed.check(&doc.to_string(), &splice(src, r, ""));
        }
        // The text in front of a closing bracket.
        18 => {
            let c = exprs(doc, |e, _| matches!(e, Expression::Array(_) | Expression::FuncCall(_) | Expression::Object(_) | Expression::ForExpr(_)));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let r = at_expr(doc, k, |x| {
                let end = x.span().unwrap().end - 1;
                let t = match x {
                    Expression::Array(a) => {
                        let n = a.trailing().len();
                        a.set_trailing("/* trailing */");
                        n
                    }
                    Expression::FuncCall(f) => {
                        let n = f.args.trailing().len();
                        f.args.set_trailing("/* trailing */");
                        n
                    }
                    Expression::Object(o) => {
                        let n = o.trailing().len();
                        o.set_trailing("/* trailing */");
                        n
                    }
                    Expression::ForExpr(x) => {
                        let n = x.trailing().len();
                        x.set_trailing("/* trailing */");
                        n
                    }
                    _ => unreachable!(),
                };
                end - t..end
            });
            ed.obs.feat("trailing");
            ed.what = format!("changed the trailing decoration at {r:?}");
            ed.check(&doc.to_string(), &splice(src, r, "/* trailing */"));
        }
        // Commas, dots and operators of lists.
        19 => {
            let c = exprs(doc, |e, _| match e {
                Expression::Array(a) => !a.is_empty(),
                Expression::FuncCall(f) => !f.args.is_empty(),
                Expression::Object(o) => !o.is_empty(),
                _ => false,
            });
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let pick = rng.u64() as usize;
            let (r, t) = at_expr(doc, k, |x| match x {
                Expression::Array(a) => {
                    let end = outer(a.get(a.len() - 1).unwrap()).end;
                    let had = a.trailing_comma();
                    a.set_trailing_comma(!had);
                    (end..end + usize::from(had), if had { "" } else { "," })
                }
                Expression::FuncCall(f) => {
                    let a = &mut f.args;
                    let end = outer(a.get(a.len() - 1).unwrap()).end;
                    let had = a.trailing_comma();
                    let dots = a.expand_final();
                    if pick % 2 == 0 && !had {
                        a.set_expand_final(!dots);
                        (end..end + if dots { 3 } else { 0 }, if dots { "" } else { "..." })
                    } else if !dots {
                        a.set_trailing_comma(!had);
                        (end..end + usize::from(had), if had { "" } else { "," })
                    } else {
                        a.set_expand_final(true);
                        (end..end, "")
                    }
                }
                Expression::Object(o) => {
                    let n = o.len();
                    let i = pick % n;
                    let (k, v) = o.iter_mut().nth(i).unwrap();
                    let end = outer(v.expr()).end;
                    let at = outer(k.get()).end;
                    if pick & 1024 == 0 {
                        let (t, o) = if pick & 2048 == 0 { ("=", hcl_edit::expr::ObjectValueAssignment::Equals) } else { (":", hcl_edit::expr::ObjectValueAssignment::Colon) };
                        v.set_assignment(o);
                        (at..at + 1, t)
                    } else if v.terminator() == ObjectValueTerminator::None {
                        v.set_terminator(ObjectValueTerminator::Comma);
                        (end..end, ",")
                    } else {
                        v.set_terminator(ObjectValueTerminator::Comma);
                        (end..end + 1, ",")
                    }
                }
                _ => unreachable!(),
            });
            ed.obs.feat("comma");
            ed.what = format!("changed the punctuation at {r:?} to {t:?}");
            ed.check(&doc.to_string(), &splice(src, r, t));
        }
        // All attributes or blocks of a body through the iterators.
        20 | 21 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let how = rng.below(4);
            let mut edits: Vec<(Range<usize>, String)> = vec![];
            let (e, text) = new_expr(rng);
            let pick = rng.u64() as usize;
            at_body(doc, k, |b, _| {
                let mut set = |v: &mut Expression, edits: &mut Vec<(Range<usize>, String)>| {
                    let r = v.span().unwrap();
                    let mut new = e.clone();
                    new.decorate(v.decor().clone());
                    *v = new;
                    edits.push((r, text.clone()));
                };
                match how {
                    0 => {
                        for mut a in b.attributes_mut() {
                            set(a.value_mut(), &mut edits);
                        }
                    }
                    1 => {
                        for x in b.blocks_mut() {
                            let r = x.ident.span().unwrap();
                            *x.ident.value_mut() = Ident::new("renamed");
                            edits.push((r, "renamed".into()));
                        }
                    }
                    2 => {
                        for mut s in b.iter_mut() {
                            if let Some(mut a) = s.as_attribute_mut() {
                                set(a.value_mut(), &mut edits);
                            }
                        }
                    }
                    _ => {
                        let names: Vec<(String, bool)> = b
                            .iter()
                            .map(|s| match s {
                                Structure::Attribute(a) => (a.key.as_str().to_string(), true),
                                Structure::Block(x) => (x.ident.as_str().to_string(), false),
                            })
                            .collect();
                        if names.is_empty() {
                            return;
                        }
                        let (name, attr) = &names[pick % names.len()];
                        if *attr {
                            let mut a = b.get_attribute_mut(name).expect("attribute");
                            set(a.value_mut(), &mut edits);
                        } else {
                            for x in b.get_blocks_mut(name) {
                                let r = x.ident.span().unwrap();
                                *x.ident.value_mut() = Ident::new("renamed");
                                edits.push((r, "renamed".into()));
                            }
                        }
                    }
                }
            });
            if edits.is_empty() {
                return;
            }
            let mut want = src.to_string();
            for (r, t) in edits.iter().rev() {
                want = splice(&want, r.clone(), t);
            }
            ed.obs.feat("through iterators");
            ed.what = format!("changed through iterators ({how}) {edits:?}");
            ed.check(&doc.to_string(), &want);
        }
        // Several blocks at once.
        22 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let pick = rng.u64() as usize;
            let out = at_body(doc, k, |b, _| {
                if b.prefer_oneline() {
                    return None;
                }
                let n = b.blocks().count();
                if n == 0 {
                    return None;
                }
                let id = b.blocks().nth(pick % n).unwrap().ident.as_str().to_string();
                let rs: Vec<Range<usize>> = b.get_blocks(&id).map(outer).collect();
                if rs.iter().any(|r| !src[r.end..].starts_with('\n')) {
                    return None;
                }
                let got = b.remove_blocks(&id).len();
                Some((rs, got))
            });
            let Some((rs, got)) = out else { return };
            let mut want = src.to_string();
            for r in rs.iter().rev() {
                want = splice(&want, r.start..r.end + 1, "");
            }
            ed.obs.feat("remove blocks");
            ed.what = format!("removed {got} blocks at {rs:?}");
            ed.check(&doc.to_string(), &want);
        }
        // More labels.
        23 => {
            let nb = count_bodies(doc);
            let k = rng.below(nb);
            let text = G::new(rng, Opts::default()).text(4);
            let pick = rng.u64() as usize;
            let r = at_body(doc, k, |b, _| {
                let n = b.blocks().count();
                if n == 0 {
                    return None;
                }
                let b = b.blocks_mut().nth(pick % n).unwrap();
                let i = (pick >> 8) % (b.labels.len() + 1);
                let at = if i < b.labels.len() { outer(&b.labels[i]).start } else if i > 0 { outer(&b.labels[i - 1]).end } else { outer(&b.ident).end };
                b.labels.insert(i, BlockLabel::from(text.as_str()));
                Some(at)
            });
            let Some(at) = r else { return };
            let shown = format!("{} ", Expression::from(text.as_str()));
            ed.obs.feat("insert label");
            ed.what = format!("inserted the label {shown} at {at}");
            ed.check(&doc.to_string(), &splice(src, at..at, &shown));
        }
        // Template elements.
        24 => {
            let c = exprs(doc, |e, _| matches!(e, Expression::StringTemplate(_)));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let pick = rng.u64() as usize;
            let out = at_expr(doc, k, |x| {
                use hcl_edit::template::{Element, Interpolation};
                let Expression::StringTemplate(t) = x else { unreachable!() };
                let n = t.len();
                let i = pick % n;
                let r = t.get(i).unwrap().span().unwrap();
                // What follows decides how a literal `$` or `%` is written.
                let at = if (pick >> 10) % 3 == 1 { t.get(n - 1).unwrap().span().unwrap().end } else { r.start };
                if ["$", "%", "\\u0024", "\\u0025"].iter().any(|m| src[..at].ends_with(m)) {
                    return None;
                }
                match (pick >> 10) % 3 {
                    0 => {
                        t.insert(i, Element::from(Interpolation::new(Ident::new("inserted"))));
                        Some((r.start..r.start, "${ inserted }"))
                    }
                    1 => {
                        t.push(Element::from(Interpolation::new(Ident::new("pushed"))));
                        let end = t.get(n - 1).unwrap().span().unwrap().end;
                        Some((end..end, "${ pushed }"))
                    }
                    _ => {
                        if i + 1 == n && pick & 4096 == 0 {
                            t.pop();
                        } else {
                            t.remove(i);
                        }
                        Some((r, ""))
                    }
                }
            });
            let Some((r, t)) = out else { return };
            ed.obs.feat("template element");
            ed.what = format!("changed the template elements at {r:?} to {t:?}");
            ed.check(&doc.to_string(), &splice(src, r, t));
        }
        // Decoration.
        _ => {
            let c = exprs(doc, |e, _| !matches!(e, Expression::Null(_)));
            if c.is_empty() {
                return;
            }
            let k = *rng.pick(&c);
            let pick = rng.u64() as usize;
            let (r, t) = at_expr(doc, k, |x| {
                let full = outer(x);
                let inner = x.span().unwrap();
                match pick % 3 {
                    0 => {
                        x.decor_mut().set_prefix("/* before */ ");
                        (full.start..inner.start, "/* before */ ")
                    }
                    1 => {
                        x.decor_mut().set_suffix(" /* after */");
                        (inner.end..full.end, " /* after */")
                    }
                    _ => {
                        x.decorate(Decor::new("/*", "*/"));
                        // Checked as two edits: the text between is unchanged.
                        (full, "")
                    }
                }
            });
            ed.obs.feat("decorate");
            ed.what = format!("changed the decoration at {r:?}");
            if t.is_empty() {
                let inner = at_expr(doc, k, |x| x.span().unwrap());
                let t = format!("/*{}*/", &src[inner]);
                ed.check(&doc.to_string(), &splice(src, r, &t));
            } else {
                ed.check(&doc.to_string(), &splice(src, r, t));
            }
        }
    }
}
