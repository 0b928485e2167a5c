//! P08 and P09: collections in lockstep with list and map models.

use crate::conv;
use crate::model::*;
use crate::rng::Rng;
use crate::run::{guard, Mon, Obs};
use hcl_edit::expr as ee;
use hcl_edit::structure as es;
use hcl_edit::template as et;
use hcl_edit::{Decor, Decorate, Decorated, Ident};

const KEYS: [&str; 5] = ["a", "b", "ab", "k_1", "ä-b"];
const LABELS: [&str; 4] = ["x", "y", "x y", ""];

/// Source of values which occur only once.
struct Tags(u64);

impl Tags {
    fn next(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
}

fn attr(r: &mut Rng, t: &mut Tags) -> S {
    S::Attr((*r.pick(&KEYS)).into(), E::Num(N::U(t.next())))
}

fn label(r: &mut Rng) -> L {
    if r.bool() {
        L::Id((*r.pick(&["x", "y", "z"])).into())
    } else {
        L::Str((*r.pick(&LABELS)).into())
    }
}

fn block(r: &mut Rng, t: &mut Tags) -> S {
    let labels = (0..r.below(4)).map(|_| label(r)).collect();
    S::Block(Block {
        ident: (*r.pick(&KEYS)).into(),
        labels,
        body: vec![S::Attr("t".into(), E::Num(N::U(t.next())))],
    })
}

fn structure(r: &mut Rng, t: &mut Tags) -> S {
    if r.pct(55) {
        attr(r, t)
    } else {
        block(r, t)
    }
}

fn structures(r: &mut Rng, t: &mut Tags, max: usize) -> Vec<S> {
    (0..r.below(max + 1)).map(|_| structure(r, t)).collect()
}

fn is_key(s: &S, k: &str) -> bool {
    matches!(s, S::Attr(x, _) if x == k)
}

fn is_ident(s: &S, k: &str) -> bool {
    matches!(s, S::Block(b) if b.ident == k)
}

fn as_block(s: &S) -> Option<&Block> {
    match s {
        S::Block(b) => Some(b),
        S::Attr(..) => None,
    }
}

fn as_attr(s: &S) -> Option<(&str, &E)> {
    match s {
        S::Attr(k, v) => Some((k, v)),
        S::Block(_) => None,
    }
}

/// Pushes unless the key exists already. Returns whether the structure was taken.
fn model_push(m: &mut Vec<S>, at: usize, s: S) -> bool {
    if let S::Attr(k, _) = &s {
        if m.iter().any(|x| is_key(x, k)) {
            return false;
        }
    }
    m.insert(at, s);
    true
}

fn lstr(l: &L) -> &str {
    match l {
        L::Id(s) | L::Str(s) => s,
    }
}

/// An iterator whose size hint says nothing useful.
struct Hint<I>(I, (usize, Option<usize>));

impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

fn hint<I: Iterator>(r: &mut Rng, i: I, n: usize) -> Hint<I> {
    let h = match r.below(4) {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (n / 2, None),
        _ => (0, Some(n + 3)),
    };
    Hint(i, h)
}

fn e_attr(s: &S) -> es::Attribute {
    match s {
        S::Attr(k, v) => {
            let mut a = es::Attribute::new(Ident::new(k), conv::to_edit_expr(v));
            a.decorate(deco_of(s));
            a
        }
        S::Block(_) => unreachable!(),
    }
}

fn e_block(s: &S) -> es::Block {
    let mut b = conv::to_edit_block(as_block(s).unwrap());
    b.decorate(deco_of(s));
    b
}

/// The decoration given to a structure: it depends on what no operation changes.
fn deco_of(s: &S) -> Decor {
    let k = match s {
        S::Attr(k, _) => k,
        S::Block(b) => &b.ident,
    };
    Decor::new(format!("# {k}\n"), format!(" /* {k} */"))
}

fn e_struct(s: &S) -> es::Structure {
    match s {
        S::Attr(..) => e_attr(s).into(),
        S::Block(_) => e_block(s).into(),
    }
}

fn m_attr(a: &es::Attribute) -> S {
    S::Attr(a.key.as_str().to_string(), conv::edit_expr(&a.value))
}

fn m_struct(s: &es::Structure) -> S {
    match s {
        es::Structure::Attribute(a) => m_attr(a),
        es::Structure::Block(b) => m_block(b),
    }
}

fn m_block(b: &es::Block) -> S {
    S::Block(Block {
        ident: b.ident.as_str().to_string(),
        labels: b
            .labels
            .iter()
            .map(|l| match l {
                es::BlockLabel::Ident(i) => L::Id(i.as_str().to_string()),
                es::BlockLabel::String(s) => L::Str(s.as_str().to_string()),
            })
            .collect(),
        body: conv::edit_body(&b.body),
    })
}

macro_rules! same {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, the model says {:?}", $what, a, b));
        }
    }};
}

type R<T> = Result<T, String>;

/// Compares every query of the body with the model.
fn check_edit_body(body: &es::Body, m: &[S], r: &mut Rng) -> R<()> {
    same!("content", body.iter().map(m_struct).collect::<Vec<_>>(), m.to_vec());
    same!("decoration", body.iter().map(|s| s.decor().clone()).collect::<Vec<_>>(), m.iter().map(deco_of).collect::<Vec<_>>());
    same!("len", body.len(), m.len());
    same!("is_empty", body.is_empty(), m.is_empty());
    same!("iteration of a reference", body.into_iter().count(), m.len());
    let (lo, hi) = body.iter().size_hint();
    if lo > m.len() || hi.is_some_and(|h| h < m.len()) {
        return Err(format!("size hint ({lo}, {hi:?}) of {} structures", m.len()));
    }
    for i in [0, r.below(m.len() + 2), m.len(), m.len() + 1] {
        same!("get", body.get(i).map(m_struct), m.get(i).cloned());
    }
    let attrs: Vec<S> = m.iter().filter(|s| as_attr(s).is_some()).cloned().collect();
    let blocks: Vec<S> = m.iter().filter(|s| as_block(s).is_some()).cloned().collect();
    same!("attributes", body.attributes().map(m_attr).collect::<Vec<_>>(), attrs);
    same!("blocks", body.blocks().map(m_block).collect::<Vec<_>>(), blocks);
    for k in KEYS.iter().chain(&["A", "", "ab ", "zz"]) {
        let a = m.iter().find(|s| is_key(s, k)).cloned();
        same!("has_attribute", body.has_attribute(k), a.is_some());
        same!("get_attribute", body.get_attribute(k).map(m_attr), a);
        let b: Vec<S> = m.iter().filter(|s| is_ident(s, k)).cloned().collect();
        same!("has_blocks", body.has_blocks(k), !b.is_empty());
        same!("get_blocks", body.get_blocks(k).map(m_block).collect::<Vec<_>>(), b);
    }
    for (s, m) in body.iter().zip(m) {
        same!("is_attribute", s.is_attribute(), as_attr(m).is_some());
        same!("is_block", s.is_block(), as_block(m).is_some());
        same!("as_attribute", s.as_attribute().map(m_attr), as_attr(m).map(|_| m.clone()));
        same!("as_block", s.as_block().map(m_block), as_block(m).map(|_| m.clone()));
        if let Some(a) = s.as_attribute() {
            for k in KEYS {
                same!("has_key", a.has_key(k), is_key(m, k));
            }
        }
        if let (Some(b), Some(mb)) = (s.as_block(), as_block(m)) {
            same!("is_labeled", b.is_labeled(), !mb.labels.is_empty());
            for k in KEYS {
                same!("has_ident", b.has_ident(k), mb.ident == k);
            }
            let q: Vec<&str> = if r.bool() {
                let n = r.below(mb.labels.len() + 1);
                mb.labels[..n].iter().map(lstr).collect()
            } else {
                (0..r.below(4)).map(|_| *r.pick(&LABELS)).collect()
            };
            let prefix = mb.labels.len() >= q.len() && mb.labels.iter().zip(&q).all(|(a, b)| lstr(a) == *b);
            same!("has_labels", b.has_labels(&q), prefix);
            same!("has_exact_labels", b.has_exact_labels(&q), prefix && q.len() == mb.labels.len());
        }
    }
    Ok(())
}

fn edit_history(r: &mut Rng, obs: &mut Obs, log: &mut Vec<String>) -> R<()> {
    let mut t = Tags(0);
    let t = &mut t;
    let mut m: Vec<S> = vec![];
    // Every way to make a body.
    let mut body = {
        let mut ss = structures(r, t, 6);
        if r.one_in(60) {
            // A large body, mostly of blocks.
            ss.clear();
            for _ in 0..r.range(20, 120) {
                ss.extend(structures(r, t, 2));
            }
            obs.feat("large body");
        }
        for s in &ss {
            let at = m.len();
            model_push(&mut m, at, s.clone());
        }
        let how = r.below(8);
        log.push(format!("start {how} {ss:?}"));
        match how {
            0 => es::Body::from(ss.iter().map(e_struct).collect::<Vec<_>>()),
            1 => {
                let n = ss.len();
                hint(r, ss.iter().map(e_struct), n).collect()
            }
            2 => {
                let mut b = es::Body::new();
                b.extend(ss.iter().map(e_struct));
                b
            }
            3 => {
                let mut b = es::Body::builder();
                for s in &ss {
                    b = match (s, r.bool()) {
                        (_, true) => b.structure(e_struct(s)),
                        (S::Attr(..), _) => b.attribute(e_attr(s)),
                        (S::Block(_), _) => b.block(e_block(s)),
                    };
                }
                b.build()
            }
            4 => es::Body::builder().structures(ss.iter().map(e_struct)).into(),
            5 => {
                // Attributes and blocks apart.
                m.clear();
                let (a, b): (Vec<S>, Vec<S>) = ss.iter().cloned().partition(|s| as_attr(s).is_some());
                for s in a.iter().chain(&b) {
                    let at = m.len();
                    model_push(&mut m, at, s.clone());
                }
                es::Body::builder().attributes(a.iter().map(e_attr)).blocks(b.iter().map(e_block)).build()
            }
            6 => {
                let mut text = String::new();
                for s in &m {
                    match s {
                        S::Attr(k, E::Num(N::U(v))) => text.push_str(&format!("{k} = {v} # {v}\n")),
                        S::Block(b) => {
                            text.push_str(&b.ident);
                            for l in &b.labels {
                                text.push(' ');
                                match l {
                                    L::Id(i) => text.push_str(i),
                                    L::Str(s) => text.push_str(&format!("{s:?}")),
                                }
                            }
                            let Some((_, E::Num(N::U(v)))) = as_attr(&b.body[0]) else { unreachable!() };
                            text.push_str(&format!(" {{ t = {v} }}\n"));
                        }
                        S::Attr(..) => unreachable!(),
                    }
                }
                let mut b: es::Body = text.parse().map_err(|e| format!("{text}: {e}"))?;
                for (i, s) in m.iter().enumerate() {
                    b.get_mut(i).ok_or("too few structures")?.decorate(deco_of(s));
                }
                b
            }
            _ => {
                // Through a block.
                let mut b = es::Block::builder(Ident::new("x")).labels(["l"]).label(Ident::new("m"));
                let k = r.below(ss.len() + 1);
                for s in &ss[..k] {
                    b = match (s, r.bool()) {
                        (_, true) => b.structure(e_struct(s)),
                        (S::Attr(..), _) => b.attribute(e_attr(s)),
                        (S::Block(_), _) => b.block(e_block(s)),
                    };
                }
                let b = b.structures(ss[k..].iter().map(e_struct)).build();
                same!("labels", b.labels.iter().map(|l| l.as_str().to_string()).collect::<Vec<_>>(), vec!["l".to_string(), "m".to_string()]);
                b.body
            }
        }
    };
    check_edit_body(&body, &m, r)?;
    let mut flags = (body.prefer_oneline(), body.prefer_omit_trailing_newline());
    for _ in 0..r.range(3, 24) {
        let key = *r.pick(&KEYS);
        match r.below(21) {
            0..=2 => {
                let s = structure(r, t);
                log.push(format!("push {s:?}"));
                let at = m.len();
                if !model_push(&mut m, at, s.clone()) {
                    obs.feat("duplicate refused");
                }
                body.push(e_struct(&s));
                obs.feat("push");
            }
            3 | 4 => {
                let s = structure(r, t);
                let i = r.below(m.len() + 1);
                log.push(format!("insert {i} {s:?}"));
                if !model_push(&mut m, i, s.clone()) {
                    obs.feat("duplicate refused");
                }
                match as_attr(&s) {
                    Some(_) => body.insert(i, e_attr(&s)),
                    None => body.insert(i, e_block(&s)),
                }
                obs.feat("insert");
            }
            5 => {
                let s = structure(r, t);
                log.push(format!("try_push {s:?}"));
                let at = m.len();
                let ok = model_push(&mut m, at, s.clone());
                let got = body.try_push(e_struct(&s));
                same!("refused attribute", got.as_ref().err().map(m_attr), (!ok).then(|| s.clone()));
                obs.feat(if ok { "push" } else { "duplicate refused" });
            }
            6 => {
                let s = structure(r, t);
                let i = r.below(m.len() + 1);
                log.push(format!("try_insert {i} {s:?}"));
                let ok = model_push(&mut m, i, s.clone());
                let got = body.try_insert(i, e_struct(&s));
                same!("refused attribute", got.as_ref().err().map(m_attr), (!ok).then(|| s.clone()));
                obs.feat(if ok { "insert" } else { "duplicate refused" });
            }
            7 => {
                log.push("pop".into());
                same!("pop", body.pop().as_ref().map(m_struct), m.pop());
                obs.feat("pop");
            }
            8 | 9 if !m.is_empty() => {
                let i = r.below(m.len());
                log.push(format!("remove {i}"));
                same!("remove", m_struct(&body.remove(i)), m.remove(i));
                obs.feat("remove");
            }
            10 | 11 => {
                log.push(format!("remove_attribute {key}"));
                let want = m.iter().position(|s| is_key(s, key)).map(|i| m.remove(i));
                same!("remove_attribute", body.remove_attribute(key).as_ref().map(m_attr), want);
                obs.feat(if want.is_some() { "removed attribute" } else { "removed nothing" });
            }
            12 => {
                log.push(format!("remove_blocks {key}"));
                let want: Vec<S> = m.iter().filter(|s| is_ident(s, key)).cloned().collect();
                m.retain(|s| !is_ident(s, key));
                same!("remove_blocks", body.remove_blocks(key).iter().map(m_block).collect::<Vec<_>>(), want);
                obs.feat(if want.len() > 1 { "removed several blocks" } else { "removed blocks" });
            }
            13 => {
                let ss = structures(r, t, 4);
                log.push(format!("extend {ss:?}"));
                for s in &ss {
                    let at = m.len();
                    model_push(&mut m, at, s.clone());
                }
                let n = ss.len();
                if r.bool() {
                    body.extend(hint(r, ss.iter().map(e_struct), n));
                } else {
                    body.extend(ss.iter().map(e_struct).collect::<Vec<_>>());
                }
                obs.feat("extend");
            }
            14 => {
                let v = E::Num(N::U(t.next()));
                log.push(format!("get_attribute_mut {key} {v:?}"));
                let want = m.iter_mut().find(|s| is_key(s, key));
                match (body.get_attribute_mut(key), want) {
                    (Some(mut a), Some(S::Attr(_, e))) => {
                        same!("get_attribute_mut", m_attr(a.get()), S::Attr(key.into(), e.clone()));
                        *e = v.clone();
                        *a.value_mut() = conv::to_edit_expr(&v);
                        obs.feat("changed attribute");
                    }
                    (None, None) => {}
                    (a, _) => return Err(format!("get_attribute_mut found: {}", a.is_some())),
                }
            }
            15 => {
                let n = t.next();
                log.push(format!("get_blocks_mut {key} {n}"));
                let mut k = 0;
                for b in body.get_blocks_mut(key) {
                    k += 1;
                    b.body.push(es::Attribute::new(Ident::new(format!("n{n}")), k));
                }
                let mut j = 0;
                for s in &mut m {
                    if let S::Block(b) = s {
                        if b.ident == key {
                            j += 1;
                            b.body.push(S::Attr(format!("n{n}"), E::Num(N::U(j))));
                        }
                    }
                }
                same!("blocks of get_blocks_mut", k, j);
                obs.feat_n("changed block", k);
            }
            16 if !m.is_empty() => {
                let i = r.below(m.len());
                let v = E::Num(N::U(t.next()));
                log.push(format!("get_mut {i} {v:?}"));
                match (body.get_mut(i), &mut m[i]) {
                    (Some(es::Structure::Attribute(a)), S::Attr(_, e)) => {
                        a.value = conv::to_edit_expr(&v);
                        *e = v;
                    }
                    (Some(es::Structure::Block(b)), S::Block(mb)) => {
                        let l = label(r);
                        b.labels.push(conv::to_edit_label(&l));
                        mb.labels.push(l);
                        if !mb.body.is_empty() && r.bool() {
                            same!("clear", b.body.clear(), ());
                            mb.body.clear();
                        }
                    }
                    _ => return Err("get_mut: wrong structure".into()),
                }
                if body.get_mut(m.len()).is_some() {
                    return Err("get_mut: structure behind the end".into());
                }
                obs.feat("get_mut");
            }
            17 => {
                log.push("iter_mut".into());
                let mut i = 0;
                for mut s in &mut body {
                    let v = E::Num(N::U(t.next()));
                    let mut s = s_mut(&mut s)?;
                    match (&mut s, m.get_mut(i)) {
                        (Ok(a), Some(S::Attr(_, e))) => {
                            *a.value_mut() = conv::to_edit_expr(&v);
                            *e = v;
                        }
                        (Err(b), Some(S::Block(mb))) => {
                            b.body.push(es::Attribute::new(Ident::new(format!("i{i}x{}", t.0)), i as u64));
                            mb.body.push(S::Attr(format!("i{i}x{}", t.0), E::Num(N::U(i as u64))));
                        }
                        _ => return Err("iter_mut: wrong structure".into()),
                    }
                    i += 1;
                }
                same!("length of iter_mut", i, m.len());
                obs.feat("iter_mut");
            }
            18 => {
                log.push("attributes_mut, blocks_mut".into());
                let mut vs: Vec<E> = vec![];
                for mut a in body.attributes_mut() {
                    vs.push(E::Num(N::U(t.next())));
                    *a.value_mut() = conv::to_edit_expr(vs.last().unwrap());
                }
                let mut n = 0;
                for b in body.blocks_mut() {
                    n += 1;
                    b.labels.truncate(n % 3);
                }
                let mut vs = vs.into_iter();
                let mut n = 0;
                for s in &mut m {
                    match s {
                        S::Attr(_, e) => *e = vs.next().ok_or("attributes_mut: too few")?,
                        S::Block(b) => {
                            n += 1;
                            b.labels.truncate(n % 3);
                        }
                    }
                }
                if vs.next().is_some() {
                    return Err("attributes_mut: too many".into());
                }
                obs.feat("attributes_mut");
            }
            19 => {
                // Take apart and put together.
                let how = r.below(4);
                log.push(format!("rebuild {how}"));
                match how {
                    0 => {
                        let v: Vec<es::Structure> = body.into_iter().collect();
                        body = es::Body::from(v);
                    }
                    1 => {
                        let mut v: Vec<es::Structure> = body.into_iter().collect();
                        v.reverse();
                        m.reverse();
                        body = v.into_iter().collect();
                    }
                    2 => {
                        let c = body.clone();
                        let mut v: Vec<es::Structure> = body.into_attributes().map(Into::into).collect();
                        v.extend(c.into_blocks().map(es::Structure::from));
                        m.sort_by_key(|s| as_block(s).is_some());
                        body = v.into_iter().collect();
                    }
                    _ => {
                        // Duplicates are dropped, the first one wins.
                        let c: Vec<es::Structure> = body.clone().into_iter().collect();
                        body.extend(c);
                        let c: Vec<S> = m.clone();
                        for s in c {
                            let at = m.len();
                            model_push(&mut m, at, s);
                        }
                        m.truncate(60);
                        while body.len() > 60 {
                            body.pop();
                        }
                    }
                }
                flags = (body.prefer_oneline(), body.prefer_omit_trailing_newline());
                obs.feat("rebuilt");
            }
            20 => {
                log.push("decorate".into());
                if let Some(mut a) = body.get_attribute_mut(key) {
                    a.key_decor_mut().set_suffix("  ");
                }
                body.set_prefer_oneline(r.bool());
                body.set_prefer_omit_trailing_newline(r.bool());
                flags = (body.prefer_oneline(), body.prefer_omit_trailing_newline());
                if r.one_in(6) {
                    body.clear();
                    m.clear();
                    flags = (body.prefer_oneline(), body.prefer_omit_trailing_newline());
                    obs.feat("clear");
                }
            }
            _ => continue,
        }
        same!("flags", (body.prefer_oneline(), body.prefer_omit_trailing_newline()), flags);
        check_edit_body(&body, &m, r)?;
        obs.feat("states compared");
    }
    // Equality of bodies is equality of the lists.
    let mut m2 = m.clone();
    match r.below(4) {
        0 if m2.len() > 1 => {
            let i = r.below(m2.len() - 1);
            m2.swap(i, i + 1);
        }
        1 => {
            m2.pop();
        }
        2 if !m2.is_empty() => {
            let i = r.below(m2.len());
            match &mut m2[i] {
                S::Attr(_, e) => *e = E::Num(N::U(t.next())),
                S::Block(b) => b.labels.push(L::Id("w".into())),
            }
        }
        _ => {}
    }
    let b2: es::Body = m2.iter().map(e_struct).collect();
    same!("equality", body == b2, m == m2);
    same!("inequality", body != b2, m != m2);
    obs.feat(if m == m2 { "equal bodies" } else { "different bodies" });
    Ok(())
}

/// Checks the accessors of a mutable structure and returns it.
#[allow(clippy::type_complexity)]
fn s_mut<'a, 'b: 'a>(s: &'a mut es::StructureMut<'b>) -> R<Result<es::AttributeMut<'a>, &'a mut es::Block>> {
    same!("StructureMut kinds", s.is_attribute(), !s.is_block());
    same!("StructureMut::as_attribute", s.as_attribute().is_some(), s.is_attribute());
    same!("StructureMut::as_block", s.as_block().is_some(), s.is_block());
    if s.is_attribute() {
        s.as_attribute_mut().map(Ok).ok_or("as_attribute_mut".into())
    } else {
        s.as_block_mut().map(Err).ok_or("as_block_mut".into())
    }
}

// --- hcl-rs -----------------------------------------------------------------------------------

fn r_attr(s: &S) -> hcl::Attribute {
    match conv::to_rs_struct(s) {
        hcl::Structure::Attribute(a) => a,
        hcl::Structure::Block(_) => unreachable!(),
    }
}

fn r_block(s: &S) -> hcl::Block {
    match conv::to_rs_struct(s) {
        hcl::Structure::Block(b) => b,
        hcl::Structure::Attribute(_) => unreachable!(),
    }
}

fn mr_attr(a: &hcl::Attribute) -> S {
    S::Attr(a.key().to_string(), conv::rs_expr(a.expr()).unwrap())
}

fn mr_block(b: &hcl::Block) -> S {
    S::Block(conv::rs_block(b).unwrap())
}

fn mr_struct(s: &hcl::Structure) -> S {
    match s {
        hcl::Structure::Attribute(a) => mr_attr(a),
        hcl::Structure::Block(b) => mr_block(b),
    }
}

/// Takes items from both ends in random order and compares with the list.
fn both_ends<T, I: DoubleEndedIterator<Item = T>>(what: &str, mut it: I, want: &[S], f: impl Fn(T) -> S, r: &mut Rng) -> R<()> {
    let mut lo = 0;
    let mut hi = want.len();
    let mode = r.below(3);
    loop {
        let (l, h) = it.size_hint();
        if l > hi - lo || h.is_some_and(|h| h < hi - lo) {
            return Err(format!("{what}: size hint ({l}, {h:?}) with {} left", hi - lo));
        }
        let back = match mode {
            0 => false,
            1 => true,
            _ => r.bool(),
        };
        let got = if back { it.next_back() } else { it.next() }.map(&f);
        let exp = if lo == hi {
            None
        } else if back {
            hi -= 1;
            Some(want[hi].clone())
        } else {
            lo += 1;
            Some(want[lo - 1].clone())
        };
        if got != exp {
            return Err(format!("{what} (back: {back}): got {got:?}, the model says {exp:?}"));
        }
        if exp.is_none() {
            break;
        }
    }
    // Fused.
    if it.next().is_some() || it.next_back().is_some() {
        return Err(format!("{what}: an item behind the end"));
    }
    Ok(())
}

fn check_rs_body(body: &hcl::Body, m: &[S], r: &mut Rng) -> R<()> {
    same!("content", body.0.iter().map(mr_struct).collect::<Vec<_>>(), m.to_vec());
    same!("len", body.iter().len(), m.len());
    let attrs: Vec<S> = m.iter().filter(|s| as_attr(s).is_some()).cloned().collect();
    let blocks: Vec<S> = m.iter().filter(|s| as_block(s).is_some()).cloned().collect();
    both_ends("iter", body.iter(), m, mr_struct, r)?;
    both_ends("&body", body.into_iter(), m, mr_struct, r)?;
    both_ends("attributes", body.attributes(), &attrs, mr_attr, r)?;
    both_ends("blocks", body.blocks(), &blocks, mr_block, r)?;
    let mut c = body.clone();
    both_ends("iter_mut", c.iter_mut(), m, |s| mr_struct(s), r)?;
    both_ends("&mut body", (&mut c).into_iter(), m, |s| mr_struct(s), r)?;
    both_ends("attributes_mut", c.attributes_mut(), &attrs, |s| mr_attr(s), r)?;
    both_ends("blocks_mut", c.blocks_mut(), &blocks, |s| mr_block(s), r)?;
    both_ends("into_iter", c.clone().into_iter(), m, |s| mr_struct(&s), r)?;
    both_ends("into_attributes", c.clone().into_attributes(), &attrs, |s| mr_attr(&s), r)?;
    both_ends("into_blocks", c.clone().into_blocks(), &blocks, |s| mr_block(&s), r)?;
    same!("into_inner", c.into_inner().iter().map(mr_struct).collect::<Vec<_>>(), m.to_vec());
    same!("length of iter_mut", body.clone().iter_mut().len(), m.len());
    same!("length of into_iter", body.clone().into_iter().len(), m.len());
    for (s, w) in body.iter().zip(m) {
        same!("is_attribute", s.is_attribute(), as_attr(w).is_some());
        same!("is_block", s.is_block(), as_block(w).is_some());
        same!("as_attribute", s.as_attribute().map(mr_attr), as_attr(w).map(|_| w.clone()));
        same!("as_block", s.as_block().map(mr_block), as_block(w).map(|_| w.clone()));
        same!("into_attribute", s.clone().into_attribute().as_ref().map(mr_attr), as_attr(w).map(|_| w.clone()));
        same!("into_block", s.clone().into_block().as_ref().map(mr_block), as_block(w).map(|_| w.clone()));
        if let (Some(b), Some(mb)) = (s.as_block(), as_block(w)) {
            same!("identifier", b.identifier(), mb.ident.as_str());
            same!("labels", b.labels().iter().map(|l| l.as_str().to_string()).collect::<Vec<_>>(), mb.labels.iter().map(|l| lstr(l).to_string()).collect::<Vec<_>>());
            same!("body", conv::rs_body(b.body()).unwrap(), mb.body);
        }
    }
    Ok(())
}

fn rs_history(r: &mut Rng, obs: &mut Obs, log: &mut Vec<String>) -> R<()> {
    let mut t = Tags(0);
    let t = &mut t;
    let mut ss = structures(r, t, 6);
    if r.one_in(60) {
        ss.clear();
        for _ in 0..r.range(20, 120) {
            ss.extend(structures(r, t, 2));
        }
        obs.feat("large body");
    }
    let mut m = ss.clone();
    let rs = |s: &[S]| s.iter().map(conv::to_rs_struct).collect::<Vec<_>>();
    let how = r.below(9);
    log.push(format!("start {how} {ss:?}"));
    let mut body: hcl::Body = match how {
        0 => hcl::Body::from(rs(&ss)),
        1 => hcl::Body::from(rs(&ss).as_slice()),
        2 => hcl::Body::from(rs(&ss).as_mut_slice()),
        3 => {
            let n = ss.len();
            hint(r, rs(&ss).into_iter(), n).collect()
        }
        4 => {
            let mut b = hcl::Body::builder();
            for s in &ss {
                b = match (s, r.bool()) {
                    (_, true) => b.add_structure(conv::to_rs_struct(s)),
                    (S::Attr(..), _) => b.add_attribute(r_attr(s)),
                    (S::Block(_), _) => b.add_block(r_block(s)),
                };
            }
            b.build()
        }
        5 => {
            let (a, b): (Vec<S>, Vec<S>) = ss.iter().cloned().partition(|s| as_attr(s).is_some());
            m = a.iter().chain(&b).cloned().collect();
            hcl::Body::builder().add_attributes(a.iter().map(r_attr)).add_blocks(b.iter().map(r_block)).build()
        }
        6 => {
            // Through a block.
            let (a, b): (Vec<S>, Vec<S>) = ss.iter().cloned().partition(|s| as_attr(s).is_some());
            m = a.iter().chain(&b).chain(&ss).cloned().collect();
            let mut k = hcl::Block::builder(hcl::Identifier::unchecked("blk")).add_label("l").add_labels(["m", "n"]);
            k = k.add_attributes(a.iter().map(r_attr)).add_blocks(b.iter().map(r_block));
            let n = r.below(ss.len() + 1);
            for s in &ss[..n] {
                k = match (s, r.bool()) {
                    (_, true) => k.add_structure(conv::to_rs_struct(s)),
                    (S::Attr(..), _) => k.add_attribute(r_attr(s)),
                    (S::Block(_), _) => k.add_block(r_block(s)),
                };
            }
            let b = k.add_structures(rs(&ss[n..])).build();
            same!("labels", b.labels().iter().map(hcl::BlockLabel::as_str).collect::<Vec<_>>(), vec!["l", "m", "n"]);
            same!("identifier", b.identifier(), "blk");
            b.body
        }
        7 => {
            let b = hcl::Block::from((hcl::Identifier::unchecked("blk"), ["l", "m"], rs(&ss)));
            same!("labels", b.labels().iter().map(hcl::BlockLabel::as_str).collect::<Vec<_>>(), vec!["l", "m"]);
            b.body
        }
        _ => {
            let b = hcl::Block::from((hcl::Identifier::unchecked("blk"), rs(&ss)));
            same!("labels", b.labels().len(), 0);
            b.body
        }
    };
    check_rs_body(&body, &m, r)?;
    for _ in 0..r.range(2, 14) {
        match r.below(7) {
            0 => {
                let ss = structures(r, t, 4);
                log.push(format!("extend {ss:?}"));
                let n = ss.len();
                body.extend(hint(r, rs(&ss).into_iter(), n));
                m.extend(ss);
                obs.feat("rs extend");
            }
            1 => {
                log.push("iter_mut".into());
                for (i, s) in body.iter_mut().enumerate() {
                    if let Some(a) = s.as_attribute_mut() {
                        a.expr = hcl::Expression::from(i as u64);
                    } else if let Some(b) = s.as_block_mut() {
                        b.body.0.push(hcl::Structure::Attribute(hcl::Attribute::new(hcl::Identifier::unchecked("i"), i as u64)));
                    }
                }
                for (i, s) in m.iter_mut().enumerate() {
                    match s {
                        S::Attr(_, e) => *e = E::Num(N::U(i as u64)),
                        S::Block(b) => b.body.push(S::Attr("i".into(), E::Num(N::U(i as u64)))),
                    }
                }
                obs.feat("rs iter_mut");
            }
            2 => {
                log.push("attributes_mut/blocks_mut reversed".into());
                for (i, a) in body.attributes_mut().rev().enumerate() {
                    a.expr = hcl::Expression::from(i as u64);
                }
                for (i, b) in body.blocks_mut().rev().enumerate() {
                    b.labels.truncate(i);
                }
                let (mut i, mut j) = (0, 0);
                for s in m.iter_mut().rev() {
                    match s {
                        S::Attr(_, e) => {
                            *e = E::Num(N::U(i));
                            i += 1;
                        }
                        S::Block(b) => {
                            b.labels.truncate(j);
                            j += 1;
                        }
                    }
                }
                obs.feat("rs mut reversed");
            }
            3 => {
                log.push("rebuild reversed".into());
                body = body.into_iter().rev().collect();
                m.reverse();
                obs.feat("rs rebuilt");
            }
            4 => {
                log.push("split".into());
                let a: Vec<hcl::Attribute> = body.clone().into_attributes().collect();
                body = hcl::Body::builder().add_blocks(body.into_blocks()).add_attributes(a).build();
                m.sort_by_key(|s| as_attr(s).is_some());
                obs.feat("rs split");
            }
            5 => {
                let s = structure(r, t);
                log.push(format!("from {s:?}"));
                match &s {
                    S::Attr(..) => body.extend(hcl::Body::from(r_attr(&s))),
                    S::Block(_) => body.extend(hcl::Body::from([r_block(&s)])),
                }
                m.push(s);
            }
            _ => {
                m.truncate(40);
                body.0.truncate(40);
            }
        }
        check_rs_body(&body, &m, r)?;
        obs.feat("rs states compared");
    }
    let mut m2 = m.clone();
    match r.below(3) {
        0 if m2.len() > 1 => {
            let i = r.below(m2.len() - 1);
            m2.swap(i, i + 1);
        }
        1 => {
            m2.pop();
        }
        _ => {}
    }
    same!("equality", body == conv::to_rs_body(&m2), m == m2);
    Ok(())
}

fn history(m: &mut Mon, phase: &str, n: u64, f: fn(&mut Rng, &mut Obs, &mut Vec<String>) -> R<()>) {
    m.cases(phase, n, |obs, rng, _| {
        let mut log = vec![];
        let res = guard(|| f(rng, obs, &mut log)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        let shown = log.join("\n");
        obs.case(&shown, log.len() > 3);
        if let Err(e) = res {
            obs.fail(shown, format!("{phase}: {e}"));
        }
    });
}

/// P08: bodies and blocks are ordered lists of structures.
pub fn p08(m: &mut Mon) {
    m.rule = "a history counts when it has at least three operations".into();
    for (f, n) in [
        ("states compared", 30_000),
        ("duplicate refused", 3000),
        ("insert", 1000),
        ("removed attribute", 500),
        ("removed several blocks", 100),
        ("changed block", 500),
        ("iter_mut", 500),
        ("rebuilt", 500),
        ("equal bodies", 500),
        ("different bodies", 500),
        ("rs states compared", 10_000),
    ] {
        m.require(f, n);
    }
    history(m, "hcl-edit body", m.n(20_000), edit_history);
    history(m, "hcl-rs body", m.n(20_000), rs_history);
}

// --- P09 ---------------------------------------------------------------------------------------

macro_rules! list_history {
    ($name:ident, $what:expr, $List:ty, $Item:ty, $to:expr, $from:expr, $item:expr, $extra:expr, $deco:expr, $meta:expr, $set_meta:expr) => {
        fn $name(r: &mut Rng, obs: &mut Obs, log: &mut Vec<String>) -> R<()> {
            let mut t = Tags(0);
            let t = &mut t;
            let to = $to;
            let from = $from;
            let item = $item;
            let extra = $extra;
            // The decoration of an item and of the list.
            let (deco, meta, set_meta) = ($deco, $meta, $set_meta);
            fn items<X>(r: &mut Rng, t: &mut Tags, n: usize, f: impl Fn(&mut Rng, &mut Tags) -> X) -> Vec<X> {
                (0..r.below(n + 1)).map(|_| f(r, t)).collect()
            }
            let mut m = items(r, t, 5, item);
            let how = r.below(5);
            log.push(format!("{} {how} {m:?}", $what));
            let mut l: $List = match how {
                0 => <$List>::from(m.iter().map(to).collect::<Vec<$Item>>()),
                1 => {
                    let n = m.len();
                    hint(r, m.iter().map(to), n).collect()
                }
                2 => {
                    let mut l = <$List>::new();
                    for x in &m {
                        l.push(to(x));
                    }
                    l
                }
                3 => {
                    let mut l = <$List>::with_capacity(r.below(9));
                    l.extend(m.iter().map(to));
                    l
                }
                _ => {
                    let mut l = <$List>::default();
                    for x in m.iter().rev() {
                        l.insert(0, to(x));
                    }
                    l
                }
            };
            let mut around: String = meta(&l);
            for _ in 0..r.range(3, 24) {
                match r.below(14) {
                    12 => {
                        set_meta(&mut l, r);
                        around = meta(&l);
                        log.push(format!("decoration {around}"));
                        obs.feat("decorated list");
                    }
                    0..=2 => {
                        let x = item(r, t);
                        log.push(format!("push {x:?}"));
                        l.push(to(&x));
                        m.push(x);
                        obs.feat("push");
                    }
                    3 | 4 => {
                        let x = item(r, t);
                        let i = r.below(m.len() + 1);
                        log.push(format!("insert {i} {x:?}"));
                        l.insert(i, to(&x));
                        m.insert(i, x);
                        obs.feat("insert");
                    }
                    5 => {
                        log.push("pop".into());
                        same!("pop", l.pop().as_ref().map(from), m.pop());
                        obs.feat("pop");
                    }
                    6 | 7 if !m.is_empty() => {
                        let i = r.below(m.len());
                        log.push(format!("remove {i}"));
                        same!("remove", from(&l.remove(i)), m.remove(i));
                        obs.feat("remove");
                    }
                    8 => {
                        let i = r.below(m.len() + 2);
                        let x = item(r, t);
                        log.push(format!("get_mut {i} {x:?}"));
                        same!("get_mut", l.get_mut(i).map(|x| from(x)), m.get(i).cloned());
                        if let Some(p) = l.get_mut(i) {
                            *p = to(&x);
                            m[i] = x;
                        }
                        obs.feat("get_mut");
                    }
                    9 => {
                        let x = items(r, t, 4, item);
                        log.push(format!("extend {x:?}"));
                        let n = x.len();
                        l.extend(hint(r, x.iter().map(to), n));
                        m.extend(x);
                        obs.feat("extend");
                    }
                    10 => {
                        log.push("iter_mut".into());
                        let mut i = 0;
                        let from_ref = r.bool();
                        let it: Box<dyn Iterator<Item = &mut $Item>> = if from_ref { Box::new((&mut l).into_iter()) } else { Box::new(l.iter_mut()) };
                        for p in it {
                            let x = item(r, t);
                            if i >= m.len() {
                                return Err("iter_mut: too many items".into());
                            }
                            same!("item of iter_mut", from(p), m[i]);
                            *p = to(&x);
                            m[i] = x;
                            i += 1;
                        }
                        same!("length of iter_mut", i, m.len());
                        obs.feat("iter_mut");
                    }
                    11 => {
                        log.push("reverse".into());
                        let mut v: Vec<$Item> = l.into_iter().collect();
                        v.reverse();
                        l = v.into();
                        m.reverse();
                        around = meta(&l);
                        obs.feat("rebuilt");
                    }
                    _ if r.one_in(4) => {
                        log.push("clear".into());
                        l.clear();
                        m.clear();
                        around = meta(&l);
                        obs.feat("clear");
                    }
                    _ => continue,
                }
                same!("content", l.iter().map(from).collect::<Vec<_>>(), m);
                same!("decoration of the items", l.iter().map(deco).collect::<Vec<String>>(), m.iter().map(|x| deco(&to(x))).collect::<Vec<_>>());
                same!("decoration of the list", meta(&l), around);
                same!("iteration of a reference", (&l).into_iter().map(from).collect::<Vec<_>>(), m);
                same!("len", l.len(), m.len());
                same!("is_empty", l.is_empty(), m.is_empty());
                for i in [0, r.below(m.len() + 1), m.len(), m.len() + 1] {
                    same!("get", l.get(i).map(from), m.get(i).cloned());
                }
                let (lo, hi) = l.iter().size_hint();
                if lo > m.len() || hi.is_some_and(|h| h < m.len()) {
                    return Err(format!("size hint ({lo}, {hi:?}) of {} items", m.len()));
                }
                extra(&mut l, &m)?;
                obs.feat(concat!($what, " states"));
            }
            let mut m2 = m.clone();
            match r.below(4) {
                0 if m2.len() > 1 => {
                    let i = r.below(m2.len() - 1);
                    m2.swap(i, i + 1);
                }
                1 => {
                    m2.pop();
                }
                2 => m2.push(item(r, t)),
                _ => {}
            }
            let l: $List = l.into_iter().collect();
            let l2: $List = m2.iter().map(to).collect();
            same!("equality", l == l2, m == m2);
            same!("inequality", l != l2, m != m2);
            obs.feat(if m == m2 { "equal lists" } else { "different lists" });
            Ok(())
        }
    };
}

fn expr_item(r: &mut Rng, t: &mut Tags) -> E {
    match r.below(4) {
        0 => E::Str(format!("s{}", t.next())),
        1 => E::Arr(vec![E::Num(N::U(t.next())), E::Null]),
        2 => E::Var(format!("v{}", r.below(3))),
        _ => E::Num(N::U(t.next())),
    }
}

fn elem_item(r: &mut Rng, t: &mut Tags) -> T {
    match r.below(3) {
        0 => T::Lit(format!("l{}", r.below(3))),
        1 => T::Interp(E::Num(N::U(t.next())), (r.bool(), r.bool())),
        _ => T::If(Box::new(If {
            cond: E::Bool(r.bool()),
            s1: (r.bool(), false),
            then: vec![T::Lit(format!("t{}", t.next()))],
            els: None,
            s3: (false, r.bool()),
        })),
    }
}

fn m_elem(e: &et::Element) -> T {
    conv::edit_template(&et::Template::from(vec![e.clone()])).remove(0)
}

/// Decorates depending on the item.
fn decorated(e: &E) -> ee::Expression {
    let mut x = conv::to_edit_expr(e);
    match e {
        E::Num(N::U(n)) if n % 2 == 0 => x.decor_mut().set_prefix(format!("/* {n} */")),
        E::Str(s) => x.decor_mut().set_suffix(format!("/* {s} */")),
        _ => {}
    }
    x
}

fn decoration(e: &ee::Expression) -> String {
    let d = e.decor();
    format!("{:?} {:?}", d.prefix(), d.suffix())
}

list_history!(
    array_history,
    "array",
    ee::Array,
    ee::Expression,
    decorated,
    conv::edit_expr,
    expr_item,
    |_: &mut ee::Array, _: &[E]| Ok::<(), String>(()),
    decoration,
    |l: &ee::Array| format!("{:?} {}", l.trailing(), l.trailing_comma()),
    |l: &mut ee::Array, r: &mut Rng| {
        l.set_trailing(format!("/* {} */", r.below(100)));
        l.set_trailing_comma(r.bool());
    }
);
list_history!(
    args_history,
    "arguments",
    ee::FuncArgs,
    ee::Expression,
    decorated,
    conv::edit_expr,
    expr_item,
    |_: &mut ee::FuncArgs, _: &[E]| Ok::<(), String>(()),
    decoration,
    |l: &ee::FuncArgs| format!("{:?} {} {}", l.trailing(), l.trailing_comma(), l.expand_final()),
    |l: &mut ee::FuncArgs, r: &mut Rng| {
        l.set_trailing(format!("/* {} */", r.below(100)));
        l.set_trailing_comma(r.bool());
        l.set_expand_final(r.bool());
    }
);
list_history!(
    template_history,
    "template",
    et::Template,
    et::Element,
    conv::to_edit_elem,
    m_elem,
    elem_item,
    |t: &mut et::Template, m: &[T]| {
        let one = (m.len() == 1).then(|| m[0].clone());
        same!("as_single_element", t.as_single_element().map(m_elem), one);
        same!("as_single_element_mut", t.as_single_element_mut().map(|e| m_elem(e)), one);
        for (e, w) in t.iter().zip(m) {
            same!("is_literal", e.is_literal(), matches!(w, T::Lit(_)));
            same!("is_interpolation", e.is_interpolation(), matches!(w, T::Interp(..)));
            same!("is_directive", e.is_directive(), matches!(w, T::If(_) | T::For(_)));
            same!("as_literal", e.as_literal().is_some(), matches!(w, T::Lit(_)));
            same!("as_interpolation", e.as_interpolation().is_some(), matches!(w, T::Interp(..)));
            same!("as_directive", e.as_directive().is_some(), matches!(w, T::If(_) | T::For(_)));
        }
        // Conversion between the kinds of templates keeps the elements.
        let s: et::StringTemplate = t.clone().into();
        same!("StringTemplate", s.iter().map(m_elem).collect::<Vec<_>>(), m.to_vec());
        same!("StringTemplate into_iter", s.clone().into_iter().map(|e| m_elem(&e)).collect::<Vec<_>>(), m.to_vec());
        same!("StringTemplate from iterator", m.iter().map(conv::to_edit_elem).collect::<et::StringTemplate>() == s, true);
        let back: et::Template = s.into();
        same!("Template from StringTemplate", &back == t, true);
        Ok::<(), String>(())
    },
    |_: &et::Element| String::new(),
    |_: &et::Template| String::new(),
    |_: &mut et::Template, _: &mut Rng| ()
);

/// Object keys: identifiers and expressions which look alike are different keys.
fn okey(r: &mut Rng) -> K {
    match r.below(8) {
        0 | 1 => K::Id((*r.pick(&["a", "b", "c"])).into()),
        2 => K::Ex(E::Str((*r.pick(&["a", "b", "1"])).into())),
        3 => K::Ex(E::Num(N::U(r.below(3) as u64))),
        4 => K::Ex(E::Paren(Box::new(E::Var((*r.pick(&["a", "b"])).into())))),
        5 => K::Ex(E::Bool(r.bool())),
        6 => K::Ex(E::Var((*r.pick(&["a", "b"])).into())),
        _ => K::Ex(E::Null),
    }
}

fn m_okey(k: &ee::ObjectKey) -> K {
    match k {
        ee::ObjectKey::Ident(i) => K::Id(i.as_str().to_string()),
        ee::ObjectKey::Expression(e) => K::Ex(conv::edit_expr(e)),
    }
}

fn m_oval(v: &ee::ObjectValue) -> E {
    conv::edit_expr(v.expr())
}

/// A key that is equal but decorated.
fn e_okey(k: &K, r: &mut Rng) -> ee::ObjectKey {
    let mut k = match k {
        K::Id(i) => ee::ObjectKey::from(Decorated::new(Ident::new(i))),
        K::Ex(e) => ee::ObjectKey::from(conv::to_edit_expr(e)),
    };
    if r.one_in(3) {
        k.decor_mut().set_prefix(format!("/* {} */", r.below(5)));
    }
    k
}

fn e_oval(v: &E, r: &mut Rng) -> ee::ObjectValue {
    let mut x = ee::ObjectValue::new(decorated(v));
    x.set_assignment(*r.pick(&[ee::ObjectValueAssignment::Colon, ee::ObjectValueAssignment::Equals]));
    x.set_terminator(*r.pick(&[ee::ObjectValueTerminator::None, ee::ObjectValueTerminator::Newline, ee::ObjectValueTerminator::Comma]));
    x
}

fn object_history(r: &mut Rng, obs: &mut Obs, log: &mut Vec<String>) -> R<()> {
    let mut t = Tags(0);
    let t = &mut t;
    let mut m: Vec<(K, E)> = vec![];
    // The decoration of the keys, and the operators of the values.
    let mut deco: Vec<(String, String)> = vec![];
    let key_deco = |k: &ee::ObjectKey| format!("{:?}", k.decor().prefix());
    let val_deco = |v: &ee::ObjectValue| format!("{:?} {:?} {}", v.assignment(), v.terminator(), decoration(v.expr()));
    let put = |m: &mut Vec<(K, E)>, deco: &mut Vec<(String, String)>, k: &K, v: &E, p: &(ee::ObjectKey, ee::ObjectValue)| -> Option<E> {
        match m.iter().position(|(x, _)| x == k) {
            Some(i) => {
                // The key stays with what is around it.
                deco[i].1 = val_deco(&p.1);
                Some(std::mem::replace(&mut m[i].1, v.clone()))
            }
            None => {
                m.push((k.clone(), v.clone()));
                deco.push((key_deco(&p.0), val_deco(&p.1)));
                None
            }
        }
    };
    let start: Vec<(K, E)> = (0..r.below(5)).map(|_| (okey(r), expr_item(r, t))).collect();
    log.push(format!("object {start:?}"));
    let pairs = |ps: &[(K, E)], r: &mut Rng| -> Vec<(ee::ObjectKey, ee::ObjectValue)> {
        ps.iter().map(|(k, v)| (e_okey(k, r), e_oval(v, r))).collect()
    };
    let ps = pairs(&start, r);
    for ((k, v), p) in start.iter().zip(&ps) {
        put(&mut m, &mut deco, k, v, p);
    }
    let mut o: ee::Object = match r.below(4) {
        0 => ps.into_iter().collect(),
        1 => {
            let mut o = ee::Object::with_capacity(3);
            o.extend(ps);
            o
        }
        2 => {
            let n = ps.len();
            hint(r, ps.into_iter(), n).collect()
        }
        _ => {
            let mut o = ee::Object::new();
            for (k, v) in ps {
                o.insert(k, v);
            }
            o
        }
    };
    let mut trailing = o.trailing().clone();
    for _ in 0..r.range(3, 24) {
        let k = okey(r);
        let ek = e_okey(&k, r);
        match r.below(11) {
            10 => {
                o.set_trailing(format!("/* {} */", r.below(100)));
                trailing = o.trailing().clone();
                log.push(format!("set_trailing {trailing:?}"));
                obs.feat("decorated object");
            }
            0..=3 => {
                let v = expr_item(r, t);
                log.push(format!("insert {k:?} {v:?}"));
                let p = (ek, e_oval(&v, r));
                let want = put(&mut m, &mut deco, &k, &v, &p);
                same!("insert", o.insert(p.0, p.1).as_ref().map(m_oval), want);
                obs.feat(if want.is_some() { "replaced" } else { "inserted" });
            }
            4 => {
                log.push(format!("remove {k:?}"));
                let want = m.iter().position(|(x, _)| *x == k).map(|i| {
                    deco.remove(i);
                    m.remove(i).1
                });
                same!("remove", o.remove(&ek).as_ref().map(m_oval), want);
                obs.feat(if want.is_some() { "removed item" } else { "removed nothing" });
            }
            5 => {
                log.push(format!("remove_entry {k:?}"));
                let want = m.iter().position(|(x, _)| *x == k).map(|i| (m.remove(i), deco.remove(i)));
                same!("remove_entry", o.remove_entry(&ek).map(|(k, v)| ((m_okey(&k), m_oval(&v)), (key_deco(&k), val_deco(&v)))), want);
                obs.feat(if want.is_some() { "removed item" } else { "removed nothing" });
            }
            6 => {
                let v = expr_item(r, t);
                log.push(format!("get_mut {k:?} {v:?}"));
                let at = m.iter().position(|(x, _)| *x == k);
                let slot = at.map(|i| (&mut m[i], &mut deco[i]));
                let got = if r.bool() {
                    o.get_mut(&ek)
                } else {
                    o.get_key_value_mut(&ek).map(|(key, v)| {
                        assert_eq!(m_okey(key.get()), k, "key of get_key_value_mut");
                        v
                    })
                };
                match (got, slot) {
                    (Some(p), Some(((_, x), d))) => {
                        same!("get_mut", m_oval(p), x.clone());
                        *p.expr_mut() = conv::to_edit_expr(&v);
                        *x = v;
                        d.1 = val_deco(p);
                        obs.feat("changed item");
                    }
                    (None, None) => {}
                    (p, _) => return Err(format!("get_mut found: {}", p.is_some())),
                }
            }
            7 => {
                log.push("iter_mut".into());
                let mut i = 0;
                for (key, p) in &mut o {
                    let Some((wk, x)) = m.get_mut(i) else { return Err("iter_mut: too many".into()) };
                    same!("key of iter_mut", m_okey(key.get()), wk.clone());
                    same!("value of iter_mut", m_oval(p), x.clone());
                    let v = expr_item(r, t);
                    *p.expr_mut() = conv::to_edit_expr(&v);
                    *x = v;
                    deco[i].1 = val_deco(p);
                    i += 1;
                }
                same!("length of iter_mut", i, m.len());
                same!("length of iter_mut", o.iter_mut().count(), m.len());
                obs.feat("object iter_mut");
            }
            8 => {
                let ps: Vec<(K, E)> = (0..r.below(4)).map(|_| (okey(r), expr_item(r, t))).collect();
                log.push(format!("extend {ps:?}"));
                let es = pairs(&ps, r);
                for ((k, v), p) in ps.iter().zip(&es) {
                    put(&mut m, &mut deco, k, v, p);
                }
                let ps = es;
                let n = ps.len();
                o.extend(hint(r, ps.into_iter(), n));
                obs.feat("object extend");
            }
            _ => {
                if r.one_in(5) {
                    log.push("clear".into());
                    o.clear();
                    m.clear();
                    deco.clear();
                    trailing = o.trailing().clone();
                } else {
                    log.push("reverse".into());
                    let mut v: Vec<_> = o.into_iter().collect();
                    v.reverse();
                    o = v.into_iter().collect();
                    m.reverse();
                    deco.reverse();
                    trailing = o.trailing().clone();
                }
            }
        }
        same!("decoration", o.iter().map(|(k, v)| (key_deco(k), val_deco(v))).collect::<Vec<_>>(), deco);
        same!("trailing decoration", o.trailing(), &trailing);
        same!("content", o.iter().map(|(k, v)| (m_okey(k), m_oval(v))).collect::<Vec<_>>(), m);
        same!("iteration of a reference", (&o).into_iter().map(|(k, v)| (m_okey(k), m_oval(v))).collect::<Vec<_>>(), m);
        same!("len", o.len(), m.len());
        same!("is_empty", o.is_empty(), m.is_empty());
        for _ in 0..3 {
            let k = okey(r);
            let ek = e_okey(&k, r);
            let want = m.iter().find(|(x, _)| *x == k);
            same!("contains_key", o.contains_key(&ek), want.is_some());
            same!("get", o.get(&ek).map(m_oval), want.map(|x| x.1.clone()));
            same!("get_key_value", o.get_key_value(&ek).map(|(k, v)| (m_okey(k), m_oval(v))), want.cloned());
            same!("is_ident", ek.is_ident(), matches!(k, K::Id(_)));
            same!("is_expr", ek.is_expr(), matches!(k, K::Ex(_)));
            same!("as_ident", ek.as_ident().map(|i| i.to_string()), if let K::Id(i) = &k { Some(i.clone()) } else { None });
            same!("as_expr", ek.as_expr().map(conv::edit_expr), if let K::Ex(e) = &k { Some(e.clone()) } else { None });
        }
        obs.feat("object states");
    }
    // Objects are equal when they have equal values for equal keys; the order does not matter
    // (the documented behaviour of the underlying map).
    let mut m2 = m.clone();
    match r.below(4) {
        0 => {
            m2.pop();
        }
        1 if !m2.is_empty() => {
            let i = r.below(m2.len());
            m2[i].1 = expr_item(r, t);
        }
        _ => {}
    }
    let mut o2: ee::Object = m2.iter().map(|(k, v)| (e_okey(k, r), ee::ObjectValue::new(conv::to_edit_expr(v)))).collect();
    // The rest counts as well.
    let mut o = o.into_iter().map(|(k, v)| (k, ee::ObjectValue::new(v.into_expr()))).collect::<ee::Object>();
    o.set_trailing(trailing.clone());
    o2.set_trailing(trailing);
    same!("equality", o == o2, m == m2);
    obs.feat(if m == m2 { "equal objects" } else { "different objects" });
    Ok(())
}

/// hcl-rs's builders of templates, traversals, calls, loops and directives.
fn builders(r: &mut Rng, obs: &mut Obs, log: &mut Vec<String>) -> R<()> {
    use hcl::expr as re;
    use hcl::template as rt;
    let mut t = Tags(0);
    let t = &mut t;
    let id = |s: &str| hcl::Identifier::unchecked(s);
    let strip = |(a, b): Strip| match (a, b) {
        (false, false) => rt::Strip::None,
        (true, false) => rt::Strip::Start,
        (false, true) => rt::Strip::End,
        (true, true) => rt::Strip::Both,
    };
    // One by one, since the conversion merges literals.
    let elems = |t: &rt::Template| -> R<Vec<T>> {
        let mut v = vec![];
        for e in t.elements() {
            v.extend(conv::rs_template(&rt::Template::new().add_element(e.clone()))?);
        }
        Ok(v)
    };
    for _ in 0..r.range(1, 4) {
        match r.below(6) {
            0 => {
                let m: Vec<T> = (0..r.below(6)).map(|_| elem_item(r, t)).collect();
                log.push(format!("template {m:?}"));
                let mut b = rt::Template::new();
                for x in &m {
                    b = match x {
                        T::Lit(s) if r.bool() => b.add_literal(s.clone()),
                        T::Interp(e, s) if r.bool() => b.add_interpolation(rt::Interpolation::new(conv::to_rs_expr(e)).with_strip(strip(*s))),
                        _ => {
                            let e = conv::to_rs_template(std::slice::from_ref(x)).elements()[0].clone();
                            match e {
                                rt::Element::Directive(d) if r.bool() => b.add_directive(*d),
                                e => b.add_element(e),
                            }
                        }
                    };
                }
                same!("template", elems(&b)?, m);
                same!("elements", b.elements().len(), m.len());
                let c: rt::Template = b.elements().iter().cloned().collect();
                same!("template from iterator", c, b);
                for x in b.elements_mut() {
                    if let rt::Element::Literal(s) = x {
                        s.push('!');
                    }
                }
                let m2: Vec<T> = m
                    .into_iter()
                    .map(|x| match x {
                        T::Lit(s) => T::Lit(s + "!"),
                        x => x,
                    })
                    .collect();
                same!("elements_mut", elems(&b)?, m2);
                obs.feat("built template");
            }
            1 => {
                let mut ops = vec![];
                let mut b = re::Traversal::builder(re::Variable::unchecked("v"));
                for _ in 0..r.below(6) {
                    match r.below(4) {
                        0 => {
                            let k = *r.pick(&KEYS);
                            b = b.attr(id(k));
                            ops.push(Op::Attr(k.into()));
                        }
                        1 => {
                            b = b.attr_splat();
                            ops.push(Op::AttrSplat);
                        }
                        2 => {
                            b = b.full_splat();
                            ops.push(Op::FullSplat);
                        }
                        _ => {
                            let e = expr_item(r, t);
                            b = b.index(conv::to_rs_expr(&e));
                            ops.push(Op::Idx(e));
                        }
                    }
                }
                log.push(format!("traversal {ops:?}"));
                let tr = b.build();
                let again = re::Traversal::new(tr.expr.clone(), tr.operators.clone());
                same!("Traversal::new", again, tr);
                same!("traversal", conv::rs_expr(&tr.into())?, E::Trav(Box::new(E::Var("v".into())), ops));
                obs.feat("built traversal");
            }
            2 => {
                let args: Vec<E> = (0..r.below(5)).map(|_| expr_item(r, t)).collect();
                let ns: Vec<String> = (0..r.below(3)).map(|i| KEYS[i].to_string()).collect();
                log.push(format!("call {ns:?} {args:?}"));
                let name = re::FuncName::new(id("f")).with_namespace(ns.iter().map(|s| id(s)));
                same!("is_namespaced", name.is_namespaced(), !ns.is_empty());
                let mut b = re::FuncCall::builder(name);
                let mut expand = false;
                if r.bool() {
                    expand = r.bool();
                    b = b.expand_final(expand);
                }
                for a in &args {
                    b = b.arg(conv::to_rs_expr(a));
                }
                if r.bool() {
                    expand = r.bool();
                    b = b.expand_final(expand);
                }
                same!(
                    "call",
                    conv::rs_expr(&b.build().into())?,
                    E::Call(Box::new(Call {
                        ns,
                        name: "f".into(),
                        args,
                        expand,
                    }))
                );
                obs.feat("built call");
            }
            3 => {
                let (c, v, k, d) = (expr_item(r, t), expr_item(r, t), expr_item(r, t), expr_item(r, t));
                let mut b = re::ForExpr::new(id("v"), conv::to_rs_expr(&c), conv::to_rs_expr(&v));
                let mut m = For {
                    key: None,
                    val: "v".into(),
                    coll: c,
                    kexpr: None,
                    vexpr: v,
                    group: false,
                    cond: None,
                };
                let mut with = [0, 1, 2, 3];
                r.shuffle(&mut with);
                for w in &with[..r.below(5)] {
                    match w {
                        0 => {
                            b = b.with_key_var(id("k"));
                            m.key = Some("k".into());
                        }
                        1 => {
                            b = b.with_key_expr(conv::to_rs_expr(&k));
                            m.kexpr = Some(k.clone());
                        }
                        2 => {
                            b = b.with_cond_expr(conv::to_rs_expr(&d));
                            m.cond = Some(d.clone());
                        }
                        _ => {
                            b = b.with_grouping(true);
                            m.group = true;
                        }
                    }
                }
                log.push(format!("for {m:?}"));
                same!("for expression", conv::rs_expr(&b.into())?, E::For(Box::new(m)));
                obs.feat("built for expression");
            }
            4 => {
                let st = |r: &mut Rng| (r.bool(), r.bool());
                let (c, a, b, s1, s2, s3) = (expr_item(r, t), vec![T::Lit("a".into())], vec![elem_item(r, t)], st(r), st(r), st(r));
                let mut d = rt::IfDirective::new(conv::to_rs_expr(&c), conv::to_rs_template(&a))
                    .with_if_strip(strip(s1))
                    .with_endif_strip(strip(s3));
                let els = r.bool();
                if els {
                    d = d.with_false_template(conv::to_rs_template(&b)).with_else_strip(strip(s2));
                }
                log.push(format!("if {c:?} {a:?} {b:?} {s1:?} {s2:?} {s3:?}"));
                let m = T::If(Box::new(If {
                    cond: c,
                    s1,
                    then: a,
                    els: els.then_some((s2, b)),
                    s3,
                }));
                same!("if directive", conv::rs_template(&rt::Template::new().add_directive(d))?, vec![m]);
                obs.feat("built if directive");
            }
            _ => {
                let st = |r: &mut Rng| (r.bool(), r.bool());
                let (c, a, s1, s2) = (expr_item(r, t), vec![elem_item(r, t)], st(r), st(r));
                let mut d = rt::ForDirective::new(id("v"), conv::to_rs_expr(&c), conv::to_rs_template(&a))
                    .with_for_strip(strip(s1))
                    .with_endfor_strip(strip(s2));
                let key = r.bool();
                if key {
                    d = d.with_key_var(id("k"));
                }
                log.push(format!("for {c:?} {a:?} {s1:?} {s2:?}"));
                let m = T::For(Box::new(ForD {
                    key: key.then(|| "k".into()),
                    val: "v".into(),
                    coll: c,
                    s1,
                    body: a,
                    s2,
                }));
                same!("for directive", conv::rs_template(&rt::Template::new().add_directive(d))?, vec![m]);
                obs.feat("built for directive");
            }
        }
    }
    Ok(())
}

/// P09: arrays, arguments and templates are lists, objects are maps in insertion order.
pub fn p09(m: &mut Mon) {
    m.rule = "a history counts when it has at least three operations".into();
    for (f, n) in [
        ("array states", 20_000),
        ("arguments states", 20_000),
        ("template states", 20_000),
        ("object states", 20_000),
        ("decorated list", 5000),
        ("decorated object", 5000),
        ("replaced", 1000),
        ("removed item", 1000),
        ("changed item", 500),
        ("different lists", 1000),
        ("equal lists", 1000),
        ("different objects", 500),
        ("equal objects", 500),
        ("built template", 500),
        ("built traversal", 500),
        ("built call", 500),
        ("built for expression", 500),
        ("built if directive", 500),
        ("built for directive", 500),
    ] {
        m.require(f, n);
    }
    history(m, "array", m.n(8000), array_history);
    history(m, "arguments", m.n(8000), args_history);
    history(m, "template", m.n(8000), template_history);
    history(m, "object", m.n(12_000), object_history);
    history(m, "builders", m.n(8000), builders);
}
