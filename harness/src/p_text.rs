//! P21: identifiers, literals and escape sequences.

use crate::conv;
use crate::gen::{guard_delim, G};
use crate::idtable::RUNS;
use crate::model::*;
use crate::p_parse::first_diff;
use crate::rng::Rng;
use crate::run::{guard, Mon, Obs};
use hcl::eval::{Context, Evaluate};
use hcl::{Identifier, Value};
use hcl_edit::Ident;
use hcl_primitives::ident::{is_id_continue, is_id_start, is_ident};
use hcl_primitives::template::{escape_markers, unescape_markers};
use hcl_primitives::InternalString;
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

fn is<X: PartialEq + Debug>(obs: &mut Obs, src: &str, what: &str, got: X, want: X) {
    if got != want {
        let d = first_diff(&format!("{got:?}"), &format!("{want:?}"));
        obs.fail(src, format!("{what}: {d}"));
    }
}

// --- the oracle ---------------------------------------------------------------------------------

/// 0: no identifier character, 1: continues an identifier, 2: starts one, too, 3: unknown.
fn class(c: char) -> u8 {
    let i = RUNS.partition_point(|(first, _)| *first <= c as u32);
    RUNS[i - 1].1
}

/// Whether the text is an identifier, `None` if that depends on characters unknown to the table.
fn valid(s: &str) -> Option<bool> {
    let k: Vec<u8> = s.chars().map(class).collect();
    if k.contains(&3) {
        return None;
    }
    Some(k.first() == Some(&2) && k.iter().all(|k| *k > 0))
}

fn sanitized(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        match class(c) {
            0 => out.push('_'),
            1 if i == 0 => {
                out.push('_');
                out.push(c);
            }
            _ => out.push(c),
        }
    }
    if out.is_empty() {
        out.push('_');
    }
    out
}

fn escaped(s: &str) -> String {
    s.replace("${", "$${").replace("%{", "%%{")
}

fn unescaped(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if rest.starts_with("$${") || rest.starts_with("%%{") {
            out.push(c);
            out.push('{');
            rest = &rest[3..];
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

/// A spelling of the text as quoted string, with random escape sequences.
fn quoted(r: &mut Rng, s: &str) -> String {
    let mut out = String::from("\"");
    let cs: Vec<char> = s.chars().collect();
    let mut brace = false;
    for (i, &c) in cs.iter().enumerate() {
        if std::mem::take(&mut brace) {
            out.push(c);
            continue;
        }
        let marker = (c == '$' || c == '%') && cs.get(i + 1) == Some(&'{');
        let simple = match c {
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            _ => None,
        };
        let must = c == '"' || c == '\\';
        match r.below(if must { 6 } else { 12 }) {
            0 if (c as u32) < 0x10000 => {
                let h = format!("{:04x}", c as u32);
                out.push_str("\\u");
                out.push_str(&mixed(r, &h));
            }
            1 => {
                let h = format!("{:08x}", c as u32);
                out.push_str("\\U");
                out.push_str(&mixed(r, &h));
            }
            2..=5 if simple.is_some() => out.push_str(simple.unwrap()),
            _ if must => out.push_str(simple.unwrap()),
            _ if marker => {
                out.push(c);
                out.push(c);
                brace = true;
            }
            _ => out.push(c),
        }
    }
    out.push('"');
    out
}

fn mixed(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect()
}

// --- literals -----------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Doc {
    a: String,
    m: BTreeMap<String, String>,
    o: Option<Vec<String>>,
}

/// A document with the text at every place for literals.
fn document(s: &str, edit: bool) -> B {
    let st = || E::Str(s.to_string());
    let x = || E::Var("x".into());
    let no = (false, false);
    // hcl-rs has no way to write a literal `$` in front of an interpolation (see the finding of P12).
    let mut t = s.to_string();
    if !edit && t.ends_with(['$', '%']) {
        t.push(' ');
    }
    let lit = vec![T::Lit(t.clone()), T::Interp(x(), no)];
    let inner = vec![
        T::If(Box::new(If {
            cond: x(),
            s1: no,
            then: vec![T::Lit(t.clone())],
            els: Some((no, vec![T::Lit(format!("{t} "))])),
            s3: no,
        })),
        T::Lit(t.clone()),
        T::For(Box::new(ForD {
            key: None,
            val: "x".into(),
            coll: st(),
            s1: no,
            body: vec![T::Lit(t.clone()), T::Interp(st(), no)],
            s2: no,
        })),
        T::Lit(t.clone()),
    ];
    let mut b = vec![
        S::Attr("a".into(), st()),
        S::Attr("b".into(), E::Arr(vec![st(), E::Paren(Box::new(st()))])),
        S::Attr("c".into(), E::Obj(vec![(K::Ex(st()), st()), (K::Ex(E::Str(format!("{s}2"))), E::Null)])),
        S::Attr("d".into(), E::Trav(Box::new(x()), vec![Op::Idx(st()), Op::Attr("y".into())])),
        S::Attr(
            "e".into(),
            E::Call(Box::new(Call { ns: vec![], name: "f".into(), args: vec![st(), st()], expand: false })),
        ),
        S::Attr("f".into(), E::Bin(Box::new(st()), BinOp::Eq, Box::new(st()))),
        S::Attr("g".into(), E::Cond(Box::new((st(), st(), st())))),
        S::Block(Block {
            ident: "h".into(),
            labels: vec![L::Str(s.to_string()), L::Id("l".into()), L::Str(s.to_string())],
            body: vec![S::Attr("i".into(), st())],
        }),
    ];
    if !s.is_empty() {
        b.push(S::Attr("j".into(), E::Tmpl(lit)));
        b.push(S::Attr("k".into(), E::Tmpl(inner)));
    }
    if !s.contains('\r') {
        // Every text is possible on the lines of a heredoc, except for the delimiter.
        let body = guard_delim(vec![T::Lit(format!("{s}\n"))], "EOT", true);
        b.push(S::Attr(
            "l".into(),
            E::Heredoc(Box::new(H { delim: "EOT".into(), strip: false, indent: None, body })),
        ));
    }
    b
}

fn literal(obs: &mut Obs, s: &str, r: &mut Rng) {
    obs.case(s, !s.is_empty());
    let src = &format!("{s:?}");
    if s.contains("${") || s.contains("%{") {
        obs.feat("literal with start marker");
    }
    if s.contains("$${") || s.contains("%%{") {
        obs.feat("literal with escaped marker");
    }
    if s.chars().any(char::is_control) {
        obs.feat("literal with control character");
    }
    if s.contains('\\') || s.contains('"') {
        obs.feat("literal with quote or backslash");
    }
    if s.chars().any(|c| c as u32 > 0xffff) {
        obs.feat("literal beyond the basic plane");
    }

    // hcl-edit
    let want = nb(&document(s, true), Nf::Keep);
    let text = conv::to_edit_body(&want).to_string();
    match hcl_edit::parser::parse_body(&text) {
        Ok(b) => is(obs, src, &format!("printed by hcl-edit as\n{text}\nand parsed"), nb(&conv::edit_body(&b), Nf::Keep), want),
        Err(e) => obs.fail(src, format!("printed by hcl-edit as\n{text}\nwhich cannot be parsed: {e}")),
    }
    match hcl_edit::expr::Expression::from(s).to_string().parse::<hcl_edit::expr::Expression>() {
        Ok(e) => is(obs, src, "expression of hcl-edit", e.as_str(), Some(s)),
        Err(e) => obs.fail(src, format!("the expression of hcl-edit cannot be parsed: {e}")),
    }

    // hcl-rs
    let want = nb(&document(s, false), Nf::Rs);
    let rs = conv::to_rs_body(&want);
    let texts = [
        ("formatted", hcl::format::to_string(&rs)),
        ("serialized", hcl::to_string(&rs)),
        ("formatted compactly", {
            let mut buf = vec![];
            let mut f = hcl::format::Formatter::builder().compact(true).prefer_ident_keys(r.bool()).build(&mut buf);
            let ok = hcl::format::Format::format(&rs, &mut f);
            ok.map(|()| String::from_utf8_lossy(&buf).into_owned())
        }),
    ];
    for (how, text) in texts {
        let text = match text {
            Ok(t) => t,
            Err(e) => {
                obs.fail(src, format!("{how}: {e}"));
                continue;
            }
        };
        match hcl::parse(&text) {
            Ok(b) => match conv::rs_body(&b) {
                Ok(b) => {
                    // With `prefer_ident_keys`, only the spelling of keys changes.
                    let b = ident_keys(nb(&b, Nf::Rs), s);
                    is(obs, src, &format!("{how} by hcl-rs as\n{text}\nand parsed"), b, want.clone());
                }
                Err(e) => obs.fail(src, format!("{how} by hcl-rs as\n{text}\nwith the broken template {e}")),
            },
            Err(e) => obs.fail(src, format!("{how} by hcl-rs as\n{text}\nwhich cannot be parsed: {e}")),
        }
    }
    is(
        obs,
        src,
        "expression of hcl-rs",
        hcl::Expression::from(s).to_string().parse::<hcl::Expression>().ok(),
        Some(hcl::Expression::String(s.to_string())),
    );
    let v = Value::from_iter([("k", Value::from(s))]);
    let text = hcl::to_string(&v).unwrap_or_default();
    is(obs, src, "value", hcl::from_str::<Value>(&text).ok(), Some(v));
    let doc = Doc {
        a: s.to_string(),
        m: [(s.to_string(), s.to_string())].into(),
        o: Some(vec![s.to_string(), String::new()]),
    };
    match hcl::to_string(&doc) {
        Ok(t) => is(obs, src, &format!("data as\n{t}\nand back"), hcl::from_str::<Doc>(&t).ok(), Some(doc)),
        Err(e) => obs.fail(src, format!("the data cannot be serialized: {e}")),
    }

    // Templates.
    let lit = hcl::Template::new().add_literal(s);
    is(obs, src, "template with the literal evaluated", lit.evaluate(&Context::new()).ok(), Some(s.to_string()));
    let want = if s.is_empty() { hcl::Template::new() } else { lit.clone() };
    is(obs, src, "template with the literal parsed", lit.to_string().parse().ok(), Some(want.clone()));
    let te = hcl::expr::TemplateExpr::from(lit.to_string());
    is(obs, src, "template of the expression", hcl::Template::from_expr(&te).ok(), Some(want.clone()));
    let te = hcl::expr::TemplateExpr::from(escaped(s));
    is(obs, src, "template of the escaped text", hcl::Template::from_expr(&te).ok(), Some(want));
    let mut t = hcl_edit::template::Template::new();
    if !s.is_empty() {
        t.push(hcl_edit::template::Element::from(s));
    }
    is(obs, src, "template of hcl-edit parsed", t.to_string().parse::<hcl_edit::template::Template>().ok(), Some(t));

    // Any spelling.
    let q = quoted(r, s);
    match q.parse::<hcl_edit::expr::Expression>() {
        Ok(e) => {
            is(obs, src, &format!("spelled {q}, parsed by hcl-edit"), e.as_str(), Some(s));
        }
        Err(e) => obs.fail(src, format!("spelled {q}, refused: {e}")),
    }
    let got = q.parse::<hcl::Expression>().ok();
    is(obs, src, &format!("spelled {q}, parsed by hcl-rs"), got, Some(hcl::Expression::String(s.to_string())));
    let got = hcl::from_str::<Doc>(&format!("a = {q}\nm = {{ {q} = {q} }}\no = [{q}, \"\"]"));
    is(obs, src, &format!("spelled {q}, read"), got.ok(), Some(doc_of(s)));
}

fn doc_of(s: &str) -> Doc {
    Doc {
        a: s.to_string(),
        m: [(s.to_string(), s.to_string())].into(),
        o: Some(vec![s.to_string(), String::new()]),
    }
}

/// The keys of the only object as strings again.
fn ident_keys(mut b: B, s: &str) -> B {
    for st in &mut b {
        if let S::Attr(_, E::Obj(o)) = st {
            for (k, _) in o {
                if let K::Id(i) = k {
                    if i == s || *i == format!("{s}2") {
                        *k = K::Ex(E::Str(i.clone()));
                    }
                }
            }
        }
    }
    b
}

fn markers(obs: &mut Obs, s: &str) {
    let src = &format!("{s:?}");
    let e = escape_markers(s);
    is(obs, src, "escaped", &*e, &*escaped(s));
    is(obs, src, "escaped and unescaped", &*unescape_markers(&e), s);
    is(obs, src, "unescaped", &*unescape_markers(s), &*unescaped(s));
}

const ALPHABET: [&str; 11] = ["$", "%", "{", "}", "\"", "\\", "\n", "n", "~", "u", "é"];

fn nth(mut i: u64, alphabet: &[&str]) -> String {
    // All strings, ordered by length.
    let k = alphabet.len() as u64;
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[(i % k) as usize]);
        i /= k;
    }
    s
}

/// How many strings there are with up to `len` symbols.
fn up_to(len: u32, k: u64) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

fn any_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(12) {
        match r.below(8) {
            0..=2 => s.push_str(r.pick(&ALPHABET)),
            3 => s.push(
                char::from_u32((r.u64() % 0x11_0000) as u32).unwrap_or('\u{fffd}'),
            ),
            4 => s.push((r.below(128) as u8) as char),
            5 => s.push_str(r.pick(&["${x}", "%{ if x }", "$${", "%%{", "$$$", "EOT", "\\u0041", "\\n", "//", "/*"])),
            _ => {
                let t = G::new(r, Default::default()).text(2);
                s.push_str(&t);
            }
        }
    }
    s
}

/// A broken escape sequence is refused by all parsers.
fn broken(obs: &mut Obs, r: &mut Rng) {
    let esc = match r.below(7) {
        0 => {
            let c = loop {
                let c = char::from_u32(r.below(0x180) as u32).unwrap();
                if !"nrt\\\"/bfuU".contains(c) {
                    break c;
                }
            };
            format!("\\{c}")
        }
        1 => {
            let n = r.below(4);
            format!("\\u{}", (0..n).map(|_| "09afAF".as_bytes()[r.below(6)] as char).collect::<String>())
        }
        2 => {
            let n = r.below(8);
            format!("\\U{}", (0..n).map(|_| "09afAF".as_bytes()[r.below(6)] as char).collect::<String>())
        }
        3 => format!("\\u{:04x}", 0xd800 + r.below(0x800)),
        4 => format!("\\U{:08X}", 0xd800 + r.below(0x800)),
        5 => format!("\\U{:08x}", 0x11_0000 + r.u64() as u32 as u64 % 0xfff0_0000),
        _ => format!("\\u{:03x}{}", r.below(0x1000), r.pick(&["g", "G", " ", "-", "é", "\"", "{"])),
    };
    // What follows must not complete the sequence.
    let (pre, post) = (*r.pick(&["", "a", "${x}", "\\\\", "$${"]), *r.pick(&["", " b", "${x}", "\\n", "z"]));
    let q = format!("\"{pre}{esc}{post}\"");
    obs.case(&q, true);
    let src = &q;
    is(obs, src, "accepted as expression", q.parse::<hcl_edit::expr::Expression>().is_ok(), false);
    is(obs, src, "accepted by hcl-rs", q.parse::<hcl::Expression>().is_ok(), false);
    is(obs, src, "accepted as label", format!("a {q} {{}}\n").parse::<hcl_edit::structure::Body>().is_ok(), false);
    is(obs, src, "accepted as key", format!("a = {{ {q} = 1 }}\n").parse::<hcl_edit::structure::Body>().is_ok(), false);
    is(obs, src, "accepted as document", hcl::parse(&format!("a = {q}\n")).is_ok(), false);
    obs.feat("broken escape sequence");
}

// --- identifiers --------------------------------------------------------------------------------

fn character(obs: &mut Obs, c: char) {
    let k = class(c);
    let src = &format!("{c:?} {:x}", c as u32);
    let (start, cont) = (is_id_start(c), is_id_continue(c));
    obs.feat(match k {
        0 => "character outside of identifiers",
        1 => "character continuing identifiers",
        2 => "character starting identifiers",
        _ => "character unknown to the table",
    });
    if k != 3 {
        is(obs, src, "starts an identifier", start, k == 2);
        is(obs, src, "continues an identifier", cont, k >= 1);
    }
    if start && !cont {
        obs.fail(src, "starts but does not continue identifiers");
    }
    let key = |text: &str| -> Option<String> {
        let b = hcl_edit::parser::parse_body(text).ok()?;
        let k = b.attributes().next().map(|a| a.key.as_str().to_string());
        k
    };
    let one = c.to_string();
    is(obs, src, "is parsed as key", key(&format!("{c}=1\n")) == Some(one.clone()), start);
    let two = format!("a{c}");
    is(obs, src, "is parsed at the end of a key", key(&format!("a{c}=1\n")) == Some(two.clone()), cont);
    is(obs, src, "is an identifier", is_ident(&one), start);
    is(obs, src, "is an identifier behind a letter", is_ident(&two), cont);
    let s = Ident::new_sanitized(&one);
    let want = if start {
        one.clone()
    } else if cont {
        format!("_{c}")
    } else {
        "_".into()
    };
    is(obs, src, "sanitized", s.as_str(), &*want);
}

fn identifier(obs: &mut Obs, s: &str) {
    obs.case(s, !s.is_empty());
    let src = &format!("{s:?}");
    let Some(ok) = valid(s) else {
        obs.feat("identifier with unknown character");
        return;
    };
    obs.feat(if ok { "valid identifier" } else { "invalid identifier" });
    is(obs, src, "is_ident", is_ident(s), ok);
    let want = ok.then(|| s.to_string());
    let st = |r: Option<Ident>| r.map(|i| i.as_str().to_string());
    is(obs, src, "Ident::new", st(guard(|| Ident::new(s)).ok()), want.clone());
    is(obs, src, "Ident::try_new", st(Ident::try_new(s).ok()), want.clone());
    is(obs, src, "Ident::from_str", st(s.parse().ok()), want.clone());
    is(obs, src, "Ident::try_from(&str)", st(Ident::try_from(s).ok()), want.clone());
    is(obs, src, "Ident::try_from(String)", st(Ident::try_from(s.to_string()).ok()), want.clone());
    is(obs, src, "Ident::try_from(Cow)", st(Ident::try_from(Cow::Borrowed(s)).ok()), want.clone());
    is(obs, src, "Ident::try_from(InternalString)", st(Ident::try_from(InternalString::from(s)).ok()), want.clone());
    let d: Result<Ident, serde::de::value::Error> = Ident::deserialize(s.into_deserializer());
    is(obs, src, "Ident::deserialize", st(d.ok()), want.clone());
    let d: Result<Identifier, serde::de::value::Error> = Identifier::deserialize(s.into_deserializer());
    is(obs, src, "Identifier::deserialize", d.ok().map(|i| i.as_str().to_string()), want.clone());
    is(obs, src, "Identifier::new", Identifier::new(s).ok().map(|i| i.into_inner()), want.clone());
    is(obs, src, "Variable::new", hcl::expr::Variable::new(s).ok().map(|i| i.as_str().to_string()), want.clone());

    let clean = sanitized(s);
    is(obs, src, "the sanitized text is an identifier", valid(&clean), Some(true));
    is(obs, src, "sanitized", Ident::new_sanitized(s).as_str(), &*clean);
    is(obs, src, "sanitized twice", Ident::new_sanitized(&clean).as_str(), &*clean);
    is(obs, src, "Identifier::sanitized", Identifier::sanitized(s).as_str(), &*clean);
    is(obs, src, "Identifier::from(&str)", Identifier::from(s).as_str(), &*clean);
    is(obs, src, "Identifier::from(String)", Identifier::from(s.to_string()).as_str(), &*clean);
    is(obs, src, "Identifier::from(Cow)", Identifier::from(Cow::Borrowed(s)).as_str(), &*clean);
    is(obs, src, "Variable::sanitized", hcl::expr::Variable::sanitized(s).as_str(), &*clean);
    is(obs, src, "key of an attribute", hcl::Attribute::new(s, 1).key(), &*clean);
    is(obs, src, "identifier of a block", hcl::Block::new(s).identifier(), &*clean);

    let u = Ident::new_unchecked(s);
    is(obs, src, "unchecked", u.as_str(), s);
    is(obs, src, "Identifier::unchecked", Identifier::unchecked(s).as_str(), s);
    is(obs, src, "displayed", u.to_string(), s.to_string());
    is(obs, src, "debugged", format!("{u:?}"), format!("Ident({s})"));
    is(obs, src, "dereferenced", (&*u, u.as_ref(), Borrow::<str>::borrow(&u)), (s, s, s));
    is(obs, src, "as String", (String::from(u.clone()), u.clone().into_string()), (s.to_string(), s.to_string()));
    is(obs, src, "as InternalString", InternalString::from(u.clone()).as_str(), s);
    is(obs, src, "as Identifier and back", Ident::from(Identifier::from(u.clone())), u.clone());
    let mut m = HashMap::new();
    m.insert(u.clone(), 1);
    is(obs, src, "looked up as text", m.get(s), Some(&1));
    let mut m = HashMap::new();
    m.insert(Identifier::unchecked(s), 1);
    is(obs, src, "looked up as text in hcl-rs", m.get(s), Some(&1));
    if ok {
        is(obs, src, "checked and unchecked", Ident::new(s) == u, true);
        let json = serde_json::to_string(&u).ok();
        is(obs, src, "serialized", json, serde_json::to_string(s).ok());
    }
    uses(obs, s, ok);
}

/// The places of identifiers in documents.
fn uses(obs: &mut Obs, s: &str, ok: bool) {
    let src = &format!("{s:?}");
    let key = format!("{s} = 1\n").parse::<hcl_edit::structure::Body>().ok().and_then(|b| {
        b.attributes().next().map(|a| a.key.as_str().to_string())
    });
    is(obs, src, "parsed as key", key.as_deref() == Some(s), ok);
    if !ok {
        return;
    }
    let x = || E::Var("x".into());
    let id = || s.to_string();
    let mut b = vec![
        S::Attr(id(), E::Num(N::U(1))),
        S::Attr("b".repeat(50), E::Trav(Box::new(x()), vec![Op::Attr(id()), Op::AttrSplat, Op::Attr(id())])),
        S::Block(Block {
            ident: id(),
            labels: vec![L::Id(id()), L::Str(id()), L::Id(id())],
            body: vec![S::Attr(id(), E::Null)],
        }),
        S::Attr(
            "c".repeat(50),
            E::Heredoc(Box::new(H { delim: id(), strip: false, indent: None, body: vec![T::Lit(" - \n".into())] })),
        ),
    ];
    if !crate::gen::RESERVED.contains(&s) {
        obs.feat("identifier everywhere");
        b.push(S::Attr("d".repeat(50), E::Arr(vec![E::Var(id()), E::Obj(vec![(K::Id(id()), E::Var(id()))])])));
        b.push(S::Attr(
            "e".repeat(50),
            E::Call(Box::new(Call { ns: vec![id(), id()], name: id(), args: vec![E::Var(id())], expand: true })),
        ));
        b.push(S::Attr(
            "f".repeat(50),
            E::For(Box::new(For {
                key: Some(id()),
                val: id(),
                coll: E::Var(id()),
                kexpr: Some(E::Var(id())),
                vexpr: E::Var(id()),
                group: true,
                cond: Some(E::Var(id())),
            })),
        ));
        b.push(S::Attr(
            "g".repeat(50),
            E::Tmpl(vec![
                T::Interp(E::Var(id()), (true, true)),
                T::For(Box::new(ForD {
                    key: Some(id()),
                    val: id(),
                    coll: E::Var(id()),
                    s1: (true, true),
                    body: vec![T::Interp(E::Var(id()), (true, true))],
                    s2: (true, true),
                })),
                T::If(Box::new(If {
                    cond: E::Var(id()),
                    s1: (true, true),
                    then: vec![],
                    els: None,
                    s3: (true, true),
                })),
            ]),
        ));
    }
    let want = nb(&b, Nf::Rs);
    let text = conv::to_edit_body(&b).to_string();
    match hcl_edit::parser::parse_body(&text) {
        Ok(p) => is(obs, src, &format!("printed by hcl-edit as\n{text}\nand parsed"), nb(&conv::edit_body(&p), Nf::Rs), want.clone()),
        Err(e) => obs.fail(src, format!("printed by hcl-edit as\n{text}\nwhich cannot be parsed: {e}")),
    }
    let text = hcl::format::to_string(&conv::to_rs_body(&b)).unwrap_or_default();
    match hcl::parse(&text).map(|p| conv::rs_body(&p)) {
        Ok(Ok(p)) => is(obs, src, &format!("formatted by hcl-rs as\n{text}\nand parsed"), nb(&p, Nf::Rs), want),
        e => obs.fail(src, format!("formatted by hcl-rs as\n{text}\nwhich cannot be parsed: {e:?}")),
    }
    // A key that starts with a character which only continues identifiers etc. is not accepted.
    let mut c = Context::new();
    c.declare_var(s, 7);
    if !crate::gen::RESERVED.contains(&s) {
        is(obs, src, "declared and evaluated", hcl::Expression::from(hcl::expr::Variable::unchecked(s)).evaluate(&c).ok(), Some(Value::from(7)));
        let e = s.parse::<hcl::Expression>().ok();
        is(obs, src, "parsed and evaluated", e.and_then(|e| e.evaluate(&c).ok()), Some(Value::from(7)));
    }
}

fn any_ident(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = if r.one_in(40) { r.range(60, 600) } else { *r.pick(&[0, 1, 2, 3, 5, 14, 15, 16, 17, 22, 23, 24, 40]) };
    let plain = n > 40 && r.pct(80);
    for i in 0..n {
        match r.below(24) {
            0..=9 => s.push(*r.pick(&['a', 'b', 'z', 'A', 'Z', '_', 'q'])),
            10..=13 if i > 0 || r.one_in(8) => s.push(*r.pick(&['0', '9', '-', '·', '\u{301}', '٣'])),
            14..=16 => s.push(*r.pick(&['é', 'ß', 'λ', '漢', 'ª', '𝕏', 'Ⅷ', 'ℵ'])),
            17 if !plain && r.one_in(6) => s.push(*r.pick(&[' ', '.', '\n', '"', '$', '{', '/', '#', '\u{a0}', '\u{200c}', '\u{0}'])),
            18 if !plain && r.one_in(3) => s.push(char::from_u32((r.u64() % 0x3_0000) as u32).unwrap_or('x')),
            19 if r.one_in(6) => s.push_str(r.pick(crate::gen::RESERVED)),
            _ => s.push(*r.pick(&['c', 'd', 'e', '_'])),
        }
    }
    if r.one_in(30) {
        s = (*r.pick(crate::gen::RESERVED)).to_string();
    }
    s
}

pub fn p21(m: &mut Mon) {
    // Every character there is.
    let chunk = 256u64;
    m.cases("characters", 0x11_0000 / chunk, |obs, r, i| {
        let mut all = String::new();
        for c in (i * chunk..(i + 1) * chunk).filter_map(|c| char::from_u32(c as u32)) {
            character(obs, c);
            all.push(c);
        }
        if !all.is_empty() {
            literal(obs, &all, r);
        }
        markers(obs, &all);
    });
    // Every short text of the characters that matter.
    let k = ALPHABET.len() as u64;
    let n = up_to(if m.tier == crate::run::Tier::Quick { 5 } else { 7 }, k);
    let chunk = 1000;
    m.cases("markers", n.div_ceil(chunk), |obs, _, i| {
        for j in i * chunk..((i + 1) * chunk).min(n) {
            markers(obs, &nth(j, &ALPHABET));
        }
        obs.feat_n("texts with escaped markers", chunk);
    });
    let n = up_to(if m.tier == crate::run::Tier::Quick { 3 } else { 5 }, k);
    m.cases("short literals", n, |obs, r, i| literal(obs, &nth(i, &ALPHABET), r));
    let n = m.n(20_000);
    m.cases("literals", n, |obs, r, _| {
        let s = any_text(r);
        markers(obs, &s);
        literal(obs, &s, r);
    });
    let n = m.n(20_000);
    m.cases("broken escapes", n, |obs, r, _| broken(obs, r));
    let n = m.n(30_000);
    m.cases("identifiers", n, |obs, r, _| {
        let s = any_ident(r);
        identifier(obs, &s);
    });
    for (f, n) in [
        ("literal with start marker", 500),
        ("literal with escaped marker", 100),
        ("literal with control character", 1000),
        ("literal with quote or backslash", 1000),
        ("literal beyond the basic plane", 1000),
        ("broken escape sequence", 10_000),
        ("valid identifier", 3000),
        ("invalid identifier", 3000),
        ("identifier everywhere", 2000),
        ("character outside of identifiers", 1000),
        ("character continuing identifiers", 1000),
        ("character starting identifiers", 100_000),
    ] {
        m.require(f, n);
    }
}
