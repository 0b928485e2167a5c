//! Checks of the parser and encoder of hcl-edit against the model.

use crate::conv::{self, ReadEdit};
use crate::gen::{Opts, G};
use crate::model::*;
use crate::mutate;
use crate::refparse;
use crate::render::{self, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use hcl_edit::structure::Body;

pub fn first_diff(a: &str, b: &str) -> String {
    let i = a
        .bytes()
        .zip(b.bytes())
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()));
    let mut lo = i.saturating_sub(30);
    while !a.is_char_boundary(lo) || !b.is_char_boundary(lo) {
        lo -= 1;
    }
    let end = |s: &str| {
        let mut e = (i + 40).min(s.len());
        while !s.is_char_boundary(e) {
            e += 1;
        }
        e
    };
    format!("at byte {i}: {:?} vs {:?}", &a[lo..end(a)], &b[lo..end(b)])
}

fn feats_b(obs: &mut Obs, b: &[S]) {
    walk_b(b, &mut |e| obs.feat(kind(e)));
    for s in b {
        match s {
            S::Attr(..) => obs.feat("attribute"),
            S::Block(b) => {
                obs.feat("block");
                feats_b2(obs, &b.body);
            }
        }
    }
}

fn feats_b2(obs: &mut Obs, b: &[S]) {
    for s in b {
        if let S::Block(b) = s {
            obs.feat("nested block");
            feats_b2(obs, &b.body);
        }
    }
}

pub fn gen_body(rng: &mut Rng, o: Opts) -> B {
    let depth = rng.range(0, 3);
    let mut g = G::new(rng, o);
    g.o.max_depth = g.r.range(1, 6);
    g.budget = g.r.range(5, 80);
    let mut b = g.body(depth);
    // Some bodies are nested deeply, with siblings on both sides.
    if g.r.pct(3) {
        for i in 0..g.r.range(2, 13) {
            let mut block = g.block(0);
            block.body.retain(|_| i % 2 == 0);
            block.body.push(S::Block(Block { ident: g.id(), labels: vec![], body: b }));
            b = vec![S::Block(block)];
        }
    }
    b
}

pub fn gen_expr(rng: &mut Rng, o: Opts) -> E {
    let mut g = G::new(rng, o);
    g.budget = g.r.range(5, 60);
    let d = g.r.range(1, 6);
    let mut e = g.expr(d);
    if g.r.pct(3) {
        for _ in 0..g.r.range(2, 13) {
            g.budget = 3;
            let (x, y) = (g.expr(1), g.expr(1));
            e = match g.r.below(4) {
                0 => E::Arr(vec![e]),
                1 => E::Arr(vec![x, e, y]),
                2 => E::Obj(vec![(K::Id("k1".into()), x), (K::Id("k2".into()), e), (K::Ex(E::Str("k3".into())), y)]),
                _ => E::Obj(vec![(K::Id("k1".into()), e)]),
            };
        }
    }
    e
}

const KINDS: &[&str] = &[
    "null", "bool", "number", "string", "template", "heredoc-strip", "heredoc", "array", "object",
    "parens", "variable", "conditional", "call", "traversal", "unary", "binary", "for-object",
    "for-list",
];

pub fn require_kinds(m: &mut Mon) {
    for k in KINDS {
        m.require(k, 50);
    }
}

/// The options for checks of hcl-edit alone.
pub fn edit_opts() -> Opts {
    Opts {
        marker_tail: true,
        ..Opts::default()
    }
}

fn cmp<X: PartialEq + std::fmt::Debug>(obs: &mut Obs, src: &str, what: &str, got: &X, want: &X) {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
}

/// P04: the parser computes the AST the document denotes.
pub fn p04(m: &mut Mon) {
    m.rule = "a document counts when its model contains at least one operation, template, collection or call".into();
    require_kinds(m);
    m.require("literal in front of a marker", 20);
    m.require("bare template", 100);
    m.require("hcl-rs tree", 1000);
    for (phase, mode) in [("body-wild", Mode::Wild), ("body-lossless", Mode::Lossless)] {
        let n = m.n(30000);
        m.cases(phase, n, |obs, rng, i| {
            let rs = i % 2 == 0;
            let b = gen_body(rng, if rs { Opts::default() } else { edit_opts() });
            let (src, _) = render::render_body(rng, &b, mode);
            feats_b(obs, &b);
            if !rs && (src.contains("\\u0024${") || src.contains("\\u0025%{")) {
                obs.feat("literal in front of a marker");
            }
            obs.case(&src, src.len() > 20);
            match src.parse::<Body>() {
                Err(e) => obs.fail(&src, format!("valid document rejected: {e}")),
                Ok(body) => {
                    cmp(obs, &src, "parsed to a different AST", &conv::edit_body(&body), &nb(&b, Nf::Edit));
                }
            }
            if rs {
                obs.feat("hcl-rs tree");
                match hcl::parse(&src) {
                    Err(e) => obs.fail(&src, format!("valid document rejected by hcl-rs: {e}")),
                    Ok(body) => match conv::rs_body(&body) {
                        Ok(got) => cmp(obs, &src, "hcl-rs parsed to a different AST", &got, &nb(&b, Nf::Rs)),
                        Err(e) => obs.fail(&src, format!("hcl-rs parsed a broken template: {e}")),
                    },
                }
            }
        });
    }
    let n = m.n(60000);
    m.cases("expr", n, |obs, rng, i| {
        let rs = i % 2 == 0;
        let e = gen_expr(rng, if rs { Opts::default() } else { edit_opts() });
        let mode = if rng.bool() { Mode::Wild } else { Mode::Plain };
        let (src, _) = render::render_expr(rng, &e, mode);
        obs.case(&src, !matches!(e, E::Null | E::Bool(_) | E::Num(_) | E::Var(_)));
        match src.parse::<hcl_edit::expr::Expression>() {
            Err(e) => obs.fail(&src, format!("valid expression rejected: {e}")),
            Ok(x) => cmp(obs, &src, "parsed to a different AST", &conv::edit_expr(&x), &ne(&e, Nf::Edit)),
        }
        if rs {
            obs.feat("hcl-rs tree");
            match src.parse::<hcl::Expression>() {
                Err(e) => obs.fail(&src, format!("valid expression rejected by hcl-rs: {e}")),
                Ok(x) => match conv::rs_expr(&x) {
                    Ok(got) => cmp(obs, &src, "hcl-rs parsed to a different AST", &got, &ne(&e, Nf::Rs)),
                    Err(e) => obs.fail(&src, format!("hcl-rs parsed a broken template: {e}")),
                },
            }
        }
    });
    let n = m.n(30000);
    m.cases("template", n, |obs, rng, _| {
        let mut g = G::new(rng, Opts::default());
        let d = g.r.range(1, 4);
        let ts = g.bare(d);
        let mode = if rng.bool() { Mode::Wild } else { Mode::Lossless };
        let src = render::render_template(rng, &ts, mode);
        obs.case(&src, ts.len() > 1);
        obs.feat("bare template");
        match src.parse::<hcl_edit::template::Template>() {
            Err(e) => obs.fail(&src, format!("valid template rejected: {e}")),
            Ok(x) => cmp(obs, &src, "parsed to a different AST", &conv::edit_template(&x), &nt(&ts, Nf::Edit)),
        }
        match src.parse::<hcl::Template>() {
            Err(e) => obs.fail(&src, format!("valid template rejected by hcl-rs: {e}")),
            Ok(x) => match conv::rs_template(&x) {
                Ok(got) => cmp(obs, &src, "hcl-rs parsed to a different AST", &got, &nt(&ts, Nf::Rs)),
                Err(e) => obs.fail(&src, format!("hcl-rs parsed a broken template: {e}")),
            },
        }
    });
}

/// P02: parsing and printing is lossless.
pub fn p02(m: &mut Mon) {
    m.rule = "a document counts when it contains at least one comment or non-canonical whitespace".into();
    require_kinds(m);
    m.require("comment", 1000);
    m.require("printed identically", 10_000);
    m.require("printed with other spellings", 1000);
    m.require("CRLF", 100);
    m.require("bare template", 1000);
    let plain = || Opts {
        plain_ws: true,
        ..edit_opts()
    };
    fn same(obs: &mut Obs, src: &str, out: &str) {
        obs.feat("printed identically");
        if out != src {
            obs.fail(src, format!("printed differently {}", first_diff(src, out)));
        }
    }
    let n = m.n(60000);
    m.cases("body", n, |obs, rng, _| {
        let b = gen_body(rng, plain());
        let (src, _) = render::render_body(rng, &b, Mode::Lossless);
        feats_b(obs, &b);
        if src.contains('#') || src.contains("/*") || src.contains("//") {
            obs.feat("comment");
        }
        obs.case(&src, src.len() > 20);
        match src.parse::<Body>() {
            Err(e) => obs.fail(&src, format!("valid document rejected: {e}")),
            Ok(body) => {
                let out = body.to_string();
                same(obs, &src, &out);
                if body.clone().to_string() != out {
                    obs.fail(&src, "a clone prints differently");
                }
            }
        }
    });
    let n = m.n(60000);
    m.cases("expr", n, |obs, rng, _| {
        let e = gen_expr(rng, plain());
        let (src, _) = render::render_expr(rng, &e, Mode::Lossless);
        obs.case(&src, src.len() > 5);
        match src.parse::<hcl_edit::expr::Expression>() {
            Err(e) => obs.fail(&src, format!("valid expression rejected: {e}")),
            Ok(x) => same(obs, &src, &x.to_string()),
        }
    });
    let n = m.n(30000);
    m.cases("template", n, |obs, rng, _| {
        let mut g = G::new(rng, plain());
        let d = g.r.range(1, 4);
        let ts = g.bare(d);
        let src = render::render_template(rng, &ts, Mode::Lossless);
        obs.case(&src, src.len() > 5);
        obs.feat("bare template");
        match src.parse::<hcl_edit::template::Template>() {
            Err(e) => obs.fail(&src, format!("valid template rejected: {e}")),
            Ok(x) => same(obs, &src, &x.to_string()),
        }
    });
    // Other spellings: equal and stable.
    let n = m.n(40000);
    m.cases("wild", n, |obs, rng, i| {
        let e;
        let src = if i % 3 == 0 {
            e = gen_expr(rng, edit_opts());
            format!("a = {}\n", render::render_expr(rng, &e, Mode::Wild).0)
        } else {
            let b = gen_body(rng, edit_opts());
            render::render_body(rng, &b, Mode::Wild).0
        };
        obs.case(&src, src.len() > 20);
        if src.contains("\r\n") {
            obs.feat("CRLF");
        }
        stable(obs, &src);
    });
    let n = m.n(60000);
    m.cases("hostile", n, |obs, rng, _| {
        let src = hostile(rng, 0);
        if src.parse::<Body>().is_ok() {
            obs.case(&src, src.len() > 20);
            stable(obs, &src);
        }
    });
    // The indentation of an indented heredoc is always printed with blanks, so a line that starts
    // with other whitespace followed by the delimiter becomes the end of the heredoc.
    m.once("delimiter behind odd whitespace", |obs| {
        for (what, ws) in [("no-break space", '\u{a0}'), ("carriage return", '\r'), ("vertical tab", '\u{b}')] {
            let src = format!("a = <<-EOT\n {ws}EOT x\n  EOT\n");
            obs.case(&src, true);
            let Ok(body) = src.parse::<Body>() else { continue };
            let out = body.to_string();
            if out != src && out.parse::<Body>().is_err() {
                obs.fail(&src, format!("a heredoc line with the delimiter behind a {what} is printed as its end"));
            }
        }
    });
}

fn stable(obs: &mut Obs, src: &str) {
    let body = match src.parse::<Body>() {
        Err(e) => return obs.fail(src, format!("valid document rejected: {e}")),
        Ok(b) => b,
    };
    let out = body.to_string();
    if out != src {
        obs.feat("printed with other spellings");
    }
    match out.parse::<Body>() {
        Err(e) => obs.fail(src, format!("the printed document {out:?} does not parse: {e}")),
        Ok(again) => {
            // The indent of heredocs is part of the printed text.
            cmp(obs, src, "the printed document has a different AST", &conv::edit_body(&again), &conv::edit_body(&body));
            if again != body {
                obs.fail(src, "the printed document is not equal to the one printed");
            }
            let twice = again.to_string();
            if twice != out {
                obs.fail(src, format!("printing again differs {}", first_diff(&out, &twice)));
            }
        }
    }
    // Only escape sequences, whitespace and line ends may be spelled differently.
    let squeeze = |s: &str| -> String {
        let mut o = String::new();
        let mut it = s.chars().peekable();
        while let Some(c) = it.next() {
            if c.is_whitespace() {
                continue;
            }
            o.push(c);
        }
        o
    };
    if !src.contains('\\') && squeeze(&out) != squeeze(src) && !out.contains('\\') && !src.contains("$") && !src.contains("%") {
        obs.fail(src, format!("printed with other text {}", first_diff(src, &out)));
    }
}

/// P06: spans.
pub fn p06(m: &mut Mon) {
    m.rule = "every node with a span is compared".into();
    for k in ["expr", "id", "attr", "block", "elem", "top", "binop", "unop"] {
        m.require(k, 1000);
    }
    m.require("expression text parsed again", 10_000);
    fn compare(obs: &mut Obs, src: &str, rd: &ReadEdit, want: &[(&'static str, usize, usize)]) {
        if rd.spans.len() != want.len() {
            // A different tree: P04.
            obs.feat("different tree");
            return;
        }
        for ((k1, got), (k2, s, e)) in rd.spans.iter().zip(want) {
            if k1 != k2 {
                obs.feat("different tree");
                return;
            }
            obs.feat(k1);
            match got {
                None => obs.fail(src, format!("{k1} without span, expected {s}..{e}")),
                Some(r) if *r != (*s..*e) => {
                    obs.fail(src, format!("{k1} has span {r:?}, expected {s}..{e}"));
                }
                _ => {}
            }
        }
    }
    fn reparse(obs: &mut Obs, src: &str, x: &hcl_edit::expr::Expression) {
        use hcl_edit::Span;
        let Some(r) = x.span() else { return };
        let Some(text) = src.get(r.clone()) else {
            return obs.fail(src, format!("span {r:?} is not on character boundaries"));
        };
        obs.feat("expression text parsed again");
        match format!("({text})").parse::<hcl_edit::expr::Expression>() {
            Ok(hcl_edit::expr::Expression::Parenthesis(p)) => {
                let (a, b) = (conv::edit_expr(p.inner()), conv::edit_expr(x));
                if a != b {
                    obs.fail(src, format!("the text at {r:?} is a different expression: {text:?}"));
                }
            }
            r2 => obs.fail(src, format!("the text at {r:?} does not parse: {text:?} {r2:?}")),
        }
    }
    struct V<'a> {
        obs: &'a mut Obs,
        src: &'a str,
        n: usize,
    }
    impl hcl_edit::visit::Visit for V<'_> {
        fn visit_expr(&mut self, node: &hcl_edit::expr::Expression) {
            self.n += 1;
            if self.n % 3 == 0 || self.n < 10 {
                reparse(self.obs, self.src, node);
            }
            hcl_edit::visit::visit_expr(self, node);
        }
    }
    let n = m.n(40000);
    m.cases("body", n, |obs, rng, _| {
        let b = gen_body(rng, edit_opts());
        let (src, want) = render::render_body(rng, &b, Mode::Wild);
        obs.case(&src, want.len() > 3);
        let Ok(body) = src.parse::<Body>() else {
            return;
        };
        let mut rd = ReadEdit::default();
        let _ = rd.body(&body);
        compare(obs, &src, &rd, &want);
        use hcl_edit::visit::Visit;
        V { obs, src: &src, n: 0 }.visit_body(&body);
    });
    let n = m.n(40000);
    m.cases("expr", n, |obs, rng, _| {
        let e = gen_expr(rng, edit_opts());
        let (src, want) = render::render_expr(rng, &e, Mode::Wild);
        obs.case(&src, want.len() > 3);
        let Ok(x) = src.parse::<hcl_edit::expr::Expression>() else {
            return;
        };
        let mut rd = ReadEdit::default();
        let _ = rd.expr(&x);
        compare(obs, &src, &rd, &want);
    });
    let n = m.n(20000);
    m.cases("template", n, |obs, rng, _| {
        let mut g = G::new(rng, edit_opts());
        let d = g.r.range(1, 4);
        let ts = g.bare(d);
        let (src, want) = render::render_template_spans(rng, &ts, Mode::Wild);
        obs.case(&src, want.len() > 3);
        let Ok(x) = src.parse::<hcl_edit::template::Template>() else {
            return;
        };
        let mut rd = ReadEdit::default();
        let _ = rd.template(&x);
        compare(obs, &src, &rd, &want);
    });
}

fn lone_cr(s: &str) -> bool {
    s.replace("\r\n", "").contains('\r')
}

/// A hostile document: mutated or composed from tokens.
pub fn hostile(rng: &mut Rng, what: u64) -> String {
    let render = |rng: &mut Rng| match what {
        0 => {
            let b = gen_body(rng, Opts::default());
            let mode = if rng.bool() { Mode::Wild } else { Mode::Plain };
            render::render_body(rng, &b, mode).0
        }
        1 => {
            let e = gen_expr(rng, Opts::default());
            let mode = if rng.bool() { Mode::Wild } else { Mode::Plain };
            render::render_expr(rng, &e, mode).0
        }
        _ => {
            let mut g = G::new(rng, Opts::default());
            let d = g.r.range(1, 4);
            let ts = g.bare(d);
            let mode = if rng.bool() { Mode::Wild } else { Mode::Plain };
            render::render_template(rng, &ts, mode)
        }
    };
    match rng.below(12) {
        0 => mutate::soup(rng),
        1 => mutate::any_text(rng),
        _ => {
            let mut s = render(rng);
            let other = render(rng);
            for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                s = mutate::mutate(rng, &s, &other);
            }
            s
        }
    }
}

/// The tokens whose sequences are enumerated, by kind of text.
const SEQ_BODY: &[&str] = &[
    "a", "\"b\"", "=", "{", "}", "\n", " ", "1", "#", "//", "/*", "*/", "\r\n", ",", "<<E", "E", "\t", "[", "]", "${",
    ":", "-", ".", "+",
];
const SEQ_EXPR: &[&str] = &[
    "1", "a", "true", "for", "in", "if", "+", "-", "!", "==", "=", "<", "&&", "?", ":", "(", ")", "[", "]", "{", "}",
    ",", ".", "...", "=>", "\"a\"", "\"${", " ", "\n", "#", "::", "*", "/", "<<E\n", "E\n", "0", "e",
];
const SEQ_TEMPLATE: &[&str] = &[
    "${", "%{", "}", "~", "$", "%", "{", "a", " ", "\n", "if", "else", "endif", "for", "in", "endfor", "\"", "\\",
    "1", "b",
];

/// The `i`-th sequence of tokens, from the shortest.
fn sequence(tokens: &[&str], mut i: u64) -> String {
    let k = tokens.len() as u64;
    let mut len = 1;
    let mut of = k;
    while i >= of {
        i -= of;
        of *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(tokens[(i % k) as usize]);
        i /= k;
    }
    s
}

fn sequences(tokens: &[&str], len: u32) -> u64 {
    (1..=len).map(|l| (tokens.len() as u64).pow(l)).sum()
}

fn decide(obs: &mut Obs, src: &str, what: u64) {
    let mut check = |want: Result<String, usize>, got: Result<String, String>, rs: bool| {
        obs.feat(if want.is_ok() { "accepted" } else { "rejected" });
        if got.is_ok() != rs {
            obs.fail(src, format!("hcl-edit and hcl-rs disagree: hcl-edit {}, hcl-rs {}", got.is_ok(), rs));
        }
        match (want, got) {
            (Ok(_), Err(e)) => obs.fail(src, format!("valid input rejected: {e}")),
            (Err(i), Ok(_)) => obs.fail(src, format!("invalid input accepted (invalid at byte {i})")),
            (Ok(w), Ok(g)) if w != g => obs.fail(
                src,
                format!("parsed to a different tree: {}", first_diff(&g, &w)),
            ),
            _ => {}
        }
    };
    match what {
        0 => check(
            refparse::P::body(src).map(|b| format!("{:?}", nb(&b, Nf::Edit))),
            src.parse::<Body>()
                .map(|b| format!("{:?}", conv::edit_body(&b)))
                .map_err(|e| e.to_string()),
            hcl::parse(src).is_ok(),
        ),
        1 => check(
            refparse::P::expression(src).map(|b| format!("{:?}", ne(&b, Nf::Edit))),
            src.parse::<hcl_edit::expr::Expression>()
                .map(|b| format!("{:?}", conv::edit_expr(&b)))
                .map_err(|e| e.to_string()),
            src.parse::<hcl::Expression>().is_ok(),
        ),
        _ => check(
            refparse::P::template(src).map(|b| format!("{:?}", nt(&b, Nf::Edit))),
            src.parse::<hcl_edit::template::Template>()
                .map(|b| format!("{:?}", conv::edit_template(&b)))
                .map_err(|e| e.to_string()),
            src.parse::<hcl::Template>().is_ok(),
        ),
    }
}

/// A body of up to a few hundred structures with similar names, in which an attribute may be
/// defined twice (at any distance and depth).
fn repeated_names(rng: &mut Rng) -> String {
    let stem: String = {
        let n = *rng.pick(&[0usize, 1, 3, 7, 15, 31, 63, 64, 127, 255, 300]);
        (0..n).map(|i| if i == 0 { 'k' } else { *rng.pick(&['a', 'b', '-', '_', '0', 'é']) }).collect()
    };
    let name = |rng: &mut Rng, i: usize| match rng.below(6) {
        0 => format!("{stem}A{i}"),
        1 => format!("x{i}{stem}"),
        2 => format!("{stem}x{i:04}"),
        _ => format!("{stem}a{i}"),
    };
    let n = *rng.pick(&[1usize, 2, 3, 5, 9, 17, 33, 65, 130, 260]);
    let mut out: Vec<String> = vec![];
    let mut names: Vec<String> = vec![];
    for i in 0..rng.range(1, n + 1) {
        let k = name(rng, i);
        out.push(match rng.below(8) {
            0 => format!("{k} {{}}"),
            1 => format!("{k} \"l\" {{\n{k} = 1\n}}"),
            2 if !names.is_empty() => {
                let o = rng.pick(&names).clone();
                format!("{k} {{\n  {o} = 1\n  {o}b = 2\n  {o} {{ {o} = 3 }}\n}}")
            }
            _ => {
                names.push(k.clone());
                format!("{k} = {i}")
            }
        });
    }
    for _ in 0..*rng.pick(&[0, 1, 1, 2]) {
        let k = if names.is_empty() { name(rng, 0) } else { rng.pick(&names).clone() };
        let s = match rng.below(8) {
            0 => format!("{k} {{}}"),
            1 => format!("{k}a = 0"),
            2 => format!("z {{\n{k} = 1\nother = 2\n{k} = 3\n}}"),
            3 => format!("z {{\n{k} = 1\n}}"),
            4 => format!("{} = 0", k.to_uppercase()),
            5 => format!("\"{k}\" = 0"),
            _ => format!("{k} = 0"),
        };
        let at = rng.below(out.len() + 1);
        out.insert(at, s);
    }
    let mut s = out.join("\n");
    if rng.bool() {
        s.push('\n');
    }
    s
}

/// P05: texts are accepted exactly if they belong to the grammar.
pub fn p05(m: &mut Mon) {
    m.rule = "a text counts when it is at least 3 bytes long; texts are mutated valid documents, token soup, arbitrary text and all sequences of up to four tokens (thorough: five for bodies and templates) of three small vocabularies".into();
    m.assumptions.push("the grammar is the one of harness/src/refparse.rs, an independent recursive descent parser".into());
    for k in ["accepted", "rejected"] {
        m.require(k, 10_000);
    }
    let parse_phase = |m: &mut Mon, name: &str, what: u64, n: u64| {
        m.cases(name, n, |obs, rng, _| {
            let src = hostile(rng, what);
            if lone_cr(&src) {
                return;
            }
            obs.case(&src, src.len() >= 3);
            decide(obs, &src, what);
        });
    };
    let all = [
        ("body sequences", SEQ_BODY, 0),
        ("expr sequences", SEQ_EXPR, 1),
        ("template sequences", SEQ_TEMPLATE, 2),
    ];
    for (name, tokens, what) in all {
        let len = if m.tier == crate::run::Tier::Thorough && what != 1 { 5 } else { 4 };
        let n = ((sequences(tokens, len) as f64) * m.scale.min(1.0)).ceil() as u64;
        m.cases(name, n, |obs, _, i| {
            let src = sequence(tokens, i);
            obs.case(&src, src.len() >= 3);
            decide(obs, &src, what);
        });
        let n = m.n(100_000);
        m.cases(&format!("long {name}"), n, |obs, rng, _| {
            let n = rng.range(5, 9);
            let src: String = (0..n).map(|_| *rng.pick(tokens)).collect();
            obs.case(&src, true);
            decide(obs, &src, what);
        });
    }
    let n = m.n(12_000);
    m.cases("repeated names", n, |obs, rng, _| {
        let src = repeated_names(rng);
        obs.case(&src, true);
        decide(obs, &src, 0);
    });
    let n = m.n(150_000);
    parse_phase(m, "body", 0, n);
    parse_phase(m, "expr", 1, n);
    let n = m.n(60_000);
    parse_phase(m, "template", 2, n);
}

fn check_location(obs: &mut Obs, src: &str, e: &hcl_edit::parser::Error, what: &str) {
    let loc = e.location();
    let off = loc.offset();
    let bytes = src.as_bytes();
    if off > bytes.len() || (off == bytes.len() && off != 0) {
        obs.fail(src, format!("{what}: error offset {off} outside of the input of {} bytes", bytes.len()));
        return;
    }
    let begin = bytes[..off].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let line = bytes[..begin].iter().filter(|b| **b == b'\n').count() + 1;
    let end = bytes[begin..].iter().position(|b| *b == b'\n').map_or(bytes.len(), |i| begin + i);
    // Characters of the line up to and including the one at the offset.
    let chars = |r: &[u8]| r.iter().filter(|b| **b & 0xC0 != 0x80).count();
    let col = if bytes.is_empty() { 1 } else { chars(&bytes[begin..=off]) };
    let at_end = off + 1 == bytes.len();
    if loc.line() != line {
        obs.fail(src, format!("{what}: error at offset {off} is in line {line}, not in line {}", loc.line()));
    }
    if loc.column() != col && !(at_end && loc.column() == col + 1) {
        obs.fail(src, format!("{what}: error at offset {off} is in column {col}, not in column {}", loc.column()));
    }
    if e.line() != &src[begin..end] {
        obs.fail(src, format!("{what}: the source line of the error is {:?}, not {:?}", &src[begin..end], e.line()));
    }
    let text = e.to_string();
    if e.message().is_empty() || !text.contains(e.message()) {
        obs.fail(src, format!("{what}: the error's display does not contain its message: {text}"));
    }
    if !text.contains(&format!("line {line}, column {}", loc.column())) || !text.contains(e.line()) {
        obs.fail(src, format!("{what}: the error's display does not tell line, column and source: {text}"));
    }
    // The caret points at the column.
    let caret = text.lines().rev().find(|l| l.trim_end().ends_with("^---"));
    let width = loc.line().to_string().len() + 3;
    if caret.map(|l| l.chars().position(|c| c == '^')) != Some(Some(width + loc.column() - 1)) {
        obs.fail(src, format!("{what}: the caret is not at the column: {text}"));
    }
    obs.feat("located errors");
    if line > 1 {
        obs.feat("errors behind line 1");
    }
    if chars(&bytes[begin..off]) != off - begin {
        obs.feat("errors behind multi-byte text");
    }
    if at_end {
        obs.feat("errors at the end");
    }
}

fn total_one(obs: &mut Obs, src: &str) {
    use hcl_edit::{expr::Expression, template::Template};
    let b = src.parse::<Body>();
    let e = src.parse::<Expression>();
    let t = src.parse::<Template>();
    let mut ok = 0;
    match &b {
        Ok(b) => {
            let _ = b.to_string();
            ok += 1;
        }
        Err(x) => check_location(obs, src, x, "body"),
    }
    match &e {
        Ok(b) => {
            let _ = b.to_string();
            ok += 1;
        }
        Err(x) => check_location(obs, src, x, "expression"),
    }
    match &t {
        Ok(b) => {
            let _ = format!("{b}");
            ok += 1;
        }
        Err(x) => check_location(obs, src, x, "template"),
    }
    obs.feat_n("accepted", ok);
    // The same through hcl-rs.
    match (hcl::parse(src), &b) {
        (Ok(_), Ok(_)) => {}
        (Err(hcl::Error::Parse(x)), Err(y)) if x == *y => {}
        (Err(hcl::Error::Parse(x)), Err(y)) => obs.fail(src, format!("hcl-rs reports a different error: {x} vs {y}")),
        (r, _) => obs.fail(src, format!("hcl::parse disagrees with hcl-edit: {:?}", r.map(|_| ()))),
    }
    let v: Result<hcl::Value, _> = hcl::from_str(src);
    match (&v, &b) {
        (Ok(_), Ok(_)) => {}
        (Err(hcl::Error::Parse(x)), Err(y)) if x == y => {}
        // Objects may have keys (null, collections) that are no strings.
        (Err(hcl::Error::Message(m)), Ok(_)) if m.starts_with("invalid type: ") => {}
        _ => obs.fail(src, format!("from_str to a value disagrees: {:?}", v.map(|_| ()).map_err(|e| e.to_string()))),
    }
    if src.parse::<hcl::Expression>().is_ok() != e.is_ok() {
        obs.fail(src, "parsing a hcl-rs expression disagrees with hcl-edit");
    }
    if src.parse::<hcl::Template>().is_ok() != t.is_ok() {
        obs.fail(src, "parsing a hcl-rs template disagrees with hcl-edit");
    }
    let _ = src.parse::<hcl_edit::Ident>();
    if hcl::template::Template::from_str_checked(src) != t.is_ok() {
        obs.fail(src, "parsing the template of a template expression disagrees with hcl-edit");
    }
}

trait FromStrChecked {
    fn from_str_checked(s: &str) -> bool;
}

impl FromStrChecked for hcl::Template {
    fn from_str_checked(s: &str) -> bool {
        hcl::Template::from_expr(&hcl::TemplateExpr::QuotedString(s.to_string())).is_ok()
    }
}

/// Deep or long inputs by repetition: (name, prefix, repeated, middle, repeated, suffix, max).
const REPEAT: &[(&str, &str, &str, &str, &str, &str)] = &[
    ("parens", "a = ", "(", "1", ")", "\n"),
    ("arrays", "a = ", "[", "1", "]", "\n"),
    ("arrays with space", "a = ", "[ ", "1", " ]", "\n"),
    ("open arrays", "a = ", "[", "", "", "\n"),
    ("open arrays with comments", "a = ", "[/**/", "", "", "\n"),
    ("objects", "a = ", "{ k = ", "1", " }", "\n"),
    ("open objects", "a = ", "{ k = ", "", "", "\n"),
    ("object keys", "a = ", "{ ", "k", " = 1 }", "\n"),
    ("paren keys", "a = ", "{ (", "k", ") = 1 }", "\n"),
    ("open parens", "a = ", "(", "", "", "\n"),
    ("calls", "a = ", "f(", "1", ")", "\n"),
    ("open calls", "a = ", "f(", "", "", "\n"),
    ("call arguments", "a = ", "f(1, ", "1", ", 2)", "\n"),
    ("unary not", "a = ", "!", "true", "", "\n"),
    ("unary minus", "a = ", "-", "b", "", "\n"),
    ("unary minus space", "a = ", "- ", "b", "", "\n"),
    ("conditionals false", "a = ", "c ? 1 : ", "2", "", "\n"),
    ("conditionals true", "a = ", "c ? ", "1", " : 2", "\n"),
    ("open conditionals", "a = ", "c ? ", "", "", "\n"),
    ("index", "a = ", "b[", "1", "]", "\n"),
    ("templates", "a = ", "\"${", "1", "}\"", "\n"),
    ("open templates", "a = ", "\"${", "", "", "\n"),
    ("if directives", "a = \"", "%{ if true }", "x", "%{ endif }", "\"\n"),
    ("open if directives", "a = \"", "%{ if true }", "", "", ""),
    ("else directives", "a = \"", "%{ if true }x%{ else }", "x", "%{ endif }", "\"\n"),
    ("for directives", "a = \"", "%{ for a in b }", "x", "%{ endfor }", "\"\n"),
    ("for lists", "a = ", "[for x in ", "y", " : x]", "\n"),
    ("for values", "a = ", "[for x in y : ", "x", "]", "\n"),
    ("for objects", "a = ", "{for x in y : x => ", "x", "}", "\n"),
    ("open for", "a = ", "[for x in ", "", "", "\n"),
    ("blocks", "", "b {\n", "", "}\n", ""),
    ("open blocks", "", "b {\n", "", "", ""),
    ("labeled blocks", "", "b \"l\" x {\n", "a = 1\n", "}\n", ""),
    ("parens binary", "a = ", "(1 + ", "1", ") * 2", "\n"),
    ("nested traversal", "a = ", "(b", "", ").c", "\n"),
    ("heredocs", "a = ", "<<A\n${", "1", "}\nA\n", "\n"),
];

const LONG: &[(&str, &str, &str, &str)] = &[
    ("binary chain", "a = 1", " + 1", "\n"),
    ("mixed binary chain", "a = 1", " + 1 * 2 == 3 && true", "\n"),
    ("attribute traversal", "a = b", ".c", "\n"),
    ("index traversal", "a = b", "[0]", "\n"),
    ("splats", "a = b", ".*.c[*]", "\n"),
    ("array items", "a = [", "1, ", "]\n"),
    ("array lines", "a = [\n", "1, # c\n", "]\n"),
    ("object items", "a = {\n", "k = 1\n", "}\n"),
    ("call arguments", "a = f(", "x, ", "y)\n"),
    ("namespaces", "a = ", "n::", "f()\n"),
    ("attributes with the same value", "", "b { a = 1 }\n", ""),
    ("labels", "b ", "l \"m\" ", "{}\n"),
    ("comments", "", "# c\n", ""),
    ("inline comments", "a = ", "/* c */", "1\n"),
    ("open comments", "a = ", "/* ", "1\n"),
    ("blank lines", "", "\n", ""),
    ("spaces", "a = ", " ", "1\n"),
    ("trailing spaces", "a = 1", " ", "\n"),
    ("spaces before a traversal", "a = (b", " \n", ".c)\n"),
    ("long string", "a = \"", "x", "\"\n"),
    ("escapes", "a = \"", "\\n", "\"\n"),
    ("escaped markers", "a = \"", "$${", "\"\n"),
    ("dollars", "a = \"", "$", "\"\n"),
    ("percents", "a = \"", "%%", "\"\n"),
    ("interpolations", "a = \"", "x${y}", "\"\n"),
    ("open string", "a = \"", "x", ""),
    ("heredoc lines", "a = <<A\n", "  line\n", "A\n"),
    ("heredoc near delimiters", "a = <<A\n", "  AB\n", "A\n"),
    ("indented heredoc", "a = <<-A\n", "    line ${x}\n", "  A\n"),
    ("heredoc directives", "a = <<A\n", "%{ if x }\ny\n%{ endif }\n", "A\n"),
    ("open heredoc", "a = <<A\n", "  line\n", ""),
    ("digits", "a = 0.", "1", "\n"),
    ("identifier", "a", "b-", " = 1\n"),
    ("unicode", "a = \"", "é😀", "\"\n"),
];

/// Constructs that can be nested: `_` stands for whitespace within a line, `^` for any whitespace.
const TOWER: &[(&str, &str)] = &[
    ("[^", "^]"),
    ("[^", "^,^]"),
    ("[1,^", "^,^2]"),
    ("{^a_=_", "_}"),
    ("{^a_=_", "_\n}"),
    ("{^a_=_", "_,^}"),
    ("{^a_:_", "_,^b = 1}"),
    ("{^a_=_", "_# c\n^}"),
    ("{^a_=_", "_// c\n^b = 1}"),
    ("{^\"a\"_=_", "_\n^}"),
    ("{^(", "^)_=_1}"),
    ("{^(", "^)_=_1_# c\n}"),
    ("{^b.c[", "]_=_1\n}"),
    ("{^", "_=_1}"),
    ("(^", "^)"),
    ("f(^", "^)"),
    ("f(^1^,^", "^...)"),
    ("f(^1^,^", "^,^)"),
    ("n::f(^", "^)"),
    ("b[^", "^]"),
    ("b[^", "^]_.c"),
    ("b.c[^", "^][*]"),
    ("!_", ""),
    ("-_", ""),
    ("c_?_", "_:_1"),
    ("c_?_1_:_", ""),
    ("(c_?_", "_:_1)"),
    ("(^", "^)_?_1_:_2"),
    ("1_+_(^", "^)_*_2"),
    ("(^", "^)_==_1"),
    ("(1_&&_", "_||_2)"),
    ("[for_x_in_", "_:_x]"),
    ("[^for^x^in^y^:^", "^]"),
    ("[^for^k^,^x^in^y^:^x^if^", "^]"),
    ("{^for^x^in^", "^:^x^=>^x}"),
    ("{^for^x^in^y^:^", "^=>^x^...}"),
    ("{^for^x^in^y^:^x^=>^", "^if^x}"),
    ("\"${^", "^}\""),
    ("\"a${~^", "^~}b\""),
    ("\"%{ if_", "_}a%{ else }b%{ endif }\""),
    ("\"%{ if a }${^", "^}%{ endif }\""),
    ("\"%{ for_x in_", "_}a%{ endfor ~}\""),
    ("<<A\n${^", "^}\nA\n"),
    ("(<<-A\n  a${^", "^}\n  A\n)"),
];

fn fill(rng: &mut Rng, s: &str) -> String {
    const SP: &[&str] = &["", " ", " ", "\t", "/* c */", " /**/ "];
    const WS: &[&str] = &["", " ", "\n", "\n  ", " # c\n", "// c\n\n", "/* c\n*/", "\r\n"];
    let mut out = String::new();
    for c in s.chars() {
        match c {
            // Between words there needs to be something.
            '_' => {
                let w = *rng.pick(SP);
                out.push_str(if w.is_empty() && out.ends_with(char::is_alphabetic) { " " } else { w });
            }
            '^' => {
                let w = *rng.pick(WS);
                out.push_str(if w.is_empty() && out.ends_with(char::is_alphabetic) { " " } else { w });
            }
            c => out.push(c),
        }
    }
    out
}

/// As `total_one`, on the stack a main thread has.
fn total_deep(obs: &mut Obs, src: &str) -> bool {
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                crate::run::guard(|| {
                    let mut o = Obs::default();
                    total_one(&mut o, src);
                    let v: Vec<_> = o.violations.into_iter().map(|v| v.what).collect();
                    (v, src.parse::<Body>().is_ok())
                })
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok((v, ok)) => {
            for w in v {
                obs.fail(src, w);
            }
            ok
        }
        Err(p) => {
            obs.fail(src, format!("panicked: {p}"));
            false
        }
    }
}

/// P01: totality.
pub fn p01(m: &mut Mon) {
    m.rule = "a text counts when it is not empty; every text is parsed as body, expression and template, through hcl-edit and hcl-rs".into();
    m.assumptions.push("nesting up to 150 levels on a stack of 8 MiB; a case that does not end within 90 s counts as non-terminating".into());
    for (f, n) in [
        ("located errors", 10_000),
        ("errors behind line 1", 1000),
        ("errors behind multi-byte text", 500),
        ("errors at the end", 500),
        ("accepted", 1000),
        ("nested inputs", 100),
        ("towers", 5000),
        ("accepted towers", 1000),
        ("long inputs", 50),
    ] {
        m.require(f, n);
    }
    for (name, what) in [("body", 0), ("expr", 1), ("template", 2)] {
        let n = m.n(40_000);
        m.cases(name, n, |obs, rng, _| {
            let src = hostile(rng, what);
            obs.case(&src, !src.is_empty());
            total_one(obs, &src);
        });
    }
    // Every prefix of a document.
    let n = m.n(300);
    m.cases("prefixes", n, |obs, rng, _| {
        let b = gen_body(rng, Opts::default());
        let (src, _) = render::render_body(rng, &b, Mode::Wild);
        for (i, _) in src.char_indices().take(600) {
            obs.case(&src[..i], i > 0);
            total_one(obs, &src[..i]);
        }
    });
    let n = m.n(60_000);
    m.cases("soup", n, |obs, rng, i| {
        let src = if i % 2 == 0 { mutate::soup(rng) } else { mutate::any_text(rng) };
        obs.case(&src, !src.is_empty());
        total_one(obs, &src);
    });
    // Bytes that may not be UTF-8.
    let n = m.n(20_000);
    m.cases("bytes", n, |obs, rng, _| {
        let mut b = hostile(rng, 0).into_bytes();
        for _ in 0..rng.below(3) {
            if !b.is_empty() {
                let i = rng.below(b.len());
                b[i] = rng.below(256) as u8;
            }
        }
        obs.case(&format!("{b:?}"), !b.is_empty());
        let s = std::str::from_utf8(&b);
        let via_slice: Result<hcl::Value, _> = hcl::from_slice(&b);
        let via_reader: Result<hcl::Value, _> = hcl::from_reader(&b[..]);
        match s {
            Ok(s) => {
                let want = s.parse::<Body>().is_ok();
                let same = |r: &Result<hcl::Value, hcl::Error>| match r {
                    Ok(_) => want,
                    Err(hcl::Error::Parse(_)) => !want,
                    Err(_) => want,
                };
                if !same(&via_slice) || !same(&via_reader) {
                    obs.fail(s, "from_slice or from_reader disagrees with parsing the text");
                }
            }
            Err(_) => {
                obs.feat("not UTF-8");
                if via_slice.is_ok() || via_reader.is_ok() {
                    obs.fail(format!("{b:?}"), "bytes that are not UTF-8 were accepted");
                }
            }
        }
    });
    // Nesting, on the stack a main thread has.
    let n = REPEAT.len() as u64 * 6;
    m.cases("nesting", n, |obs, _, i| {
        let (name, a, b, c, d, e) = REPEAT[(i / 6) as usize];
        let depth = [1, 2, 13, 40, 90, 150][(i % 6) as usize];
        let src = format!("{a}{}{c}{}{e}", b.repeat(depth), d.repeat(depth));
        obs.case(&src, true);
        obs.feat("nested inputs");
        total_deep(obs, &src);
        if !name.starts_with("open") && src.parse::<Body>().is_err() {
            obs.fail(&src, format!("{name} of depth {depth} rejected: {}", src.parse::<Body>().unwrap_err()));
        }
    });
    // Nesting of one or two constructs with the same whitespace and comments at each level: parsing
    // a level twice would take time exponential in the depth.
    let n = m.n(8000);
    m.cases("towers", n, |obs, rng, _| {
        let period = rng.range(1, 2);
        let level: Vec<(String, String)> = (0..period)
            .map(|_| {
                let (o, c) = *rng.pick(TOWER);
                (fill(rng, o), fill(rng, c))
            })
            .collect();
        let depth = [4, 30, 60][rng.below(3)];
        let open: String = (0..depth).map(|i| level[i % period].0.as_str()).collect();
        let close: String = (0..depth).rev().map(|i| level[i % period].1.as_str()).collect();
        // Something that cannot be parsed in the middle or at the end.
        let core = *rng.pick(&["1", "x", "x", "{}", "[]", "\"s\"", "@", "=", "", "for"]);
        let end = *rng.pick(&["\n", "\n", "", " @\n", ")\n", " # c"]);
        let src = match rng.below(4) {
            0 => format!("a = {open}{core}{end}"),
            1 => format!("b {{\n  a = {open}{core}{close}{end}}}\n"),
            _ => format!("a = {open}{core}{close}{end}"),
        };
        obs.case(&src, true);
        obs.feat("towers");
        let ok = total_deep(obs, &src);
        if ok {
            obs.feat("accepted towers");
        }
    });
    let n = LONG.len() as u64 * 3;
    m.cases("long", n, |obs, _, i| {
        let (name, a, b, c) = LONG[(i / 3) as usize];
        let count = [1, 100, 3000][(i % 3) as usize];
        let src = format!("{a}{}{c}", b.repeat(count));
        obs.case(&format!("{name} x {count}"), true);
        obs.feat("long inputs");
        total_one(obs, &src);
        if !name.starts_with("open") && src.parse::<Body>().is_err() {
            obs.fail(&src, format!("{name} x {count} rejected: {}", src.parse::<Body>().unwrap_err()));
        }
    });
    // Errors far behind in a line, and documents of many thousand elements.
    let n = LONG.len() as u64 * 2;
    m.cases("very long", n, |obs, _, i| {
        let (name, a, b, c) = LONG[(i / 2) as usize];
        if name.contains("chain") {
            return;
        }
        let bad = i % 2 == 0;
        let mut src = format!("{a}{}", b.repeat(70_000));
        if bad {
            src.push_str(" @\n}");
        } else {
            src.push_str(c);
        }
        obs.case(&format!("{name} x 70000, {}", if bad { "invalid" } else { "whole" }), true);
        obs.feat("very long inputs");
        total_one(obs, &src);
        if !bad && !name.starts_with("open") && src.parse::<Body>().is_err() {
            obs.fail(&src, format!("{name} x 70000 rejected"));
        }
    });
    crate::run::sanitized(m, "asan", &[]);
}
