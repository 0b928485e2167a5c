//! P11: the formatter.

use crate::conv;
use crate::gen::G;
use crate::model::*;
use crate::gen::Opts;
use crate::p_conv;
use crate::p_parse::{first_diff, gen_body, gen_expr, require_kinds};
use crate::render::{render_expr, Mode};
use crate::rng::Rng;
use crate::run::{Mon, Obs};
use crate::val::V;
use hcl::format::{Format, Formatter};
use std::io;

/// `prefer_ident_keys` does not merge `a` and `"a"`.
fn fmt_opts() -> Opts {
    Opts { unique_keys: true, ..p_conv::rs_opts() }
}

#[derive(Clone, Debug)]
struct Cfg {
    indent: &'static str,
    dense: bool,
    arrays: bool,
    objects: bool,
    ident_keys: bool,
}

const DEFAULT: Cfg = Cfg { indent: "  ", dense: false, arrays: false, objects: false, ident_keys: false };

impl Cfg {
    fn gen(r: &mut Rng) -> Cfg {
        if r.one_in(6) {
            return DEFAULT;
        }
        Cfg {
            indent: r.pick(&["", " ", "  ", "\t", "    ", " \t", "       "]),
            dense: r.bool(),
            arrays: r.bool(),
            objects: r.bool(),
            ident_keys: r.bool(),
        }
    }
    fn vec(&self) -> Formatter<'static, Vec<u8>> {
        let b = Formatter::builder().indent(self.indent.as_bytes()).dense(self.dense);
        let b = if self.arrays == self.objects { b.compact(self.arrays) } else { b.compact(!self.arrays).compact_arrays(self.arrays).compact_objects(self.objects) };
        b.prefer_ident_keys(self.ident_keys).build_vec()
    }
    fn to<W: io::Write>(&self, w: W) -> Formatter<'static, W> {
        Formatter::builder()
            .prefer_ident_keys(self.ident_keys)
            .compact_objects(self.objects)
            .compact_arrays(self.arrays)
            .dense(self.dense)
            .indent(self.indent.as_bytes())
            .build(w)
    }
}

// --- the expected text ----------------------------------------------------------------------

struct F<'c> {
    c: &'c Cfg,
    out: String,
    depth: usize,
    compact: usize,
}

fn escaped(s: &str) -> String {
    let mut out = String::from("\"");
    let s = s.replace("${", "$${").replace("%{", "%%{");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\u{8}' => out += "\\b",
            '\t' => out += "\\t",
            '\n' => out += "\\n",
            '\u{c}' => out += "\\f",
            '\r' => out += "\\r",
            c if c < ' ' => out += &format!("\\u{:04x}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

/// Words that cannot be an unquoted object key without being taken for something else.
fn bare_key(s: &str) -> bool {
    hcl_primitives::ident::is_ident(s) && !matches!(s, "null" | "true" | "false" | "for")
}

impl F<'_> {
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn ind(&mut self) {
        for _ in 0..self.depth {
            self.out.push_str(self.c.indent);
        }
    }
    fn nl(&mut self) {
        self.p("\n");
        self.ind();
    }
    fn body(&mut self, b: &[S]) {
        for (i, s) in b.iter().enumerate() {
            let blank = i > 0 && (matches!(s, S::Block(_)) || matches!(b[i - 1], S::Block(_)));
            if blank && !self.c.dense {
                self.p("\n");
            }
            self.structure(s);
        }
    }
    fn structure(&mut self, s: &S) {
        self.ind();
        match s {
            S::Attr(k, e) => {
                self.p(k);
                self.p(" = ");
                self.ex(e);
                self.p("\n");
            }
            S::Block(b) => {
                self.p(&b.ident);
                for l in &b.labels {
                    self.p(" ");
                    match l {
                        L::Id(i) => self.p(i),
                        L::Str(s) => self.p(&escaped(s)),
                    }
                }
                self.p(" {");
                if !b.body.is_empty() {
                    self.p("\n");
                }
                self.depth += 1;
                self.body(&b.body);
                self.depth -= 1;
                self.ind();
                self.p("}\n");
            }
        }
    }
    fn list<X>(&mut self, xs: &[X], compact: bool, obj: bool, f: &mut dyn FnMut(&mut Self, &X)) {
        let (open, close) = if obj { ("{", "}") } else { ("[", "]") };
        self.p(open);
        if !xs.is_empty() {
            if !compact {
                self.depth += 1;
            }
            for (i, x) in xs.iter().enumerate() {
                match (compact, i) {
                    (true, 0) => self.p(if obj { " " } else { "" }),
                    (true, _) => self.p(", "),
                    (false, 0) => self.nl(),
                    (false, _) => {
                        self.p(if obj { "" } else { "," });
                        self.nl();
                    }
                }
                f(self, x);
            }
            if compact {
                self.p(if obj { " " } else { "" });
            } else {
                self.depth -= 1;
                self.nl();
            }
        }
        self.p(close);
    }
    fn key(&mut self, s: &str) {
        if self.c.ident_keys && bare_key(s) {
            self.p(s);
        } else {
            self.p(&escaped(s));
        }
    }
    fn ex(&mut self, e: &E) {
        match e {
            E::Null => self.p("null"),
            E::Bool(b) => self.p(if *b { "true" } else { "false" }),
            E::Num(n) => self.p(&conv::num_to(*n).to_string()),
            E::Str(s) => self.p(&escaped(s)),
            E::Tmpl(_) => {
                // A quoted template keeps the layout of the raw text.
                let t = render_expr(&mut Rng::new(1), e, Mode::Plain).0;
                self.p(&t);
            }
            E::Heredoc(h) => {
                self.p(if h.strip { "<<-" } else { "<<" });
                self.p(&h.delim);
                self.p("\n");
                self.p(&conv::raw_template(&h.body));
                if h.strip {
                    self.ind();
                }
                self.p(&h.delim);
            }
            E::Arr(a) => self.list(a, self.c.arrays || self.compact > 0, false, &mut |f, e| f.ex(e)),
            E::Obj(o) => self.list(o, self.c.objects || self.compact > 0, true, &mut |f, (k, e)| {
                match k {
                    K::Id(i) => f.p(i),
                    K::Ex(E::Str(s)) => f.key(s),
                    K::Ex(e) => f.ex(e),
                }
                f.p(" = ");
                f.ex(e);
            }),
            E::Paren(e) => {
                self.p("(");
                self.ex(e);
                self.p(")");
            }
            E::Var(v) => self.p(v),
            E::Cond(c) => {
                self.compact += 1;
                self.ex(&c.0);
                self.p(" ? ");
                self.ex(&c.1);
                self.p(" : ");
                self.ex(&c.2);
                self.compact -= 1;
            }
            E::Call(c) => {
                for n in &c.ns {
                    self.p(n);
                    self.p("::");
                }
                self.p(&c.name);
                self.p("(");
                self.compact += 1;
                for (i, a) in c.args.iter().enumerate() {
                    self.p(if i > 0 { ", " } else { "" });
                    self.ex(a);
                }
                self.compact -= 1;
                self.p(if c.expand { "...)" } else { ")" });
            }
            E::Trav(e, ops) => {
                self.ex(e);
                for o in ops {
                    match o {
                        Op::Attr(i) => self.p(&format!(".{i}")),
                        Op::Idx(e) => {
                            self.p("[");
                            self.ex(e);
                            self.p("]");
                        }
                        Op::Legacy(n) => self.p(&format!(".{n}")),
                        Op::AttrSplat => self.p(".*"),
                        Op::FullSplat => self.p("[*]"),
                    }
                }
            }
            E::Un(o, e) => {
                self.p(if *o == UnOp::Neg { "-" } else { "!" });
                self.ex(e);
            }
            E::Bin(a, o, b) => {
                self.ex(a);
                self.p(&format!(" {} ", o.s()));
                self.ex(b);
            }
            E::For(x) => {
                self.p(if x.kexpr.is_some() { "{for " } else { "[for " });
                if let Some(k) = &x.key {
                    self.p(&format!("{k}, "));
                }
                self.p(&format!("{} in ", x.val));
                self.ex(&x.coll);
                self.p(" : ");
                if let Some(k) = &x.kexpr {
                    self.ex(k);
                    self.p(" => ");
                }
                self.ex(&x.vexpr);
                self.p(if x.group { "..." } else { "" });
                if let Some(c) = &x.cond {
                    self.p(" if ");
                    self.ex(c);
                }
                self.p(if x.kexpr.is_some() { "}" } else { "]" });
            }
        }
    }
    fn mark(&mut self, dir: bool, s: Strip, f: &mut dyn FnMut(&mut Self)) {
        self.p(if dir { "%{" } else { "${" });
        self.p(if s.0 { "~" } else { "" });
        self.p(if dir { " " } else { "" });
        f(self);
        self.p(if dir { " " } else { "" });
        self.p(if s.1 { "~}" } else { "}" });
    }
    fn template(&mut self, ts: &[T]) {
        for t in ts {
            match t {
                T::Lit(s) => self.p(&s.replace("${", "$${").replace("%{", "%%{")),
                T::Interp(e, s) => self.mark(false, *s, &mut |f| f.ex(e)),
                T::If(d) => {
                    self.mark(true, d.s1, &mut |f| {
                        f.p("if ");
                        f.ex(&d.cond);
                    });
                    self.template(&d.then);
                    if let Some((s, e)) = &d.els {
                        self.mark(true, *s, &mut |f| f.p("else"));
                        self.template(e);
                    }
                    self.mark(true, d.s3, &mut |f| f.p("endif"));
                }
                T::For(d) => {
                    self.mark(true, d.s1, &mut |f| {
                        f.p("for ");
                        if let Some(k) = &d.key {
                            f.p(&format!("{k}, "));
                        }
                        f.p(&format!("{} in ", d.val));
                        f.ex(&d.coll);
                    });
                    self.template(&d.body);
                    self.mark(true, d.s2, &mut |f| f.p("endfor"));
                }
            }
        }
    }
}

fn want(c: &Cfg, f: impl FnOnce(&mut F)) -> String {
    let mut x = F { c, out: String::new(), depth: 0, compact: 0 };
    f(&mut x);
    x.out
}

/// The text of an expression in compact form.
pub fn compact(e: &E) -> String {
    want(&Cfg { arrays: true, objects: true, ..DEFAULT }, |f| f.ex(e))
}

/// The text of an expression in the default form.
pub fn default(e: &E) -> String {
    want(&DEFAULT, |f| f.ex(e))
}

/// Spaces within the braces of an empty block do not matter.
fn squeeze(s: &str) -> String {
    let mut out = String::new();
    for line in s.split_inclusive('\n') {
        let t = line.trim_end_matches('\n');
        match t.strip_suffix('}').map(|t| t.trim_end_matches([' ', '\t'])) {
            Some(t) if t.ends_with('{') => {
                out.push_str(t);
                out.push_str("}\n");
            }
            _ => out.push_str(line),
        }
    }
    out
}

/// Normalises the spelling of object keys.
fn keys(e: &E) -> E {
    fn key(k: &mut K) {
        if let K::Ex(E::Str(s)) = k {
            if bare_key(s) {
                *k = K::Id(s.clone());
            }
        }
    }
    let mut e = e.clone();
    crate::p_eq::mut_e(&mut e, &mut |e| {
        if let E::Obj(o) = e {
            o.iter_mut().for_each(|(k, _)| key(k));
            // Keys that become equal: the last value counts.
            let mut out: Vec<(K, E)> = vec![];
            for (k, e) in std::mem::take(o) {
                match out.iter_mut().find(|(x, _)| *x == k) {
                    Some(x) => x.1 = e,
                    None => out.push((k, e)),
                }
            }
            *o = out;
        }
    });
    e
}

fn keys_b(b: &[S]) -> B {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), keys(e)),
            S::Block(b) => S::Block(Block { ident: b.ident.clone(), labels: b.labels.clone(), body: keys_b(&b.body) }),
        })
        .collect()
}

fn diff(obs: &mut Obs, src: &str, what: &str, got: &str, want: &str) -> bool {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(got, want)));
    }
    got == want
}

/// A writer that takes only a few bytes at a time, and fails at the end of its capacity.
struct Slow {
    got: Vec<u8>,
    cap: usize,
    step: usize,
}

impl io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.step).min(self.cap - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(io::Error::other("full"));
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn writers<X: Format>(obs: &mut Obs, rng: &mut Rng, src: &str, c: &Cfg, x: &X, text: &str) {
    let mut w = Slow { got: vec![], cap: usize::MAX, step: rng.range(1, 5) };
    match x.format(&mut c.to(&mut w)) {
        Ok(()) => {
            diff(obs, src, "text written in small steps", &String::from_utf8_lossy(&w.got), text);
        }
        Err(e) => obs.fail(src, format!("formatting failed: {e}")),
    }
    if !text.is_empty() {
        obs.feat("failing writer");
        let mut w = Slow { got: vec![], cap: rng.below(text.len()), step: 7 };
        if x.format(&mut c.to(&mut w)).is_ok() {
            obs.fail(src, "a write error was ignored");
        }
        if !text.as_bytes().starts_with(&w.got) {
            obs.fail(src, "the text written in front of a write error is not a prefix of the text");
        }
    }
    if c.indent == DEFAULT.indent && !c.dense && !c.arrays && !c.objects && !c.ident_keys {
        obs.feat("default configuration");
        let s = hcl::format::to_string(x).unwrap_or_default();
        diff(obs, src, "format::to_string", &s, text);
        let s = hcl::format::to_vec(x).unwrap_or_default();
        diff(obs, src, "format::to_vec", &String::from_utf8_lossy(&s), text);
        let mut s = vec![];
        let _ = hcl::format::to_writer(&mut s, x);
        diff(obs, src, "format::to_writer", &String::from_utf8_lossy(&s), text);
        let mut f = Formatter::new(vec![]);
        let _ = x.format(&mut f);
        diff(obs, src, "Formatter::new", &String::from_utf8_lossy(&f.into_inner()), text);
        let mut f = Formatter::default();
        diff(obs, src, "Formatter::default", &x.format_string(&mut f).unwrap_or_default(), text);
    }
}

/// Formats and compares with the expected text.
fn text<X: Format>(obs: &mut Obs, src: &str, c: &Cfg, x: &X, want: &str) -> Option<String> {
    match x.format_string(&mut c.vec()) {
        Err(e) => {
            obs.fail(src, format!("formatting failed: {e}"));
            None
        }
        Ok(t) => {
            obs.feat("formatted");
            diff(obs, src, "the layout is not the configured one", &squeeze(&t), &squeeze(want)).then_some(t)
        }
    }
}

fn body_case(obs: &mut Obs, rng: &mut Rng, c: &Cfg, b: &[S]) {
    let r = conv::to_rs_body(b);
    let src = format!("{c:?}\n{r:?}");
    obs.case(&src, b.len() > 1);
    let w = want(c, |f| f.body(b));
    let got = r.format_string(&mut c.vec()).unwrap_or_default();
    match hcl::parse(&got).map_err(|e| e.to_string()).and_then(|p| conv::rs_body(&p).map(|m| (p, m))) {
        Err(e) => {
            obs.fail(format!("{src}\n--- formatted\n{got}"), format!("the formatted text does not parse: {e}"));
            return;
        }
        Ok((p, m)) => {
            let (g, w) = (keys_b(&nb(&m, Nf::Rs)), keys_b(&nb(b, Nf::Rs)));
            if g != w {
                obs.fail(format!("{src}\n--- formatted\n{got}"), format!("formatting changed the meaning: {}", first_diff(&format!("{g:?}"), &format!("{w:?}"))));
                return;
            }
            let again = p.format_string(&mut c.vec()).unwrap_or_default();
            diff(obs, &format!("{src}\n--- formatted\n{got}"), "formatting the parsed text again", &again, &got);
        }
    }
    text(obs, &src, c, &r, &w);
    writers(obs, rng, &src, c, &r, &got);
    // Piece by piece through one formatter.
    let mut f = c.to(vec![]);
    for s in &r {
        let ok = match s {
            hcl::Structure::Attribute(a) if rng.bool() => a.format(&mut f),
            hcl::Structure::Block(b) if rng.bool() => b.format(&mut f),
            s if rng.bool() => (&s).format(&mut f),
            s => s.format(&mut f),
        };
        if let Err(e) = ok {
            obs.fail(&src, format!("formatting failed: {e}"));
        }
    }
    diff(obs, &src, "structures formatted one after the other", &String::from_utf8_lossy(&f.into_inner()), &got);
    for (s, m) in r.iter().zip(b) {
        let one = want(c, |f| f.structure(m));
        text(obs, &src, c, s, &one);
        match s {
            hcl::Structure::Attribute(a) => {
                text(obs, &src, c, a, &one);
                text(obs, &src, c, &a.key, a.key.as_str());
            }
            hcl::Structure::Block(b) => {
                text(obs, &src, c, b, &one);
                for l in &b.labels {
                    let w = match l {
                        hcl::BlockLabel::Identifier(i) => i.to_string(),
                        hcl::BlockLabel::String(s) => escaped(s),
                    };
                    text(obs, &src, c, l, &w);
                }
            }
        }
    }
}

fn expr_case(obs: &mut Obs, rng: &mut Rng, c: &Cfg, m: &E) {
    let r = conv::to_rs_expr(m);
    let src = format!("{c:?}\n{r:?}");
    obs.case(&src, src.len() > 100);
    let Some(t) = text(obs, &src, c, &r, &want(c, |f| f.ex(m))) else { return };
    match t.parse::<hcl::Expression>().map_err(|e| e.to_string()).and_then(|p| conv::rs_expr(&p).map(|m| (p, m))) {
        Err(e) => obs.fail(format!("{src}\n--- formatted\n{t}"), format!("the formatted text does not parse: {e}")),
        Ok((p, g)) => {
            let (g, w) = (keys(&ne(&g, Nf::Rs)), keys(&ne(m, Nf::Rs)));
            if g != w {
                obs.fail(format!("{src}\n--- formatted\n{t}"), format!("formatting changed the meaning: {}", first_diff(&format!("{g:?}"), &format!("{w:?}"))));
                return;
            }
            diff(obs, &format!("{src}\n--- formatted\n{t}"), "formatting the parsed text again", &p.format_string(&mut c.vec()).unwrap_or_default(), &t);
        }
    }
    writers(obs, rng, &src, c, &r, &t);
    diff(obs, &src, "Display of an expression", &r.to_string(), &want(&DEFAULT, |f| f.ex(m)));
    // The types of the single kinds.
    use hcl::Expression as X;
    let n = |obs: &mut Obs| obs.feat("formatted kinds");
    match &r {
        X::String(x) => {
            n(obs);
            text(obs, &src, c, x, &t);
        }
        X::Number(x) => {
            n(obs);
            text(obs, &src, c, x, &t);
        }
        X::Variable(x) => {
            n(obs);
            text(obs, &src, c, x, &t);
        }
        X::TemplateExpr(x) => {
            n(obs);
            text(obs, &src, c, &**x, &t);
            if let hcl::TemplateExpr::Heredoc(h) = &**x {
                text(obs, &src, c, h, &t);
            }
        }
        X::Traversal(x) => {
            n(obs);
            text(obs, &src, c, &**x, &t);
            let ops: String = x.operators.iter().map(|o| o.format_string(&mut c.vec()).unwrap_or_default()).collect();
            let base = x.expr.format_string(&mut c.vec()).unwrap_or_default();
            diff(obs, &src, "traversal operators", &(base + &ops), &t);
        }
        X::FuncCall(x) => {
            n(obs);
            text(obs, &src, c, &**x, &t);
            let name = x.name.format_string(&mut c.vec()).unwrap_or_default();
            if !t.starts_with(&format!("{name}(")) {
                obs.fail(&src, format!("function name {name:?}"));
            }
            diff(obs, &src, "Display of a function name", &x.name.to_string(), &name);
        }
        X::Conditional(x) => {
            n(obs);
            text(obs, &src, c, &**x, &t);
        }
        X::Operation(x) => {
            n(obs);
            text(obs, &src, c, &**x, &t);
            match &**x {
                hcl::expr::Operation::Unary(x) => text(obs, &src, c, x, &t),
                hcl::expr::Operation::Binary(x) => text(obs, &src, c, x, &t),
            };
        }
        X::ForExpr(x) => {
            n(obs);
            text(obs, &src, c, &**x, &t);
        }
        X::Object(x) => {
            for ((k, _), m) in x.iter().zip(match m {
                E::Obj(m) => m,
                _ => return,
            }) {
                n(obs);
                text(
                    obs,
                    &src,
                    c,
                    k,
                    &want(c, |f| match &m.0 {
                        K::Id(i) => f.p(i),
                        K::Ex(E::Str(s)) => f.key(s),
                        K::Ex(e) => f.ex(e),
                    }),
                );
                let w = match &m.0 {
                    K::Id(i) => i.clone(),
                    K::Ex(E::Str(s)) => s.clone(),
                    K::Ex(e) => want(&DEFAULT, |f| f.ex(e)),
                };
                diff(obs, &src, "Display of an object key", &k.to_string(), &w);
            }
        }
        _ => {}
    }
}

fn template_case(obs: &mut Obs, rng: &mut Rng, c: &Cfg, m: &[T]) {
    let r = conv::to_rs_template(m);
    let src = format!("{c:?}\n{r:?}");
    obs.case(&src, m.len() > 1);
    let Some(t) = text(obs, &src, c, &r, &want(c, |f| f.template(m))) else { return };
    match t.parse::<hcl::Template>().map_err(|e| e.to_string()).and_then(|p| conv::rs_template(&p).map(|m| (p, m))) {
        Err(e) => obs.fail(format!("{src}\n--- formatted\n{t}"), format!("the formatted text does not parse: {e}")),
        Ok((p, g)) => {
            let k = |t: &[T]| keys(&E::Tmpl(nt(t, Nf::Rs)));
            let (g, w) = (k(&g), k(m));
            if g != w {
                obs.fail(format!("{src}\n--- formatted\n{t}"), format!("formatting changed the meaning: {}", first_diff(&format!("{g:?}"), &format!("{w:?}"))));
                return;
            }
            diff(obs, &format!("{src}\n--- formatted\n{t}"), "formatting the parsed text again", &p.format_string(&mut c.vec()).unwrap_or_default(), &t);
        }
    }
    writers(obs, rng, &src, c, &r, &t);
    diff(obs, &src, "Display of a template", &r.to_string(), &want(&DEFAULT, |f| f.template(m)));
    for (x, m) in r.elements().iter().zip(m) {
        let m = std::slice::from_ref(m);
        let w = want(c, |f| f.template(m));
        obs.feat("formatted kinds");
        text(obs, &src, c, x, &w);
        match x {
            hcl::template::Element::Interpolation(x) => {
                text(obs, &src, c, x, &w);
            }
            hcl::template::Element::Directive(x) => {
                text(obs, &src, c, &**x, &w);
                match &**x {
                    hcl::template::Directive::If(x) => text(obs, &src, c, x, &w),
                    hcl::template::Directive::For(x) => text(obs, &src, c, x, &w),
                };
            }
            _ => {}
        }
    }
}

/// A string that is a template is written as template, one without markers as string.
fn templates_stay(obs: &mut Obs, show: &str, v: &V, e: &hcl::Expression) {
    use hcl_edit::template::{Element, Template};
    match (v, e) {
        (V::Arr(a), hcl::Expression::Array(b)) => a.iter().zip(b).for_each(|(a, b)| templates_stay(obs, show, a, b)),
        (V::Obj(a), hcl::Expression::Object(b)) => a.iter().zip(b.values()).for_each(|((_, a), b)| templates_stay(obs, show, a, b)),
        (V::Str(s), e) => {
            let marked = s.contains("${") || s.contains("%{");
            let template = s.parse::<Template>().is_ok_and(|t| t.iter().any(|e| !matches!(e, Element::Literal(_))));
            if template && !matches!(e, hcl::Expression::TemplateExpr(_)) {
                obs.fail(show, format!("the template {s:?} is written as the string {e:?}"));
            }
            if !marked && !matches!(e, hcl::Expression::String(_)) {
                obs.fail(show, format!("the string {s:?} is written as {e:?}"));
            }
        }
        _ => {}
    }
}

fn value_case(obs: &mut Obs, rng: &mut Rng, c: &Cfg, v: &V) {
    let r = v.to();
    let src = format!("{c:?}\n{r:?}");
    obs.case(&src, src.len() > 100);
    v.walk(&mut |v| obs.feat(v.kind()));
    let t = match r.format_string(&mut c.vec()) {
        Ok(t) => t,
        Err(e) => {
            obs.fail(&src, format!("formatting failed: {e}"));
            return;
        }
    };
    let show = format!("{src}\n--- formatted\n{t}");
    match t.parse::<hcl::Expression>() {
        Err(e) => obs.fail(&show, format!("the formatted text does not parse: {e}")),
        Ok(p) => {
            templates_stay(obs, &show, v, &p);
            let back = hcl::Value::from(p);
            if V::of(&back) != *v {
                obs.fail(&show, format!("formatting changed the value: {}", first_diff(&format!("{back:?}"), &format!("{r:?}"))));
                return;
            }
            diff(obs, &show, "formatting the parsed value again", &back.format_string(&mut c.vec()).unwrap_or_default(), &t);
        }
    }
    // Without templates the text is known.
    let mut marker = false;
    v.walk(&mut |v| marker |= matches!(v, V::Str(s) if s.contains("${") || s.contains("%{")));
    if !marker {
        obs.feat("value layout");
        diff(obs, &src, "the layout is not the configured one", &t, &want(c, |f| f.ex(&v.expr())));
        diff(obs, &src, "Display of a value", &r.to_string(), &want(&DEFAULT, |f| f.ex(&v.expr())));
    }
    writers(obs, rng, &src, c, &r, &t);
}

/// Turns strings into sources of templates, long ones too.
fn templated(obs: &mut Obs, rng: &mut Rng, v: &mut V) {
    const PARTS: &[&str] = &[
        "${f(\"x\")}", "${ a.b[\"c d\"] }", "%{ if x == \"y\" }yes%{ else }\"no\"%{ endif }", "%{~ for k, v in { a = \"1\" } }${k}%{ endfor ~}",
        " text ", "\"quoted\"", "$${no}", "é", "${\"${a}\"}", "${~ x ~}", "\n", "\\",
    ];
    match v {
        V::Str(s) if rng.bool() => {
            let n = if rng.one_in(3) { rng.range(10, 60) } else { rng.range(1, 5) };
            *s = (0..n).map(|_| *rng.pick(PARTS)).collect();
            obs.feat("templated string");
            if s.len() > 200 {
                obs.feat("long templated string");
            }
        }
        V::Arr(a) => a.iter_mut().for_each(|v| templated(obs, rng, v)),
        V::Obj(o) => o.iter_mut().for_each(|(_, v)| templated(obs, rng, v)),
        _ => {}
    }
}

/// One formatter for many things.
fn reuse(obs: &mut Obs, rng: &mut Rng, c: &Cfg) {
    let mut f = c.vec();
    let mut src = format!("{c:?}");
    let n = rng.range(2, 8);
    for i in 0..n {
        let mut o = fmt_opts();
        o.max_depth = 3;
        macro_rules! go {
            ($x:expr) => {{
                let x = $x;
                src.push_str(&format!("\n--- item {i}\n{x:?}"));
                let want = x.format_vec(&mut c.vec()).unwrap_or_default();
                let got = if rng.bool() { x.format_vec(&mut f).unwrap_or_default() } else { x.format_string(&mut f).unwrap_or_default().into_bytes() };
                diff(obs, &src, "a formatter that is used again", &String::from_utf8_lossy(&got), &String::from_utf8_lossy(&want));
            }};
        }
        match rng.below(5) {
            0 => go!(conv::to_rs_body(&gen_body(rng, o))),
            1 => go!(conv::to_rs_expr(&gen_expr(rng, o))),
            2 => {
                let b = gen_body(rng, o);
                match conv::to_rs_body(&b).into_iter().next() {
                    Some(s) => go!(s),
                    None => {}
                }
            }
            3 => {
                let mut g = G::new(rng, o);
                g.budget = 15;
                let t = g.bare(2);
                go!(conv::to_rs_template(&t))
            }
            _ => {
                let v = G::new(rng, o).val(3);
                go!(v.to())
            }
        }
        obs.feat("uses of one formatter");
    }
    obs.case(&src, true);
}

/// Heredocs of any text: they are printed as they are, a final newline is added if there is none,
/// and they are read back as the same text.
fn heredocs(obs: &mut Obs, rng: &mut Rng, c: &Cfg) {
    use hcl::expr::{Heredoc, HeredocStripMode, TemplateExpr};
    let mut t = String::new();
    for _ in 0..rng.below(5) {
        if !t.is_empty() {
            t.push_str(if rng.one_in(6) { "\r\n" } else { "\n" });
        }
        for _ in 0..rng.below(4) {
            t.push_str(rng.pick(&["a", "é", "\\n", "\"", "\\", "$", "%", "x y", "EO", "}", "#", "-", "'", "1", "\u{7f}"]));
        }
    }
    t.push_str(rng.pick(&["", "\n", "\n", "\r\n", "\r", " ", "\n\n", "\\"]));
    let h = Heredoc::new(hcl::Identifier::new("EOT").unwrap(), t.clone());
    let h = if rng.bool() { h.with_strip_mode(HeredocStripMode::Indent) } else { h };
    let src = format!("{h:?} {c:?}");
    obs.case(&src, t.len() > 2);
    obs.feat(if t.ends_with('\n') { "heredoc with a final newline" } else { "heredoc without a final newline" });
    let body = hcl::Body::builder()
        .add_attribute(("a", hcl::Expression::from(TemplateExpr::Heredoc(h.clone()))))
        .add_attribute(("b", 1))
        .build();
    let end = if t.is_empty() || t.ends_with('\n') { "" } else { "\n" };
    let text = body.format_string(&mut c.vec()).expect("formatted");
    diff(obs, &src, "heredoc", &text, &format!("a = {}EOT\n{t}{end}EOT\nb = 1\n", h.strip.as_str()));
    let want = Heredoc { template: format!("{t}{end}"), ..h };
    match hcl::parse(&text) {
        Ok(b) => {
            let got = b.attributes().next().map(|a| a.expr.clone());
            diff(obs, &src, "heredoc read again", &format!("{got:?}"), &format!("{:?}", Some(hcl::Expression::from(TemplateExpr::Heredoc(want)))));
        }
        Err(e) => obs.fail(&src, format!("a printed heredoc cannot be read: {e}\n{text}")),
    }
}

/// Indentation and buffers of any bytes: a string is valid UTF-8 or there is none.
fn odd_bytes(obs: &mut Obs, rng: &mut Rng, b: &hcl::Body) {
    const BYTES: &[&[u8]] = &[b"", b" ", b"\xff", b"\xc3\xa9", b"\xc3", b"\xed\xa0\x80", b"\t", b"\xf0\x9f", b"# ", b"\x80"];
    let indent: Vec<u8> = (0..rng.below(3)).flat_map(|_| rng.pick(BYTES).to_vec()).collect();
    let before: Vec<u8> = if rng.bool() { vec![] } else { (0..rng.below(3)).flat_map(|_| rng.pick(BYTES).to_vec()).collect() };
    let dense = rng.bool();
    let make = || Formatter::builder().indent(&indent).dense(dense).build(before.clone());
    let src = format!("{before:?} {indent:?} {b:?}");
    obs.case(&src, b.0.len() > 1);
    let (bytes, text) = (b.format_vec(&mut make()), b.format_string(&mut make()));
    let Ok(bytes) = bytes else {
        obs.fail(&src, "bytes could not be formatted");
        return;
    };
    let want = String::from_utf8(bytes.clone()).ok();
    obs.feat(if want.is_some() { "text of odd bytes" } else { "text that is no UTF-8" });
    match (text, want) {
        (Ok(t), w) if w.as_ref().map(|w| w.as_bytes()) != Some(t.as_bytes()) => obs.fail(&src, format!("the string has the bytes {:?}, the bytes are {bytes:?}", t.as_bytes())),
        (Err(e), Some(_)) => obs.fail(&src, format!("valid text is refused: {e}")),
        _ => {}
    }
}

pub fn p11(m: &mut Mon) {
    m.rule = "an item counts when it has at least two structures or elements, or a nested expression".into();
    require_kinds(m);
    for (f, n) in [
        ("formatted", 10_000),
        ("formatted kinds", 1000),
        ("uses of one formatter", 1000),
        ("failing writer", 1000),
        ("default configuration", 500),
        ("heredoc with a final newline", 500),
        ("heredoc without a final newline", 500),
        ("value layout", 500),
        ("templated string", 300),
        ("long templated string", 50),
        ("array value", 500),
        ("object value", 500),
    ] {
        m.require(f, n);
    }
    m.cases("bodies", m.n(15_000), |obs, rng, _| {
        let c = Cfg::gen(rng);
        let b = gen_body(rng, fmt_opts());
        walk_b(&b, &mut |e| obs.feat(kind(e)));
        body_case(obs, rng, &c, &b);
    });
    m.cases("expressions", m.n(15_000), |obs, rng, _| {
        let c = Cfg::gen(rng);
        let e = gen_expr(rng, fmt_opts());
        walk_e(&e, &mut |e| obs.feat(kind(e)));
        expr_case(obs, rng, &c, &e);
    });
    m.cases("templates", m.n(8000), |obs, rng, _| {
        let c = Cfg::gen(rng);
        let mut g = G::new(rng, fmt_opts());
        g.budget = 30;
        let t = g.bare(3);
        template_case(obs, rng, &c, &t);
    });
    m.cases("values", m.n(15_000), |obs, rng, _| {
        let c = Cfg::gen(rng);
        let mut v = G::new(rng, fmt_opts()).val(4);
        if rng.one_in(4) {
            templated(obs, rng, &mut v);
        }
        value_case(obs, rng, &c, &v);
    });
    m.cases("heredocs", m.n(6000), |obs, rng, _| {
        let c = Cfg::gen(rng);
        heredocs(obs, rng, &c);
    });
    m.require("text that is no UTF-8", 200);
    m.require("text of odd bytes", 500);
    m.cases("bytes", m.n(3000), |obs, rng, _| {
        let b = conv::to_rs_body(&gen_body(rng, fmt_opts()));
        odd_bytes(obs, rng, &b);
    });
    m.cases("reuse", m.n(4000), |obs, rng, _| {
        let c = Cfg::gen(rng);
        reuse(obs, rng, &c);
    });
}
