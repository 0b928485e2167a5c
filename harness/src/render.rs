//! Renders model documents to source text with random trivia and records where every node starts
//! and ends.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Single spaces only, strings in canonical form.
    Plain,
    /// Random trivia, strings in canonical form: the printed document must be identical.
    Lossless,
    /// Random trivia, random spellings of strings, CRLF line endings.
    Wild,
}

pub struct R<'r> {
    pub out: String,
    r: &'r mut Rng,
    mode: Mode,
    pub spans: Vec<(&'static str, usize, usize)>,
    /// Probability (percent) of interesting trivia.
    pub triv: usize,
    pub crlf: bool,
    pub comments: u64,
}

fn is_idc(c: char) -> bool {
    // Approximation good enough to decide whether a separator is needed.
    c.is_alphanumeric() || c == '_' || c == '-' || c as u32 > 127
}

impl<'r> R<'r> {
    pub fn new(r: &'r mut Rng, mode: Mode) -> R<'r> {
        let triv = if mode == Mode::Plain {
            0
        } else {
            *r.pick(&[0, 5, 15, 40, 80])
        };
        let crlf = mode == Mode::Wild && r.pct(20);
        R {
            out: String::new(),
            r,
            mode,
            spans: vec![],
            triv,
            crlf,
            comments: 0,
        }
    }

    fn open(&mut self, k: &'static str) -> usize {
        self.spans.push((k, self.out.len(), 0));
        self.spans.len() - 1
    }
    fn close(&mut self, i: usize) {
        self.spans[i].2 = self.out.len();
    }
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }

    // --- trivia ------------------------------------------------------------------------------

    fn comment_text(&mut self) -> String {
        let n = self.r.below(3);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(self.r.pick(&[
                " c", "\"", "${", "}", "*", "/", "é😀", "<<EOT", "#", " a = 1", "\\", "\t", "%{", "'",
            ]));
        }
        s
    }

    fn triv_sp(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(6) {
                0..=2 => s.push_str(self.r.pick(&[" ", "  ", "\t", "    "])),
                3 => s.push_str("/**/"),
                4 => {
                    let c = self.comment_text().replace('*', "");
                    s.push_str(&format!("/*{c} */"));
                    self.comments += 1;
                }
                _ => {
                    if self.r.pct(40) {
                        s.push_str("/* multi\n line */");
                        self.comments += 1;
                    } else {
                        s.push(' ');
                    }
                }
            }
        }
        s
    }

    fn triv_ws(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(7) {
                0 | 1 => {
                    let t = self.triv_sp();
                    s.push_str(&t);
                }
                2 | 3 => s.push_str(self.r.pick(&["\n", "\n\n  ", " \n", "\r\n", "\n\t"])),
                4 | 5 => {
                    let c = self.comment_text();
                    let m = *self.r.pick(&["#", "//"]);
                    s.push_str(&format!("{m}{c}\n"));
                    self.comments += 1;
                }
                _ => s.push(' '),
            }
        }
        s
    }

    /// Optional trivia.
    fn tr(&mut self, nl: bool, default: &str) {
        let t = if self.r.pct(self.triv) {
            if nl {
                self.triv_ws()
            } else {
                self.triv_sp()
            }
        } else if self.mode != Mode::Plain && self.r.pct(self.triv / 2) {
            String::new()
        } else {
            default.to_string()
        };
        self.p(&t);
    }

    /// Trivia which separates two words.
    fn sep(&mut self, nl: bool) {
        let n = self.out.len();
        self.tr(nl, " ");
        if self.out.len() == n {
            self.out.insert(n, ' ');
        }
    }

    /// Trivia in front of something that starts with a character that may continue an identifier.
    fn sep_if_idc(&mut self, nl: bool, default: &str) {
        let prev = self.out.chars().last();
        let n = self.out.len();
        self.tr(nl, default);
        if self.out.len() == n && prev.is_some_and(is_idc) {
            self.p(" ");
        }
    }

    // --- strings -----------------------------------------------------------------------------

    fn esc_char(&mut self, c: char) {
        let wild = self.mode == Mode::Wild;
        match c {
            '\u{8}' => self.p("\\b"),
            '\t' if !(wild && self.r.bool()) => self.p("\\t"),
            '\n' if !(wild && self.r.one_in(4)) => self.p("\\n"),
            '\u{c}' => self.p("\\f"),
            '\r' if !(wild && self.r.one_in(4)) => self.p("\\r"),
            '"' => self.p("\\\""),
            '\\' => self.p("\\\\"),
            '\t' | '\n' | '\r' => self.out.push(c),
            c if (c <= '\u{1f}' || c == '\u{7f}') && !(wild && self.r.one_in(4)) => {
                let s = format!("\\u{:04X}", c as u32);
                self.p(&s);
            }
            c => self.out.push(c),
        }
    }

    fn hex_esc(&mut self, c: char) {
        let v = c as u32;
        let s = if v > 0xffff || self.r.one_in(3) {
            if self.r.bool() {
                format!("\\U{v:08x}")
            } else {
                format!("\\U{v:08X}")
            }
        } else if self.r.bool() {
            format!("\\u{v:04x}")
        } else {
            format!("\\u{v:04X}")
        };
        self.p(&s);
    }

    /// The contents of a quoted string or literal.
    fn quoted_text(&mut self, s: &str) {
        let wild = self.mode == Mode::Wild;
        let cs: Vec<char> = s.chars().collect();
        let mut skip = false;
        for (i, &c) in cs.iter().enumerate() {
            if std::mem::take(&mut skip) {
                continue;
            }
            let next = cs.get(i + 1).copied();
            if (c == '$' || c == '%') && next == Some('{') {
                match if wild { self.r.below(6) } else { 5 } {
                    0 => {
                        self.hex_esc(c);
                        self.p("{");
                    }
                    1 => {
                        self.out.push(c);
                        self.hex_esc('{');
                    }
                    2 => {
                        self.hex_esc(c);
                        self.hex_esc('{');
                    }
                    _ => {
                        self.out.push(c);
                        self.out.push(c);
                        self.p("{");
                    }
                }
                skip = true;
                continue;
            }
            if wild && self.r.pct(8) {
                self.hex_esc(c);
                continue;
            }
            if wild && c == '/' && self.r.pct(20) {
                self.p("\\/");
                continue;
            }
            self.esc_char(c);
        }
    }

    fn quoted_string(&mut self, s: &str) {
        self.p("\"");
        self.quoted_text(s);
        self.p("\"");
    }

    fn raw_text(&mut self, s: &str) {
        let s = s.replace("${", "$${").replace("%{", "%%{");
        self.p(&s);
    }

    // --- templates ---------------------------------------------------------------------------

    fn elems(&mut self, ts: &[T], quoted: bool) {
        self.elems_in(ts, quoted, None);
    }

    /// `end` is the first character of the marker behind the elements.
    fn elems_in(&mut self, ts: &[T], quoted: bool, end: Option<char>) {
        for (i, t) in ts.iter().enumerate() {
            let next = match ts[i + 1..].iter().find(|t| !matches!(t, T::Lit(s) if s.is_empty())) {
                None => end,
                Some(T::Lit(_)) => None,
                Some(T::Interp(..)) => Some('$'),
                Some(_) => Some('%'),
            };
            let sp = self.open("elem");
            match t {
                T::Lit(s) => {
                    if quoted && next.is_some_and(|c| s.ends_with(c)) {
                        self.quoted_text(&s[..s.len() - 1]);
                        let c = next.unwrap();
                        if self.mode == Mode::Wild {
                            self.hex_esc(c);
                        } else {
                            self.p(&format!("\\u{:04X}", c as u32));
                        }
                    } else if quoted {
                        self.quoted_text(s);
                    } else {
                        self.raw_text(s);
                    }
                }
                T::Interp(e, s) => {
                    self.p(if s.0 { "${~" } else { "${" });
                    self.tr(true, " ");
                    self.expr(e, true);
                    self.tr(true, " ");
                    self.p(if s.1 { "~}" } else { "}" });
                }
                T::If(d) => {
                    self.p(if d.s1.0 { "%{~" } else { "%{" });
                    self.tr(true, " ");
                    self.p("if");
                    self.sep(true);
                    self.expr(&d.cond, true);
                    self.tr(true, " ");
                    self.p(if d.s1.1 { "~}" } else { "}" });
                    self.elems_in(&d.then, quoted, Some('%'));
                    if let Some((s, e)) = &d.els {
                        self.ctl("else", *s);
                        self.elems_in(e, quoted, Some('%'));
                    }
                    self.ctl("endif", d.s3);
                }
                T::For(d) => {
                    self.p(if d.s1.0 { "%{~" } else { "%{" });
                    self.tr(true, " ");
                    self.p("for");
                    self.sep(true);
                    if let Some(k) = &d.key {
                        self.id(k);
                        self.tr(true, "");
                        self.p(",");
                        self.tr(true, " ");
                    }
                    self.id(&d.val);
                    self.sep(true);
                    self.p("in");
                    self.sep(true);
                    self.expr(&d.coll, true);
                    self.tr(true, " ");
                    self.p(if d.s1.1 { "~}" } else { "}" });
                    self.elems_in(&d.body, quoted, Some('%'));
                    self.ctl("endfor", d.s2);
                }
            }
            self.close(sp);
        }
    }

    fn ctl(&mut self, kw: &str, s: Strip) {
        self.p(if s.0 { "%{~" } else { "%{" });
        self.tr(true, " ");
        self.p(kw);
        self.tr(true, " ");
        self.p(if s.1 { "~}" } else { "}" });
    }

    pub fn template(&mut self, ts: &[T]) {
        self.elems(ts, false);
    }

    // --- expressions -------------------------------------------------------------------------

    fn id(&mut self, s: &str) {
        let i = self.open("id");
        self.p(s);
        self.close(i);
    }

    pub fn num(&mut self, n: N) {
        let neg = match n {
            N::U(_) => false,
            N::I(_) => true,
            N::F(f) => f < 0.0,
        };
        if neg {
            self.p("-");
            if self.mode != Mode::Plain && self.r.pct(self.triv / 2) {
                let t = self.triv_sp();
                self.p(&t);
            }
        }
        let wild = self.mode != Mode::Plain;
        let s = match n {
            N::U(_) | N::I(_) => {
                let v = match n {
                    N::U(u) => u,
                    N::I(i) => i.unsigned_abs(),
                    N::F(_) => unreachable!(),
                };
                if wild && v < 1 << 50 && self.r.pct(15) {
                    match self.r.below(4) {
                        0 => format!("{v}.0"),
                        1 => format!("{v}e0"),
                        2 => format!("{v}.00E+0"),
                        _ => format!("{v}0e-1"),
                    }
                } else {
                    v.to_string()
                }
            }
            N::F(f) => {
                let f = f.abs();
                match self.r.below(3) {
                    0 => format!("{f:e}"),
                    1 => format!("{f:?}"),
                    _ => {
                        let s = format!("{f}");
                        if s.contains('.') {
                            s
                        } else {
                            format!("{s}.0")
                        }
                    }
                }
            }
        };
        self.p(&s);
    }

    pub fn expr(&mut self, e: &E, nl: bool) {
        let sp = self.open("expr");
        match e {
            E::Null => self.p("null"),
            E::Bool(b) => self.p(if *b { "true" } else { "false" }),
            E::Num(n) => self.num(*n),
            E::Str(s) => self.quoted_string(s),
            E::Tmpl(ts) => {
                self.p("\"");
                self.elems(ts, true);
                self.p("\"");
            }
            E::Heredoc(h) => {
                self.p(if h.strip { "<<-" } else { "<<" });
                self.p(&h.delim);
                let crlf = self.crlf && self.r.bool();
                self.p(if crlf { "\r\n" } else { "\n" });
                debug_assert!(h.indent.unwrap_or(0) == 0);
                self.elems(&h.body, false);
                let t = *self.r.pick(&["", "", "  ", "\t"]);
                if self.mode != Mode::Plain {
                    self.p(t);
                }
                self.p(&h.delim);
            }
            E::Arr(v) => {
                self.p("[");
                self.list(v, true);
                self.p("]");
            }
            E::Obj(v) => self.object(v),
            E::Paren(e) => {
                self.p("(");
                self.tr(true, "");
                self.expr(e, true);
                self.tr(true, "");
                self.p(")");
            }
            E::Var(i) => self.p(i),
            E::Cond(c) => {
                self.expr(&c.0, nl);
                self.tr(nl, " ");
                self.p("?");
                self.tr(nl, " ");
                self.expr(&c.1, nl);
                self.tr(nl, " ");
                self.p(":");
                self.tr(nl, " ");
                self.expr(&c.2, nl);
            }
            E::Call(c) => {
                for n in &c.ns {
                    self.id(n);
                    self.tr(nl, "");
                    self.p("::");
                    self.tr(nl, "");
                }
                self.id(&c.name);
                self.tr(nl, "");
                self.p("(");
                self.list_args(c);
                self.p(")");
            }
            E::Trav(b, ops) => {
                self.expr(b, nl);
                for o in ops {
                    self.tr(nl, "");
                    let so = self.open("top");
                    match o {
                        Op::Attr(i) => {
                            self.p(".");
                            self.tr(true, "");
                            self.id(i);
                        }
                        Op::Legacy(n) => {
                            self.p(".");
                            self.tr(true, "");
                            self.p(&n.to_string());
                        }
                        Op::AttrSplat => {
                            self.p(".");
                            self.tr(true, "");
                            self.p("*");
                        }
                        Op::FullSplat => {
                            self.p("[");
                            self.tr(true, "");
                            self.p("*");
                            self.tr(true, "");
                            self.p("]");
                        }
                        Op::Idx(e) => {
                            self.p("[");
                            self.tr(true, "");
                            self.expr(e, true);
                            self.tr(true, "");
                            self.p("]");
                        }
                    }
                    self.close(so);
                }
            }
            E::Un(o, e) => {
                let s = self.open("unop");
                self.p(if *o == UnOp::Neg { "-" } else { "!" });
                self.close(s);
                self.tr(false, "");
                self.expr(e, nl);
            }
            E::Bin(l, o, r) => {
                self.expr(l, nl);
                if *o == BinOp::Sub {
                    self.sep_if_idc(nl, " ");
                } else {
                    self.tr(nl, " ");
                }
                let s = self.open("binop");
                self.p(o.s());
                self.close(s);
                let n = self.out.len();
                self.tr(nl, " ");
                if *o == BinOp::Div && self.out[n..].starts_with('/') {
                    self.out.insert(n, ' ');
                }
                self.expr(r, nl);
            }
            E::For(f) => {
                self.p(if f.kexpr.is_some() { "{" } else { "[" });
                self.tr(true, "");
                self.p("for");
                self.sep(true);
                if let Some(k) = &f.key {
                    self.id(k);
                    self.tr(true, "");
                    self.p(",");
                    self.tr(true, " ");
                }
                self.id(&f.val);
                self.sep(true);
                self.p("in");
                self.sep(true);
                self.expr(&f.coll, true);
                self.tr(true, " ");
                self.p(":");
                self.tr(true, " ");
                if let Some(k) = &f.kexpr {
                    self.expr(k, true);
                    self.tr(true, " ");
                    self.p("=>");
                    self.tr(true, " ");
                }
                self.expr(&f.vexpr, true);
                if f.group {
                    self.tr(true, "");
                    self.p("...");
                }
                if let Some(c) = &f.cond {
                    self.sep(true);
                    self.p("if");
                    self.sep(true);
                    self.expr(c, true);
                }
                self.tr(true, "");
                self.p(if f.kexpr.is_some() { "}" } else { "]" });
            }
        }
        self.close(sp);
    }

    fn list(&mut self, v: &[E], trailing_ok: bool) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.tr(true, if i > 0 { " " } else { "" });
            self.expr(e, true);
            self.tr(true, "");
        }
        if trailing_ok && !v.is_empty() && self.mode != Mode::Plain && self.r.pct(15) {
            self.p(",");
        }
        self.tr(true, "");
    }

    fn list_args(&mut self, c: &Call) {
        self.list(&c.args, !c.expand);
        if c.expand {
            self.p("...");
            self.tr(true, "");
        }
    }

    fn object(&mut self, v: &[(K, E)]) {
        self.p("{");
        for (i, (k, e)) in v.iter().enumerate() {
            self.tr(true, " ");
            match k {
                K::Id(i) => self.id(i),
                K::Ex(e) => self.expr(e, false),
            }
            self.tr(false, " ");
            let colon = self.mode != Mode::Plain && self.r.pct(25);
            self.p(if colon { ":" } else { "=" });
            self.tr(false, " ");
            self.expr(e, false);
            self.tr(false, "");
            let last = i + 1 == v.len();
            match self.r.below(4) {
                0 if self.mode != Mode::Plain => self.newline(),
                1 if self.mode != Mode::Plain && self.triv > 0 => {
                    let c = self.comment_text();
                    let m = *self.r.pick(&["#", "//"]);
                    self.p(&format!("{m}{c}"));
                    self.comments += 1;
                    self.newline();
                }
                2 if last => {
                    self.tr(false, " ");
                    self.p("}");
                    return;
                }
                _ => self.p(","),
            }
        }
        self.tr(true, " ");
        self.p("}");
    }

    fn newline(&mut self) {
        let cr = self.crlf && self.r.bool();
        self.p(if cr { "\r\n" } else { "\n" });
    }

    // --- structures --------------------------------------------------------------------------

    fn attr(&mut self, k: &str, e: &E) {
        self.id(k);
        self.tr(false, " ");
        self.p("=");
        self.tr(false, " ");
        self.expr(e, false);
    }

    pub fn body(&mut self, b: &[S], top: bool) {
        for (i, s) in b.iter().enumerate() {
            self.tr(true, "");
            let sp = self.open(match s {
                S::Attr(..) => "attr",
                S::Block(_) => "block",
            });
            match s {
                S::Attr(k, e) => self.attr(k, e),
                S::Block(b) => self.block(b),
            }
            self.close(sp);
            self.tr(false, "");
            if self.mode != Mode::Plain && self.r.pct(self.triv / 2) {
                let c = self.comment_text();
                let m = *self.r.pick(&["#", "//"]);
                self.p(&format!("{m}{c}"));
                self.comments += 1;
            }
            let last = top && i + 1 == b.len();
            if last && self.mode != Mode::Plain && self.r.pct(25) {
                return;
            }
            self.newline();
        }
        self.tr(true, "");
    }

    fn block(&mut self, b: &Block) {
        self.id(&b.ident);
        for (i, l) in b.labels.iter().enumerate() {
            match l {
                L::Id(s) => {
                    let _ = i;
                    self.sep_if_idc(false, " ");
                    self.id(s);
                }
                L::Str(s) => {
                    self.tr(false, " ");
                    let sp = self.open("id");
                    self.quoted_string(s);
                    self.close(sp);
                }
            }
        }
        self.tr(false, " ");
        self.p("{");
        let oneline_ok = match b.body.as_slice() {
            [] => true,
            [S::Attr(..)] => true,
            _ => false,
        };
        if oneline_ok && self.mode != Mode::Plain && self.r.pct(40) {
            self.tr(false, "");
            if let [S::Attr(k, e)] = b.body.as_slice() {
                let sp = self.open("attr");
                self.attr(k, e);
                self.close(sp);
                self.tr(false, " ");
            }
            self.p("}");
            return;
        }
        self.tr(false, "");
        if self.mode != Mode::Plain && self.r.pct(self.triv / 3) {
            let c = self.comment_text();
            self.p(&format!("#{c}"));
            self.comments += 1;
        }
        self.newline();
        self.body(&b.body, false);
        self.p("}");
    }
}

pub fn render_body(r: &mut Rng, b: &[S], mode: Mode) -> (String, Vec<(&'static str, usize, usize)>) {
    let mut x = R::new(r, mode);
    x.body(b, true);
    (x.out, x.spans)
}

pub fn render_expr(r: &mut Rng, e: &E, mode: Mode) -> (String, Vec<(&'static str, usize, usize)>) {
    let mut x = R::new(r, mode);
    x.expr(e, false);
    (x.out, x.spans)
}

pub fn render_template(r: &mut Rng, t: &[T], mode: Mode) -> String {
    let mut x = R::new(r, mode);
    x.template(t);
    x.out
}

pub fn render_template_spans(
    r: &mut Rng,
    t: &[T],
    mode: Mode,
) -> (String, Vec<(&'static str, usize, usize)>) {
    let mut x = R::new(r, mode);
    x.template(t);
    (x.out, x.spans)
}
