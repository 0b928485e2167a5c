//! Generator of random model documents. Everything it produces is canonical: an operand that would
//! need parentheses is wrapped in explicit parentheses.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Opts {
    /// Keep heredocs out.
    pub heredocs: bool,
    /// Only finite fixed idents.
    pub max_depth: usize,
    /// Allow `Trav` etc. with literal bases.
    pub odd_bases: bool,
    /// Maximum number of siblings.
    pub width: usize,
    /// Heredocs are generated in already dedented form (for programmatic construction).
    pub dedented: bool,
    /// Allow carriage returns within heredocs.
    pub heredoc_cr: bool,
    /// Only use spaces as the leading whitespace of indented heredocs.
    pub plain_ws: bool,
    /// Allow literals of quoted templates to end with the first character of a marker in front of
    /// that marker, which can only be written with an escape sequence.
    pub marker_tail: bool,
    /// An identifier and a string of the same text are the same object key.
    pub unique_keys: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            heredocs: true,
            max_depth: 5,
            odd_bases: true,
            width: 4,
            dedented: false,
            heredoc_cr: true,
            plain_ws: false,
            marker_tail: false,
            unique_keys: false,
        }
    }
}

pub struct G<'r> {
    pub r: &'r mut Rng,
    pub o: Opts,
    pub budget: usize,
    /// The size of the big list or text that is still to come, if any.
    pub big: usize,
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "x", "foo", "bar", "baz", "_", "_x", "a-b", "a--", "x_1", "A", "foo-bar_2",
    "format", "fork", "forx", "iffy", "input", "inx", "nullable", "truely", "falsey", "endifs",
    "elsewhere", "n", "é", "変数", "Ünï", "x0", "e1", "E5", "r_", "for_", "in-", "if-",
];

pub const RESERVED: &[&str] = &[
    "for", "in", "if", "null", "true", "false", "else", "endif", "endfor",
];

const DELIMS: &[&str] = &["EOT", "EOF", "E", "_", "HERE-DOC", "é", "for", "a1"];

const CHUNKS: &[&str] = &[
    "a", "b", "foo", " ", "  ", "\t", "\"", "\\", "\\n", "$", "%", "{", "}", "${", "%{", "$${",
    "%%{", "$$", "%%", "$$$", "~}", "}}", "é", "漢字", "😀", "e\u{301}", "\u{2028}", "\u{a0}", "#",
    "//", "/*", "*/", "<<", "<<-EOT", "EOT", "=", "\\u0041", "\\\"", "'", "`", "\u{feff}", "1",
    "${x}", "$${x}", "%{if", "-", "\u{85}",
];

const CTRL: &[&str] = &[
    "\n", "\n\n", "\r", "\r\n", "\u{0}", "\u{1}", "\u{8}", "\u{c}", "\u{1f}", "\u{7f}", "\u{b}",
    "\u{1b}",
];

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, o: Opts) -> G<'r> {
        let big = if r.one_in(30) { *r.pick(&[9, 17, 33, 40, 65, 70]) } else { 0 };
        G { r, o, budget: 60, big }
    }

    /// A number less than `below`, or a big one now and then.
    pub fn n(&mut self, below: usize) -> usize {
        if self.big > 0 && self.r.one_in(4) {
            return std::mem::take(&mut self.big);
        }
        self.r.below(below)
    }

    pub fn id(&mut self) -> Id {
        if self.r.pct(8) {
            // A random identifier.
            let start = ['a', 'z', 'Z', '_', 'ß', 'λ', 'ж', '中'];
            let cont = ['a', '0', '9', '-', '_', 'é', '\u{301}', '·', 'Z'];
            let mut s = String::new();
            s.push(*self.r.pick(&start));
            let n = if self.r.one_in(20) { 300 } else { 30 };
            for _ in 0..self.r.below(n) {
                s.push(*self.r.pick(&cont));
            }
            return s;
        }
        (*self.r.pick(IDENTS)).to_string()
    }

    pub fn num(&mut self) -> N {
        match self.r.below(12) {
            0 => N::U(0),
            1..=4 => N::U(self.r.below(100) as u64),
            5 => N::U(self.r.u64()),
            6 => *self.r.pick(&[
                N::U(u64::MAX),
                N::U(i64::MAX as u64),
                N::U(1 << 53),
                N::U((1 << 53) + 1),
                N::U(i64::MAX as u64 + 1),
            ]),
            7 => N::I(-(self.r.below(100) as i64) - 1),
            8 => *self.r.pick(&[N::I(i64::MIN), N::I(-1), N::I(i64::MIN + 1)]),
            9 => N::from_f64((self.r.below(2000) as f64 - 1000.0) / 8.0).unwrap(),
            10 => {
                let v = [
                    0.1, 1.5e-7, 1e-300, 5e-324, 1.7976931348623157e308, -2.5, 1e22, 1e20,
                    1.0000000000000002, 123456.789, -1e-5, 1e21, 3.0e19, -9.3e18, 18446744073709551616.0,
                ];
                N::from_f64(*self.r.pick(&v)).unwrap()
            }
            _ => loop {
                let f = f64::from_bits(self.r.u64());
                if let Some(n) = N::from_f64(f) {
                    break n;
                }
            },
        }
    }

    /// Arbitrary text.
    pub fn text(&mut self, max: usize) -> String {
        let mut n = self.n(max + 1);
        let mut s = String::new();
        if n > max && self.r.bool() {
            // The same many times.
            let times = *self.r.pick(&[n, n, 5 * n, 25 * n]);
            let c = if self.r.pct(8) { self.r.pick(CTRL) } else { self.r.pick(CHUNKS) };
            s.push_str(&c.repeat(times));
            n = max;
        }
        for _ in 0..n {
            if self.r.pct(8) {
                s.push_str(self.r.pick(CTRL));
            } else {
                s.push_str(self.r.pick(CHUNKS));
            }
        }
        s
    }

    pub fn string(&mut self) -> String {
        match self.r.below(10) {
            0 => String::new(),
            1..=5 => (*self.r.pick(&["a", "b", "foo", "hello world", "x y", "1", "true", "é"]))
                .to_string(),
            _ => self.text(6),
        }
    }

    fn strip(&mut self) -> Strip {
        (self.r.pct(20), self.r.pct(20))
    }

    /// Text of a literal within a quoted template.
    fn qlit(&mut self) -> String {
        loop {
            let s = if self.r.pct(50) {
                (*self.r.pick(&["a", " ", "foo ", " bar", "\n", "- ", ", ", "{", "}"])).to_string()
            } else {
                self.text(5)
            };
            if !s.is_empty() {
                return s;
            }
        }
    }

    /// Elements of a template. `lit` generates a literal.
    fn elems(&mut self, d: usize, lit: &mut dyn FnMut(&mut Self) -> String, min_seq: bool, tail: bool) -> Vec<T> {
        let n = 1 + self.n(4);
        let mut out: Vec<T> = vec![];
        for i in 0..n {
            let force = min_seq && i + 1 == n && !out.iter().any(|t| !matches!(t, T::Lit(_)));
            let k = if force {
                3 + self.r.below(7)
            } else {
                self.r.below(10)
            };
            let k = if d == 0 && k >= 7 { 5 } else { k };
            match k {
                0..=2 => {
                    let l = lit(self);
                    out.push(T::Lit(l));
                }
                3..=6 => {
                    let e = self.expr(d.saturating_sub(1));
                    let s = self.strip();
                    out.push(T::Interp(e, s));
                }
                7 | 8 => {
                    let els = if self.r.pct(50) {
                        Some((self.strip(), self.elems_opt(d - 1, lit, tail)))
                    } else {
                        None
                    };
                    let t = If {
                        cond: self.expr(d - 1),
                        s1: self.strip(),
                        then: self.elems_opt(d - 1, lit, tail),
                        els,
                        s3: self.strip(),
                    };
                    out.push(T::If(Box::new(t)));
                }
                _ => {
                    let t = ForD {
                        key: if self.r.pct(40) { Some(self.id()) } else { None },
                        val: self.id(),
                        coll: self.expr(d - 1),
                        s1: self.strip(),
                        body: self.elems_opt(d - 1, lit, tail),
                        s2: self.strip(),
                    };
                    out.push(T::For(Box::new(t)));
                }
            }
        }
        if tail {
            merge_lits(out)
        } else {
            fix_lits(merge_lits(out))
        }
    }

    fn elems_opt(&mut self, d: usize, lit: &mut dyn FnMut(&mut Self) -> String, tail: bool) -> Vec<T> {
        if self.r.pct(15) {
            vec![]
        } else {
            self.elems(d, lit, false, tail)
        }
    }

    /// Elements of a quoted string template (at least one interpolation or directive).
    pub fn quoted(&mut self, d: usize) -> Vec<T> {
        let tail = self.o.marker_tail;
        let ts = self.elems(d, &mut |g| g.qlit(), true, tail);
        if tail {
            ts
        } else {
            fix_tail(ts, false)
        }
    }

    /// Elements of a bare template (no escapes, no heredoc).
    pub fn bare(&mut self, d: usize) -> Vec<T> {
        fix_tail(self.elems(d, &mut |g| g.qlit(), false, false), false)
    }

    pub fn heredoc(&mut self, d: usize) -> H {
        let delim = (*self.r.pick(DELIMS)).to_string();
        let strip = self.r.bool();
        if self.r.pct(8) {
            return H {
                delim,
                strip,
                indent: None,
                body: vec![],
            };
        }
        let base = if strip { self.r.below(5) } else { 0 };
        let cr = self.o.heredoc_cr;
        let word = delim.clone();
        let mut lit = move |g: &mut Self| -> String {
            let mut s = String::new();
            let lines = 1 + g.n(3);
            for i in 0..lines {
                if i > 0 {
                    s.push_str(if cr && g.r.pct(10) { "\r\n" } else { "\n" });
                }
                match g.r.below(8) {
                    0 => {}
                    1 => s.push_str(&" ".repeat(g.r.below(6))),
                    _ => {
                        let w = if g.r.pct(70) {
                            base
                        } else {
                            g.r.below(7)
                        };
                        s.push_str(&" ".repeat(w));
                        let t = if g.r.pct(8) {
                            // Almost the end of the heredoc.
                            format!("{word}{}", g.r.pick(&["1", "x", "-", "_", "é", "-a", "0b", "EOT", " x", "", "\u{301}", "."]))
                        } else if g.r.pct(60) {
                            (*g.r.pick(&["a", "foo bar", "x: ", "- item", "{", "\"q\"", "EOTx", "\\n", "  "]))
                                .to_string()
                        } else {
                            g.text(4)
                        };
                        s.push_str(&t);
                    }
                }
            }
            if g.r.pct(40) {
                s.push('\n');
                s.push_str(&" ".repeat(g.r.below(5)));
            }
            if s.is_empty() {
                s.push('\n');
            }
            s
        };
        let mut body = self.elems(d, &mut lit, false, false);
        if base > 0 && self.r.pct(70) {
            if let Some(T::Lit(s)) = body.first_mut() {
                s.insert_str(0, &" ".repeat(base));
            } else {
                body.insert(0, T::Lit(" ".repeat(base)));
            }
        }
        body.push(T::Lit("\n".into()));
        let body = fix_tail(fix_lits(merge_lits(body)), true);
        let body = guard_delim(body, &delim, cr);
        let body = if strip && self.o.plain_ws {
            plain_ws(body)
        } else {
            body
        };
        let mut h = H {
            delim,
            strip,
            indent: None,
            body,
        };
        if self.o.dedented && strip {
            let (b, _) = dedent(&h.body);
            h.body = guard_delim(merge_lits(b), &h.delim, cr);
            // Removing the indent of a line may form new blank lines, that is fine.
        }
        h
    }

    // --- expressions -------------------------------------------------------------------------

    /// Any expression.
    pub fn expr(&mut self, d: usize) -> E {
        if d == 0 || self.budget == 0 {
            return self.leaf();
        }
        match self.r.below(20) {
            0..=11 => self.term(d),
            12..=16 => self.bin(d, 0),
            _ => {
                let c = if self.r.bool() {
                    self.term(d - 1)
                } else {
                    self.bin(d - 1, 0)
                };
                let t = self.expr(d - 1);
                let f = self.expr(d - 1);
                E::Cond(Box::new((c, t, f)))
            }
        }
    }

    /// A binary operation (or a term) with a precedence of at least `min`.
    fn bin(&mut self, d: usize, min: u8) -> E {
        if d == 0 || self.budget == 0 {
            return self.term(d);
        }
        let ops: Vec<BinOp> = BINOPS.iter().copied().filter(|o| o.prec() >= min).collect();
        if ops.is_empty() {
            return self.term(d);
        }
        self.budget = self.budget.saturating_sub(1);
        let o = *self.r.pick(&ops);
        let l = if self.r.pct(50) {
            self.bin(d - 1, o.prec())
        } else {
            self.term(d - 1)
        };
        let r = if self.r.pct(40) {
            self.bin(d - 1, o.prec() + 1)
        } else {
            self.term(d - 1)
        };
        E::Bin(Box::new(l), o, Box::new(r))
    }

    pub fn leaf(&mut self) -> E {
        self.budget = self.budget.saturating_sub(1);
        match self.r.below(12) {
            0 => E::Null,
            1 => E::Bool(self.r.bool()),
            2..=4 => E::Num(self.num()),
            5..=7 => E::Str(self.string()),
            8 => {
                if self.r.bool() {
                    E::Arr(vec![])
                } else {
                    E::Obj(vec![])
                }
            }
            _ => E::Var(self.id()),
        }
    }

    pub fn array(&mut self, d: usize) -> E {
        let n = self.n(self.o.width + 1);
        E::Arr((0..n).map(|_| self.expr(d - 1)).collect())
    }

    pub fn key(&mut self, d: usize) -> K {
        match self.r.below(10) {
            0..=5 => K::Id(self.id()),
            6 | 7 => K::Ex(E::Str(self.string())),
            8 => {
                let e = self.expr(d.saturating_sub(1));
                K::Ex(E::Paren(Box::new(e)))
            }
            _ => {
                let e = self.term(d.saturating_sub(1));
                if matches!(e, E::Var(_)) || odd_start(&e) {
                    K::Ex(E::Paren(Box::new(e)))
                } else {
                    K::Ex(e)
                }
            }
        }
    }

    pub fn object(&mut self, d: usize) -> E {
        let n = self.n(self.o.width + 1);
        let mut items: Vec<(K, E)> = vec![];
        for _ in 0..n {
            let k = self.key(d);
            if has_heredoc_k(&k) {
                continue;
            }
            if items
                .iter()
                .any(|(o, _)| *o == k || norm_key(o) == norm_key(&k) || self.o.unique_keys && key_text(o).is_some() && key_text(o) == key_text(&k))
            {
                continue;
            }
            items.push((k, self.expr(d - 1)));
        }
        E::Obj(items)
    }

    pub fn call(&mut self, d: usize) -> Call {
        let ns = if self.r.pct(20) {
            (0..1 + self.n(2)).map(|_| self.id()).collect()
        } else {
            vec![]
        };
        let n = self.n(4);
        let args: Vec<E> = (0..n).map(|_| self.expr(d.saturating_sub(1))).collect();
        let expand = !args.is_empty() && self.r.pct(25);
        Call {
            ns,
            name: self.id(),
            args,
            expand,
        }
    }

    pub fn for_expr(&mut self, d: usize) -> For {
        let obj = self.r.bool();
        For {
            key: if self.r.pct(50) { Some(self.id()) } else { None },
            val: self.id(),
            coll: self.expr(d - 1),
            kexpr: if obj { Some(self.expr(d - 1)) } else { None },
            vexpr: self.expr(d - 1),
            group: obj && self.r.pct(40),
            cond: if self.r.pct(40) {
                Some(self.expr(d - 1))
            } else {
                None
            },
        }
    }

    pub fn trav_ops(&mut self, d: usize) -> Vec<Op> {
        let n = 1 + self.n(4);
        (0..n)
            .map(|_| match self.r.below(10) {
                0..=3 => Op::Attr(self.id()),
                4..=6 => Op::Idx(self.expr(d.saturating_sub(1))),
                7 => Op::Legacy(*self.r.pick(&[0u64, 1, 2, 10, u64::MAX])),
                8 => Op::AttrSplat,
                _ => Op::FullSplat,
            })
            .collect()
    }

    /// An expression term (no binary operation or conditional).
    pub fn term(&mut self, d: usize) -> E {
        if d == 0 || self.budget == 0 {
            return self.leaf();
        }
        self.budget = self.budget.saturating_sub(1);
        match self.r.below(24) {
            0..=4 => self.leaf(),
            5..=7 => self.array(d),
            8..=10 => self.object(d),
            11 | 12 => E::Tmpl(self.quoted(d - 1)),
            13 => {
                if self.o.heredocs {
                    E::Heredoc(Box::new(self.heredoc(d - 1)))
                } else {
                    self.leaf()
                }
            }
            14 | 15 => {
                let e = self.expr(d - 1);
                E::Paren(Box::new(e))
            }
            16 | 17 => E::Call(Box::new(self.call(d))),
            18..=20 => {
                let b = match self.r.below(10) {
                    0..=4 => E::Var(self.id()),
                    5 => E::Call(Box::new(self.call(d))),
                    6 => {
                        let e = self.expr(d - 1);
                        E::Paren(Box::new(e))
                    }
                    7 => self.array(d),
                    8 => E::For(Box::new(self.for_expr(d))),
                    _ => {
                        if self.o.odd_bases {
                            match self.r.below(4) {
                                0 => self.object(d),
                                1 => E::Str(self.string()),
                                2 => E::Tmpl(self.quoted(d - 1)),
                                _ => E::Bool(true),
                            }
                        } else {
                            E::Var(self.id())
                        }
                    }
                };
                E::Trav(Box::new(b), self.trav_ops(d))
            }
            21 => {
                let o = if self.r.bool() { UnOp::Neg } else { UnOp::Not };
                let e = self.term(d - 1);
                match (&e, o) {
                    // `-5` is a number literal.
                    (E::Num(N::U(_)), UnOp::Neg) => e,
                    (E::Num(N::F(f)), UnOp::Neg) if *f >= 0.0 => e,
                    _ => E::Un(o, Box::new(e)),
                }
            }
            _ => E::For(Box::new(self.for_expr(d))),
        }
    }

    // --- structures --------------------------------------------------------------------------

    pub fn body(&mut self, d: usize) -> B {
        let n = self.n(self.o.width + 2);
        let mut keys: Vec<Id> = vec![];
        let mut out = vec![];
        for _ in 0..n {
            if d > 0 && self.r.pct(45) {
                out.push(S::Block(self.block(d - 1)));
            } else {
                let k = self.id();
                if keys.contains(&k) {
                    continue;
                }
                keys.push(k.clone());
                self.budget = self.budget.max(8);
                let dd = self.r.below(self.o.max_depth + 1);
                out.push(S::Attr(k, self.expr(dd)));
            }
        }
        out
    }

    pub fn block(&mut self, d: usize) -> Block {
        let nl = *self.r.pick(&[0, 0, 1, 1, 2, 3]);
        let nl = nl + self.n(1);
        Block {
            ident: self.id(),
            labels: (0..nl)
                .map(|_| {
                    if self.r.pct(40) {
                        L::Id(self.id())
                    } else {
                        L::Str(self.string())
                    }
                })
                .collect(),
            body: self.body(d),
        }
    }
}

fn has_heredoc_k(k: &K) -> bool {
    let mut found = false;
    if let K::Ex(e) = k {
        walk_e(e, &mut |e| found |= matches!(e, E::Heredoc(_)));
    }
    found
}

pub fn key_text(k: &K) -> Option<&str> {
    match k {
        K::Id(s) | K::Ex(E::Str(s)) => Some(s),
        _ => None,
    }
}

fn norm_key(k: &K) -> K {
    match k {
        K::Id(i) => K::Id(i.clone()),
        K::Ex(e) => K::Ex(ne(e, Nf::Rs)),
    }
}

/// A literal may not end with `$` (`%`) if the interpolation (directive) follows: there is no way
/// to write that without escape sequences.
pub fn fix_lits(mut ts: Vec<T>) -> Vec<T> {
    for i in 0..ts.len() {
        let next_interp = matches!(ts.get(i + 1), Some(T::Interp(..)));
        let next_dir = matches!(ts.get(i + 1), Some(T::If(_) | T::For(_)));
        if let T::Lit(s) = &mut ts[i] {
            if next_interp && s.ends_with('$') || next_dir && s.ends_with('%') {
                s.push(' ');
            }
        }
    }
    ts
}

/// As `fix_lits` for the ends of nested templates, which are followed by a directive.
pub fn fix_tail(ts: Vec<T>, _heredoc: bool) -> Vec<T> {
    fn nested(ts: Vec<T>) -> Vec<T> {
        let mut ts = fix_tail(ts, false);
        if let Some(T::Lit(s)) = ts.last_mut() {
            if s.ends_with('%') {
                s.push(' ');
            }
        }
        ts
    }
    ts.into_iter()
        .map(|t| match t {
            T::If(mut d) => {
                d.then = nested(d.then);
                d.els = d.els.map(|(s, e)| (s, nested(e)));
                T::If(d)
            }
            T::For(mut d) => {
                d.body = nested(d.body);
                T::For(d)
            }
            t => t,
        })
        .collect()
}

/// Ensures that no line of a literal looks like the end of the heredoc.
pub fn guard_delim(ts: Vec<T>, delim: &str, cr: bool) -> Vec<T> {
    ts.into_iter()
        .map(|t| match t {
            T::Lit(s) => {
                let mut s = s;
                if !cr {
                    s = s.replace('\r', "");
                    if s.is_empty() {
                        s.push(' ');
                    }
                }
                let mut out = String::new();
                for line in s.split_inclusive('\n') {
                    // Whitespace other than blanks and tabs is replaced by blanks when an indented
                    // heredoc is printed (the known finding of P02).
                    let t = line.trim_start();
                    // A longer word does not end the heredoc.
                    let end = |r: &str| !r.starts_with(crate::refparse::id_cont);
                    if t.strip_prefix(delim).is_some_and(end) {
                        let ws = &line[..line.len() - t.len()];
                        out.push_str(ws);
                        out.push('.');
                        out.push_str(t);
                    } else {
                        out.push_str(line);
                    }
                }
                T::Lit(out)
            }
            T::If(mut d) => {
                d.then = guard_delim(d.then, delim, cr);
                d.els = d.els.map(|(s, e)| (s, guard_delim(e, delim, cr)));
                T::If(d)
            }
            T::For(mut d) => {
                d.body = guard_delim(d.body, delim, cr);
                T::For(d)
            }
            t => t,
        })
        .collect()
}

/// Replaces whitespace other than spaces and newlines.
fn plain_ws(ts: Vec<T>) -> Vec<T> {
    ts.into_iter()
        .map(|t| match t {
            T::Lit(s) => T::Lit(
                s.chars()
                    .map(|c| {
                        if c.is_whitespace() && c != ' ' && c != '\n' {
                            'w'
                        } else {
                            c
                        }
                    })
                    .collect(),
            ),
            T::If(mut d) => {
                d.then = plain_ws(d.then);
                d.els = d.els.map(|(s, e)| (s, plain_ws(e)));
                T::If(d)
            }
            T::For(mut d) => {
                d.body = plain_ws(d.body);
                T::For(d)
            }
            t => t,
        })
        .collect()
}

/// Whether the expression starts with something that could continue the expression on the previous
/// line.
pub fn odd_start(e: &E) -> bool {
    match e {
        E::Num(N::I(_)) | E::Arr(_) | E::Un(..) | E::Heredoc(_) => true,
        E::Num(N::F(f)) => *f < 0.0,
        E::For(f) => f.kexpr.is_none(),
        E::Trav(b, _) => odd_start(b),
        E::Bin(l, ..) => odd_start(l),
        E::Cond(c) => odd_start(&c.0),
        _ => false,
    }
}
