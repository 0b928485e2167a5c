//! The independent model of HCL documents. Nothing in here uses the crates under test.

pub type Id = String;

#[derive(Clone, Copy, Debug)]
pub enum N {
    U(u64),
    /// Always < 0.
    I(i64),
    /// Never integral and in range of `U`/`I`.
    F(f64),
}

impl N {
    pub fn from_f64(f: f64) -> Option<N> {
        if !f.is_finite() {
            return None;
        }
        if f.trunc() == f {
            if f >= 0.0 && f < 18_446_744_073_709_551_616.0 {
                return Some(N::U(f as u64));
            }
            if f < 0.0 && f >= -9_223_372_036_854_775_808.0 {
                return Some(N::I(f as i64));
            }
        }
        Some(N::F(f))
    }
    pub fn from_i128(i: i128) -> N {
        if i >= 0 && i <= u64::MAX as i128 {
            N::U(i as u64)
        } else if i < 0 && i >= i64::MIN as i128 {
            N::I(i as i64)
        } else {
            N::from_f64(i as f64).unwrap()
        }
    }
    pub fn int(self) -> Option<i128> {
        match self {
            N::U(u) => Some(u as i128),
            N::I(i) => Some(i as i128),
            N::F(_) => None,
        }
    }
    pub fn f64(self) -> f64 {
        match self {
            N::U(u) => u as f64,
            N::I(i) => i as f64,
            N::F(f) => f,
        }
    }
    pub fn neg(self) -> N {
        match self.int() {
            Some(i) => N::from_i128(-i),
            None => N::from_f64(-self.f64()).unwrap(),
        }
    }
}

impl PartialEq for N {
    fn eq(&self, o: &N) -> bool {
        match (self, o) {
            (N::U(a), N::U(b)) => a == b,
            (N::I(a), N::I(b)) => a == b,
            (N::F(a), N::F(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UnOp {
    Neg,
    Not,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
}

pub const BINOPS: [BinOp; 13] = [
    BinOp::Or,
    BinOp::And,
    BinOp::Eq,
    BinOp::Ne,
    BinOp::Lt,
    BinOp::Gt,
    BinOp::Le,
    BinOp::Ge,
    BinOp::Add,
    BinOp::Sub,
    BinOp::Mul,
    BinOp::Div,
    BinOp::Mod,
];

impl BinOp {
    pub fn prec(self) -> u8 {
        match self {
            BinOp::Or => 1,
            BinOp::And => 2,
            BinOp::Eq | BinOp::Ne => 3,
            BinOp::Lt | BinOp::Gt | BinOp::Le | BinOp::Ge => 4,
            BinOp::Add | BinOp::Sub => 5,
            BinOp::Mul | BinOp::Div | BinOp::Mod => 6,
        }
    }
    pub fn s(self) -> &'static str {
        match self {
            BinOp::Or => "||",
            BinOp::And => "&&",
            BinOp::Eq => "==",
            BinOp::Ne => "!=",
            BinOp::Lt => "<",
            BinOp::Gt => ">",
            BinOp::Le => "<=",
            BinOp::Ge => ">=",
            BinOp::Add => "+",
            BinOp::Sub => "-",
            BinOp::Mul => "*",
            BinOp::Div => "/",
            BinOp::Mod => "%",
        }
    }
    pub fn of(s: &str) -> BinOp {
        *BINOPS.iter().find(|o| o.s() == s).expect("operator")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Tmpl(Vec<T>),
    Heredoc(Box<H>),
    Arr(Vec<E>),
    Obj(Vec<(K, E)>),
    Paren(Box<E>),
    Var(Id),
    Cond(Box<(E, E, E)>),
    Call(Box<Call>),
    Trav(Box<E>, Vec<Op>),
    Un(UnOp, Box<E>),
    Bin(Box<E>, BinOp, Box<E>),
    For(Box<For>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Id(Id),
    Ex(E),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub ns: Vec<Id>,
    pub name: Id,
    pub args: Vec<E>,
    pub expand: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Attr(Id),
    Idx(E),
    Legacy(u64),
    AttrSplat,
    FullSplat,
}

#[derive(Clone, Debug, PartialEq)]
pub struct For {
    pub key: Option<Id>,
    pub val: Id,
    pub coll: E,
    /// `Some` for object for-expressions.
    pub kexpr: Option<E>,
    pub vexpr: E,
    pub group: bool,
    pub cond: Option<E>,
}

pub type Strip = (bool, bool);

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Lit(String),
    Interp(E, Strip),
    If(Box<If>),
    For(Box<ForD>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct If {
    pub cond: E,
    pub s1: Strip,
    pub then: Vec<T>,
    pub els: Option<(Strip, Vec<T>)>,
    pub s3: Strip,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ForD {
    pub key: Option<Id>,
    pub val: Id,
    pub coll: E,
    pub s1: Strip,
    pub body: Vec<T>,
    pub s2: Strip,
}

#[derive(Clone, Debug, PartialEq)]
pub struct H {
    pub delim: Id,
    /// `<<-`
    pub strip: bool,
    /// The number of stripped units of whitespace. Only set in the normalised form.
    pub indent: Option<usize>,
    pub body: Vec<T>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Id(Id),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Attr(Id, E),
    Block(Block),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub ident: Id,
    pub labels: Vec<L>,
    pub body: Vec<S>,
}

pub type B = Vec<S>;

// --- normalisation --------------------------------------------------------------------------

/// Merges adjacent literals and drops empty ones.
pub fn merge_lits(ts: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for t in ts {
        match t {
            T::Lit(s) => {
                if s.is_empty() {
                    continue;
                }
                if let Some(T::Lit(p)) = out.last_mut() {
                    p.push_str(&s);
                } else {
                    out.push(T::Lit(s));
                }
            }
            t => out.push(t),
        }
    }
    out
}

fn blank(line: &str) -> bool {
    line.ends_with('\n') && line.chars().all(char::is_whitespace)
}

/// Flush heredoc: the smallest number of leading whitespace characters over all non-blank lines
/// is removed from every non-blank line. Lines are formed over the whole template, an
/// interpolation or directive marker counts as a non-whitespace character.
pub fn dedent(body: &[T]) -> (Vec<T>, usize) {
    // Pass 1: reconstruct the template as a sequence of characters, where every template sequence
    // is the single object replacement character.
    const MARK: char = '\u{FFFC}';
    fn flat(ts: &[T], out: &mut String) {
        for t in ts {
            match t {
                T::Lit(s) => out.push_str(&s.replace(MARK, "x")),
                T::Interp(..) => out.push(MARK),
                T::If(d) => {
                    out.push(MARK);
                    flat(&d.then, out);
                    if let Some((_, e)) = &d.els {
                        out.push(MARK);
                        flat(e, out);
                    }
                    out.push(MARK);
                }
                T::For(d) => {
                    out.push(MARK);
                    flat(&d.body, out);
                    out.push(MARK);
                }
            }
        }
    }
    let mut text = String::new();
    flat(body, &mut text);
    let n = text
        .split_inclusive('\n')
        .filter(|l| !blank(l))
        .map(|l| l.chars().take_while(|c| c.is_whitespace()).count())
        .min()
        .unwrap_or(0);
    if n == 0 {
        return (body.to_vec(), 0);
    }
    // Pass 2: decide for every line whether it is to be dedented.
    let keep: Vec<bool> = text.split_inclusive('\n').map(blank).collect();
    struct St<'a> {
        keep: &'a [bool],
        line: usize,
        col: usize,
        n: usize,
    }
    fn strip(ts: &[T], st: &mut St) -> Vec<T> {
        ts.iter()
            .map(|t| match t {
                T::Lit(s) => {
                    let mut o = String::new();
                    for c in s.chars() {
                        let dedent = !st.keep.get(st.line).copied().unwrap_or(false);
                        if !(dedent && st.col < st.n) {
                            o.push(c);
                        }
                        st.col += 1;
                        if c == '\n' {
                            st.line += 1;
                            st.col = 0;
                        }
                    }
                    T::Lit(o)
                }
                T::Interp(e, s) => {
                    st.col += 1;
                    T::Interp(e.clone(), *s)
                }
                T::If(d) => {
                    st.col += 1;
                    let then = strip(&d.then, st);
                    let els = d.els.as_ref().map(|(s, e)| {
                        st.col += 1;
                        (*s, strip(e, st))
                    });
                    st.col += 1;
                    T::If(Box::new(If {
                        cond: d.cond.clone(),
                        s1: d.s1,
                        then,
                        els,
                        s3: d.s3,
                    }))
                }
                T::For(d) => {
                    st.col += 1;
                    let b = strip(&d.body, st);
                    st.col += 1;
                    T::For(Box::new(ForD {
                        body: b,
                        ..(**d).clone()
                    }))
                }
            })
            .collect()
    }
    let mut st = St {
        keep: &keep,
        line: 0,
        col: 0,
        n,
    };
    (strip(body, &mut st), n)
}

/// How heredocs are normalised.
#[derive(Clone, Copy, PartialEq)]
pub enum Nf {
    /// Dedented, with the indent (as in hcl-edit).
    Edit,
    /// Dedented, without the indent (as in hcl-rs templates).
    Rs,
    /// Do not dedent (programmatic documents), drop the indent.
    Keep,
}

pub fn nt(ts: &[T], f: Nf) -> Vec<T> {
    merge_lits(
        ts.iter()
            .map(|t| match t {
                T::Lit(s) => T::Lit(s.clone()),
                T::Interp(e, s) => T::Interp(ne(e, f), *s),
                T::If(d) => T::If(Box::new(If {
                    cond: ne(&d.cond, f),
                    s1: d.s1,
                    then: nt(&d.then, f),
                    els: d.els.as_ref().map(|(s, e)| (*s, nt(e, f))),
                    s3: d.s3,
                })),
                T::For(d) => T::For(Box::new(ForD {
                    key: d.key.clone(),
                    val: d.val.clone(),
                    coll: ne(&d.coll, f),
                    s1: d.s1,
                    body: nt(&d.body, f),
                    s2: d.s2,
                })),
            })
            .collect(),
    )
}

pub fn ne(e: &E, f: Nf) -> E {
    match e {
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_) => e.clone(),
        E::Tmpl(ts) => E::Tmpl(nt(ts, f)),
        E::Heredoc(h) => {
            let (body, indent) = if h.strip && f != Nf::Keep {
                let (b, n) = dedent(&h.body);
                (b, Some(n))
            } else {
                (h.body.clone(), None)
            };
            E::Heredoc(Box::new(H {
                delim: h.delim.clone(),
                strip: h.strip,
                indent: if f == Nf::Edit { indent } else { None },
                body: nt(&body, f),
            }))
        }
        E::Arr(v) => E::Arr(v.iter().map(|e| ne(e, f)).collect()),
        E::Obj(v) => E::Obj(v.iter().map(|(k, e)| (nk(k, f), ne(e, f))).collect()),
        E::Paren(e) => E::Paren(Box::new(ne(e, f))),
        E::Cond(c) => E::Cond(Box::new((ne(&c.0, f), ne(&c.1, f), ne(&c.2, f)))),
        E::Call(c) => E::Call(Box::new(Call {
            ns: c.ns.clone(),
            name: c.name.clone(),
            args: c.args.iter().map(|e| ne(e, f)).collect(),
            expand: c.expand,
        })),
        E::Trav(b, ops) => E::Trav(
            Box::new(ne(b, f)),
            ops.iter()
                .map(|o| match o {
                    Op::Idx(e) => Op::Idx(ne(e, f)),
                    o => o.clone(),
                })
                .collect(),
        ),
        E::Un(o, e) => E::Un(*o, Box::new(ne(e, f))),
        E::Bin(l, o, r) => E::Bin(Box::new(ne(l, f)), *o, Box::new(ne(r, f))),
        E::For(x) => E::For(Box::new(For {
            key: x.key.clone(),
            val: x.val.clone(),
            coll: ne(&x.coll, f),
            kexpr: x.kexpr.as_ref().map(|e| ne(e, f)),
            vexpr: ne(&x.vexpr, f),
            group: x.group,
            cond: x.cond.as_ref().map(|e| ne(e, f)),
        })),
    }
}

fn nk(k: &K, f: Nf) -> K {
    match k {
        K::Id(i) => K::Id(i.clone()),
        K::Ex(e) => K::Ex(ne(e, f)),
    }
}

pub fn nb(b: &[S], f: Nf) -> B {
    b.iter()
        .map(|s| match s {
            S::Attr(k, e) => S::Attr(k.clone(), ne(e, f)),
            S::Block(b) => S::Block(Block {
                ident: b.ident.clone(),
                labels: b.labels.clone(),
                body: nb(&b.body, f),
            }),
        })
        .collect()
}

// --- statistics ------------------------------------------------------------------------------

/// Calls `f` with every expression in `e` (including `e`).
pub fn walk_e<'a>(e: &'a E, f: &mut dyn FnMut(&'a E)) {
    f(e);
    match e {
        E::Null | E::Bool(_) | E::Num(_) | E::Str(_) | E::Var(_) => {}
        E::Tmpl(ts) => walk_t(ts, f),
        E::Heredoc(h) => walk_t(&h.body, f),
        E::Arr(v) => v.iter().for_each(|e| walk_e(e, f)),
        E::Obj(v) => v.iter().for_each(|(k, e)| {
            if let K::Ex(k) = k {
                walk_e(k, f);
            }
            walk_e(e, f);
        }),
        E::Paren(e) => walk_e(e, f),
        E::Cond(c) => {
            walk_e(&c.0, f);
            walk_e(&c.1, f);
            walk_e(&c.2, f);
        }
        E::Call(c) => c.args.iter().for_each(|e| walk_e(e, f)),
        E::Trav(b, ops) => {
            walk_e(b, f);
            for o in ops {
                if let Op::Idx(e) = o {
                    walk_e(e, f);
                }
            }
        }
        E::Un(_, e) => walk_e(e, f),
        E::Bin(l, _, r) => {
            walk_e(l, f);
            walk_e(r, f);
        }
        E::For(x) => {
            walk_e(&x.coll, f);
            if let Some(k) = &x.kexpr {
                walk_e(k, f);
            }
            walk_e(&x.vexpr, f);
            if let Some(c) = &x.cond {
                walk_e(c, f);
            }
        }
    }
}

pub fn walk_t<'a>(ts: &'a [T], f: &mut dyn FnMut(&'a E)) {
    for t in ts {
        match t {
            T::Lit(_) => {}
            T::Interp(e, _) => walk_e(e, f),
            T::If(d) => {
                walk_e(&d.cond, f);
                walk_t(&d.then, f);
                if let Some((_, e)) = &d.els {
                    walk_t(e, f);
                }
            }
            T::For(d) => {
                walk_e(&d.coll, f);
                walk_t(&d.body, f);
            }
        }
    }
}

pub fn walk_b<'a>(b: &'a [S], f: &mut dyn FnMut(&'a E)) {
    for s in b {
        match s {
            S::Attr(_, e) => walk_e(e, f),
            S::Block(b) => walk_b(&b.body, f),
        }
    }
}

pub fn kind(e: &E) -> &'static str {
    match e {
        E::Null => "null",
        E::Bool(_) => "bool",
        E::Num(_) => "number",
        E::Str(_) => "string",
        E::Tmpl(_) => "template",
        E::Heredoc(h) if h.strip => "heredoc-strip",
        E::Heredoc(_) => "heredoc",
        E::Arr(_) => "array",
        E::Obj(_) => "object",
        E::Paren(_) => "parens",
        E::Var(_) => "variable",
        E::Cond(_) => "conditional",
        E::Call(_) => "call",
        E::Trav(..) => "traversal",
        E::Un(..) => "unary",
        E::Bin(..) => "binary",
        E::For(x) if x.kexpr.is_some() => "for-object",
        E::For(_) => "for-list",
    }
}
