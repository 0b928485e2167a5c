//! An independent recursive descent parser for HCL's native syntax, the oracle for the grammar.
//! It works on characters, has no error recovery and yields the model.

use crate::model::*;

pub type R<X> = Result<X, usize>;

pub struct P<'a> {
    s: &'a str,
    i: usize,
}

fn id_start(c: char) -> bool {
    c == '_' || hcl_start(c)
}

/// `XID_Start`. The tables of the standard library are close but not equal, so every character
/// the oracle cannot decide itself is taken from the identifier check of hcl-primitives, which
/// P21 monitors on its own.
fn hcl_start(c: char) -> bool {
    if c.is_ascii() {
        c.is_ascii_alphabetic()
    } else {
        hcl_primitives::ident::is_id_start(c)
    }
}

pub fn id_cont(c: char) -> bool {
    if c.is_ascii() {
        c.is_ascii_alphanumeric() || c == '_' || c == '-'
    } else {
        hcl_primitives::ident::is_id_continue(c)
    }
}

#[derive(Clone, Copy)]
enum Lit<'d> {
    Quoted,
    Bare,
    Heredoc(&'d str),
}

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> P<'a> {
        P { s, i: 0 }
    }
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn want(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn err<X>(&self) -> R<X> {
        Err(self.i)
    }
    fn bump(&mut self) {
        self.i += self.peek().map_or(0, char::len_utf8);
    }

    fn eat_spaces(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t')) {
            self.i += 1;
        }
    }
    fn inline_comment(&mut self) -> bool {
        if self.at("/*") {
            if let Some(n) = self.rest()[2..].find("*/") {
                self.i += n + 4;
                return true;
            }
        }
        false
    }
    fn line_comment(&mut self) -> bool {
        if self.at("#") || self.at("//") {
            let r = self.rest();
            let mut n = r.find('\n').unwrap_or(r.len());
            if n < r.len() && r[..n].ends_with('\r') {
                n -= 1;
            }
            self.i += n;
            true
        } else {
            false
        }
    }
    fn sp(&mut self) {
        loop {
            self.eat_spaces();
            if !self.inline_comment() {
                return;
            }
        }
    }
    fn ws(&mut self) {
        loop {
            while matches!(self.peek(), Some(' ' | '\t' | '\r' | '\n')) {
                self.i += 1;
            }
            if !(self.inline_comment() || (!self.at("/*") && self.line_comment())) {
                return;
            }
        }
    }
    fn trivia(&mut self, nl: bool) {
        if nl {
            self.ws();
        } else {
            self.sp();
        }
    }
    fn line_ending(&mut self) -> bool {
        self.eat("\r\n") || self.eat("\n")
    }
    fn ident(&mut self) -> R<Id> {
        match self.peek() {
            Some(c) if id_start(c) => {}
            _ => return self.err(),
        }
        let st = self.i;
        self.bump();
        while self.peek().is_some_and(id_cont) {
            self.bump();
        }
        Ok(self.s[st..self.i].to_string())
    }
    fn keyword(&mut self, k: &str) -> R<()> {
        if self.at(k) && !self.rest()[k.len()..].chars().next().is_some_and(id_cont) {
            self.i += k.len();
            Ok(())
        } else {
            self.err()
        }
    }

    // --- bodies ---

    pub fn body(s: &str) -> R<B> {
        let mut p = P::new(s);
        let b = p.structures()?;
        if p.i < s.len() {
            return p.err();
        }
        Ok(b)
    }

    fn structures(&mut self) -> R<B> {
        let mut out: B = vec![];
        loop {
            self.ws();
            if !self.peek().is_some_and(id_start) {
                return Ok(out);
            }
            let id = self.ident()?;
            self.sp();
            if self.at("=") {
                if out.iter().any(|s| matches!(s, S::Attr(k, _) if *k == id)) {
                    return self.err();
                }
                let e = self.attr_value()?;
                out.push(S::Attr(id, e));
            } else {
                let b = self.block(id)?;
                out.push(S::Block(b));
            }
            self.sp();
            self.line_comment();
            if !(self.line_ending() || self.i == self.s.len()) {
                return self.err();
            }
        }
    }

    fn attr_value(&mut self) -> R<E> {
        self.want("=")?;
        self.sp();
        self.expr(false)
    }

    fn block(&mut self, ident: Id) -> R<Block> {
        let mut labels = vec![];
        loop {
            if self.at("\"") {
                labels.push(L::Str(self.plain_string()?));
            } else if self.peek().is_some_and(id_start) {
                labels.push(L::Id(self.ident()?));
            } else {
                break;
            }
            self.sp();
        }
        self.want("{")?;
        let st = self.i;
        self.sp();
        self.line_comment();
        let body = if self.line_ending() {
            self.structures()?
        } else {
            self.i = st;
            self.sp();
            let mut b = vec![];
            if self.peek().is_some_and(id_start) {
                let id = self.ident()?;
                self.sp();
                let e = self.attr_value()?;
                b.push(S::Attr(id, e));
                self.sp();
            }
            b
        };
        self.want("}")?;
        Ok(Block {
            ident,
            labels,
            body,
        })
    }

    // --- expressions ---

    pub fn expression(s: &str) -> R<E> {
        let mut p = P::new(s);
        let e = p.expr(false)?;
        if p.i < s.len() {
            return p.err();
        }
        Ok(e)
    }

    fn binop(&self) -> Option<BinOp> {
        let r = self.rest();
        if r.starts_with("//") || r.starts_with("/*") {
            return None;
        }
        [
            BinOp::Or,
            BinOp::And,
            BinOp::Eq,
            BinOp::Ne,
            BinOp::Le,
            BinOp::Ge,
            BinOp::Lt,
            BinOp::Gt,
            BinOp::Add,
            BinOp::Sub,
            BinOp::Mul,
            BinOp::Div,
            BinOp::Mod,
        ]
        .into_iter()
        .find(|o| r.starts_with(o.s()))
    }

    fn expr(&mut self, nl: bool) -> R<E> {
        let mut terms = vec![self.term(nl)?];
        let mut ops: Vec<BinOp> = vec![];
        loop {
            let st = self.i;
            self.trivia(nl);
            if self.at("?") {
                let cond = fold(terms, ops);
                self.i += 1;
                self.trivia(nl);
                let a = self.expr(nl)?;
                self.trivia(nl);
                self.want(":")?;
                self.trivia(nl);
                let b = self.expr(nl)?;
                return Ok(E::Cond(Box::new((cond, a, b))));
            }
            match self.binop() {
                Some(o) => {
                    self.i += o.s().len();
                    self.trivia(nl);
                    ops.push(o);
                    terms.push(self.term(nl)?);
                }
                None => {
                    self.i = st;
                    return Ok(fold(terms, ops));
                }
            }
        }
    }

    fn term(&mut self, nl: bool) -> R<E> {
        let base = self.base(nl)?;
        let mut ops = vec![];
        loop {
            let st = self.i;
            self.trivia(nl);
            if self.at("..") {
                self.i = st;
                break;
            }
            if self.eat(".") {
                self.ws();
                let c = self.peek();
                if self.eat("*") {
                    ops.push(Op::AttrSplat);
                } else if c.is_some_and(|c| c.is_ascii_digit()) {
                    let d = self.digits();
                    if d.len() > 1 && d.starts_with('0') {
                        return self.err();
                    }
                    ops.push(Op::Legacy(d.parse().map_err(|_| self.i)?));
                } else {
                    ops.push(Op::Attr(self.ident()?));
                }
            } else if self.eat("[") {
                self.ws();
                if self.eat("*") {
                    ops.push(Op::FullSplat);
                } else {
                    ops.push(Op::Idx(self.expr(true)?));
                }
                self.ws();
                self.want("]")?;
            } else {
                self.i = st;
                break;
            }
        }
        Ok(if ops.is_empty() {
            base
        } else {
            E::Trav(Box::new(base), ops)
        })
    }

    fn digits(&mut self) -> &'a str {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }

    fn number(&mut self) -> R<N> {
        let st = self.i;
        self.digits();
        let mut float = false;
        if self.at(".") && self.rest()[1..].starts_with(|c: char| c.is_ascii_digit()) {
            self.i += 1;
            self.digits();
            float = true;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            if self.digits().is_empty() {
                return self.err();
            }
            float = true;
        }
        let t = &self.s[st..self.i];
        if float {
            N::from_f64(t.parse().map_err(|_| self.i)?).ok_or(self.i)
        } else {
            Ok(N::U(t.parse().map_err(|_| self.i)?))
        }
    }

    fn base(&mut self, nl: bool) -> R<E> {
        let Some(c) = self.peek() else {
            return self.err();
        };
        match c {
            '"' => {
                self.i += 1;
                let ts = self.elements(Lit::Quoted)?;
                self.want("\"")?;
                Ok(match ts.as_slice() {
                    [] => E::Str(String::new()),
                    [T::Lit(s)] => E::Str(s.clone()),
                    _ => E::Tmpl(ts),
                })
            }
            '0'..='9' => Ok(E::Num(self.number()?)),
            '-' => {
                let st = self.i;
                self.i += 1;
                self.sp();
                if self.peek().is_some_and(|c| c.is_ascii_digit()) {
                    let _ = st;
                    return Ok(E::Num(self.number()?.neg()));
                }
                Ok(E::Un(UnOp::Neg, Box::new(self.term(nl)?)))
            }
            '!' => {
                self.i += 1;
                self.sp();
                Ok(E::Un(UnOp::Not, Box::new(self.term(nl)?)))
            }
            '(' => {
                self.i += 1;
                self.ws();
                let e = self.expr(true)?;
                self.ws();
                self.want(")")?;
                Ok(E::Paren(Box::new(e)))
            }
            '[' => {
                self.i += 1;
                if self.at_for() {
                    let (key, val, coll) = self.for_intro()?;
                    self.ws();
                    let vexpr = self.expr(true)?;
                    self.ws();
                    let cond = self.for_cond()?;
                    self.want("]")?;
                    return Ok(E::For(Box::new(For {
                        key,
                        val,
                        coll,
                        kexpr: None,
                        vexpr,
                        group: false,
                        cond,
                    })));
                }
                let mut v = vec![];
                self.ws();
                while !self.at("]") {
                    v.push(self.expr(true)?);
                    self.ws();
                    if !self.eat(",") {
                        break;
                    }
                    self.ws();
                }
                self.want("]")?;
                Ok(E::Arr(v))
            }
            '{' => {
                self.i += 1;
                if self.at_for() {
                    let (key, val, coll) = self.for_intro()?;
                    self.ws();
                    let k = self.expr(true)?;
                    self.ws();
                    self.want("=>")?;
                    self.ws();
                    let vexpr = self.expr(true)?;
                    self.ws();
                    let group = self.eat("...");
                    self.ws();
                    let cond = self.for_cond()?;
                    self.want("}")?;
                    return Ok(E::For(Box::new(For {
                        key,
                        val,
                        coll,
                        kexpr: Some(k),
                        vexpr,
                        group,
                        cond,
                    })));
                }
                self.object()
            }
            '<' => self.heredoc(),
            c if id_start(c) => {
                let id = self.ident()?;
                let st = self.i;
                self.trivia(nl);
                if self.at("::") || self.at("(") {
                    let mut path = vec![id];
                    while self.eat("::") {
                        self.trivia(nl);
                        path.push(self.ident()?);
                        self.trivia(nl);
                    }
                    let name = path.pop().unwrap();
                    let (args, expand) = self.args()?;
                    return Ok(E::Call(Box::new(Call {
                        ns: path,
                        name,
                        args,
                        expand,
                    })));
                }
                self.i = st;
                Ok(match id.as_str() {
                    "null" => E::Null,
                    "true" => E::Bool(true),
                    "false" => E::Bool(false),
                    _ => E::Var(id),
                })
            }
            _ => self.err(),
        }
    }

    fn args(&mut self) -> R<(Vec<E>, bool)> {
        self.want("(")?;
        let mut v = vec![];
        let mut expand = false;
        self.ws();
        while !self.at(")") {
            v.push(self.expr(true)?);
            self.ws();
            if self.eat("...") {
                expand = true;
                self.ws();
                break;
            }
            if !self.eat(",") {
                break;
            }
            self.ws();
        }
        self.want(")")?;
        Ok((v, expand))
    }

    fn at_for(&mut self) -> bool {
        let st = self.i;
        self.ws();
        let r = self.rest();
        let yes = r
            .strip_prefix("for")
            .is_some_and(|r| r.starts_with([' ', '\t', '#', '/', '\n', '\r']));
        self.i = st;
        yes
    }

    fn for_vars(&mut self) -> R<(Option<Id>, Id, E)> {
        self.ws();
        let a = self.ident()?;
        self.ws();
        let b = if self.eat(",") {
            self.ws();
            let b = self.ident()?;
            self.ws();
            Some(b)
        } else {
            None
        };
        self.keyword("in")?;
        self.ws();
        let e = self.expr(true)?;
        self.ws();
        Ok(match b {
            Some(b) => (Some(a), b, e),
            None => (None, a, e),
        })
    }

    fn for_intro(&mut self) -> R<(Option<Id>, Id, E)> {
        self.ws();
        self.keyword("for")?;
        let r = self.for_vars()?;
        self.want(":")?;
        Ok(r)
    }

    fn for_cond(&mut self) -> R<Option<E>> {
        if self.keyword("if").is_ok() {
            self.ws();
            let e = self.expr(true)?;
            self.ws();
            return Ok(Some(e));
        }
        Ok(None)
    }

    fn object(&mut self) -> R<E> {
        let mut items: Vec<(K, E)> = vec![];
        loop {
            self.ws();
            if self.eat("}") {
                return Ok(E::Obj(items));
            }
            let k = match self.expr(false)? {
                E::Var(v) => K::Id(v),
                e => K::Ex(e),
            };
            self.sp();
            if !(self.eat("=") || self.eat(":")) {
                return self.err();
            }
            self.sp();
            let v = self.expr(false)?;
            if let Some(p) = items.iter_mut().find(|(x, _)| *x == k) {
                p.1 = v;
            } else {
                items.push((k, v));
            }
            self.sp();
            if self.at("}") || self.eat(",") || self.line_ending() {
                continue;
            }
            if self.line_comment() && self.line_ending() {
                continue;
            }
            return self.err();
        }
    }

    // --- strings and templates ---

    fn plain_string(&mut self) -> R<String> {
        self.want("\"")?;
        let ts = self.elements(Lit::Quoted)?;
        self.want("\"")?;
        match ts.as_slice() {
            [] => Ok(String::new()),
            [T::Lit(s)] => Ok(s.clone()),
            _ => self.err(),
        }
    }

    fn escape(&mut self) -> R<char> {
        self.i += 1;
        let Some(c) = self.peek() else {
            return self.err();
        };
        self.bump();
        let hex = |p: &mut Self, n: usize| -> R<char> {
            let h = p.rest().get(..n).ok_or(p.i)?;
            if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                return p.err();
            }
            let c = u32::from_str_radix(h, 16)
                .ok()
                .and_then(char::from_u32)
                .ok_or(p.i)?;
            p.i += n;
            Ok(c)
        };
        Ok(match c {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'b' => '\u{8}',
            'f' => '\u{c}',
            '\\' => '\\',
            '"' => '"',
            '/' => '/',
            'u' => hex(self, 4)?,
            'U' => hex(self, 8)?,
            _ => return self.err(),
        })
    }

    fn heredoc_end(&self, d: &str) -> bool {
        let r = self.rest();
        let r = r
            .strip_prefix("\r\n")
            .or_else(|| r.strip_prefix('\n'));
        r.is_some_and(|r| is_delim(r, d))
    }

    /// Elements up to the end of the template or the next directive that closes or continues the
    /// enclosing one.
    fn elements(&mut self, m: Lit) -> R<Vec<T>> {
        let mut out: Vec<T> = vec![];
        let mut lit = String::new();
        loop {
            if self.at("$${") || self.at("%%{") {
                lit.push_str(&self.rest()[1..3]);
                self.i += 3;
                continue;
            }
            let Some(c) = self.peek() else {
                break;
            };
            if self.at("${") || self.at("%{") {
                if self.at("%{") && self.closing() {
                    break;
                }
                if !lit.is_empty() {
                    out.push(T::Lit(std::mem::take(&mut lit)));
                }
                let nested = match m {
                    Lit::Quoted => Lit::Quoted,
                    _ => Lit::Bare,
                };
                out.push(self.sequence(nested)?);
                continue;
            }
            match m {
                Lit::Quoted if c == '"' => break,
                Lit::Quoted if c == '\\' => {
                    lit.push(self.escape()?);
                    continue;
                }
                Lit::Heredoc(d) if self.heredoc_end(d) => break,
                _ => {}
            }
            lit.push(c);
            self.bump();
        }
        if !lit.is_empty() {
            out.push(T::Lit(lit));
        }
        Ok(out)
    }

    fn closing(&mut self) -> bool {
        let st = self.i;
        self.i += 2;
        self.eat("~");
        self.ws();
        let yes = ["else", "endif", "endfor"]
            .iter()
            .any(|k| self.keyword(k).is_ok());
        self.i = st;
        yes
    }

    fn open(&mut self) -> bool {
        self.i += 2;
        let s = self.eat("~");
        self.ws();
        s
    }

    fn close(&mut self) -> R<bool> {
        self.ws();
        let s = self.eat("~");
        self.want("}")?;
        Ok(s)
    }

    fn end_directive(&mut self, k: &str) -> R<Strip> {
        if !self.at("%{") {
            return self.err();
        }
        let a = self.open();
        self.keyword(k)?;
        let b = self.close()?;
        Ok((a, b))
    }

    fn sequence(&mut self, m: Lit) -> R<T> {
        if self.at("${") {
            let a = self.open();
            let e = self.expr(true)?;
            let b = self.close()?;
            return Ok(T::Interp(e, (a, b)));
        }
        let a = self.open();
        if self.keyword("if").is_ok() {
            self.ws();
            let cond = self.expr(true)?;
            let b = self.close()?;
            let then = self.elements(m)?;
            let st = self.i;
            let els = match self.end_directive("else") {
                Ok(s) => Some((s, self.elements(m)?)),
                Err(_) => {
                    self.i = st;
                    None
                }
            };
            let s3 = self.end_directive("endif")?;
            return Ok(T::If(Box::new(If {
                cond,
                s1: (a, b),
                then,
                els,
                s3,
            })));
        }
        self.keyword("for")?;
        let (key, val, coll) = self.for_vars()?;
        let b = self.close()?;
        let body = self.elements(m)?;
        let s2 = self.end_directive("endfor")?;
        Ok(T::For(Box::new(ForD {
            key,
            val,
            coll,
            s1: (a, b),
            body,
            s2,
        })))
    }

    pub fn template(s: &str) -> R<Vec<T>> {
        let mut p = P::new(s);
        let ts = p.elements(Lit::Bare)?;
        if p.i < s.len() {
            return p.err();
        }
        Ok(ts)
    }

    fn heredoc(&mut self) -> R<E> {
        self.want("<<")?;
        let strip = self.eat("-");
        let delim = self.ident()?;
        if !self.line_ending() {
            return self.err();
        }
        let mut body = vec![];
        if !is_delim(self.rest(), &delim) {
            body = self.elements(Lit::Heredoc(&delim))?;
            let st = self.i;
            if !self.line_ending() {
                return self.err();
            }
            body.push(T::Lit(self.s[st..self.i].to_string()));
        }
        self.eat_spaces();
        self.want(&delim)?;
        if self.peek().is_some_and(id_cont) {
            return self.err();
        }
        Ok(E::Heredoc(Box::new(H {
            delim,
            strip,
            indent: None,
            body: merge_lits(body),
        })))
    }
}

fn is_delim(r: &str, d: &str) -> bool {
    r.trim_start_matches([' ', '\t'])
        .strip_prefix(d)
        .is_some_and(|r| !r.starts_with(id_cont))
}

/// Precedence climbing, every operator associates to the left.
fn fold(terms: Vec<E>, ops: Vec<BinOp>) -> E {
    fn climb(
        lhs: E,
        min: u8,
        it: &mut std::iter::Peekable<impl Iterator<Item = (BinOp, E)>>,
    ) -> E {
        let mut lhs = lhs;
        while it.peek().is_some_and(|(o, _)| o.prec() >= min) {
            let (o, mut rhs) = it.next().unwrap();
            while it.peek().is_some_and(|(n, _)| n.prec() > o.prec()) {
                let p = it.peek().unwrap().0.prec();
                rhs = climb(rhs, p, it);
            }
            lhs = E::Bin(Box::new(lhs), o, Box::new(rhs));
        }
        lhs
    }
    let mut terms = terms.into_iter();
    let first = terms.next().unwrap();
    let mut it = ops.into_iter().zip(terms).peekable();
    climb(first, 0, &mut it)
}
