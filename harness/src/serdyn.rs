//! Serde data of dynamic types: a type description, values of it, and `Serialize` and
//! `DeserializeSeed` for them which make the same calls that derived implementations make.

use crate::conv;
use crate::gen::G;
use crate::model::*;
use crate::val::V;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::collections::HashMap;
use std::fmt;
use std::sync::Mutex;

pub type Name = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    /// Signed, bits.
    Int(bool, u32),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct(Name),
    Opt(Box<Ty>),
    New(Name, Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Name, Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(Name, Vec<(Name, Ty)>),
    Enum(Name, Vec<(Name, Vt)>),
    Block(Box<Ty>),
    Labeled(Box<Ty>),
    /// `doubly_labeled_block` over a map of maps; the type is that of the inner values.
    Doubly(Box<Ty>),
    /// `hcl::Value`
    Value,
    /// `hcl::Expression`
    Expr,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Vt {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<(Name, Ty)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<D>),
    New(Box<D>),
    Seq(Vec<D>),
    Map(Vec<(D, D)>),
    Struct(Vec<D>),
    Var(usize, Vec<D>),
    Val(V),
    Expr(E),
}

/// Leaks each list only once.
fn names(v: impl Iterator<Item = Name>) -> &'static [Name] {
    static POOL: Mutex<Option<HashMap<Vec<Name>, &'static [Name]>>> = Mutex::new(None);
    let v: Vec<Name> = v.collect();
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashMap::new);
    if let Some(s) = p.get(&v) {
        return s;
    }
    let s: &'static [Name] = Box::leak(v.clone().into_boxed_slice());
    p.insert(v, s);
    s
}

// --- generation ---------------------------------------------------------------------------------

const NAMES: &[Name] = &[
    "a", "b", "c", "d", "foo", "bar", "x-y", "_z", "é", "Key", "handle", "type", "r2",
];
const ODD_NAMES: &[Name] = &["a b", "1x", "", "a.b", "${x}", "\"q\"", "null", "true", "for", "in", "x\n", "-a", "%{if"];
const TYPES: &[Name] = &["T", "User", "Attribute", "Block", "ObjectKey", "Expression", "Body"];

#[derive(Clone, Copy)]
pub struct TyOpts {
    /// Names that are not identifiers, or are keywords.
    pub odd: bool,
    /// The block wrappers.
    pub blocks: bool,
    /// Embedded expressions.
    pub exprs: bool,
    /// Map keys other than strings.
    pub keys: bool,
}

fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct(_) | Ty::Opt(_) | Ty::Value | Ty::Expr => true,
        Ty::New(_, t) | Ty::Block(t) | Ty::Labeled(t) => nullable(t),
        _ => false,
    }
}

impl G<'_> {
    fn name(&mut self, o: TyOpts) -> Name {
        if o.odd && self.r.one_in(12) {
            self.r.pick(ODD_NAMES)
        } else {
            self.r.pick(NAMES)
        }
    }
    fn fields(&mut self, o: TyOpts, d: usize, block: bool) -> Vec<(Name, Ty)> {
        let n = self.n(5);
        let mut f: Vec<(Name, Ty)> = vec![];
        for _ in 0..n {
            let k = self.name(o);
            if f.iter().all(|(x, _)| *x != k) {
                let t = if block { self.ty_field(o, d) } else { self.ty(o, d) };
                f.push((k, t));
            }
        }
        f
    }
    fn ty_enum(&mut self, o: TyOpts, d: usize, block: bool) -> Ty {
        let n = 1 + self.n(3).min(20);
        let mut v: Vec<(Name, Vt)> = vec![];
        for _ in 0..n {
            let k = self.name(o);
            if v.iter().any(|(x, _)| *x == k) {
                continue;
            }
            let t = match self.r.below(if d == 0 { 1 } else { 5 }) {
                0 => Vt::Unit,
                1 | 2 => Vt::New(if block { self.ty_field(o, d - 1) } else { self.ty(o, d - 1) }),
                3 => {
                    let n = self.n(4).min(12);
                    Vt::Tuple((0..n).map(|_| if block { self.ty_field(o, d - 1) } else { self.ty(o, d - 1) }).collect())
                }
                _ => Vt::Struct(self.fields(o, d - 1, block)),
            };
            v.push((k, t));
        }
        Ty::Enum(self.r.pick(TYPES), v)
    }
    fn ty_key(&mut self, o: TyOpts) -> Ty {
        match if o.keys { self.r.below(14) } else { 0 } {
            9 => Ty::Char,
            10 => Ty::Int(self.r.bool(), *self.r.pick(&[8, 16, 32, 64])),
            11 => Ty::Enum(self.r.pick(TYPES), vec![("a", Vt::Unit), ("b-1", Vt::Unit), ("C", Vt::Unit), ("é", Vt::Unit)]),
            12 => Ty::New(self.r.pick(TYPES), Box::new(Ty::Str)),
            13 => match self.r.below(5) {
                0 => Ty::Bool,
                1 => Ty::F64,
                2 => Ty::Unit,
                3 => Ty::Seq(Box::new(Ty::Str)),
                _ => Ty::New("T", Box::new(Ty::Int(false, 16))),
            },
            _ => Ty::Str,
        }
    }
    /// A type in a position without blocks.
    pub fn ty(&mut self, o: TyOpts, d: usize) -> Ty {
        match if d == 0 { self.r.below(14) } else { self.r.below(30) } {
            0 => Ty::Bool,
            1..=3 => Ty::Int(self.r.bool(), *self.r.pick(&[8, 16, 32, 64])),
            4 => Ty::F32,
            5 => Ty::F64,
            6 => Ty::Char,
            7..=9 => Ty::Str,
            10 => Ty::Bytes,
            11 => Ty::Unit,
            12 => Ty::UnitStruct(self.r.pick(TYPES)),
            13 => {
                if o.exprs && self.r.bool() {
                    Ty::Expr
                } else {
                    Ty::Value
                }
            }
            14..=16 => {
                let t = self.ty(o, d - 1);
                if nullable(&t) {
                    t
                } else {
                    Ty::Opt(Box::new(t))
                }
            }
            17 | 18 => Ty::New(self.r.pick(TYPES), Box::new(self.ty(o, d - 1))),
            19 | 20 => Ty::Seq(Box::new(self.ty(o, d - 1))),
            21 => {
                let n = (1 + self.n(4)).min(12);
                Ty::Tuple((0..n).map(|_| self.ty(o, d - 1)).collect())
            }
            22 => {
                let n = self.n(4).min(12);
                let n = if n == 1 { 2 } else { n };
                Ty::TupleStruct(self.r.pick(TYPES), (0..n).map(|_| self.ty(o, d - 1)).collect())
            }
            23 | 24 => {
                let k = self.ty_key(o);
                Ty::Map(Box::new(k), Box::new(self.ty(o, d - 1)))
            }
            25 | 26 => {
                let f = self.fields(o, d - 1, false);
                Ty::Struct(self.r.pick(TYPES), f)
            }
            27 | 28 => self.ty_enum(o, d, false),
            _ if o.blocks && self.r.one_in(4) => Ty::Block(Box::new(self.ty(o, d - 1))),
            _ => self.ty(o, d - 1),
        }
    }
    /// A type of a field of a body.
    pub fn ty_field(&mut self, o: TyOpts, d: usize) -> Ty {
        if o.blocks && d > 0 && self.r.pct(45) {
            return match self.r.below(8) {
                0..=2 => Ty::Block(Box::new(self.ty_blocks(o, d - 1))),
                3..=5 => Ty::Labeled(Box::new(self.ty_labels(o, d - 1))),
                6 => Ty::Doubly(Box::new(self.ty_blocks(o, d - 1))),
                _ => {
                    let t = Ty::Block(Box::new(self.ty_blocks(o, d - 1)));
                    if nullable(&t) {
                        t
                    } else {
                        Ty::Opt(Box::new(t))
                    }
                }
            };
        }
        self.ty(o, d)
    }
    fn ty_blocks(&mut self, o: TyOpts, d: usize) -> Ty {
        match if d == 0 { 0 } else { self.r.below(12) } {
            0..=3 => {
                let f = self.fields(o, d.saturating_sub(1), true);
                Ty::Struct(self.r.pick(TYPES), f)
            }
            4 | 5 => Ty::Map(Box::new(Ty::Str), Box::new(self.ty_field(o, d - 1))),
            6 | 7 => Ty::Seq(Box::new(self.ty_blocks(o, d - 1))),
            8 => {
                let n = self.r.range(1, 3);
                Ty::Tuple((0..n).map(|_| self.ty_blocks(o, d - 1)).collect())
            }
            9 => self.ty_enum(o, d, true),
            10 => Ty::New("T", Box::new(self.ty_blocks(o, d - 1))),
            _ => self.ty_field(o, d - 1),
        }
    }
    fn ty_labels(&mut self, o: TyOpts, d: usize) -> Ty {
        match if d == 0 { 1 } else { self.r.below(12) } {
            0..=5 => {
                let k = if self.r.one_in(3) { self.ty_key(o) } else { Ty::Str };
                let v = if self.r.one_in(3) { Ty::Labeled(Box::new(self.ty_labels(o, d.saturating_sub(1)))) } else { self.ty_blocks(o, d.saturating_sub(1)) };
                Ty::Map(Box::new(k), Box::new(v))
            }
            6..=8 => {
                let n = self.r.range(1, 3);
                let mut f: Vec<(Name, Ty)> = vec![];
                for _ in 0..n {
                    let k = self.name(TyOpts { odd: true, ..o });
                    if f.iter().all(|(x, _)| *x != k) {
                        f.push((k, self.ty_blocks(o, d - 1)));
                    }
                }
                Ty::Struct("T", f)
            }
            9 => {
                let Ty::Enum(n, v) = self.ty_enum(o, d, true) else { unreachable!() };
                Ty::Enum(n, v)
            }
            10 => Ty::Seq(Box::new(self.ty_labels(o, d - 1))),
            _ => self.ty_blocks(o, d - 1),
        }
    }
    /// A type at the top level.
    pub fn ty_body(&mut self, o: TyOpts, d: usize) -> Ty {
        match self.r.below(20) {
            0..=9 => {
                let f = self.fields(o, d, true);
                Ty::Struct(self.r.pick(TYPES), f)
            }
            10 | 11 => Ty::Map(Box::new(Ty::Str), Box::new(self.ty_field(o, d))),
            12..=14 => self.ty_enum(o, d, true),
            15 => Ty::New("T", Box::new(self.ty_body(o, d.saturating_sub(1)))),
            16 => {
                let n = self.r.range(1, 3);
                Ty::Tuple((0..n).map(|_| self.ty_body(o, d.saturating_sub(1))).collect())
            }
            17 => Ty::Seq(Box::new(self.ty_body(o, d.saturating_sub(1)))),
            18 => self.ty_field(o, d),
            _ => {
                let t = self.ty_body(o, d.saturating_sub(1));
                if nullable(&t) {
                    t
                } else {
                    Ty::Opt(Box::new(t))
                }
            }
        }
    }

    fn int(&mut self, signed: bool, bits: u32) -> i128 {
        let (lo, hi): (i128, i128) = if signed { (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) } else { (0, (1 << bits) - 1) };
        match self.r.below(6) {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => lo.max(-1),
            4 => lo + (self.r.u64() as i128 & (hi - lo)),
            _ => (self.r.below(100) as i128).min(hi),
        }
    }
    fn float(&mut self) -> f64 {
        match self.r.below(8) {
            0 => 0.0,
            1 => self.r.below(1000) as f64,
            2 => -(self.r.below(1000) as f64) - 0.5,
            3 => f64::MAX,
            4 => f64::MIN_POSITIVE,
            5 => 1e300,
            _ => {
                let f = f64::from_bits(self.r.u64());
                if f.is_finite() {
                    f
                } else {
                    0.1
                }
            }
        }
    }

    pub fn data(&mut self, t: &Ty, d: usize) -> D {
        match t {
            Ty::Bool => D::Bool(self.r.bool()),
            Ty::Int(s, b) => D::Int(self.int(*s, *b)),
            Ty::F32 => {
                let f = self.float() as f32;
                D::F32(if f.is_finite() { f } else { 0.5 })
            }
            Ty::F64 => D::F64(self.float()),
            Ty::Char => D::Char(*self.r.pick(&['a', 'é', '"', '\\', '$', '%', '{', '\n', '😀', '\0', ' ', '1'])),
            Ty::Str => D::Str(if self.r.bool() { self.id() } else { self.string() }),
            Ty::Bytes => {
                let n = self.n(5);
                D::Bytes((0..n).map(|_| self.r.u64() as u8).collect())
            }
            Ty::Unit | Ty::UnitStruct(_) => D::Unit,
            Ty::Opt(t) => {
                if self.r.one_in(3) {
                    D::None
                } else {
                    D::Some(Box::new(self.data(t, d)))
                }
            }
            Ty::New(_, t) => D::New(Box::new(self.data(t, d))),
            Ty::Block(t) | Ty::Labeled(t) => self.data(t, d),
            Ty::Seq(t) => {
                let n = if d == 0 { 0 } else { self.n(4) };
                D::Seq((0..n).map(|_| self.data(t, d - 1)).collect())
            }
            Ty::Tuple(ts) | Ty::TupleStruct(_, ts) => D::Seq(ts.iter().map(|t| self.data(t, d.saturating_sub(1))).collect()),
            Ty::Map(k, v) => {
                let n = if d == 0 { 0 } else { self.n(4) };
                self.map(k, n, |g| g.data(v, d - 1))
            }
            Ty::Doubly(t) => {
                let n = self.n(3);
                self.map(&Ty::Str, n, |g| {
                    let n = g.n(3);
                    g.map(&Ty::Str, n, |g| g.data(t, d.saturating_sub(1)))
                })
            }
            Ty::Struct(_, f) => D::Struct(f.iter().map(|(_, t)| self.data(t, d.saturating_sub(1))).collect()),
            Ty::Enum(_, vs) => {
                let i = self.r.below(vs.len());
                D::Var(
                    i,
                    match &vs[i].1 {
                        Vt::Unit => vec![],
                        Vt::New(t) => vec![self.data(t, d.saturating_sub(1))],
                        Vt::Tuple(ts) => ts.iter().map(|t| self.data(t, d.saturating_sub(1))).collect(),
                        Vt::Struct(f) => f.iter().map(|(_, t)| self.data(t, d.saturating_sub(1))).collect(),
                    },
                )
            }
            Ty::Value => {
                let d = d.min(2);
                D::Val(self.val(d))
            }
            Ty::Expr => {
                let d = d.min(2);
                D::Expr(loop {
                    let b = self.budget;
                    self.budget = 12;
                    let e = self.expr(d);
                    self.budget = b;
                    break e;
                })
            }
        }
    }
    fn map(&mut self, k: &Ty, n: usize, mut f: impl FnMut(&mut Self) -> D) -> D {
        let mut m: Vec<(D, D)> = vec![];
        for _ in 0..n {
            let k = self.data(k, 1);
            if m.iter().all(|(x, _)| *x != k) {
                m.push((k, f(self)));
            }
        }
        D::Map(m)
    }
}

/// A type with a changed part.
pub fn mutate(g: &mut G, t: &Ty, o: TyOpts) -> Ty {
    if g.r.one_in(4) {
        return g.ty(o, 1);
    }
    let mut t = t.clone();
    match &mut t {
        Ty::Opt(x) | Ty::New(_, x) | Ty::Seq(x) | Ty::Block(x) | Ty::Labeled(x) | Ty::Doubly(x) => {
            let n = mutate(g, x, o);
            if !(matches!(t, Ty::Opt(_)) && nullable(&n)) {
                match &mut t {
                    Ty::Opt(x) | Ty::New(_, x) | Ty::Seq(x) | Ty::Block(x) | Ty::Labeled(x) | Ty::Doubly(x) => **x = n,
                    _ => {}
                }
            }
        }
        Ty::Map(_, x) => **x = mutate(g, x, o),
        Ty::Tuple(v) | Ty::TupleStruct(_, v) if !v.is_empty() => {
            let i = g.r.below(v.len());
            if g.r.one_in(4) && v.len() > 2 {
                v.remove(i);
            } else {
                v[i] = mutate(g, &v[i].clone(), o);
            }
        }
        Ty::Struct(_, f) if !f.is_empty() => {
            let i = g.r.below(f.len());
            match g.r.below(6) {
                0 => {
                    f.remove(i);
                }
                1 => {
                    let t = g.ty(o, 1);
                    f.push(("extra", t));
                }
                _ => f[i].1 = mutate(g, &f[i].1.clone(), o),
            }
        }
        Ty::Enum(_, v) => {
            let i = g.r.below(v.len());
            v[i].1 = match &v[i].1 {
                Vt::New(t) => Vt::New(mutate(g, t, o)),
                Vt::Unit => Vt::New(g.ty(o, 1)),
                _ => Vt::Unit,
            };
        }
        _ => return g.ty(o, 1),
    }
    t
}

// --- Serialize ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Sd<'a>(pub &'a Ty, pub &'a D);

impl PartialEq for Sd<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.1 == o.1
    }
}

impl Eq for Sd<'_> {}

impl Serialize for Sd<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
        match (self.0, self.1) {
            (Ty::Bool, D::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(true, 8), D::Int(i)) => s.serialize_i8(*i as i8),
            (Ty::Int(true, 16), D::Int(i)) => s.serialize_i16(*i as i16),
            (Ty::Int(true, 32), D::Int(i)) => s.serialize_i32(*i as i32),
            (Ty::Int(true, 64), D::Int(i)) => s.serialize_i64(*i as i64),
            (Ty::Int(false, 8), D::Int(i)) => s.serialize_u8(*i as u8),
            (Ty::Int(false, 16), D::Int(i)) => s.serialize_u16(*i as u16),
            (Ty::Int(false, 32), D::Int(i)) => s.serialize_u32(*i as u32),
            (Ty::Int(false, 64), D::Int(i)) => s.serialize_u64(*i as u64),
            (Ty::F32, D::F32(f)) => s.serialize_f32(*f),
            (Ty::F64, D::F64(f)) => s.serialize_f64(*f),
            (Ty::Char, D::Char(c)) => s.serialize_char(*c),
            // Types with a textual form, like addresses, are serialized like this.
            (Ty::Str, D::Str(x)) if x.len() % 3 == 1 => s.collect_str(&format_args!("{}{}", &x[..0], x)),
            (Ty::Str, D::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, D::Bytes(b)) => s.serialize_bytes(b),
            (Ty::Unit, D::Unit) => s.serialize_unit(),
            (Ty::UnitStruct(n), D::Unit) => s.serialize_unit_struct(n),
            (Ty::Opt(_), D::None) => s.serialize_none(),
            (Ty::Opt(t), D::Some(d)) => s.serialize_some(&Sd(t, d)),
            (Ty::New(n, t), D::New(d)) => s.serialize_newtype_struct(n, &Sd(t, d)),
            (Ty::Block(t), d) => hcl::ser::block(Sd(t, d), s),
            (Ty::Labeled(t), d) => hcl::ser::LabeledBlock::new(Sd(t, d)).serialize(s),
            (Ty::Doubly(t), D::Map(m)) => {
                struct Inner<'a>(&'a Ty, &'a [(D, D)]);
                impl Serialize for Inner<'_> {
                    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                        let mut m = s.serialize_map(None)?;
                        for (k, v) in self.1 {
                            m.serialize_entry(&Sd(&Ty::Str, k), &Sd(self.0, v))?;
                        }
                        m.end()
                    }
                }
                hcl::ser::doubly_labeled_block(
                    m.iter().map(|(k, v)| match v {
                        D::Map(m) => (Sd(&Ty::Str, k), Inner(t, m)),
                        _ => unreachable!(),
                    }),
                    s,
                )
            }
            (Ty::Seq(t), D::Seq(v)) => {
                let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for d in v {
                    q.serialize_element(&Sd(t, d))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), D::Seq(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (t, d) in ts.iter().zip(v) {
                    q.serialize_element(&Sd(t, d))?;
                }
                q.end()
            }
            (Ty::TupleStruct(n, ts), D::Seq(v)) => {
                let mut q = s.serialize_tuple_struct(n, v.len())?;
                for (t, d) in ts.iter().zip(v) {
                    q.serialize_field(&Sd(t, d))?;
                }
                q.end()
            }
            (Ty::Map(k, t), D::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (i, (a, b)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Sd(k, a), &Sd(t, b))?;
                    } else {
                        q.serialize_key(&Sd(k, a))?;
                        q.serialize_value(&Sd(t, b))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(n, f), D::Struct(v)) => {
                let mut q = s.serialize_struct(n, v.len())?;
                for ((k, t), d) in f.iter().zip(v) {
                    q.serialize_field(k, &Sd(t, d))?;
                }
                q.end()
            }
            (Ty::Enum(n, vs), D::Var(i, v)) => match &vs[*i] {
                (k, Vt::Unit) => s.serialize_unit_variant(n, *i as u32, k),
                (k, Vt::New(t)) => s.serialize_newtype_variant(n, *i as u32, k, &Sd(t, &v[0])),
                (k, Vt::Tuple(ts)) => {
                    let mut q = s.serialize_tuple_variant(n, *i as u32, k, v.len())?;
                    for (t, d) in ts.iter().zip(v) {
                        q.serialize_field(&Sd(t, d))?;
                    }
                    q.end()
                }
                (k, Vt::Struct(f)) => {
                    let mut q = s.serialize_struct_variant(n, *i as u32, k, v.len())?;
                    for ((k, t), d) in f.iter().zip(v) {
                        q.serialize_field(k, &Sd(t, d))?;
                    }
                    q.end()
                }
            },
            (Ty::Value, D::Val(v)) => v.to().serialize(s),
            (Ty::Expr, D::Expr(e)) => conv::to_rs_expr(e).serialize(s),
            (t, d) => panic!("{d:?} is not a {t:?}"),
        }
    }
}

// --- Deserialize --------------------------------------------------------------------------------

/// Deserializes a value of the type.
#[derive(Clone, Copy)]
pub struct De<'a>(pub &'a Ty);

struct Id;

impl<'de> DeserializeSeed<'de> for Id {
    type Value = String;
    fn deserialize<X: Deserializer<'de>>(self, x: X) -> Result<String, X::Error> {
        struct I;
        impl<'de> Visitor<'de> for I {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("an identifier")
            }
            fn visit_str<X: de::Error>(self, s: &str) -> Result<String, X> {
                Ok(s.to_string())
            }
        }
        x.deserialize_identifier(I)
    }
}

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = D;
    fn deserialize<X: Deserializer<'de>>(self, x: X) -> Result<D, X::Error> {
        use serde::Deserialize;
        match self.0 {
            Ty::Bool => x.deserialize_bool(self),
            Ty::Int(true, 8) => x.deserialize_i8(self),
            Ty::Int(true, 16) => x.deserialize_i16(self),
            Ty::Int(true, 32) => x.deserialize_i32(self),
            Ty::Int(true, _) => x.deserialize_i64(self),
            Ty::Int(false, 8) => x.deserialize_u8(self),
            Ty::Int(false, 16) => x.deserialize_u16(self),
            Ty::Int(false, 32) => x.deserialize_u32(self),
            Ty::Int(false, _) => x.deserialize_u64(self),
            Ty::F32 => x.deserialize_f32(self),
            Ty::F64 => x.deserialize_f64(self),
            Ty::Char => x.deserialize_char(self),
            Ty::Str => x.deserialize_string(self),
            Ty::Bytes => x.deserialize_byte_buf(self),
            Ty::Unit => x.deserialize_unit(self),
            Ty::UnitStruct(n) => x.deserialize_unit_struct(n, self),
            Ty::Opt(_) => x.deserialize_option(self),
            Ty::New(n, _) => x.deserialize_newtype_struct(n, self),
            Ty::Block(t) | Ty::Labeled(t) => De(t).deserialize(x),
            Ty::Seq(_) => x.deserialize_seq(self),
            Ty::Tuple(t) => x.deserialize_tuple(t.len(), self),
            Ty::TupleStruct(n, t) => x.deserialize_tuple_struct(n, t.len(), self),
            Ty::Map(..) | Ty::Doubly(_) => x.deserialize_map(self),
            Ty::Struct(n, f) => x.deserialize_struct(n, names(f.iter().map(|f| f.0)), self),
            Ty::Enum(n, v) => x.deserialize_enum(n, names(v.iter().map(|f| f.0)), self),
            Ty::Value => Ok(D::Val(V::of(&hcl::Value::deserialize(x)?))),
            Ty::Expr => {
                let e = hcl::Expression::deserialize(x)?;
                let e = conv::rs_expr(&e).map_err(de::Error::custom)?;
                Ok(D::Expr(ne(&e, Nf::Rs)))
            }
        }
    }
}

fn seq<'de, A: SeqAccess<'de>>(ts: &mut dyn Iterator<Item = &Ty>, mut a: A) -> Result<Vec<D>, A::Error> {
    let mut v = vec![];
    for t in ts {
        match a.next_element_seed(De(t))? {
            Some(d) => v.push(d),
            None => return Err(de::Error::invalid_length(v.len(), &"more elements")),
        }
    }
    Ok(v)
}

fn fields<'de, A: MapAccess<'de>>(f: &[(Name, Ty)], mut a: A) -> Result<Vec<D>, A::Error> {
    let mut v: Vec<Option<D>> = vec![None; f.len()];
    while let Some(k) = a.next_key_seed(Id)? {
        match f.iter().position(|(n, _)| *n == k) {
            Some(i) if v[i].is_some() => return Err(de::Error::duplicate_field(f[i].0)),
            Some(i) => v[i] = Some(a.next_value_seed(De(&f[i].1))?),
            None => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    f.iter()
        .zip(v)
        .map(|((n, t), d)| match (t, d) {
            (_, Some(d)) => Ok(d),
            (Ty::Opt(_), None) => Ok(D::None),
            _ => Err(de::Error::missing_field(n)),
        })
        .collect()
}

struct Fields<'a>(&'a [(Name, Ty)]);

impl<'de> Visitor<'de> for Fields<'_> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct variant")
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        fields(self.0, a)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        seq(&mut self.0.iter().map(|f| &f.1), a)
    }
}

struct Elems<'a>(&'a [Ty]);

impl<'de> Visitor<'de> for Elems<'_> {
    type Value = Vec<D>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple variant")
    }
    /// serde_json does so for an empty one.
    fn visit_unit<X: de::Error>(self) -> Result<Vec<D>, X> {
        if self.0.is_empty() {
            Ok(vec![])
        } else {
            Err(X::invalid_type(de::Unexpected::Unit, &self))
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<D>, A::Error> {
        seq(&mut self.0.iter(), a)
    }
}

impl De<'_> {
    fn bad<X: de::Error>(self, u: de::Unexpected) -> Result<D, X> {
        Err(X::invalid_type(u, &self))
    }
    fn number<X: de::Error>(self, i: i128) -> Result<D, X> {
        match self.0 {
            Ty::Int(s, b) => {
                let (lo, hi): (i128, i128) = if *s { (-(1 << (b - 1)), (1 << (b - 1)) - 1) } else { (0, (1 << b) - 1) };
                if i < lo || i > hi {
                    return Err(X::custom(format!("{i} is out of range")));
                }
                Ok(D::Int(i))
            }
            Ty::F32 => Ok(D::F32(i as f32)),
            Ty::F64 => Ok(D::F64(i as f64)),
            _ => self.bad(de::Unexpected::Other("integer")),
        }
    }
}

impl<'de> Visitor<'de> for De<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<X: de::Error>(self, b: bool) -> Result<D, X> {
        match self.0 {
            Ty::Bool => Ok(D::Bool(b)),
            _ => self.bad(de::Unexpected::Bool(b)),
        }
    }
    fn visit_u64<X: de::Error>(self, i: u64) -> Result<D, X> {
        self.number(i as i128)
    }
    fn visit_i64<X: de::Error>(self, i: i64) -> Result<D, X> {
        self.number(i as i128)
    }
    fn visit_f64<X: de::Error>(self, f: f64) -> Result<D, X> {
        match self.0 {
            Ty::F32 => Ok(D::F32(f as f32)),
            Ty::F64 => Ok(D::F64(f)),
            _ => self.bad(de::Unexpected::Float(f)),
        }
    }
    fn visit_str<X: de::Error>(self, s: &str) -> Result<D, X> {
        match self.0 {
            Ty::Str => Ok(D::Str(s.to_string())),
            Ty::Char if s.chars().count() == 1 => Ok(D::Char(s.chars().next().unwrap())),
            Ty::Bytes => Ok(D::Bytes(s.as_bytes().to_vec())),
            _ => self.bad(de::Unexpected::Str(s)),
        }
    }
    fn visit_bytes<X: de::Error>(self, s: &[u8]) -> Result<D, X> {
        match self.0 {
            Ty::Bytes => Ok(D::Bytes(s.to_vec())),
            _ => self.bad(de::Unexpected::Bytes(s)),
        }
    }
    fn visit_unit<X: de::Error>(self) -> Result<D, X> {
        match self.0 {
            Ty::Unit | Ty::UnitStruct(_) => Ok(D::Unit),
            Ty::Opt(_) => Ok(D::None),
            _ => self.bad(de::Unexpected::Unit),
        }
    }
    fn visit_none<X: de::Error>(self) -> Result<D, X> {
        match self.0 {
            Ty::Opt(_) => Ok(D::None),
            _ => self.bad(de::Unexpected::Option),
        }
    }
    fn visit_some<X: Deserializer<'de>>(self, x: X) -> Result<D, X::Error> {
        match self.0 {
            Ty::Opt(t) => Ok(D::Some(Box::new(De(t).deserialize(x)?))),
            _ => self.bad(de::Unexpected::Option),
        }
    }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, x: X) -> Result<D, X::Error> {
        match self.0 {
            Ty::New(_, t) => Ok(D::New(Box::new(De(t).deserialize(x)?))),
            _ => self.bad(de::Unexpected::NewtypeStruct),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut v = vec![];
                while let Some(d) = a.next_element_seed(De(t))? {
                    v.push(d);
                }
                Ok(D::Seq(v))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(_, ts) => Ok(D::Seq(seq(&mut ts.iter(), a)?)),
            Ty::New(_, t) => Ok(D::New(Box::new(seq(&mut std::iter::once(&**t), a)?.remove(0)))),
            Ty::Struct(_, f) => Ok(D::Struct(seq(&mut f.iter().map(|f| &f.1), a)?)),
            Ty::Bytes => {
                let mut v = vec![];
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(D::Bytes(v))
            }
            _ => self.bad(de::Unexpected::Seq),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        let doubly;
        match self.0 {
            Ty::Map(..) | Ty::Doubly(_) => {
                let (k, t) = match self.0 {
                    Ty::Map(k, t) => (&**k, &**t),
                    Ty::Doubly(t) => {
                        doubly = Ty::Map(Box::new(Ty::Str), t.clone());
                        (&Ty::Str, &doubly)
                    }
                    _ => unreachable!(),
                };
                let mut m: Vec<(D, D)> = vec![];
                while let Some((k, v)) = a.next_entry_seed(De(k), De(t))? {
                    match m.iter_mut().find(|(x, _)| *x == k) {
                        Some(x) => x.1 = v,
                        None => m.push((k, v)),
                    }
                }
                Ok(D::Map(m))
            }
            Ty::Struct(_, f) => Ok(D::Struct(fields(f, a)?)),
            _ => self.bad(de::Unexpected::Map),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        let Ty::Enum(_, vs) = self.0 else { return self.bad(de::Unexpected::Enum) };
        let (k, a) = a.variant_seed(Id)?;
        let Some(i) = vs.iter().position(|(n, _)| *n == k) else {
            return Err(de::Error::unknown_variant(&k, names(vs.iter().map(|v| v.0))));
        };
        Ok(D::Var(
            i,
            match &vs[i].1 {
                Vt::Unit => {
                    a.unit_variant()?;
                    vec![]
                }
                Vt::New(t) => vec![a.newtype_variant_seed(De(t))?],
                Vt::Tuple(ts) => a.tuple_variant(ts.len(), Elems(ts))?,
                Vt::Struct(f) => a.struct_variant(names(f.iter().map(|f| f.0)), Fields(f))?,
            },
        ))
    }
}

// --- what the data means ------------------------------------------------------------------------

fn ident(s: &str) -> Option<String> {
    hcl_primitives::ident::is_ident(s).then(|| s.to_string())
}

fn float(f: f64) -> E {
    N::from_f64(f).map_or(E::Null, E::Num)
}

fn key(t: &Ty, d: &D) -> Option<K> {
    Some(match (t, d) {
        (Ty::Str, D::Str(s)) => K::Ex(E::Str(s.clone())),
        (Ty::Char, D::Char(c)) => K::Ex(E::Str(c.to_string())),
        (Ty::Int(..), D::Int(i)) => K::Ex(E::Num(N::from_i128(*i))),
        (Ty::New(_, t), D::New(d)) => key(t, d)?,
        (Ty::Enum(_, v), D::Var(i, _)) if v[*i].1 == Vt::Unit => K::Id(ident(v[*i].0)?),
        _ => return None,
    })
}

fn exprs(ts: &mut dyn Iterator<Item = &Ty>, v: &[D]) -> Option<E> {
    Some(E::Arr(ts.zip(v).map(|(t, d)| expr(t, d)).collect::<Option<_>>()?))
}

fn object(f: &[(Name, Ty)], v: &[D]) -> Option<E> {
    Some(E::Obj(f.iter().zip(v).map(|((k, t), d)| Some((K::Ex(E::Str(k.to_string())), expr(t, d)?))).collect::<Option<_>>()?))
}

/// The expression that the value becomes, `None` if it has to be refused.
pub fn expr(t: &Ty, d: &D) -> Option<E> {
    Some(match (t, d) {
        (_, D::Bool(b)) => E::Bool(*b),
        (_, D::Int(i)) => E::Num(N::from_i128(*i)),
        (_, D::F32(f)) => float(*f as f64),
        (_, D::F64(f)) => float(*f),
        (_, D::Char(c)) => E::Str(c.to_string()),
        (_, D::Str(s)) => E::Str(s.clone()),
        (_, D::Bytes(b)) => E::Arr(b.iter().map(|b| E::Num(N::U(*b as u64))).collect()),
        (_, D::Unit | D::None) => E::Null,
        (Ty::Opt(t), D::Some(d)) | (Ty::New(_, t), D::New(d)) => expr(t, d)?,
        (Ty::Block(t) | Ty::Labeled(t), d) => expr(t, d)?,
        (Ty::Seq(t), D::Seq(v)) => exprs(&mut std::iter::repeat(&**t), v)?,
        (Ty::Tuple(ts) | Ty::TupleStruct(_, ts), D::Seq(v)) => exprs(&mut ts.iter(), v)?,
        (Ty::Map(k, t), D::Map(m)) => E::Obj(m.iter().map(|(a, b)| Some((key(k, a)?, expr(t, b)?))).collect::<Option<_>>()?),
        (Ty::Doubly(t), d) => expr(&doubly(t), d)?,
        (Ty::Struct(_, f), D::Struct(v)) => object(f, v)?,
        (Ty::Enum(_, vs), D::Var(i, v)) => {
            let k = vs[*i].0;
            match &vs[*i].1 {
                Vt::Unit => E::Str(k.to_string()),
                Vt::New(t) => E::Obj(vec![(K::Id(ident(k)?), expr(t, &v[0])?)]),
                Vt::Tuple(ts) => E::Obj(vec![(K::Ex(E::Str(k.to_string())), exprs(&mut ts.iter(), v)?)]),
                Vt::Struct(f) => E::Obj(vec![(K::Ex(E::Str(k.to_string())), object(f, v)?)]),
            }
        }
        (_, D::Val(v)) => v.expr(),
        (_, D::Expr(e)) => e.clone(),
        (t, d) => panic!("{d:?} is not a {t:?}"),
    })
}

fn doubly(t: &Ty) -> Ty {
    Ty::Labeled(Box::new(Ty::Map(Box::new(Ty::Str), Box::new(Ty::Labeled(Box::new(Ty::Map(Box::new(Ty::Str), Box::new(t.clone()))))))))
}

type Bs = Option<Vec<S>>;

fn concat(i: impl Iterator<Item = Bs>) -> Bs {
    Some(i.collect::<Option<Vec<_>>>()?.concat())
}

/// The items of something like a map as structures.
fn items(t: &Ty, d: &D) -> Bs {
    match (t, d) {
        (Ty::Map(k, t), D::Map(m)) => concat(m.iter().map(|(a, b)| match key(k, a)? {
            // Integers are no identifiers.
            K::Ex(E::Str(k)) | K::Id(k) => field(&ident(&k)?, t, b),
            _ => None,
        })),
        (Ty::Struct(_, f), D::Struct(v)) => concat(f.iter().zip(v).map(|((k, t), d)| field(&ident(k)?, t, d))),
        (_, D::Val(V::Obj(o))) => concat(o.iter().map(|(k, v)| field(&ident(k)?, &Ty::Value, &D::Val(v.clone())))),
        (_, D::Expr(E::Obj(o))) => o
            .iter()
            .map(|(k, e)| match k {
                K::Id(k) | K::Ex(E::Str(k)) => Some(S::Attr(ident(k)?, e.clone())),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}

fn elems<'a>(t: &'a Ty, d: &'a D) -> Option<Vec<(Ty, D)>> {
    Some(match (t, d) {
        (Ty::Seq(t), D::Seq(v)) => v.iter().map(|d| ((**t).clone(), d.clone())).collect(),
        (Ty::Tuple(ts) | Ty::TupleStruct(_, ts), D::Seq(v)) => ts.iter().cloned().zip(v.iter().cloned()).collect(),
        (_, D::Val(V::Arr(v))) => v.iter().map(|v| (Ty::Value, D::Val(v.clone()))).collect(),
        _ => return None,
    })
}

fn is_map(t: &Ty, d: &D) -> bool {
    matches!(t, Ty::Map(..) | Ty::Struct(..)) || matches!(d, D::Val(V::Obj(_)) | D::Expr(E::Obj(_)))
}

/// The body that the value becomes, `None` if it has to be refused.
pub fn body(t: &Ty, d: &D) -> Bs {
    match (t, d) {
        (Ty::Opt(t), D::Some(d)) | (Ty::New(_, t), D::New(d)) => body(t, d),
        (Ty::Block(t) | Ty::Labeled(t), d) => body(t, d),
        (Ty::Doubly(t), d) => body(&doubly(t), d),
        (Ty::Enum(_, vs), D::Var(i, v)) => {
            let k = vs[*i].0;
            match &vs[*i].1 {
                Vt::Unit => None,
                Vt::New(t) => field(&ident(k)?, t, &v[0]),
                Vt::Tuple(ts) => Some(vec![S::Attr(ident(k)?, exprs(&mut ts.iter(), v)?)]),
                Vt::Struct(f) => Some(vec![block(&ident(k)?, items(&Ty::Struct("T", f.clone()), &D::Struct(v.clone()))?)]),
            }
        }
        (t, d) if is_map(t, d) => items(t, d),
        (t, d) => concat(elems(t, d)?.iter().map(|(t, d)| body(t, d))),
    }
}

fn block(k: &str, body: B) -> S {
    S::Block(Block { ident: k.to_string(), labels: vec![], body })
}

fn field(k: &str, t: &Ty, d: &D) -> Bs {
    match (t, d) {
        (Ty::Opt(t), D::Some(d)) => field(k, t, d),
        (Ty::Block(t), d) => blocks(k, t, d),
        (Ty::Labeled(t), d) => labeled(k, t, d),
        (Ty::Doubly(t), d) => field(k, &doubly(t), d),
        _ => Some(vec![S::Attr(k.to_string(), expr(t, d)?)]),
    }
}

fn blocks(k: &str, t: &Ty, d: &D) -> Bs {
    match (t, d) {
        (Ty::Opt(t), D::Some(d)) | (Ty::New(_, t), D::New(d)) => blocks(k, t, d),
        (Ty::Block(t), d) => blocks(k, t, d),
        (Ty::Labeled(t), d) => labeled(k, t, d),
        (Ty::Doubly(t), d) => blocks(k, &doubly(t), d),
        (Ty::Enum(_, vs), D::Var(i, v)) => {
            let n = vs[*i].0;
            Some(vec![block(
                k,
                match &vs[*i].1 {
                    Vt::Unit => return None,
                    Vt::New(t) => field(&ident(n)?, t, &v[0])?,
                    Vt::Tuple(ts) => {
                        let n = ident(n)?;
                        concat(ts.iter().zip(v).map(|(t, d)| blocks(&n, t, d)))?
                    }
                    Vt::Struct(f) => vec![block(&ident(n)?, items(&Ty::Struct("T", f.clone()), &D::Struct(v.clone()))?)],
                },
            )])
        }
        (t, d) if is_map(t, d) => Some(vec![block(k, items(t, d)?)]),
        (t, d) => concat(elems(t, d)?.iter().map(|(t, d)| blocks(k, t, d))),
    }
}

fn labeled(k: &str, t: &Ty, d: &D) -> Bs {
    let with = |labels: &[&str], t: &Ty, d: &D| -> Bs {
        let mut v = blocks(k, t, d)?;
        v.retain(|s| matches!(s, S::Block(_)));
        for s in &mut v {
            if let S::Block(b) = s {
                b.labels.splice(0..0, labels.iter().map(|l| L::Str(l.to_string())));
            }
        }
        Some(v)
    };
    match (t, d) {
        (Ty::Opt(t), D::Some(d)) | (Ty::New(_, t), D::New(d)) => labeled(k, t, d),
        (Ty::Block(t) | Ty::Labeled(t), d) => labeled(k, t, d),
        (Ty::Doubly(t), d) => labeled(k, &doubly(t), d),
        (Ty::Enum(_, vs), D::Var(i, v)) => {
            let n = vs[*i].0;
            match &vs[*i].1 {
                Vt::Unit => None,
                Vt::New(t) => with(&[n], t, &v[0]),
                Vt::Tuple(ts) => concat(ts.iter().zip(v).map(|(t, d)| with(&[n], t, d))),
                Vt::Struct(f) => concat(f.iter().zip(v).map(|((f, t), d)| with(&[n, f], t, d))),
            }
        }
        (Ty::Map(kt, t), D::Map(m)) => concat(m.iter().map(|(a, b)| {
            // Labels may be any string, so may the names of variants.
            let l = match (&**kt, a) {
                (Ty::Enum(_, v), D::Var(i, _)) if v[*i].1 == Vt::Unit => v[*i].0.to_string(),
                _ => match key(kt, a)? {
                    K::Ex(E::Str(l)) | K::Id(l) => l,
                    _ => return None,
                },
            };
            with(&[&l], t, b)
        })),
        (Ty::Struct(_, f), D::Struct(v)) => concat(f.iter().zip(v).map(|((k, t), d)| with(&[k], t, d))),
        (_, D::Val(V::Obj(o))) => concat(o.iter().map(|(k, v)| with(&[k], &Ty::Value, &D::Val(v.clone())))),
        (_, D::Expr(_)) => None,
        (t, d) => concat(elems(t, d)?.iter().map(|(t, d)| labeled(k, t, d))),
    }
}

// --- a data format that knows no types ----------------------------------------------------------

/// Data of a self-describing format: whatever is asked for, the visitor is told what there is. The
/// seed selects between the calls that formats make for the same data.
pub struct Foreign<'a>(pub &'a V, pub u64);

#[derive(Debug, PartialEq)]
pub struct ForeignError(pub String);

impl fmt::Display for ForeignError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for ForeignError {}

impl de::Error for ForeignError {
    fn custom<T: fmt::Display>(t: T) -> Self {
        ForeignError(t.to_string())
    }
}

impl<'de> de::IntoDeserializer<'de, ForeignError> for Foreign<'de> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

impl<'de> Deserializer<'de> for Foreign<'de> {
    type Error = ForeignError;
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, ForeignError> {
        let Foreign(v, seed) = self;
        let next = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        if seed % 7 == 3 {
            return if *v == V::Null { w.visit_none() } else { w.visit_some(Foreign(v, next)) };
        }
        match v {
            V::Null => w.visit_unit(),
            V::Bool(b) => w.visit_bool(*b),
            V::Num(N::U(u)) => match seed % 5 {
                0 if *u <= u64::from(u8::MAX) => w.visit_u8(*u as u8),
                1 if *u <= i64::MAX as u64 => w.visit_i64(*u as i64),
                2 if *u <= i16::MAX as u64 => w.visit_i16(*u as i16),
                3 if *u < 1 << 50 => w.visit_f64(*u as f64),
                _ => w.visit_u64(*u),
            },
            V::Num(N::I(i)) => match seed % 3 {
                0 if *i >= i64::from(i8::MIN) => w.visit_i8(*i as i8),
                1 if *i > -(1 << 50) => w.visit_f64(*i as f64),
                _ => w.visit_i64(*i),
            },
            V::Num(N::F(f)) if f64::from(*f as f32) == *f && seed % 2 == 0 => w.visit_f32(*f as f32),
            V::Num(N::F(f)) => w.visit_f64(*f),
            V::Str(s) => match seed % 4 {
                0 => w.visit_str(s),
                1 => w.visit_string(s.clone()),
                2 if s.chars().count() == 1 => w.visit_char(s.chars().next().unwrap()),
                _ => w.visit_borrowed_str(s),
            },
            V::Arr(a) => {
                let mut i = next;
                w.visit_seq(de::value::SeqDeserializer::new(a.iter().map(|v| {
                    i = i.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
                    Foreign(v, i)
                })))
            }
            V::Obj(o) => {
                let mut i = next;
                w.visit_map(de::value::MapDeserializer::new(o.iter().map(|(k, v)| {
                    i = i.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
                    (k.as_str(), Foreign(v, i))
                })))
            }
        }
    }
}
