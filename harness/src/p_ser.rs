//! P13: serialization to HCL and back.

use crate::conv;
use crate::gen::G;
use crate::io::{Reader, Writer};
use crate::model::*;
use crate::p_conv::rs_opts;
use crate::p_parse::{first_diff, gen_body};
use crate::run::{Mon, Obs};
use crate::serdyn::{self, De, Sd, Ty, TyOpts, D};
use crate::spec;
use crate::val::V;
use serde::de::{DeserializeSeed, Deserializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;

thread_local! {
    static TY: RefCell<Option<Ty>> = const { RefCell::new(None) };
}

/// A value of the type that is set with [`with_ty`].
#[derive(Debug, PartialEq)]
pub struct Dyn(pub D);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<X: Deserializer<'de>>(x: X) -> Result<Dyn, X::Error> {
        let t = TY.with(|t| t.borrow().clone()).expect("no type");
        De(&t).deserialize(x).map(Dyn)
    }
}

pub fn with_ty<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    TY.with(|x| *x.borrow_mut() = Some(t.clone()));
    let r = f();
    TY.with(|x| *x.borrow_mut() = None);
    r
}

/// Data as it is read again: expressions are normalised.
pub fn norm(d: &D) -> D {
    match d {
        // The keys of a body are no keys of an object, all read as strings.
        D::Expr(e) => D::Expr(match ne(e, Nf::Rs) {
            E::Obj(o) => E::Obj(
                o.into_iter()
                    .map(|(k, e)| match k {
                        K::Id(k) => (K::Ex(E::Str(k)), e),
                        k => (k, e),
                    })
                    .collect(),
            ),
            e => e,
        }),
        D::Some(d) => D::Some(Box::new(norm(d))),
        D::New(d) => D::New(Box::new(norm(d))),
        D::Seq(v) => D::Seq(v.iter().map(norm).collect()),
        D::Struct(v) => D::Struct(v.iter().map(norm).collect()),
        D::Var(i, v) => D::Var(*i, v.iter().map(norm).collect()),
        D::Map(m) => D::Map(m.iter().map(|(k, v)| (norm(k), norm(v))).collect()),
        d => d.clone(),
    }
}

fn diff<X: PartialEq + Debug>(obs: &mut Obs, src: &str, what: &str, got: &X, want: &X) -> bool {
    if got != want {
        obs.fail(src, format!("{what}: {}", first_diff(&format!("{got:?}"), &format!("{want:?}"))));
    }
    got == want
}

fn hash(s: &str) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    h.write(s.as_bytes());
    h.finish()
}

/// The ways to serialize a value have to agree.
fn routes<T: Serialize>(obs: &mut Obs, src: &str, x: &T) -> Option<String> {
    let text = hcl::to_string(x);
    let text = text.map_err(|e| e.to_string());
    let s = |r: hcl::Result<Vec<u8>>| r.map_err(|e| e.to_string()).map(|v| String::from_utf8(v).expect("UTF-8"));
    let r: Vec<(&str, Result<String, String>)> = vec![
        ("to_vec", s(hcl::to_vec(x))),
        ("to_writer", {
            let mut v = b"".to_vec();
            s(hcl::to_writer(&mut v, x).map(|()| v))
        }),
        ("Serializer::new", {
            let mut ser = hcl::ser::Serializer::new(vec![]);
            s(ser.serialize(x).map(|()| ser.into_inner()))
        }),
        ("Serializer::with_formatter", {
            let mut ser = hcl::ser::Serializer::with_formatter(hcl::format::Formatter::new(vec![]));
            s(ser.serialize(x).map(|()| ser.into_inner()))
        }),
        ("serialize_string", {
            let mut ser = hcl::ser::Serializer::with_formatter(hcl::format::Formatter::default());
            ser.serialize_string(x).map_err(|e| e.to_string())
        }),
        ("serialize_vec", {
            let mut ser = hcl::ser::Serializer::with_formatter(hcl::format::Formatter::default());
            s(ser.serialize_vec(x))
        }),
        ("from_serializable and format", hcl::Body::from_serializable(x).and_then(|b| hcl::format::to_string(&b)).map_err(|e| e.to_string())),
    ];
    for (n, r) in r {
        diff(obs, src, n, &r, &text);
    }
    // A writer that takes a few bytes at a time or fails.
    let seed = hash(src);
    let mut w = Writer::new(seed, None);
    let r = hcl::to_writer(&mut w, x).map_err(|e| e.to_string());
    diff(obs, src, "to_writer in small steps", &r.map(|()| String::from_utf8_lossy(&w.data).into_owned()), &text);
    if let Ok(text) = text.as_deref().map(str::as_bytes) {
        if !text.is_empty() {
            let mut w = Writer::new(seed, Some(seed as usize % text.len()));
            if hcl::to_writer(&mut w, x).is_ok() {
                obs.fail(src, "to_writer ignores that the writer failed");
            }
            if !text.starts_with(&w.data) {
                obs.fail(src, "the text written in front of an error is not the beginning of the text");
            }
            obs.feat("failing writer");
        }
    }
    text.ok()
}

/// The ways to deserialize a document have to agree.
pub fn read<T: serde::de::DeserializeOwned + PartialEq + Debug>(obs: &mut Obs, src: &str, text: &str) -> Result<T, String> {
    let r = hcl::from_str::<T>(text).map_err(|e| e.to_string());
    let e = |r: hcl::Result<T>| r.map_err(|e| e.to_string());
    diff(obs, src, "from_slice", &e(hcl::from_slice(text.as_bytes())), &r);
    diff(obs, src, "from_reader", &e(hcl::from_reader(text.as_bytes())), &r);
    let seed = hash(text);
    diff(obs, src, "from_reader in small steps", &e(hcl::from_reader(Reader::new(text.as_bytes(), seed, None))), &r);
    match hcl::from_reader::<T, _>(Reader::new(text.as_bytes(), seed, Some(seed as usize % (text.len() + 1)))) {
        Err(hcl::Error::Io(e)) if e.kind() == std::io::ErrorKind::BrokenPipe => obs.feat("failing reader"),
        Err(e) => obs.fail(src, format!("from_reader reports another error than the one of the reader: {e}")),
        Ok(_) => obs.fail(src, "from_reader ignores that the reader failed"),
    }
    if let Ok(b) = hcl::parse(text) {
        diff(obs, src, "from_body", &e(hcl::from_body(b.clone())), &r);
        diff(obs, src, "Deserializer::from_body", &e(T::deserialize(hcl::de::Deserializer::from_body(b))), &r);
    }
    diff(obs, src, "Deserializer::from_str", &e(hcl::de::Deserializer::from_str(text).and_then(T::deserialize)), &r);
    r
}

fn types(obs: &mut Obs, t: &Ty, d: &D) {
    let src = format!("{t:?}\n{d:?}");
    let want = serdyn::body(t, d);
    let sd = Sd(t, d);
    obs.case(&src, want.as_ref().is_some_and(|b| !b.is_empty()));
    let got = hcl::Body::from_serializable(&sd);
    let Some(want) = want else {
        obs.feat("refused");
        if let Ok(b) = got {
            obs.fail(src, format!("should have been refused but became {b:?}"));
        } else {
            routes(obs, &src, &sd);
        }
        return;
    };
    let got = match got {
        Ok(b) => b,
        Err(e) => {
            obs.fail(src, format!("was refused: {e}, expected {want:?}"));
            return;
        }
    };
    match conv::rs_body(&got) {
        Ok(b) => {
            if !diff(obs, &src, "serialized body", &nb(&b, Nf::Rs), &nb(&want, Nf::Rs)) {
                return;
            }
        }
        Err(e) => obs.fail(&src, e),
    }
    let Some(text) = routes(obs, &src, &sd) else {
        obs.fail(src, "could not be formatted");
        return;
    };
    let src = format!("{src}\n{text}");
    if spec::strange_keys(&want) {
        return;
    }
    if !spec::parseable(&want) {
        obs.feat("duplicate attributes");
        return;
    }
    let v = spec::body(&want);
    match read::<hcl::Value>(obs, &src, &text) {
        Ok(x) => {
            diff(obs, &src, "generic value", &V::of(&x), &v);
        }
        Err(e) => {
            obs.fail(src, format!("the text was refused: {e}"));
            return;
        }
    }
    obs.feat("serialized");
    if v != spec::plain(t, d) {
        obs.feat("shape not kept by the mapping");
        return;
    }
    match with_ty(t, || read::<Dyn>(obs, &src, &text)) {
        Ok(x) => {
            if diff(obs, &src, "read again", &norm(&x.0), &norm(d)) {
                obs.feat("read again");
                if !matches!(&v, V::Obj(o) if o.is_empty()) {
                    obs.feat("read again, not empty");
                }
            }
        }
        Err(e) => obs.fail(src, format!("could not be read again: {e}")),
    }
}

// --- derived types ------------------------------------------------------------------------------

pub mod derived {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub struct Addr(pub String, pub u16);

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "kind", rename_all = "kebab-case")]
    pub enum Tagged {
        Nothing,
        OneThing { the_value: i64 },
        TwoThings { a: String, b: Option<bool> },
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "t", content = "c")]
    pub enum Adjacent {
        Unit,
        New(String),
        Tuple(u8, f64),
        Struct { x: i32 },
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    #[serde(untagged)]
    pub enum Untagged {
        Bool(bool),
        Int(i64),
        Float(f64),
        Str(String),
        List(Vec<Untagged>),
        Map(BTreeMap<String, Untagged>),
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub enum Plain {
        Unit,
        New(Vec<u8>),
        Tuple(i8, String),
        Struct { a: char, b: Option<Box<Plain>> },
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub struct Common {
        pub id: u64,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        pub note: Option<String>,
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub struct Inner {
        #[serde(flatten)]
        pub common: Common,
        pub on: bool,
        #[serde(rename = "x-y")]
        pub xy: f32,
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub struct Deep {
        #[serde(serialize_with = "hcl::ser::block")]
        pub inner: Inner,
        #[serde(serialize_with = "hcl::ser::labeled_block")]
        pub named: BTreeMap<String, Inner>,
    }

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub struct Root {
        pub name: String,
        pub addr: Addr,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        pub tags: Vec<String>,
        pub tagged: Vec<Tagged>,
        pub adjacent: Adjacent,
        pub untagged: Untagged,
        pub plain: Plain,
        pub tuple: (u8, Option<i16>, ((), bool)),
        #[serde(serialize_with = "hcl::ser::block")]
        pub config: Deep,
        #[serde(serialize_with = "hcl::ser::labeled_block")]
        pub server: BTreeMap<String, Deep>,
        #[serde(serialize_with = "hcl::ser::doubly_labeled_block")]
        pub resource: BTreeMap<String, BTreeMap<String, Inner>>,
        /// Several blocks are a sequence again.
        #[serde(serialize_with = "hcl::ser::block")]
        pub several: Vec<Inner>,
        #[serde(skip)]
        pub skipped: u8,
        #[serde(flatten)]
        pub rest: BTreeMap<String, Untagged>,
    }

    /// The same with the wrapper types in place of the functions.
    #[derive(Serialize, Deserialize, Debug, Clone)]
    pub struct DeepW {
        pub inner: hcl::ser::Block<Inner>,
        pub named: hcl::ser::LabeledBlock<BTreeMap<String, Inner>>,
    }

    #[derive(Deserialize, Debug, PartialEq)]
    pub struct Borrowed<'a> {
        pub name: std::borrow::Cow<'a, str>,
        #[serde(default)]
        pub tags: Vec<String>,
        pub addr: (String, u16),
        #[serde(default)]
        pub missing: Option<u8>,
    }
}

use derived::*;
use std::collections::BTreeMap;

impl G<'_> {
    fn inner(&mut self) -> Inner {
        Inner {
            common: Common { id: self.r.u64(), note: if self.r.bool() { Some(self.string()) } else { None } },
            on: self.r.bool(),
            xy: self.r.below(100_000) as f32 + 0.5,
        }
    }
    fn named<T>(&mut self, lo: usize, mut f: impl FnMut(&mut Self) -> T) -> BTreeMap<String, T> {
        let n = self.r.range(lo, lo + 2);
        (0..n)
            .map(|i| {
                let k = if self.r.bool() { self.id() } else { self.string() };
                (if k.is_empty() { format!("k{i}") } else { k }, f(self))
            })
            .collect()
    }
    fn deep(&mut self) -> Deep {
        Deep { inner: self.inner(), named: self.named(1, |g| g.inner()) }
    }
    fn untagged(&mut self, d: usize) -> Untagged {
        match if d == 0 { self.r.below(4) } else { self.r.below(6) } {
            0 => Untagged::Bool(self.r.bool()),
            1 => Untagged::Int(self.r.u64() as i64),
            2 => Untagged::Float(self.r.below(1000) as f64 + 0.25),
            3 => Untagged::Str(self.string()),
            4 => {
                let n = self.r.below(4);
                Untagged::List((0..n).map(|_| self.untagged(d - 1)).collect())
            }
            _ => Untagged::Map(self.named(0, |g| g.untagged(d - 1))),
        }
    }
    fn plain(&mut self) -> Plain {
        match self.r.below(5) {
            0 => Plain::Unit,
            1 => {
                let n = self.r.below(4);
                Plain::New((0..n).map(|_| self.r.u64() as u8).collect())
            }
            2 => Plain::Tuple(self.r.u64() as i8, self.string()),
            3 => Plain::Struct { a: '$', b: None },
            _ => Plain::Struct { a: 'é', b: Some(Box::new(self.plain())) },
        }
    }
    pub fn root(&mut self) -> Root {
        let n = self.r.below(4);
        Root {
            name: self.string(),
            addr: Addr(self.string(), self.r.u64() as u16),
            tags: (0..n).map(|_| self.string()).collect(),
            tagged: (0..n)
                .map(|_| match self.r.below(4) {
                    0 => Tagged::Nothing,
                    1 => Tagged::OneThing { the_value: self.r.u64() as i64 },
                    2 => Tagged::TwoThings { a: self.string(), b: None },
                    _ => Tagged::TwoThings { a: self.string(), b: Some(self.r.bool()) },
                })
                .collect(),
            adjacent: match self.r.below(4) {
                0 => Adjacent::Unit,
                1 => Adjacent::New(self.string()),
                2 => Adjacent::Tuple(self.r.u64() as u8, 1.5),
                _ => Adjacent::Struct { x: self.r.u64() as i32 },
            },
            untagged: self.untagged(2),
            plain: self.plain(),
            tuple: (self.r.u64() as u8, if self.r.bool() { None } else { Some(-3) }, ((), true)),
            config: self.deep(),
            server: self.named(1, |g| g.deep()),
            resource: self.named(1, |g| g.named(1, |g| g.inner())),
            several: (0..self.r.range(2, 4)).map(|_| self.inner()).collect(),
            skipped: 0,
            rest: {
                let mut m = BTreeMap::new();
                for i in 0..self.r.below(3) {
                    m.insert(format!("rest-{i}"), self.untagged(1));
                }
                m
            },
        }
    }
}

fn derived(obs: &mut Obs, g: &mut G) {
    let root = g.root();
    let src = format!("{root:?}");
    obs.case(&src, true);
    let Some(text) = routes(obs, &src, &root) else {
        obs.fail(src, format!("was refused: {}", hcl::to_string(&root).unwrap_err()));
        return;
    };
    let src = format!("{src}\n{text}");
    match read::<Root>(obs, &src, &text) {
        Ok(x) => {
            diff(obs, &src, "read again", &x, &root);
            obs.feat("derived types");
        }
        Err(e) => obs.fail(&src, format!("could not be read again: {e}")),
    }
    // The data has the shape that it also has as JSON.
    let json = serde_json::to_value(&root).unwrap();
    match read::<serde_json::Value>(obs, &src, &text) {
        Ok(x) => {
            diff(obs, &src, "as JSON", &x, &json);
        }
        Err(e) => obs.fail(&src, format!("could not be read as JSON: {e}")),
    }
    match hcl::from_str::<Borrowed>(&text) {
        Ok(b) => {
            let want = Borrowed { name: root.name.clone().into(), tags: root.tags.clone(), addr: (root.addr.0.clone(), root.addr.1), missing: None };
            diff(obs, &src, "borrowed data", &b, &want);
        }
        Err(e) => obs.fail(&src, format!("could not be read with borrowed strings: {e}")),
    }
    // Blocks are blocks.
    let body = hcl::parse(&text).expect("serialized text");
    let blocks: Vec<(&str, usize)> = body.blocks().map(|b| (b.identifier(), b.labels().len())).collect();
    let mut want = vec![("config", 0)];
    want.extend(root.server.iter().map(|_| ("server", 1)));
    want.extend(root.resource.values().flatten().map(|_| ("resource", 2)));
    want.extend(root.several.iter().map(|_| ("several", 0)));
    diff(obs, &src, "blocks", &blocks, &want);
    // The wrapper types are the same as the functions.
    let d = &root.config;
    let w = DeepW { inner: hcl::ser::Block::new(d.inner.clone()), named: hcl::ser::LabeledBlock::new(d.named.clone()) };
    let text = hcl::to_string(d).map_err(|e| e.to_string());
    diff(obs, &src, "wrappers", &hcl::to_string(&w).map_err(|e| e.to_string()), &text);
    // Elsewhere they are their contents.
    diff(obs, &src, "wrappers as JSON", &serde_json::to_string(&w).ok(), &serde_json::to_string(d).ok());
    let pair = |w: &DeepW| Deep { inner: (*w.inner).clone(), named: (*w.named).clone() };
    let back = hcl::to_value(&w).and_then(hcl::from_value::<DeepW>).map(|w| pair(&w)).map_err(|e| e.to_string());
    diff(obs, &src, "wrappers through a value", &back, &Ok(d.clone()));
    let back = serde_json::from_value::<DeepW>(serde_json::to_value(d).unwrap()).map(|w| pair(&w)).map_err(|e| e.to_string());
    diff(obs, &src, "wrappers through JSON", &back, &Ok(d.clone()));
    if let Ok(text) = &text {
        let a = hcl::from_str::<DeepW>(text).map(|w| pair(&w)).map_err(|e| e.to_string());
        let b = hcl::from_str::<Deep>(text).map_err(|e| e.to_string());
        diff(obs, &src, "wrappers read", &a, &b);
    }
    let mut c = w.clone();
    diff(obs, &src, "clone of the wrapper", &pair(&c), d);
    diff(obs, &src, "debug output", &format!("{c:?}"), &format!("DeepW {{ inner: Block({:?}), named: LabeledBlock({:?}) }}", d.inner, d.named));
    c.named.clear();
    c.named.extend([("new".to_string(), d.inner.clone())]);
    *c.inner = d.inner.clone();
    diff(obs, &src, "changed wrapper", &c.named.into_inner(), &BTreeMap::from([("new".to_string(), d.inner.clone())]));
    diff(obs, &src, "contents of the wrapper", &w.inner.into_inner(), &d.inner);
    diff(obs, &src, "contents of the wrapper", &*w.named, &d.named);
}

// --- the types of the crate as data -------------------------------------------------------------

#[derive(Serialize)]
struct Field<T> {
    a: T,
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Mixed {
    before: u8,
    #[serde(rename = "e")]
    expr: hcl::Expression,
    list: Vec<hcl::Expression>,
    opt: Option<hcl::Expression>,
    map: BTreeMap<String, hcl::Expression>,
    value: hcl::Value,
    ident: hcl::Identifier,
    number: hcl::Number,
    after: bool,
}

fn own(obs: &mut Obs, b: &[S]) {
    let rs = conv::to_rs_body(b);
    let src = hcl::format::to_string(&rs).expect("formatted");
    obs.case(&src, !b.is_empty());
    let text = routes(obs, &src, &rs);
    diff(obs, &src, "serialized body", &text, &Some(src.clone()));
    diff(obs, &src, "body from body", &hcl::Body::from_serializable(&rs).map_err(|e| e.to_string()), &Ok(rs.clone()));
    let list = rs.0.clone();
    diff(obs, &src, "body from structures", &hcl::Body::from_serializable(&list).map_err(|e| e.to_string()), &Ok(rs.clone()));
    let e = hcl::Body::from_serializable(&Field { a: &rs });
    if let Ok(b) = e {
        if !rs.0.is_empty() {
            obs.fail(&src, format!("a body inside of an attribute is not refused: {b:?}"));
        }
    }
    for s in &rs {
        let one: hcl::Body = [s.clone()].into_iter().collect();
        diff(obs, &src, "body from structure", &hcl::Body::from_serializable(s).map_err(|e| e.to_string()), &Ok(one.clone()));
        match s {
            hcl::Structure::Attribute(a) => {
                diff(obs, &src, "body from attribute", &hcl::Body::from_serializable(a).map_err(|e| e.to_string()), &Ok(one.clone()));
                diff(obs, &src, "text of attribute", &hcl::to_string(a).map_err(|e| e.to_string()), &hcl::format::to_string(a).map_err(|e| e.to_string()));
            }
            hcl::Structure::Block(b) => {
                diff(obs, &src, "body from block", &hcl::Body::from_serializable(b).map_err(|e| e.to_string()), &Ok(one.clone()));
                // Serialized as sequence of blocks, behind data.
                let x = (Field { a: 1u8 }, [b, b]);
                let want: hcl::Body = hcl::Body::builder().add_attribute(("a", 1u8)).add_block(b.clone()).add_block(b.clone()).build();
                diff(obs, &src, "data with blocks", &hcl::Body::from_serializable(&x).map_err(|e| e.to_string()), &Ok(want));
            }
        }
        obs.feat("own structures");
        if let Ok(b) = hcl::Body::from_serializable(&Field { a: s }) {
            obs.fail(&src, format!("a structure inside of an attribute is not refused: {b:?}"));
        }
    }
    if !spec::parseable(b) {
        return;
    }
    let parsed = hcl::parse(&src).expect("formatted body");
    for (n, r) in [("from_str", hcl::from_str::<hcl::Body>(&src)), ("from_body", hcl::from_body(rs.clone())), ("from_reader", hcl::from_reader(src.as_bytes()))] {
        match r {
            Ok(x) => {
                let want = if n == "from_body" { &rs } else { &parsed };
                if diff(obs, &src, n, &x, want) {
                    obs.feat("own body read again");
                }
            }
            Err(e) => obs.fail(&src, format!("{n}: {e}")),
        }
    }
}

fn exprs(obs: &mut Obs, g: &mut G) {
    let d = g.r.below(4);
    let es: Vec<E> = (0..4).map(|_| g.expr(d)).collect();
    let rs: Vec<hcl::Expression> = es.iter().map(conv::to_rs_expr).collect();
    let n = g.num();
    let x = Mixed {
        before: 1,
        expr: rs[0].clone(),
        list: rs[1..3].to_vec(),
        opt: if es[3] == E::Null { None } else { Some(rs[3].clone()) },
        map: rs.iter().enumerate().map(|(i, e)| (format!("k {i}"), e.clone())).collect(),
        value: g.val(2).to(),
        ident: hcl::Identifier::new(g.id()).unwrap(),
        number: conv::num_to(n),
        after: true,
    };
    let src = format!("{x:?}");
    obs.case(&src, true);
    let o = |e: Vec<hcl::Expression>| hcl::Expression::Array(e);
    let want = hcl::Body::builder()
        .add_attribute(("before", 1))
        .add_attribute(("e", x.expr.clone()))
        .add_attribute(("list", o(x.list.clone())))
        .add_attribute(("opt", x.opt.clone().unwrap_or(hcl::Expression::Null)))
        .add_attribute((
            "map",
            hcl::Expression::Object(x.map.iter().map(|(k, e)| (hcl::ObjectKey::Expression(k.as_str().into()), e.clone())).collect()),
        ))
        .add_attribute(("value", hcl::Expression::from(x.value.clone())))
        .add_attribute(("ident", x.ident.as_str()))
        .add_attribute(("number", hcl::Expression::Number(x.number)))
        .add_attribute(("after", true))
        .build();
    diff(obs, &src, "serialized body", &hcl::Body::from_serializable(&x).map_err(|e| e.to_string()), &Ok(want.clone()));
    let Some(text) = routes(obs, &src, &x) else {
        obs.fail(src, "was refused");
        return;
    };
    // Expressions which are read as expressions stay what they are.
    let parsed = hcl::parse(&text).expect("formatted body");
    let get = |k: &str| parsed.attributes().find(|a| a.key() == k).unwrap().expr.clone();
    match read::<Mixed>(obs, &src, &text) {
        Ok(y) => {
            diff(obs, &src, "expression", &y.expr, &get("e"));
            diff(obs, &src, "expressions", &o(y.list.clone()), &get("list"));
            // A null in parentheses is a null.
            let mut opt = get("opt");
            while let (None, hcl::Expression::Parenthesis(e)) = (&y.opt, &opt) {
                opt = (**e).clone();
            }
            diff(obs, &src, "optional expression", &y.opt.clone().unwrap_or(hcl::Expression::Null), &opt);
            diff(obs, &src, "value", &y.value, &x.value);
            diff(obs, &src, "identifier", &y.ident, &x.ident);
            diff(obs, &src, "number", &y.number, &x.number);
            let m: Vec<(String, E)> = y.map.iter().map(|(k, e)| (k.clone(), ne(&conv::rs_expr(e).expect("template"), Nf::Rs))).collect();
            let want: Vec<(String, E)> = es.iter().enumerate().map(|(i, e)| (format!("k {i}"), ne(e, Nf::Rs))).collect();
            if diff(obs, &src, "map of expressions", &m, &want) {
                obs.feat("expressions read again");
            }
        }
        Err(e) => obs.fail(format!("{src}\n{text}"), format!("could not be read again: {e}")),
    }
    // Without the crate's serializer an expression is what the JSON specification makes of it.
    let v = serde_json::to_value(&x.expr).map_err(|e| e.to_string());
    let w = spec::foreign(&ne(&es[0], Nf::Rs));
    match v {
        Ok(v) => {
            diff(obs, &src, "expression as JSON", &V::of(&hcl::from_value::<hcl::Value>(hcl::to_value(&v).unwrap()).unwrap()), &w);
        }
        Err(e) => {
            obs.feat("expressions with objects are no JSON");
            if !e.contains("key must be a string") {
                obs.fail(&src, format!("expression as JSON: {e}"));
            }
        }
    }
    match hcl::to_value(&x.expr) {
        Ok(v) => {
            diff(obs, &src, "expression as value", &V::of(&v), &w);
        }
        Err(e) => obs.feat(&format!("no value: {e}")),
    }
    // The parts of expressions are serializable by themselves.
    macro_rules! part {
        ($($v:ident)*) => {
            match &rs[0] {
                $(hcl::Expression::$v(p) => {
                    let want = hcl::Body::builder().add_attribute(("a", rs[0].clone())).build();
                    if diff(obs, &src, "part of an expression", &hcl::Body::from_serializable(&Field { a: p }).map_err(|e| e.to_string()), &Ok(want)) {
                        obs.feat(concat!("part ", stringify!($v)));
                    }
                })*
                _ => {}
            }
        };
    }
    part!(Conditional ForExpr FuncCall Operation TemplateExpr Traversal Variable);
}

/// Expressions as whole documents: objects with keys that are identifiers, nothing else.
fn documents(obs: &mut Obs, g: &mut G) {
    let d = g.r.range(1, 4);
    let mut e = g.object(d);
    if let E::Obj(items) = &mut e {
        // Mostly acceptable keys.
        if g.r.pct(60) {
            let mut seen = std::collections::HashSet::new();
            for (k, _) in items.iter_mut() {
                let id = g.id();
                *k = if g.r.bool() { K::Id(id) } else { K::Ex(E::Str(id)) };
            }
            items.retain(|(k, _)| seen.insert(crate::gen::key_text(k).map(str::to_string)));
        }
        if g.r.one_in(3) && !items.is_empty() {
            let s = g.string();
            let i = g.r.below(items.len());
            items[i].0 = K::Ex(E::Str(s));
        }
    }
    if g.r.one_in(10) {
        e = g.expr(d);
    }
    let rs = conv::to_rs_expr(&e);
    let src = format!("{rs:?}");
    obs.case(&src, src.len() > 30);
    let mut keys = std::collections::HashSet::new();
    let mut want = match &rs {
        hcl::Expression::Object(_) => Some(hcl::Body::builder()),
        _ => None,
    };
    if let hcl::Expression::Object(o) = &rs {
        for (k, v) in o {
            let name = match k {
                hcl::ObjectKey::Identifier(i) => Some(i.to_string()),
                hcl::ObjectKey::Expression(hcl::Expression::String(s)) => hcl::Identifier::new(s.as_str()).ok().map(|i| i.to_string()),
                _ => None,
            };
            want = match (want, name) {
                (Some(w), Some(n)) => {
                    if !keys.insert(n.clone()) {
                        return;
                    }
                    Some(w.add_attribute((n, v.clone())))
                }
                _ => None,
            };
        }
    }
    let got = hcl::Body::from_serializable(&rs);
    match want.map(|w| w.build()) {
        Some(want) => {
            if diff(obs, &src, "body of an object", &got.map_err(|e| e.to_string()), &Ok(want.clone())) {
                obs.feat("object as document");
            }
            let text = routes(obs, &src, &rs);
            diff(obs, &src, "text of an object", &text, &hcl::format::to_string(&want).ok());
        }
        None => {
            obs.feat("expression that is no document");
            if let Ok(b) = got {
                obs.fail(&src, format!("is no document, but gives {b:?}"));
            }
            if let Some(t) = routes(obs, &src, &rs) {
                obs.fail(&src, format!("is no document, but gives {t}"));
            }
        }
    }
}

/// The smaller types of the crate as data.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Pieces {
    template: hcl::Template,
    templates: BTreeMap<String, hcl::Template>,
    labels: Vec<hcl::structure::BlockLabel>,
    key: Option<hcl::ObjectKey>,
    unary: hcl::expr::UnaryOperator,
    binary: Vec<hcl::expr::BinaryOperator>,
    strip: hcl::expr::HeredocStripMode,
    ident: (hcl::Identifier, hcl::Number),
    idents: BTreeMap<String, Option<hcl::Identifier>>,
}

/// With the parts that are readable only by the crate itself.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Own {
    pieces: Pieces,
    key: hcl::ObjectKey,
    var: hcl::expr::Variable,
    vars: Vec<hcl::expr::Variable>,
}

fn pieces(obs: &mut Obs, g: &mut G) {
    use hcl::expr::{BinaryOperator as Bo, HeredocStripMode, UnaryOperator, Variable};
    use hcl::structure::BlockLabel;
    const BIN: &[Bo] = &[
        Bo::Eq,
        Bo::NotEq,
        Bo::LessEq,
        Bo::GreaterEq,
        Bo::Less,
        Bo::Greater,
        Bo::Plus,
        Bo::Minus,
        Bo::Mul,
        Bo::Div,
        Bo::Mod,
        Bo::And,
        Bo::Or,
    ];
    let ident = |g: &mut G| hcl::Identifier::new(g.id()).unwrap();
    let template = |g: &mut G| {
        let d = g.r.below(3);
        g.budget = 10;
        let ts = g.quoted(d);
        // As it is parsed.
        conv::to_rs_template(&ts).to_string().parse::<hcl::Template>().expect("template")
    };
    let n = g.r.below(4);
    let p = Pieces {
        template: template(g),
        templates: (0..n).map(|_| (g.string(), template(g))).collect(),
        labels: (0..n).map(|_| if g.r.bool() { BlockLabel::from(ident(g)) } else { BlockLabel::from(g.string()) }).collect(),
        key: g.r.bool().then(|| hcl::ObjectKey::Identifier(ident(g))),
        unary: *g.r.pick(&[UnaryOperator::Not, UnaryOperator::Neg]),
        binary: (0..n).map(|_| *g.r.pick(BIN)).collect(),
        strip: *g.r.pick(&[HeredocStripMode::None, HeredocStripMode::Indent]),
        ident: (ident(g), conv::num_to(g.num())),
        idents: (0..n).map(|_| (g.string(), g.r.bool().then(|| ident(g)))).collect(),
    };
    let src = format!("{p:?}");
    obs.case(&src, true);
    let Some(text) = routes(obs, &src, &p) else {
        obs.fail(src, "was refused");
        return;
    };
    let both = format!("{src}\n{text}");
    let got = read::<Pieces>(obs, &both, &text);
    if diff(obs, &both, "read again", &got, &Ok(p.clone())) {
        obs.feat("pieces read again");
    }
    let got = hcl::to_value(&p).and_then(hcl::from_value::<Pieces>).map_err(|e| e.to_string());
    diff(obs, &src, "through a value", &got, &Ok(p.clone()));
    let json = serde_json::to_value(&p).map_err(|e| e.to_string());
    let got = json.clone().and_then(|j| serde_json::from_value::<Pieces>(j).map_err(|e| e.to_string()));
    diff(obs, &src, "through JSON", &got, &Ok(p.clone()));
    let got = hcl::to_value(&p).map(|v| serde_json::to_value(v).unwrap()).map_err(|e| e.to_string());
    diff(obs, &src, "as value and as JSON", &got, &json);
    // The text of the pieces.
    let json = json.unwrap_or_default();
    let t = |p: &str| json.pointer(p).and_then(|j| j.as_str()).map(str::to_string);
    diff(obs, &src, "template", &t("/template"), &Some(p.template.to_string()));
    diff(obs, &src, "operator", &t("/unary"), &Some(p.unary.to_string()));
    for (i, b) in p.binary.iter().enumerate() {
        diff(obs, &src, "operator", &t(&format!("/binary/{i}")), &Some(b.to_string()));
    }
    diff(obs, &src, "strip mode", &t("/strip"), &Some(p.strip.as_str().into()));
    diff(obs, &src, "identifier", &t("/ident/0"), &Some(p.ident.0.to_string()));
    let o = Own {
        pieces: p,
        key: if g.r.bool() {
            hcl::ObjectKey::Identifier(ident(g))
        } else {
            g.budget = 6;
            // As it is parsed.
            let e = g.expr(1);
            hcl::ObjectKey::Expression(conv::to_rs_expr(&e).to_string().parse().expect("expression"))
        },
        var: Variable::from(ident(g)),
        vars: (0..n).map(|_| Variable::from(ident(g))).collect(),
    };
    let src = format!("{o:?}");
    let Some(text) = routes(obs, &src, &o) else {
        obs.fail(src, "was refused");
        return;
    };
    let src = format!("{src}\n{text}");
    let got = read::<Own>(obs, &src, &text);
    if diff(obs, &src, "read again", &got, &Ok(o)) {
        obs.feat("own pieces read again");
    }
}

/// Data of one type read as another one is what it is when the generic value is read.
fn mistyped(obs: &mut Obs, g: &mut G, o: TyOpts) {
    let mut o = o;
    o.exprs = false;
    let d = g.r.range(1, 3);
    let t = g.ty_body(o, d);
    let data = g.data(&t, 3);
    let n = g.r.range(1, 2);
    let u = (0..n).fold(t.clone(), |t, _| serdyn::mutate(g, &t, o));
    let Ok(text) = hcl::to_string(&Sd(&t, &data)) else { return };
    let Ok(v) = hcl::from_str::<serde_json::Value>(&text) else { return };
    let src = format!("{t:?}\n{data:?}\n{text}\nas {u:?}");
    obs.case(&src, true);
    let got = with_ty(&u, || read::<Dyn>(obs, &src, &text));
    let want = with_ty(&u, || serde_json::from_value::<Dyn>(v));
    match (got, want) {
        (Ok(a), Ok(b)) => {
            if diff(obs, &src, "data read as another type", &a, &b) {
                obs.feat("fitting types");
            }
        }
        (Err(_), Err(_)) => obs.feat("wrong types"),
        // Anything is readable as string, as the text of it.
        (Ok(a), Err(_)) if format!("{a:?}").contains("Str(\"${") => obs.feat("read as text"),
        (Ok(a), Err(e)) => obs.fail(src, format!("read as {a:?} but JSON says: {e}")),
        (Err(e), Ok(b)) => obs.fail(src, format!("{e}, but JSON says {b:?}")),
    }
}

pub fn p13(m: &mut Mon) {
    m.rule = "a case is one value of a (random or derived) type, serialized to HCL, compared with the documented mapping, and read again by every route; nontrivial: it serializes to at least one structure".into();
    m.assumptions = vec![
        "blocks sequences of one element, empty maps of labeled blocks, and several things at the same place of the JSON mapping cannot be read again as what they were; the monitor recognises them by comparing the two independent mappings (JSON mapping of the document, meaning of the data) and only checks the text of them".into(),
        "floats that are not finite become null".into(),
    ];
    let ty = TyOpts { odd: true, blocks: true, exprs: true, keys: true };
    let plain = TyOpts { odd: false, blocks: true, exprs: true, keys: false };
    let n = m.n(60_000);
    m.cases("types", n, |obs, rng, i| {
        let mut g = G::new(rng, rs_opts());
        g.budget = 30;
        let o = if i % 3 == 0 { ty } else { plain };
        let d = g.r.range(1, 4);
        let t = g.ty_body(o, d);
        let data = g.data(&t, 4);
        types(obs, &t, &data);
    });
    let n = m.n(4_000);
    m.cases("derived", n, |obs, rng, _| derived(obs, &mut G::new(rng, rs_opts())));
    let n = m.n(10_000);
    m.cases("own", n, |obs, rng, _| {
        let b = gen_body(rng, rs_opts());
        own(obs, &b);
    });
    let n = m.n(10_000);
    m.cases("expressions", n, |obs, rng, _| {
        let mut g = G::new(rng, rs_opts());
        g.budget = 30;
        exprs(obs, &mut g);
    });
    let n = m.n(10_000);
    m.cases("documents", n, |obs, rng, _| documents(obs, &mut G::new(rng, rs_opts())));
    m.require("object as document", 1_000);
    m.require("expression that is no document", 1_000);
    m.cases("pieces", n, |obs, rng, _| pieces(obs, &mut G::new(rng, rs_opts())));
    m.require("pieces read again", 5_000);
    m.require("own pieces read again", 5_000);
    let n = m.n(40_000);
    m.cases("mistyped", n, |obs, rng, i| {
        let mut g = G::new(rng, rs_opts());
        mistyped(obs, &mut g, if i % 3 == 0 { TyOpts { exprs: false, ..ty } } else { TyOpts { exprs: false, ..plain } });
    });
    for (f, n) in [
        ("refused", 2000),
        ("failing writer", 10_000),
        ("failing reader", 10_000),
        ("serialized", 20_000),
        ("read again", 10_000),
        ("read again, not empty", 5_000),
        ("derived types", 3000),
        ("own structures", 10_000),
        ("own body read again", 10_000),
        ("expressions read again", 5000),
        ("part Conditional", 10),
        ("part ForExpr", 10),
        ("part FuncCall", 10),
        ("part Operation", 10),
        ("part TemplateExpr", 10),
        ("part Traversal", 10),
        ("part Variable", 10),
        ("fitting types", 500),
        ("wrong types", 3000),
    ] {
        m.require(f, n);
    }
}
