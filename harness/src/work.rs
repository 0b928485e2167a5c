//! Work items for the monitors that compare executions with each other (P22: feature
//! configurations, P25: histories and threads): every item runs a part of the public interface on
//! generated input and writes down everything that is observable.

use crate::conv;
use crate::evalgen::{EG, W};
use crate::gen::{Opts, G};
use crate::p_conv::rs_opts;
use crate::p_edit::prog_opts;
use crate::p_parse::{gen_body, gen_expr, hostile};
use crate::p_ser::{self, Dyn};
use crate::render::{render_body, render_expr, render_template, Mode};
use crate::rng::Rng;
use crate::run::guard;
use crate::serdyn::{self, De, Sd, TyOpts};
use crate::slots;
use hcl::eval::Evaluate;
use hcl_edit::structure::Structure;
use hcl_edit::{Decor, Decorate, RawString};
use hcl_primitives::{Ident, InternalString};
use serde::de::value::{BorrowedStrDeserializer, CowStrDeserializer, Error as DeError};
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, Visitor};
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};

pub const KINDS: &[&str] = &["strings", "parsing", "editing", "conversion", "serde data", "derived types", "expressions as data", "evaluation"];

/// The record of an execution.
#[derive(Default)]
pub struct Out {
    /// The input.
    pub key: String,
    /// What was observed, a line for each observation.
    pub text: String,
    pub lines: u64,
}

impl Out {
    fn put(&mut self, what: &str, x: impl Display) {
        writeln!(self.text, "{what}: {x}").unwrap();
        self.lines += 1;
    }
    fn dbg(&mut self, what: &str, x: impl Debug) {
        writeln!(self.text, "{what}: {x:?}").unwrap();
        self.lines += 1;
    }
    /// The value or the text of the error.
    fn res<T: Debug, E: Display>(&mut self, what: &str, r: &Result<T, E>) {
        match r {
            Ok(x) => self.dbg(what, x),
            Err(e) => self.put(what, format!("error {e}")),
        }
    }
}

pub fn run(kind: usize, r: &mut Rng) -> Out {
    let mut o = Out::default();
    let p = guard(|| match kind {
        0 => strings(&mut o, r),
        1 => parsing(&mut o, r),
        2 => editing(&mut o, r),
        3 => conversion(&mut o, r),
        4 => data(&mut o, r),
        5 => derived(&mut o, r),
        6 => mixed(&mut o, r),
        _ => evaluation(&mut o, r),
    });
    if let Err(p) = p {
        o.put("panicked", p);
    }
    o
}

// --- strings ------------------------------------------------------------------------------------

fn hash(x: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Strings of all lengths, with characters of all lengths, so that they end on both sides of the
/// limit of inline strings.
pub fn sized(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => r.below(4),
        1..=4 => r.range(12, 26),
        5 => r.range(26, 70),
        _ => r.below(30),
    };
    let mut s = String::new();
    let cs: &[char] = *r.pick(&[&['a'][..], &['a', '_', '9'], &['é', 'a'], &['日', 'x'], &['😀', 'b', '\0'], &['a', ' ', '-', '"', '\n', '$', '{', '\u{7f}']]);
    while s.len() < n {
        s.push(*r.pick(cs));
    }
    s
}

/// Hands out exactly one kind of call of the visitor.
struct One<'de>(usize, &'de str);

impl<'de> Deserializer<'de> for One<'de> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        match self.0 {
            0 => v.visit_str(self.1),
            1 => v.visit_borrowed_str(self.1),
            2 => v.visit_string(self.1.into()),
            3 => v.visit_char(self.1.chars().next().unwrap_or('x')),
            4 => v.visit_bytes(self.1.as_bytes()),
            5 => v.visit_borrowed_bytes(self.1.as_bytes()),
            6 => v.visit_byte_buf(self.1.as_bytes().to_vec()),
            7 => v.visit_bytes(&[b'a', 0xff]),
            8 => v.visit_byte_buf(vec![0xc3]),
            9 => v.visit_u64(7),
            10 => v.visit_unit(),
            11 => v.visit_none(),
            12 => v.visit_bool(true),
            13 => v.visit_f64(1.5),
            _ => v.visit_newtype_struct(One(0, self.1)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn strings(o: &mut Out, r: &mut Rng) {
    let s = sized(r);
    // A string to compare with: often nearly the same.
    let t = match r.below(8) {
        0 => s.clone(),
        // The same length, different at one or two places.
        5 | 6 if !s.is_empty() => {
            let mut t: Vec<char> = s.chars().collect();
            for _ in 0..r.range(1, 2) {
                let i = r.below(t.len());
                let i = *r.pick(&[0, i, t.len() - 1]);
                t[i] = match t[i] {
                    'a'..='y' | 'A'..='Y' | '0'..='8' => (t[i] as u8 + 1) as char,
                    c if c.len_utf8() == 1 => 'q',
                    c => char::from_u32(c as u32 ^ 1).unwrap_or(c),
                };
            }
            t.into_iter().collect()
        }
        7 => s.chars().rev().collect(),
        1 => s.chars().skip(1).collect(),
        2 => {
            let mut t = s.clone();
            t.pop();
            t
        }
        3 => format!("{s}a"),
        _ => sized(r),
    };
    o.key = format!("{s:?} and {t:?}");
    let make = |s: &str| -> Vec<InternalString> {
        vec![
            InternalString::from(s),
            InternalString::from(s.to_string()),
            InternalString::from(&s.to_string()),
            InternalString::from(s.to_string().into_boxed_str()),
            InternalString::from(Cow::Borrowed(s)),
            InternalString::from(Cow::<str>::Owned(s.into())),
            InternalString::from(&InternalString::from(s)),
            {
                let mut big = String::with_capacity(200);
                big.push_str(s);
                InternalString::from(big)
            },
        ]
    };
    let (a, b) = (make(&s), make(&t));
    for (i, x) in a.iter().enumerate() {
        o.dbg("text", (i, x, x.to_string(), x.as_str(), x.len(), x.is_empty()));
        o.dbg("hash", hash(x) == hash(&s));
        o.dbg("views", (&**x, AsRef::<str>::as_ref(x), Borrow::<str>::borrow(x), Cow::<str>::from(x)));
        let c = x.clone();
        o.dbg("owned", (c.clone().into_string(), String::from(c.clone()), c.clone().into_cow_str(), Cow::<'static, str>::from(c)));
        o.dbg("json", serde_json::to_string(x).unwrap());
        o.put("padded", format!("[{x:>30}] [{x:-<5.3}]"));
        let y = &b[(i * 3 + 1) % b.len()];
        o.dbg("compared", (x == y, x != y, x.cmp(y), x.partial_cmp(y), x < y, x >= y, hash(x) == hash(y)));
        o.dbg("itself", (x == &a[0], x.cmp(&a[a.len() - 1])));
    }
    o.dbg("empty", (InternalString::new(), InternalString::default(), InternalString::new() == InternalString::from("")));
    let mut m: HashMap<InternalString, usize> = HashMap::new();
    let mut n: BTreeMap<InternalString, usize> = BTreeMap::new();
    for (i, x) in a.iter().chain(&b).enumerate() {
        m.insert(x.clone(), i);
        n.insert(x.clone(), i);
    }
    o.dbg("maps", (m.len(), m.get(s.as_str()), m.get(t.as_str()), m.get("-"), &n, n.get(s.as_str()), n.get(t.as_str())));
    for w in 0..15 {
        let x = InternalString::deserialize(One(w, &s));
        o.res(&format!("deserialized {w}"), &x);
        o.res(&format!("identifier deserialized {w}"), &Ident::deserialize(One(w, &s)));
        o.res(&format!("hcl-rs identifier deserialized {w}"), &hcl::Identifier::deserialize(One(w, &s)));
        o.res(&format!("variable deserialized {w}"), &hcl::expr::Variable::deserialize(One(w, &s)));
    }
    o.res("borrowed", &InternalString::deserialize(BorrowedStrDeserializer::<DeError>::new(&s)));
    o.res("copy on write", &InternalString::deserialize(CowStrDeserializer::<DeError>::new(Cow::Borrowed(&s))));
    let json = serde_json::to_string(&s).unwrap();
    o.res("from JSON", &serde_json::from_str::<InternalString>(&json));
    o.res("from JSON number", &serde_json::from_str::<InternalString>("1"));
    o.res("from JSON bytes", &serde_json::from_reader::<_, InternalString>(json.as_bytes()));

    o.res("identifier", &Ident::try_new(s.as_str()));
    o.dbg("identifier that panics", guard(|| Ident::new(s.clone())).ok());
    let i = Ident::new_sanitized(s.as_str());
    o.dbg("sanitized", (&i, i.as_str(), i.clone().into_string(), InternalString::from(i.clone()), i.as_str() == s));
    let u = Ident::new_unchecked(s.clone());
    let v = Ident::new_unchecked(t.as_str());
    o.dbg("unchecked", (&u, u == v, u.cmp(&v), hash(&u) == hash(&v), u.as_str() == s, String::from(u.clone())));
    o.res("identifier to JSON", &serde_json::to_string(&u));
    o.res("hcl-rs identifier", &hcl::Identifier::new(s.clone()));
    o.dbg("hcl-rs sanitized", (hcl::Identifier::sanitized(&s), hcl::Identifier::from(Ident::new_unchecked(s.clone()))));
    o.dbg("attribute", hcl::Attribute::new(s.clone(), t.as_str()));
    o.dbg("block", hcl::Block::builder(s.as_str()).add_label(t.as_str()).build());

    for (x, how) in [(RawString::from(s.as_str()), 0), (RawString::from(s.clone()), 1), (RawString::from(InternalString::from(&s)), 2), (RawString::from(Cow::Borrowed(s.as_str())), 3)] {
        o.dbg("raw string", (how, &x, &*x, Cow::from(&x), Cow::from(x.clone()), x == RawString::from(t.as_str())));
    }
    let mut d = Decor::new(s.as_str(), t.clone());
    o.dbg("decor", (&d, d.prefix().map(|p| p.to_string()), d.suffix().map(|p| p.to_string()), d == Decor::new(s.clone(), t.as_str())));
    d.set_prefix(t.as_str());
    d.set_suffix(s.clone());
    o.dbg("decor", &d);
    d.clear();
    o.dbg("decor", &d);
    let mut e = hcl_edit::expr::Expression::from(s.as_str());
    e.decor_mut().set_prefix(" ");
    o.put("string", &e);
    let e = hcl::Expression::from(s.as_str());
    o.put("string", &e);
    let mut e = hcl::Expression::from(hcl::Traversal::new(hcl::expr::Variable::unchecked(s.clone()), [hcl::expr::TraversalOperator::GetAttr(hcl::Identifier::unchecked(t.clone()))]));
    o.put("traversal", &e);
    o.dbg("traversal", &e);
    if let hcl::Expression::Traversal(x) = &mut e {
        x.operators.clear();
    }
    o.dbg("key", (hcl::ObjectKey::from(s.as_str()), hcl::ObjectKey::from(hcl::Identifier::unchecked(s.as_str())), hcl::ObjectKey::from(hcl::Identifier::unchecked(s.as_str())) == hcl::ObjectKey::from(hcl::Identifier::unchecked(t.as_str()))));
}

// --- parsing ------------------------------------------------------------------------------------

fn mode(r: &mut Rng) -> Mode {
    match r.below(3) {
        0 => Mode::Plain,
        1 => Mode::Lossless,
        _ => Mode::Wild,
    }
}

fn error(o: &mut Out, e: &hcl_edit::parser::Error) {
    let l = e.location();
    o.dbg("error", (e.message(), e.line(), l.line(), l.column(), l.offset(), e.to_string()));
}

fn parsing(o: &mut Out, r: &mut Rng) {
    let what = r.below(3);
    let src = if r.one_in(3) {
        hostile(r, what as u64)
    } else {
        let m = mode(r);
        match what {
            0 => {
                let b = gen_body(r, Opts::default());
                render_body(r, &b, m).0
            }
            1 => {
                let e = gen_expr(r, Opts::default());
                render_expr(r, &e, m).0
            }
            _ => {
                let mut g = G::new(r, Opts::default());
                let ts = g.bare(3);
                render_template(r, &ts, m)
            }
        }
    };
    o.key = src.clone();
    macro_rules! parse {
        ($t:ty) => {
            match src.parse::<$t>() {
                Ok(x) => {
                    // The text has the decoration, the debug output everything else.
                    o.put("printed", &x);
                    o.dbg("parsed", &x);
                    o.dbg("equal", x.clone() == x);
                }
                Err(e) => error(o, &e),
            }
        };
    }
    match what {
        0 => {
            parse!(hcl_edit::structure::Body);
            o.res("hcl::parse", &hcl::parse(&src));
            o.res("hcl::from_str", &hcl::from_str::<hcl::Value>(&src));
            o.res("as body", &hcl::from_str::<hcl::Body>(&src));
            o.res("as JSON", &hcl::from_str::<serde_json::Value>(&src).map(|j| j.to_string()));
            o.res("as map", &hcl::from_str::<BTreeMap<String, String>>(&src));
            o.res("from_slice", &hcl::from_slice::<hcl::Value>(src.as_bytes()));
        }
        1 => {
            parse!(hcl_edit::expr::Expression);
            o.res("hcl::Expression", &src.parse::<hcl::Expression>());
        }
        _ => {
            parse!(hcl_edit::template::Template);
            o.res("hcl::Template", &src.parse::<hcl::Template>());
        }
    }
}

// --- editing ------------------------------------------------------------------------------------

fn editing(o: &mut Out, r: &mut Rng) {
    let b = gen_body(r, prog_opts());
    let other = gen_body(r, prog_opts());
    let mut body = if r.bool() {
        conv::to_edit_body(&b)
    } else {
        let m = mode(r);
        let src = render_body(r, &b, m).0;
        o.key.push_str(&src);
        match src.parse() {
            Ok(b) => b,
            Err(e) => {
                error(o, &e);
                return;
            }
        }
    };
    writeln!(o.key, "{b:?}\n{other:?}").unwrap();
    let donor = conv::to_edit_body(&other);
    o.put("printed", &body);
    // Decoration of all sizes.
    let decor = |r: &mut Rng| -> String {
        let n = *r.pick(&[0, 1, 2, 14, 15, 16, 21, 22, 23, 24, 40]);
        match r.below(4) {
            0 if n >= 4 => format!("/*{}*/", "é".repeat((n - 4) / 2)),
            1 if n >= 4 => format!("/*{}*/", "x".repeat(n - 4)),
            _ => " ".repeat(n),
        }
    };
    slots::body(&mut body, &mut |e, c| {
        if c.full && r.one_in(3) {
            let p = decor(r);
            e.decor_mut().set_prefix(p);
            let s = decor(r);
            e.decor_mut().set_suffix(s.as_str());
        }
        false
    });
    o.put("decorated", &body);
    o.dbg("decorated", &body);
    slots::bodies(
        &mut body,
        &mut |b, d| {
            // Pushed blocks are visited, too.
            if d > 3 {
                return;
            }
            if r.bool() {
                let indent = *r.pick(&["", "  ", "\t", "                        "]);
                for mut s in b.iter_mut() {
                    s.decor_mut().set_prefix(indent);
                }
            }
            if let Some(s) = donor.get(r.below(donor.len() + 1)) {
                let r = b.try_push(s.clone());
                o.dbg("pushed", r.is_ok());
            }
            let keys: Vec<String> = b.attributes().map(|a| a.key.as_str().to_string()).collect();
            if !keys.is_empty() && r.one_in(3) {
                let k = r.pick(&keys);
                o.dbg("removed", b.remove_attribute(k));
            }
            let long = sized(r);
            let id = Ident::new_sanitized(long.as_str());
            if !b.has_attribute(id.as_str()) {
                b.push(Structure::Attribute(hcl_edit::structure::Attribute::new(id.clone(), long.as_str())));
                o.dbg("found", (b.has_attribute(&id), b.get_attribute(&id).map(|a| a.key.as_str().to_string()), b.has_blocks(&id)));
            }
            o.dbg("depth", d);
        },
        0,
    );
    let text = body.to_string();
    o.put("edited", &text);
    o.dbg("edited", &body);
    o.dbg("read", conv::edit_body(&body));
    match text.parse::<hcl_edit::structure::Body>() {
        Ok(again) => o.dbg("again", (again == body, again.to_string() == text, again)),
        Err(e) => error(o, &e),
    }
    o.dbg("converted", hcl::Body::from(body));
}

// --- conversion and formatting ------------------------------------------------------------------

fn conversion(o: &mut Out, r: &mut Rng) {
    let b = gen_body(r, rs_opts());
    o.key = format!("{b:?}");
    let x = conv::to_rs_body(&b);
    o.dbg("body", &x);
    for _ in 0..2 {
        let mut f = hcl::format::Formatter::builder()
            .indent(r.pick(&["", " ", "\t", "                             "]).as_bytes())
            .dense(r.bool())
            .compact_arrays(r.bool())
            .compact_objects(r.bool())
            .prefer_ident_keys(r.bool())
            .build_vec();
        o.res("formatted", &hcl::format::Format::format_string(&x, &mut f));
    }
    o.res("formatted", &hcl::format::to_string(&x));
    o.dbg("edit", hcl_edit::structure::Body::from(x.clone()));
    o.put("edit", hcl_edit::structure::Body::from(x.clone()));
    for s in &x {
        if let hcl::Structure::Attribute(a) = s {
            o.put("expression", &a.expr);
            o.dbg("as edit", hcl_edit::expr::Expression::from(a.expr.clone()));
            o.dbg("as value", hcl::Value::from(a.expr.clone()));
            o.dbg("and back", hcl::Expression::from(hcl::Value::from(a.expr.clone())));
        }
    }
    o.res("from_body", &hcl::from_body::<hcl::Value>(x.clone()));
    o.res("to_value", &hcl::to_value(&x));
    o.res("to_string", &hcl::to_string(&x));
    if FOREIGN.get() {
        o.res("JSON", &serde_json::to_string(&x));
    }
    let mut g = G::new(r, rs_opts());
    let v = g.val(3).to();
    o.put("value", &v);
    o.res("value as HCL", &hcl::to_string(&v));
    o.res("value formatted", &hcl::format::to_string(&v));
    o.res("value as JSON", &serde_json::to_string(&v));
    o.res("value from JSON", &serde_json::to_string(&v).and_then(|s| serde_json::from_str::<hcl::Value>(&s)));
    let e = hcl::Expression::from(v.clone());
    o.dbg("value as expression", &e);
    o.dbg("value and back", (hcl::Value::from(e) == v, v));
}

// --- serialization ------------------------------------------------------------------------------

thread_local! {
    /// Whether the types of the crates may be serialized by other serializers.
    pub static FOREIGN: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

/// Serializes data in every way.
pub fn ser<T: Serialize>(o: &mut Out, x: &T) -> Option<String> {
    let s = hcl::to_string(x);
    match &s {
        Ok(s) => o.put("to_string", s),
        Err(e) => o.put("to_string", format!("error {e}")),
    }
    o.res("body", &hcl::Body::from_serializable(x));
    o.res("expression", &hcl::Expression::from_serializable(x));
    o.res("value", &hcl::to_value(x));
    if FOREIGN.get() {
        o.res("JSON", &serde_json::to_string(x));
    }
    s.ok()
}

fn data(o: &mut Out, r: &mut Rng) {
    let odd = r.one_in(3);
    let ty = TyOpts { odd, blocks: true, exprs: true, keys: odd };
    let mut g = G::new(r, rs_opts());
    g.budget = 30;
    let d = g.r.range(1, 4);
    let t = g.ty_body(ty, d);
    let d = g.data(&t, 4);
    o.key = format!("{t:?}\n{d:?}");
    let Some(text) = ser(o, &Sd(&t, &d)) else { return };
    let u = if g.r.one_in(3) { serdyn::mutate(&mut g, &t, ty) } else { t.clone() };
    o.res("from_str", &p_ser::with_ty(&u, || hcl::from_str::<Dyn>(&text)));
    o.res("JSON value", &hcl::from_str::<serde_json::Value>(&text).map(|j| j.to_string()));
    let v = hcl::from_str::<hcl::Value>(&text);
    o.res("Value", &v);
    if let Ok(v) = v {
        o.res("from_value", &De(&u).deserialize(v.into_deserializer()));
    }
    o.res("parsed", &text.parse::<hcl_edit::structure::Body>().map(|b| (b.to_string(), b)));
}

fn derived(o: &mut Out, r: &mut Rng) {
    let x = G::new(r, rs_opts()).root();
    o.key = format!("{x:?}");
    let Some(text) = ser(o, &x) else { return };
    o.res("from_str", &hcl::from_str::<p_ser::derived::Root>(&text));
    o.res("borrowed", &hcl::from_str::<p_ser::derived::Borrowed>(&text));
    o.res("wrong type", &hcl::from_str::<BTreeMap<String, u8>>(&text));
    o.res("wrong type", &hcl::from_str::<p_ser::derived::Deep>(&text));
}

/// The types of the crate embedded in user data.
#[derive(Serialize, Debug)]
pub struct Embedded {
    pub before: u8,
    pub expr: hcl::Expression,
    pub list: Vec<hcl::Expression>,
    pub template: hcl::TemplateExpr,
    pub map: BTreeMap<String, hcl::Expression>,
    pub value: hcl::Value,
    pub ident: hcl::Identifier,
    pub nested: BTreeMap<String, Vec<Option<hcl::Expression>>>,
    #[serde(flatten)]
    pub rest: BTreeMap<String, hcl::Expression>,
    pub after: bool,
}

impl Embedded {
    pub fn gen(g: &mut G) -> Embedded {
        let d = g.r.below(4);
        let es: Vec<hcl::Expression> = (0..6).map(|_| conv::to_rs_expr(&g.expr(d))).collect();
        let t = hcl::TemplateExpr::from(format!("${{{}}}", g.id()));
        Embedded {
            before: 1,
            expr: es[0].clone(),
            list: es[1..3].to_vec(),
            template: t,
            map: es.iter().enumerate().map(|(i, e)| (format!("k {i}"), e.clone())).collect(),
            value: g.val(2).to(),
            ident: hcl::Identifier::new(g.id()).unwrap(),
            nested: BTreeMap::from([("n".into(), vec![Some(es[4].clone()), None, Some(es[5].clone())])]),
            rest: BTreeMap::from([("rest".to_string(), es[3].clone())]),
            after: true,
        }
    }
}

fn mixed(o: &mut Out, r: &mut Rng) {
    let mut g = G::new(r, rs_opts());
    g.budget = 20;
    let x = Embedded::gen(&mut g);
    o.key = format!("{x:?}");
    if let Some(text) = ser(o, &x) {
        o.res("parsed", &hcl::parse(&text));
        o.res("read", &hcl::from_str::<BTreeMap<String, hcl::Expression>>(&text));
    }
    let b = gen_body(r, rs_opts());
    let b = conv::to_rs_body(&b);
    write!(o.key, "\n{b:?}").unwrap();
    ser(o, &b);
    for s in b.iter().take(2) {
        ser(o, s);
        ser(o, &(BTreeMap::from([("first", 1)]), [s, s]));
    }
}

// --- evaluation ---------------------------------------------------------------------------------

fn evaluation(o: &mut Out, r: &mut Rng) {
    let mut g = EG::new(r);
    g.fill_env();
    if g.g.r.bool() {
        g.wild = 0;
    }
    let d = g.g.r.range(1, 4);
    let e = g.e(W::Any, d);
    let ts = g.bare(2);
    let env = std::mem::take(&mut g.env);
    let c = crate::p_eval::ctx(&env, 2);
    crate::p_eval::reset();
    o.key = format!("{env:?}\n{e:?}\n{ts:?}");
    let x = conv::to_rs_expr(&e);
    o.res("evaluated", &x.evaluate(&c));
    let mut y = x.clone();
    o.res("in place", &y.evaluate_in_place(&c));
    o.dbg("in place", &y);
    let m = mode(r);
    let src = render_expr(r, &e, m).0;
    o.res("parsed", &src.parse::<hcl::Expression>().map(|e| e.evaluate(&c).map_err(|e| e.to_string())));
    let text = render_template(r, &ts, m);
    match text.parse::<hcl::Template>() {
        Ok(t) => {
            o.res("template", &t.evaluate(&c));
            let mut t = t;
            o.res("template in place", &t.evaluate_in_place(&c));
            o.dbg("template in place", &t);
        }
        Err(e) => o.put("template", e),
    }
    let doc = format!("a = {x}\n");
    o.res("document", &hcl::eval::from_str::<hcl::Value>(&doc, &c));
    o.res("document as body", &hcl::eval::from_str::<hcl::Body>(&doc, &c));
    o.res("to_string", &hcl::eval::to_string(&hcl::Body::builder().add_attribute(("a", x)).build(), &c));
    crate::p_eval::reset();
}
