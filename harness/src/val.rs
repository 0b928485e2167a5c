//! The independent model of values.

use crate::conv::{num_of, num_to};
use crate::gen::G;
use crate::model::*;
use hcl::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    pub fn to(&self) -> Value {
        match self {
            V::Null => Value::Null,
            V::Bool(b) => Value::Bool(*b),
            V::Num(n) => Value::Number(num_to(*n)),
            V::Str(s) => Value::String(s.clone()),
            V::Arr(a) => Value::Array(a.iter().map(V::to).collect()),
            V::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.to())).collect()),
        }
    }
    pub fn of(v: &Value) -> V {
        match v {
            Value::Null => V::Null,
            Value::Bool(b) => V::Bool(*b),
            Value::Number(n) => V::Num(num_of(n)),
            Value::String(s) => V::Str(s.clone()),
            Value::Array(a) => V::Arr(a.iter().map(V::of).collect()),
            Value::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
        }
    }
    /// The expression that denotes the value.
    pub fn expr(&self) -> E {
        match self {
            V::Null => E::Null,
            V::Bool(b) => E::Bool(*b),
            V::Num(n) => E::Num(*n),
            V::Str(s) => E::Str(s.clone()),
            V::Arr(a) => E::Arr(a.iter().map(V::expr).collect()),
            V::Obj(o) => E::Obj(o.iter().map(|(k, v)| (K::Ex(E::Str(k.clone())), v.expr())).collect()),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            V::Null => "null value",
            V::Bool(_) => "bool value",
            V::Num(N::U(_)) => "unsigned value",
            V::Num(N::I(_)) => "negative value",
            V::Num(N::F(_)) => "float value",
            V::Str(_) => "string value",
            V::Arr(_) => "array value",
            V::Obj(_) => "object value",
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a V)) {
        f(self);
        match self {
            V::Arr(a) => a.iter().for_each(|v| v.walk(f)),
            V::Obj(o) => o.iter().for_each(|(_, v)| v.walk(f)),
            _ => {}
        }
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Obj(o) => o.iter().find(|(x, _)| x == k).map(|(_, v)| v),
            _ => None,
        }
    }
}

impl G<'_> {
    pub fn val(&mut self, d: usize) -> V {
        match if d == 0 { self.r.below(7) } else { self.r.below(12) } {
            0 => V::Null,
            1 => V::Bool(self.r.bool()),
            2..=3 => V::Num(self.num()),
            4..=6 => V::Str(self.string()),
            7..=9 => {
                let n = self.n(5);
                V::Arr((0..n).map(|_| self.val(d - 1)).collect())
            }
            _ => {
                let n = self.n(5);
                self.val_obj(d - 1, n)
            }
        }
    }

    pub fn val_obj(&mut self, d: usize, n: usize) -> V {
        let mut o: Vec<(String, V)> = vec![];
        for _ in 0..n {
            let k = match self.r.below(8) {
                0..=4 => self.id(),
                5 => (*self.r.pick(crate::gen::RESERVED)).to_string(),
                _ => self.string(),
            };
            if o.iter().all(|(x, _)| *x != k) {
                let v = self.val(d);
                o.push((k, v));
            }
        }
        V::Obj(o)
    }
}
