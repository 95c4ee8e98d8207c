//! Runs one validator configuration on one input and records everything that
//! can be observed at its public surface, as one JSON object.
#![allow(dead_code)]

use std::panic::{AssertUnwindSafe, catch_unwind};

use serde::{Deserialize, Serialize, de::IntoDeserializer};
pub use serde_json::{Map, Value, json};
use validators::traits::*;

/// The projection of an accepted value to the abstract state of the specification.
pub trait Proj {
    fn proj(&self) -> Value;
    /// The canonical text the library offers for the value, if any.
    fn emit(&self) -> Option<String> {
        None
    }
    /// Further observations of an accepted value.
    fn extra(&self) -> Value {
        json!({})
    }
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}
pub fn bytes_val(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|c| Value::from(*c)).collect())
}

pub fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Name of the error variant.
pub fn err_name<E: std::fmt::Debug>(e: &E) -> String {
    let s = format!("{e:?}");
    let s = s.split(['(', ' ', '{']).next().unwrap().to_string();
    s
}

/// Everything observed in one session.
#[derive(Default)]
pub struct Rec {
    d:    Map<String, Value>,
    w:    Map<String, Value>,
    s:    Map<String, Value>,
    x:    Map<String, Value>,
    diff: Vec<Value>,
    v:    Option<Value>,
    e:    Option<String>,
    rest: Map<String, Value>,
}

fn msg<E: std::fmt::Display>(e: &E) -> bool {
    !e.to_string().is_empty()
}

impl Rec {
    pub fn new() -> Self {
        Self::default()
    }

    fn see<T: Proj>(&mut self, name: &str, t: &T) {
        match caught(|| t.proj()) {
            Some(p) => match &self.v {
                None => self.v = Some(p),
                Some(v) if *v == p => (),
                Some(_) => self.diff.push(name.into()),
            },
            None => self.diff.push(format!("{name}!panic").into()),
        }
    }

    /// The name of the error; a door whose error differs in detail is noted.
    fn see_err<E: std::fmt::Debug>(&mut self, name: &str, e: &E) -> String {
        let Some(s) = caught(|| format!("{e:?}")) else { return "panic".into() };
        match &self.e {
            None => self.e = Some(s.clone()),
            Some(f) if *f == s => (),
            Some(_) => self.diff.push(format!("{name}!err").into()),
        }
        err_name(e)
    }

    /// A directly callable parsing door.
    pub fn door<T: Proj, E: std::fmt::Debug>(&mut self, name: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
        let (verdict, t) = match caught(f) {
            None => ("panic".to_string(), None),
            Some(Ok(t)) => ("ok".to_string(), Some(t)),
            Some(Err(e)) => (self.see_err(name, &e), None),
        };
        self.d.insert(name.into(), verdict.into());
        if let Some(t) = &t {
            self.see(name, t);
        }
        t
    }

    /// A validate-only door.
    pub fn check<E: std::fmt::Debug>(&mut self, name: &str, f: impl FnOnce() -> Result<(), E>) {
        let verdict = match caught(f) {
            None => "panic".to_string(),
            Some(Ok(())) => "ok".to_string(),
            Some(Err(e)) => self.see_err(name, &e),
        };
        self.w.insert(name.into(), verdict.into());
    }

    /// A deserialization door.
    pub fn de<T: Proj, E: std::fmt::Display>(&mut self, name: &str, f: impl FnOnce() -> Result<T, E>) {
        let verdict = match caught(f) {
            None => "panic",
            Some(Ok(t)) => {
                self.see(name, &t);
                "ok"
            },
            Some(Err(e)) => {
                if caught(|| msg(&e)).is_some() {
                    "err"
                } else {
                    "panic"
                }
            },
        };
        self.s.insert(name.into(), verdict.into());
    }

    /// Extraction through the library's `Result` wrapper.
    pub fn wrap<T: Proj, E: std::fmt::Debug, D: std::fmt::Display>(
        &mut self,
        name: &str,
        f: impl FnOnce() -> Result<validators::Result<T, E>, D>,
    ) {
        let verdict = match caught(f) {
            None => "panic".to_string(),
            Some(Err(_)) => "refused".to_string(),
            Some(Ok(r)) if r.as_std_result().is_ok() != r.is_ok() => "differs".to_string(),
            Some(Ok(r)) => match r.into_std_result() {
                Ok(t) => {
                    self.see(name, &t);
                    "ok".to_string()
                },
                Err(e) => self.see_err(name, &e),
            },
        };
        self.x.insert(name.into(), verdict.into());
    }

    pub fn put(&mut self, k: &str, v: Value) {
        self.rest.insert(k.into(), v);
    }

    pub fn value(self) -> Value {
        let mut m = Map::new();
        m.insert("d".into(), self.d.into());
        m.insert("w".into(), self.w.into());
        m.insert("s".into(), self.s.into());
        m.insert("x".into(), self.x.into());
        m.insert("q".into(), self.diff.into());
        if let Some(v) = self.v {
            m.insert("v".into(), v);
        }
        m.extend(self.rest);
        m.into()
    }
}

/// An object whose names come in no particular order.
fn ordered(v: Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut names: Vec<(String, Value)> = m.into_iter().collect();
            names.sort_by(|a, b| a.0.cmp(&b.0));
            Value::Object(names.into_iter().collect())
        },
        v => v,
    }
}
/// The serialized form: what kind of content, and its text (or bytes).
pub fn ser_form<T: Serialize>(t: &T) -> Value {
    match caught(|| serde_json::to_value(t)) {
        None => json!({"t": "panic", "c": []}),
        // an integer wider than a JSON value holds still has its text
        Some(Err(_)) => match caught(|| serde_json::to_string(t)) {
            Some(Ok(s)) => json!({"t": "n", "c": cps(&s)}),
            _ => json!({"t": "err", "c": []}),
        },
        Some(Ok(v)) => match &v {
            Value::String(s) => json!({"t": "s", "c": cps(s)}),
            Value::Number(n) => json!({"t": "n", "c": cps(&n.to_string())}),
            Value::Bool(b) => json!({"t": "t", "c": cps(if *b { "true" } else { "false" })}),
            Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.as_u64().is_some_and(|n| n < 256)) => json!({"t": "b", "c": v}),
            _ => json!({"t": "j", "c": cps(&ordered(v).to_string())}),
        },
    }
}

/// Serialize, deserialize what was serialized, compare: through JSON, or
/// through the lossless format.
pub fn ser_back<T: Serialize + for<'a> Deserialize<'a> + Proj>(t: &T, json: bool) -> String {
    let p = t.proj();
    let ways: Vec<fn(&T) -> Option<T>> = if json {
        vec![|t| serde_json::from_value(serde_json::to_value(t).ok()?).ok(), |t| {
            serde_json::from_str(&serde_json::to_string(t).ok()?).ok()
        }]
    } else {
        vec![|t| T::deserialize(t.serialize(PrimSer(true)).ok()?).ok(), |t| T::deserialize(Binary(t.serialize(PrimSer(false)).ok()?)).ok()]
    };
    let mut out: Vec<&str> = Vec::new();
    for way in ways {
        out.push(match caught(|| way(t)) {
            None => "panic",
            Some(None) => "err",
            Some(Some(b)) => match caught(|| b.proj() == p) {
                Some(true) => "eq",
                Some(false) => "neq",
                None => "panic",
            },
        });
    }
    if out[0] == out[1] { out[0].to_string() } else { format!("{}/{}", out[0], out[1]) }
}

/// Submit the canonical text again.
pub fn resubmit<T: ValidateString + Proj>(t: &T, text: &str) -> String
where
    T::Error: std::fmt::Debug, {
    let p = t.proj();
    match caught(|| T::parse_str(text)) {
        None => "panic".into(),
        Some(Err(e)) => err_name(&e),
        Some(Ok(b)) => match caught(|| (b.proj() == p, b.emit())) {
            None => "panic".into(),
            Some((false, _)) => "neq".into(),
            Some((true, e)) => {
                if e.as_deref() == Some(text) {
                    "eq".into()
                } else {
                    "unstable".into()
                }
            },
        },
    }
}

/// What follows acceptance: emission, resubmission, serialization.
pub fn after<T>(rec: &mut Rec, t: &T)
where
    T: ValidateString + Proj,
    T::Error: std::fmt::Debug, {
    match caught(|| t.emit()) {
        None => {
            rec.put("em", json!([]));
            rec.put("rt", "panic".into());
        },
        Some(None) => (),
        Some(Some(text)) => {
            rec.put("em", cps(&text));
            rec.put("rt", resubmit(t, &text).into());
        },
    }
    rec.put("ex", caught(|| t.extra()).unwrap_or_else(|| json!({"panic": true})));
}

pub fn after_serde<T>(rec: &mut Rec, t: &T)
where
    T: Serialize + for<'a> Deserialize<'a> + Proj, {
    rec.put("ser", ser_form(t));
    rec.put("sb", caught(|| ser_back(t, true)).unwrap_or_else(|| "panic".into()).into());
    rec.put("sp", caught(|| ser_back(t, false)).unwrap_or_else(|| "panic".into()).into());
}

type StrDe<'a> = serde::de::value::StrDeserializer<'a, serde_json::Error>;
type StringDe = serde::de::value::StringDeserializer<serde_json::Error>;
type BorrowDe<'a> = serde::de::value::BorrowedStrDeserializer<'a, serde_json::Error>;

pub fn str_doors<T>(rec: &mut Rec, input: &str) -> Option<T>
where
    T: ValidateString + Proj + for<'a> Deserialize<'a>,
    T::Error: std::fmt::Debug, {
    let t = rec.door("parse_str", || T::parse_str(input));
    rec.door("parse_string", || T::parse_string(input.to_string()));
    rec.door("parse_str2", || T::parse_str(String::from(input)));
    rec.door("again", || T::parse_str(input));
    rec.check("validate_str", || T::validate_str(input));
    rec.de("str", || {
        let d: StrDe = input.into_deserializer();
        T::deserialize(d)
    });
    rec.de("string", || {
        let d: StringDe = input.to_string().into_deserializer();
        T::deserialize(d)
    });
    rec.de("borrowed", || T::deserialize(BorrowDe::new(input)));
    rec.de("json", || serde_json::from_str::<T>(&serde_json::to_string(input).unwrap()));
    rec.de("value", || serde_json::from_value::<T>(Value::String(input.to_string())));
    t
}

pub fn str_wraps<T>(rec: &mut Rec, input: &str)
where
    T: ValidateString + Proj,
    T::Error: std::fmt::Debug,
    validators::Result<T, T::Error>: for<'a> Deserialize<'a>, {
    rec.wrap("str", || {
        let d: StrDe = input.into_deserializer();
        validators::Result::<T, T::Error>::deserialize(d)
    });
    rec.wrap("string", || {
        let d: StringDe = input.to_string().into_deserializer();
        validators::Result::<T, T::Error>::deserialize(d)
    });
    rec.wrap("borrowed", || validators::Result::<T, T::Error>::deserialize(BorrowDe::new(input)));
    rec.wrap("json", || serde_json::from_str::<validators::Result<T, T::Error>>(&serde_json::to_string(input).unwrap()));
    rec.wrap("value", || serde_json::from_value::<validators::Result<T, T::Error>>(Value::String(input.to_string())));
    rec.wrap::<T, T::Error, String>("from_ref", || Ok(validators::Result::from(input)));
    rec.wrap::<T, T::Error, String>("from_string", || Ok(validators::Result::from(input.to_string())));
    rec.wrap::<T, T::Error, String>("from_str", || input.parse::<validators::Result<T, T::Error>>().map_err(|e| format!("{e:?}")));
}

/// The whole session of a string validator.
pub fn str_session<T>(input: &str) -> Value
where
    T: crate::web::Web + Proj + Serialize + for<'a> Deserialize<'a>,
    T::Error: std::fmt::Debug,
    validators::Result<T, T::Error>: for<'a> Deserialize<'a>, {
    let mut rec = Rec::new();
    let t = str_doors::<T>(&mut rec, input);
    str_wraps::<T>(&mut rec, input);
    T::web(&mut rec, input);
    if let Some(t) = t {
        after(&mut rec, &t);
        after_serde(&mut rec, &t);
    }
    rec.value()
}

type BytesDe<'a> = serde::de::value::BytesDeserializer<'a, serde_json::Error>;
type BorrowBytesDe<'a> = serde::de::value::BorrowedBytesDeserializer<'a, serde_json::Error>;

/// A deserializer which hands over an owned byte buffer.
pub struct BufDe(pub Vec<u8>);
impl<'de> serde::Deserializer<'de> for BufDe {
    type Error = serde_json::Error;

    fn deserialize_any<V: serde::de::Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
        visitor.visit_byte_buf(self.0)
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// The content of a lossless in-memory format, and its deserializer: one
/// value, handed over by its own visitor method.
#[derive(Clone, Debug, PartialEq)]
pub enum Prim {
    Str(String),
    Bytes(Vec<u8>),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
}
impl<'de> serde::Deserializer<'de> for Prim {
    type Error = serde_json::Error;

    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self {
            Prim::Str(x) => v.visit_string(x),
            Prim::Bytes(x) => v.visit_byte_buf(x),
            Prim::Bool(x) => v.visit_bool(x),
            Prim::I8(x) => v.visit_i8(x),
            Prim::I16(x) => v.visit_i16(x),
            Prim::I32(x) => v.visit_i32(x),
            Prim::I64(x) => v.visit_i64(x),
            Prim::I128(x) => v.visit_i128(x),
            Prim::U8(x) => v.visit_u8(x),
            Prim::U16(x) => v.visit_u16(x),
            Prim::U32(x) => v.visit_u32(x),
            Prim::U64(x) => v.visit_u64(x),
            Prim::U128(x) => v.visit_u128(x),
            Prim::F32(x) => v.visit_f32(x),
            Prim::F64(x) => v.visit_f64(x),
            Prim::Char(x) => v.visit_char(x),
        }
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// The same format, binary: not human readable.
pub struct Binary(pub Prim);
impl<'de> serde::Deserializer<'de> for Binary {
    type Error = serde_json::Error;

    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        self.0.deserialize_any(v)
    }

    fn is_human_readable(&self) -> bool {
        false
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// Serializes one primitive losslessly.
pub struct PrimSer(pub bool);
type No = serde::ser::Impossible<Prim, serde_json::Error>;
macro_rules! prim_ser {
    ($($f:ident $t:ty => $p:ident),*) => { $( fn $f(self, v: $t) -> Result<Prim, serde_json::Error> { Ok(Prim::$p(v)) } )* };
}
fn no<T>() -> Result<T, serde_json::Error> {
    Err(serde::ser::Error::custom("not a primitive"))
}
impl serde::Serializer for PrimSer {
    type Ok = Prim;
    type Error = serde_json::Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;

    fn is_human_readable(&self) -> bool {
        self.0
    }

    prim_ser!(serialize_bool bool => Bool, serialize_i8 i8 => I8, serialize_i16 i16 => I16, serialize_i32 i32 => I32, serialize_i64 i64 => I64,
        serialize_i128 i128 => I128, serialize_u8 u8 => U8, serialize_u16 u16 => U16, serialize_u32 u32 => U32, serialize_u64 u64 => U64,
        serialize_u128 u128 => U128, serialize_f32 f32 => F32, serialize_f64 f64 => F64, serialize_char char => Char);

    fn serialize_str(self, v: &str) -> Result<Prim, Self::Error> {
        Ok(Prim::Str(v.to_string()))
    }

    fn serialize_bytes(self, v: &[u8]) -> Result<Prim, Self::Error> {
        Ok(Prim::Bytes(v.to_vec()))
    }

    fn serialize_none(self) -> Result<Prim, Self::Error> {
        no()
    }

    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Prim, Self::Error> {
        no()
    }

    fn serialize_unit(self) -> Result<Prim, Self::Error> {
        no()
    }

    fn serialize_unit_struct(self, _: &'static str) -> Result<Prim, Self::Error> {
        no()
    }

    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Prim, Self::Error> {
        no()
    }

    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Prim, Self::Error> {
        v.serialize(self)
    }

    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Prim, Self::Error> {
        no()
    }

    fn serialize_seq(self, _: Option<usize>) -> Result<No, Self::Error> {
        no()
    }

    fn serialize_tuple(self, _: usize) -> Result<No, Self::Error> {
        no()
    }

    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Self::Error> {
        no()
    }

    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Self::Error> {
        no()
    }

    fn serialize_map(self, _: Option<usize>) -> Result<No, Self::Error> {
        no()
    }

    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Self::Error> {
        no()
    }

    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Self::Error> {
        no()
    }
}

/// The byte doors of a validator which also takes bytes.
pub fn byte_session<T>(input: &[u8]) -> Value
where
    T: ValidateBytes + Proj + Serialize + for<'a> Deserialize<'a>,
    T::Error: std::fmt::Debug,
    validators::Result<T, T::Error>: for<'a> Deserialize<'a>, {
    let mut rec = Rec::new();
    let t = rec.door("parse_u8_slice", || T::parse_u8_slice(input));
    rec.door("parse_vec_u8", || T::parse_vec_u8(input.to_vec()));
    rec.door("again", || T::parse_u8_slice(input.to_vec()));
    rec.check("validate_u8_slice", || T::validate_u8_slice(input));
    rec.de("bytes", || {
        let d: BytesDe = input.into_deserializer();
        T::deserialize(d)
    });
    rec.de("borrowed_bytes", || T::deserialize(BorrowBytesDe::new(input)));
    rec.de("byte_buf", || T::deserialize(BufDe(input.to_vec())));
    rec.wrap("bytes", || {
        let d: BytesDe = input.into_deserializer();
        validators::Result::<T, T::Error>::deserialize(d)
    });
    rec.wrap("borrowed_bytes", || validators::Result::<T, T::Error>::deserialize(BorrowBytesDe::new(input)));
    rec.wrap("byte_buf", || validators::Result::<T, T::Error>::deserialize(BufDe(input.to_vec())));
    rec.wrap::<T, T::Error, String>("from_vec", || Ok(validators::Result::from(input.to_vec())));
    if let Some(t) = t {
        rec.put("ex", caught(|| t.extra()).unwrap_or_else(|| json!({"panic": true})));
        after_serde(&mut rec, &t);
    }
    rec.value()
}

/// An input of the specification: a kind, and its content as numbers.
pub struct Input {
    pub kind: String,
    pub c:    Vec<u32>,
}
impl Input {
    pub fn text(&self) -> String {
        self.c.iter().filter_map(|c| char::from_u32(*c)).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.c.iter().map(|c| *c as u8).collect()
    }
}

pub type Session = fn(&Input) -> Value;
/// What the harness knows about an input from the oracles (the libraries the validators build on).
pub type Oracle = fn(&Input) -> Value;

pub struct Family {
    pub name:    &'static str,
    pub configs: Vec<Session>,
    pub oracle:  Oracle,
}
pub fn no_oracle(_: &Input) -> Value {
    json!({})
}

// ---------------------------------------------------------------- primitives
/// One primitive: the door, the check, and what deserialization makes of it.
/// A kind the primitive does not fit into gives no session.
pub fn prim_session<T, P, E>(i: &Input, parse: fn(P) -> Result<T, E>, validate: fn(P) -> Result<(), E>, prim: fn(P) -> Prim, from: Option<fn(P) -> validators::Result<T, E>>) -> Value
where
    P: std::str::FromStr + Copy,
    E: std::fmt::Debug,
    T: ValidateString + Proj + Serialize + for<'a> Deserialize<'a>,
    T::Error: std::fmt::Debug,
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    let Ok(x) = i.text().parse::<P>() else { return Value::Null };
    let mut rec = Rec::new();
    let t = rec.door("parse", || parse(x));
    rec.door("again", || parse(x));
    rec.check("validate", || validate(x));
    rec.de("prim", || T::deserialize(prim(x)));
    rec.wrap("prim", || validators::Result::<T, E>::deserialize(prim(x)));
    if let Some(from) = from {
        rec.wrap::<T, E, String>("from", || Ok(from(x)));
    }
    if let Some(t) = t {
        after(&mut rec, &t);
        after_serde(&mut rec, &t);
    }
    rec.value()
}
/// The same, for a primitive no format carries.
pub fn size_session<T, P, E>(i: &Input, parse: fn(P) -> Result<T, E>, validate: fn(P) -> Result<(), E>) -> Value
where
    P: std::str::FromStr + Copy,
    E: std::fmt::Debug,
    T: ValidateString + Proj,
    T::Error: std::fmt::Debug,
    validators::Result<T, E>: From<P>, {
    let Ok(x) = i.text().parse::<P>() else { return Value::Null };
    let mut rec = Rec::new();
    let t = rec.door("parse", || parse(x));
    rec.check("validate", || validate(x));
    rec.wrap::<T, E, String>("from", || Ok(x.into()));
    if let Some(t) = t {
        after(&mut rec, &t);
    }
    rec.value()
}
/// A primitive which only deserialization takes.
pub fn de_session<T, P, E>(i: &Input, prim: fn(P) -> Prim) -> Value
where
    P: std::str::FromStr + Copy,
    E: std::fmt::Debug,
    T: Proj + for<'a> Deserialize<'a>,
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    let Ok(x) = i.text().parse::<P>() else { return Value::Null };
    let mut rec = Rec::new();
    rec.de("prim", || T::deserialize(prim(x)));
    rec.wrap("prim", || validators::Result::<T, E>::deserialize(prim(x)));
    rec.value()
}
/// A JSON number as it is written.
pub fn json_session<T, E>(i: &Input, ok: fn(&str) -> bool) -> Value
where
    E: std::fmt::Debug,
    T: Proj + for<'a> Deserialize<'a>,
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    let s = i.text();
    if !ok(&s) {
        return Value::Null;
    }
    let mut rec = Rec::new();
    rec.de("text", || serde_json::from_str::<T>(&s));
    rec.de("value", || serde_json::from_value::<T>(serde_json::from_str(&s)?));
    rec.wrap("text", || serde_json::from_str::<validators::Result<T, E>>(&s));
    rec.wrap("value", || serde_json::from_value::<validators::Result<T, E>>(serde_json::from_str(&s)?));
    rec.value()
}
/// How JSON writes an integer it can hold.
pub fn json_int(s: &str) -> bool {
    s.parse::<i64>().is_ok_and(|n| n.to_string() == s) || s.parse::<u64>().is_ok_and(|n| n.to_string() == s)
}

pub fn signed_doors<T, E>(i: &Input) -> Value
where
    E: std::fmt::Debug,
    T: ValidateSignedInteger<Error = E> + ValidateString + Proj + Serialize + for<'a> Deserialize<'a>,
    <T as ValidateString>::Error: std::fmt::Debug,
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    match i.kind.as_str() {
        "i8" => prim_session(i, T::parse_i8, T::validate_i8, Prim::I8, Some(validators::Result::from)),
        "i16" => prim_session(i, T::parse_i16, T::validate_i16, Prim::I16, Some(validators::Result::from)),
        "i32" => prim_session(i, T::parse_i32, T::validate_i32, Prim::I32, Some(validators::Result::from)),
        "i64" => prim_session(i, T::parse_i64, T::validate_i64, Prim::I64, Some(validators::Result::from)),
        "i128" => prim_session(i, T::parse_i128, T::validate_i128, Prim::I128, Some(validators::Result::from)),
        "isize" => size_session(i, T::parse_isize, T::validate_isize),
        _ => Value::Null,
    }
}
pub fn unsigned_doors<T, E>(i: &Input) -> Value
where
    E: std::fmt::Debug,
    T: ValidateUnsignedInteger<Error = E> + ValidateString + Proj + Serialize + for<'a> Deserialize<'a>,
    <T as ValidateString>::Error: std::fmt::Debug,
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    match i.kind.as_str() {
        "u8" => prim_session(i, T::parse_u8, T::validate_u8, Prim::U8, Some(validators::Result::from)),
        "u16" => prim_session(i, T::parse_u16, T::validate_u16, Prim::U16, Some(validators::Result::from)),
        "u32" => prim_session(i, T::parse_u32, T::validate_u32, Prim::U32, Some(validators::Result::from)),
        "u64" => prim_session(i, T::parse_u64, T::validate_u64, Prim::U64, Some(validators::Result::from)),
        "u128" => prim_session(i, T::parse_u128, T::validate_u128, Prim::U128, Some(validators::Result::from)),
        "usize" => size_session(i, T::parse_usize, T::validate_usize),
        _ => Value::Null,
    }
}

/// An integer which a size validator takes: as text a format for machines carries it.
pub fn size_doors<T, E>(i: &Input) -> Value
where
    E: std::fmt::Debug,
    T: ValidateUnsignedInteger<Error = E> + ValidateString + Proj + Serialize + for<'a> Deserialize<'a>,
    <T as ValidateString>::Error: std::fmt::Debug,
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    match i.kind.as_str() {
        "u8" => size_session(i, T::parse_u8, T::validate_u8),
        "u16" => size_session(i, T::parse_u16, T::validate_u16),
        "u32" => size_session(i, T::parse_u32, T::validate_u32),
        "u64" => size_session(i, T::parse_u64, T::validate_u64),
        "usize" => size_session(i, T::parse_usize, T::validate_usize),
        "u128" => {
            let Ok(x) = i.text().parse::<u128>() else { return Value::Null };
            let mut rec = Rec::new();
            let t = rec.door("parse", || T::parse_u128(x));
            rec.check("validate", || T::validate_u128(x));
            rec.de("binary", || T::deserialize(Binary(Prim::U128(x))));
            rec.wrap("binary", || validators::Result::<T, E>::deserialize(Binary(Prim::U128(x))));
            rec.wrap::<T, E, String>("from", || Ok(x.into()));
            if let Some(t) = t {
                after(&mut rec, &t);
                after_serde(&mut rec, &t);
            }
            rec.value()
        },
        _ => Value::Null,
    }
}

// ---------------------------------------------------------------- JSON
pub trait JsonValidator<E>:
    ValidateString<Error = E>
    + ValidateJsonValue<Error = E>
    + ValidateSignedInteger<Error = E>
    + ValidateUnsignedInteger<Error = E>
    + ValidateNumber<Error = E>
    + ValidateBoolean<Error = E>
    + ToJsonString
    + Proj
    + Serialize
    + for<'a> Deserialize<'a>
{
}
impl<E, T> JsonValidator<E> for T where
    T: ValidateString<Error = E>
        + ValidateJsonValue<Error = E>
        + ValidateSignedInteger<Error = E>
        + ValidateUnsignedInteger<Error = E>
        + ValidateNumber<Error = E>
        + ValidateBoolean<Error = E>
        + ToJsonString
        + Proj
        + Serialize
        + for<'a> Deserialize<'a>
{
}
/// What is beautified, and whether it is the same document.
pub fn beautified<T: ToJsonString + ValidateString + Proj>(t: &T) -> Value {
    let s = t.to_beautified_json_string();
    let back = match T::parse_str(&s) {
        Ok(b) => {
            if b.proj() == t.proj() {
                "eq"
            } else {
                "neq"
            }
        },
        Err(_) => "err",
    };
    json!({"pretty": cps(&s), "back": back})
}
/// A JSON validator: a text, the document of a text, or a primitive.
pub fn json_doors<T: JsonValidator<E>, E: std::fmt::Debug>(i: &Input) -> Value
where
    validators::Result<T, E>: for<'a> Deserialize<'a>, {
    let s = i.text();
    match i.kind.as_str() {
        "text" => {
            let mut rec = Rec::new();
            let t = rec.door("parse_str", || T::parse_str(&s));
            rec.door("parse_string", || T::parse_string(s.clone()));
            rec.door("again", || T::parse_str(&s));
            rec.check("validate_str", || T::validate_str(&s));
            rec.de("json", || serde_json::from_str::<T>(&s));
            rec.wrap::<T, E, String>("from_ref", || Ok(validators::Result::from(s.as_str())));
            rec.wrap::<T, E, String>("from_string", || Ok(validators::Result::from(s.clone())));
            rec.wrap::<T, E, String>("from_str", || s.parse::<validators::Result<T, E>>().map_err(|e| format!("{e:?}")));
            if let Some(t) = t {
                after(&mut rec, &t);
                after_serde(&mut rec, &t);
            }
            rec.value()
        },
        "doc" => {
            let Ok(v) = serde_json::from_str::<Value>(&s) else { return Value::Null };
            let mut rec = Rec::new();
            let t = rec.door("parse_json_value", || T::parse_json_value(v.clone()));
            rec.check("validate_json_value", || T::validate_json_value(v.clone()));
            rec.de("value", || serde_json::from_value::<T>(v.clone()));
            rec.de("json", || serde_json::from_str::<T>(&s));
            rec.wrap("value", || serde_json::from_value::<validators::Result<T, E>>(v.clone()));
            rec.wrap("json", || serde_json::from_str::<validators::Result<T, E>>(&s));
            if let Some(t) = t {
                after(&mut rec, &t);
            }
            rec.value()
        },
        "bool" => prim_session(i, T::parse_bool, T::validate_bool, Prim::Bool, Some(validators::Result::from)),
        "f64" if !s.parse::<f64>().is_ok_and(f64::is_finite) => Value::Null,
        "f64" => prim_session(i, T::parse_f64, T::validate_f64, Prim::F64, None),
        "i64" => prim_session(i, T::parse_i64, T::validate_i64, Prim::I64, Some(validators::Result::from)),
        "u64" => prim_session(i, T::parse_u64, T::validate_u64, Prim::U64, Some(validators::Result::from)),
        "i8" => prim_session(i, T::parse_i8, T::validate_i8, Prim::I8, Some(validators::Result::from)),
        "u32" => prim_session(i, T::parse_u32, T::validate_u32, Prim::U32, Some(validators::Result::from)),
        "isize" => size_session(i, T::parse_isize, T::validate_isize),
        "usize" => size_session(i, T::parse_usize, T::validate_usize),
        "i128" => size_session(i, T::parse_i128, T::validate_i128),
        "u128" => size_session(i, T::parse_u128, T::validate_u128),
        _ => Value::Null,
    }
}

// ---------------------------------------------------------------- collections
/// A collection validator on a collection made anew for every door.
pub fn length_session<T, C>(make: impl Fn() -> C) -> Value
where
    C: CollectionLength + Serialize + for<'a> Deserialize<'a>,
    T: ValidateLength<C, Error = validators::errors::LengthError> + Proj + Serialize + for<'a> Deserialize<'a>,
    validators::Result<T, validators::errors::LengthError, C>: for<'a> Deserialize<'a>, {
    type W<T, C> = validators::Result<T, validators::errors::LengthError, C>;
    let mut rec = Rec::new();
    let t = rec.door("parse_collection", || T::parse_collection(make()));
    rec.door("again", || T::parse_collection(make()));
    rec.check("validate_collection", || T::validate_collection(&make()));
    crate::web::answer(&mut rec, || T::parse_collection(make()).err());
    let json = serde_json::to_string(&make()).unwrap();
    let value = serde_json::to_value(make()).unwrap();
    rec.de("json", || serde_json::from_str::<T>(&json));
    rec.de("value", || serde_json::from_value::<T>(value.clone()));
    fn plain<T, C>(r: W<T, C>) -> validators::Result<T, validators::errors::LengthError> {
        validators::Result::new(r.into_std_result())
    }
    rec.wrap("json", || serde_json::from_str::<W<T, C>>(&json).map(plain));
    rec.wrap("value", || serde_json::from_value::<W<T, C>>(value.clone()).map(plain));
    if let Some(t) = t {
        rec.put("ex", caught(|| t.extra()).unwrap_or_else(|| json!({"panic": true})));
        // serialized as the collection itself
        let same = caught(|| serde_json::to_value(&t).ok().map(sorted_json) == Some(sorted_json(value.clone())));
        rec.put("ser", json!({"t": match same { Some(true) => "same", Some(false) => "differs", None => "panic" }, "c": []}));
        let b = caught(|| ser_back(&t, true)).unwrap_or_else(|| "panic".into());
        rec.put("sb", b.clone().into());
        rec.put("sp", b.into());
    }
    rec.value()
}
/// A collection which has no order serializes in any.
fn sorted_json(v: Value) -> Value {
    match v {
        Value::Array(mut a) => {
            a.sort_by_key(|x| x.as_u64());
            Value::Array(a)
        },
        v => v,
    }
}
/// Doors only: a collection whose serialized form is another validator's.
pub fn length_doors<T, C>(make: impl Fn() -> C) -> Value
where
    C: CollectionLength,
    T: ValidateLength<C, Error = validators::errors::LengthError> + Proj, {
    let mut rec = Rec::new();
    let t = rec.door("parse_collection", || T::parse_collection(make()));
    rec.check("validate_collection", || T::validate_collection(&make()));
    if let Some(t) = t {
        rec.put("ex", caught(|| t.extra()).unwrap_or_else(|| json!({"panic": true})));
    }
    rec.value()
}
