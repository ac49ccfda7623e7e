//! Serde seams: a self-describing tree which can be serialized into and
//! deserialized from, failing (or running arbitrary code) at any call.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

use crate::cb;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    None,
    Unit,
    Bool(bool),
    I(u8, i128),
    U(u8, u128),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Some(Box<C>),
    Seq(Vec<C>),
    Map(Vec<(C, C)>),
    Struct(Vec<(C, C)>),
}

#[derive(Debug)]
pub struct SimErr {
    /// Injected failure number, or a message of the library or serde.
    pub tag: Option<u64>,
    pub msg: String,
}

impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} {}", self.tag, self.msg)
    }
}

impl std::error::Error for SimErr {}

impl ser::Error for SimErr {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        SimErr {
            tag: None,
            msg: msg.to_string(),
        }
    }
}

impl de::Error for SimErr {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        SimErr {
            tag: None,
            msg: msg.to_string(),
        }
    }
}

/// Counts calls, and fails one of them.
#[derive(Default)]
pub struct Gate {
    pub calls: Cell<u64>,
    pub fail_at: Cell<Option<u64>>,
    pub failed: Cell<bool>,
    /// Calls made after the one which failed.
    pub after: Cell<u64>,
    pub log: RefCell<Vec<String>>,
    pub record: Cell<bool>,
}

impl Gate {
    pub fn new(fail_at: Option<u64>, record: bool) -> Rc<Self> {
        let gate = Gate::default();
        gate.fail_at.set(fail_at);
        gate.record.set(record);
        Rc::new(gate)
    }

    pub fn step(&self, what: impl FnOnce() -> String) -> Result<(), SimErr> {
        cb::call("serde");
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
        }
        if self.fail_at.get() == Some(n) {
            self.failed.set(true);
            return Err(SimErr {
                tag: Some(n),
                msg: String::new(),
            });
        }
        if self.record.get() {
            self.log.borrow_mut().push(what());
        }
        Ok(())
    }
}

pub struct Ser(pub Rc<Gate>);

impl Ser {
    fn leaf(self, c: C) -> Result<C, SimErr> {
        self.0.step(|| format!("{c:?}"))?;
        Ok(c)
    }

    fn seq(self, what: &str, len: Option<usize>) -> Result<SerSeq, SimErr> {
        self.0.step(|| format!("{what} {len:?}"))?;
        Ok(SerSeq {
            gate: self.0,
            out: Vec::new(),
            len,
        })
    }

    fn map(self, what: &str, len: Option<usize>, object: bool) -> Result<SerMap, SimErr> {
        self.0.step(|| format!("{what} {len:?}"))?;
        Ok(SerMap {
            gate: self.0,
            out: Vec::new(),
            key: None,
            object,
            variant: None,
            len,
        })
    }
}

pub struct SerSeq {
    gate: Rc<Gate>,
    out: Vec<C>,
    len: Option<usize>,
}

pub struct SerMap {
    gate: Rc<Gate>,
    out: Vec<(C, C)>,
    key: Option<C>,
    object: bool,
    variant: Option<&'static str>,
    len: Option<usize>,
}

impl SerSeq {
    fn element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.gate.step(|| "element".into())?;
        self.out.push(v.serialize(Ser(self.gate.clone()))?);
        Ok(())
    }

    fn finish(self) -> Result<C, SimErr> {
        self.gate.step(|| "end".into())?;
        if self.len.is_some_and(|n| n != self.out.len()) {
            return Err(ser::Error::custom("wrong length"));
        }
        Ok(C::Seq(self.out))
    }
}

impl SerMap {
    fn finish(self) -> Result<C, SimErr> {
        self.gate.step(|| "end".into())?;
        if self.len.is_some_and(|n| n != self.out.len()) {
            return Err(ser::Error::custom("wrong length"));
        }
        let c = if self.object { C::Struct(self.out) } else { C::Map(self.out) };
        Ok(match self.variant {
            Some(v) => C::Struct(vec![(C::Str(v.into()), c)]),
            None => c,
        })
    }

    fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.gate.step(|| format!("field {k}"))?;
        let v = v.serialize(Ser(self.gate.clone()))?;
        self.out.push((C::Str(k.into()), v));
        Ok(())
    }
}

macro_rules! ser_seq {
    ($($t:ident $f:ident),*) => {$(
        impl ser::$t for SerSeq {
            type Ok = C;
            type Error = SimErr;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> { self.element(v) }
            fn end(self) -> Result<C, SimErr> { self.finish() }
        }
    )*}
}

ser_seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl ser::SerializeMap for SerMap {
    type Ok = C;
    type Error = SimErr;

    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), SimErr> {
        self.gate.step(|| "key".into())?;
        self.key = Some(k.serialize(Ser(self.gate.clone()))?);
        Ok(())
    }

    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.gate.step(|| "value".into())?;
        let v = v.serialize(Ser(self.gate.clone()))?;
        let k = self.key.take().ok_or_else(|| <SimErr as ser::Error>::custom("value without key"))?;
        self.out.push((k, v));
        Ok(())
    }

    fn end(self) -> Result<C, SimErr> {
        self.finish()
    }
}

impl ser::SerializeStruct for SerMap {
    type Ok = C;
    type Error = SimErr;

    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.field(k, v)
    }

    fn end(self) -> Result<C, SimErr> {
        self.finish()
    }
}

impl ser::SerializeStructVariant for SerMap {
    type Ok = C;
    type Error = SimErr;

    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.field(k, v)
    }

    fn end(self) -> Result<C, SimErr> {
        self.finish()
    }
}

macro_rules! leafs {
    ($($f:ident($t:ty) |$v:ident| $e:expr),* $(,)?) => {$(
        fn $f(self, $v: $t) -> Result<C, SimErr> { let c = $e; self.leaf(c) }
    )*}
}

impl ser::Serializer for Ser {
    type Ok = C;
    type Error = SimErr;
    type SerializeSeq = SerSeq;
    type SerializeTuple = SerSeq;
    type SerializeTupleStruct = SerSeq;
    type SerializeTupleVariant = SerSeq;
    type SerializeMap = SerMap;
    type SerializeStruct = SerMap;
    type SerializeStructVariant = SerMap;

    leafs! {
        serialize_bool(bool) |v| C::Bool(v),
        serialize_i8(i8) |v| C::I(8, v.into()),
        serialize_i16(i16) |v| C::I(16, v.into()),
        serialize_i32(i32) |v| C::I(32, v.into()),
        serialize_i64(i64) |v| C::I(64, v.into()),
        serialize_i128(i128) |v| C::I(128, v),
        serialize_u8(u8) |v| C::U(8, v.into()),
        serialize_u16(u16) |v| C::U(16, v.into()),
        serialize_u32(u32) |v| C::U(32, v.into()),
        serialize_u64(u64) |v| C::U(64, v.into()),
        serialize_u128(u128) |v| C::U(128, v),
        serialize_f32(f32) |v| C::F32(v.to_bits()),
        serialize_f64(f64) |v| C::F64(v.to_bits()),
        serialize_char(char) |v| C::Str(v.to_string()),
        serialize_str(&str) |v| C::Str(v.to_owned()),
        serialize_bytes(&[u8]) |v| C::Bytes(v.to_vec()),
        serialize_unit_struct(&'static str) |_v| C::Unit,
    }

    fn serialize_none(self) -> Result<C, SimErr> {
        self.leaf(C::None)
    }

    fn serialize_unit(self) -> Result<C, SimErr> {
        self.leaf(C::Unit)
    }

    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<C, SimErr> {
        self.0.step(|| "some".into())?;
        Ok(C::Some(Box::new(v.serialize(Ser(self.0.clone()))?)))
    }

    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<C, SimErr> {
        self.leaf(C::Str(v.to_owned()))
    }

    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<C, SimErr> {
        v.serialize(self)
    }

    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<C, SimErr> {
        self.0.step(|| variant.into())?;
        let v = v.serialize(Ser(self.0.clone()))?;
        Ok(C::Struct(vec![(C::Str(variant.into()), v)]))
    }

    fn serialize_seq(self, len: Option<usize>) -> Result<SerSeq, SimErr> {
        self.seq("seq", len)
    }

    fn serialize_tuple(self, len: usize) -> Result<SerSeq, SimErr> {
        self.seq("tuple", Some(len))
    }

    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<SerSeq, SimErr> {
        self.seq("tuple", Some(len))
    }

    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<SerSeq, SimErr> {
        self.seq("variant", Some(len))
    }

    fn serialize_map(self, len: Option<usize>) -> Result<SerMap, SimErr> {
        self.map("map", len, false)
    }

    fn serialize_struct(self, _: &'static str, len: usize) -> Result<SerMap, SimErr> {
        self.map("struct", Some(len), true)
    }

    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        len: usize,
    ) -> Result<SerMap, SimErr> {
        let mut m = self.map("struct", Some(len), true)?;
        m.variant = Some(variant);
        Ok(m)
    }
}

/// Deserialize out of a tree.
pub struct De<'a>(pub &'a C, pub Rc<Gate>);

impl<'de, 'a: 'de> De<'a> {
    fn visit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.1.step(|| "de".into())?;
        match self.0 {
            C::None => v.visit_none(),
            C::Unit => v.visit_unit(),
            C::Bool(b) => v.visit_bool(*b),
            C::I(_, n) => match i64::try_from(*n) {
                Ok(n) => v.visit_i64(n),
                Err(_) => v.visit_i128(*n),
            },
            C::U(_, n) => match u64::try_from(*n) {
                Ok(n) => v.visit_u64(n),
                Err(_) => v.visit_u128(*n),
            },
            C::F32(n) => v.visit_f32(f32::from_bits(*n)),
            C::F64(n) => v.visit_f64(f64::from_bits(*n)),
            C::Str(s) => v.visit_str(s),
            C::Bytes(b) => v.visit_bytes(b),
            C::Some(c) => v.visit_some(De(c, self.1)),
            C::Seq(s) => v.visit_seq(DeSeq {
                it: s.iter(),
                gate: self.1,
            }),
            C::Map(m) | C::Struct(m) => v.visit_map(DeMap {
                it: m.iter(),
                value: None,
                gate: self.1,
            }),
        }
    }
}

struct DeSeq<'a> {
    it: std::slice::Iter<'a, C>,
    gate: Rc<Gate>,
}

impl<'de, 'a: 'de> SeqAccess<'de> for DeSeq<'a> {
    type Error = SimErr;

    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        match self.it.next() {
            Some(c) => seed.deserialize(De(c, self.gate.clone())).map(Some),
            None => Ok(None),
        }
    }
}

struct DeMap<'a> {
    it: std::slice::Iter<'a, (C, C)>,
    value: Option<&'a C>,
    gate: Rc<Gate>,
}

impl<'de, 'a: 'de> MapAccess<'de> for DeMap<'a> {
    type Error = SimErr;

    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, SimErr> {
        match self.it.next() {
            Some((k, v)) => {
                self.value = Some(v);
                seed.deserialize(De(k, self.gate.clone())).map(Some)
            }
            None => Ok(None),
        }
    }

    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, SimErr> {
        let v = self.value.take().ok_or_else(|| <SimErr as de::Error>::custom("no value"))?;
        seed.deserialize(De(v, self.gate.clone()))
    }
}

struct DeEnum<'a> {
    name: &'a str,
    value: Option<&'a C>,
    gate: Rc<Gate>,
}

impl<'de, 'a: 'de> EnumAccess<'de> for DeEnum<'a> {
    type Error = SimErr;
    type Variant = Self;

    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), SimErr> {
        let de: de::value::StrDeserializer<'_, SimErr> = self.name.into_deserializer();
        Ok((seed.deserialize(de)?, self))
    }
}

impl<'de, 'a: 'de> VariantAccess<'de> for DeEnum<'a> {
    type Error = SimErr;

    fn unit_variant(self) -> Result<(), SimErr> {
        Ok(())
    }

    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, SimErr> {
        let v = self.value.ok_or_else(|| <SimErr as de::Error>::custom("no value"))?;
        seed.deserialize(De(v, self.gate))
    }

    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, SimErr> {
        let c = self.value.ok_or_else(|| <SimErr as de::Error>::custom("no value"))?;
        De(c, self.gate).visit(v)
    }

    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        let c = self.value.ok_or_else(|| <SimErr as de::Error>::custom("no value"))?;
        De(c, self.gate).visit(v)
    }
}

impl<'de, 'a: 'de> de::Deserializer<'de> for De<'a> {
    type Error = SimErr;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.visit(v)
    }

    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        match self.0 {
            C::None | C::Unit => v.visit_none(),
            C::Some(c) => v.visit_some(De(c, self.1)),
            _ => v.visit_some(self),
        }
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SimErr> {
        v.visit_newtype_struct(self)
    }

    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, SimErr> {
        self.1.step(|| "enum".into())?;
        let (name, value) = match self.0 {
            C::Str(s) => (s.as_str(), None),
            C::Map(m) | C::Struct(m) if m.len() == 1 => match &m[0] {
                (C::Str(s), c) => (s.as_str(), Some(c)),
                _ => return Err(de::Error::custom("bad variant")),
            },
            _ => return Err(de::Error::custom("bad enum")),
        };
        v.visit_enum(DeEnum {
            name,
            value,
            gate: self.1,
        })
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

/// Visits whatever there is, failing at some call. Also what documents are
/// read through by way of their deserializer.
pub struct Recorder(pub Rc<Gate>);

macro_rules! visits {
    ($($f:ident($t:ty) |$v:ident| $e:expr),* $(,)?) => {$(
        fn $f<E: de::Error>(self, $v: $t) -> Result<C, E> {
            let c = $e;
            gate(&self.0, || format!("{c:?}"))?;
            Ok(c)
        }
    )*}
}

/// Errors of foreign types carry the tag in their message.
fn gate<E: de::Error>(g: &Gate, what: impl FnOnce() -> String) -> Result<(), E> {
    g.step(what).map_err(|e| E::custom(format!("injected#{}", e.tag.unwrap_or(0))))
}

impl<'de> Visitor<'de> for Recorder {
    type Value = C;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything")
    }

    visits! {
        visit_bool(bool) |v| C::Bool(v),
        visit_i8(i8) |v| C::I(8, v.into()),
        visit_i16(i16) |v| C::I(16, v.into()),
        visit_i32(i32) |v| C::I(32, v.into()),
        visit_i64(i64) |v| C::I(64, v.into()),
        visit_i128(i128) |v| C::I(128, v),
        visit_u8(u8) |v| C::U(8, v.into()),
        visit_u16(u16) |v| C::U(16, v.into()),
        visit_u32(u32) |v| C::U(32, v.into()),
        visit_u64(u64) |v| C::U(64, v.into()),
        visit_u128(u128) |v| C::U(128, v),
        visit_f32(f32) |v| C::F32(v.to_bits()),
        visit_f64(f64) |v| C::F64(v.to_bits()),
        visit_str(&str) |v| C::Str(v.to_owned()),
        visit_bytes(&[u8]) |v| match std::str::from_utf8(v) {
            Ok(s) => C::Str(s.to_owned()),
            Err(_) => C::Bytes(v.to_vec()),
        },
    }

    fn visit_none<E: de::Error>(self) -> Result<C, E> {
        gate(&self.0, || "none".into())?;
        Ok(C::None)
    }

    fn visit_unit<E: de::Error>(self) -> Result<C, E> {
        gate(&self.0, || "unit".into())?;
        Ok(C::None)
    }

    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<C, D::Error> {
        gate(&self.0, || "some".into())?;
        d.deserialize_any(self)
    }

    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<C, A::Error> {
        gate(&self.0, || "seq".into())?;
        let mut out = Vec::new();
        while let Some(c) = seq.next_element_seed(Recorder(self.0.clone()))? {
            out.push(c);
        }
        gate(&self.0, || "end".into())?;
        Ok(C::Seq(out))
    }

    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<C, A::Error> {
        gate(&self.0, || "map".into())?;
        let mut out = Vec::new();
        while let Some(k) = map.next_key_seed(Recorder(self.0.clone()))? {
            let v = map.next_value_seed(Recorder(self.0.clone()))?;
            out.push((k, v));
        }
        gate(&self.0, || "end".into())?;
        Ok(C::Map(out))
    }
}

impl<'de> DeserializeSeed<'de> for Recorder {
    type Value = C;

    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<C, D::Error> {
        d.deserialize_any(self)
    }
}

/// What a type asks for.
pub const HINTS: u8 = 29;

/// A recorder which asks for something in particular.
pub struct Hinted(pub Recorder, pub u8);

impl<'de> DeserializeSeed<'de> for Hinted {
    type Value = C;

    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<C, D::Error> {
        let r = self.0;
        match self.1 % HINTS {
            0 => d.deserialize_bool(r),
            1 => d.deserialize_i8(r),
            2 => d.deserialize_i16(r),
            3 => d.deserialize_i32(r),
            4 => d.deserialize_i64(r),
            5 => d.deserialize_i128(r),
            6 => d.deserialize_u8(r),
            7 => d.deserialize_u16(r),
            8 => d.deserialize_u32(r),
            9 => d.deserialize_u64(r),
            10 => d.deserialize_u128(r),
            11 => d.deserialize_f32(r),
            12 => d.deserialize_f64(r),
            13 => d.deserialize_char(r),
            14 => d.deserialize_str(r),
            15 => d.deserialize_string(r),
            16 => d.deserialize_bytes(r),
            17 => d.deserialize_byte_buf(r),
            18 => d.deserialize_option(r),
            19 => d.deserialize_unit(r),
            20 => d.deserialize_seq(r),
            21 => d.deserialize_tuple(2, r),
            22 => d.deserialize_map(r),
            23 => d.deserialize_struct("S", &["a", "b"], r),
            24 => d.deserialize_ignored_any(r),
            25 => d.deserialize_identifier(r),
            26 => d.deserialize_unit_struct("U", r),
            27 => d.deserialize_tuple_struct("T", 2, r),
            _ => d.deserialize_any(r),
        }
    }
}

/// The keys of a mapping, asking for something in particular.
pub struct HintedKeys(pub u8);

impl<'de> DeserializeSeed<'de> for HintedKeys {
    type Value = Vec<C>;

    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Vec<C>, D::Error> {
        d.deserialize_map(self)
    }
}

impl<'de> Visitor<'de> for HintedKeys {
    type Value = Vec<C>;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("a mapping")
    }

    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Vec<C>, A::Error> {
        let mut keys = Vec::new();
        while let Some(k) = map.next_key_seed(Hinted(Recorder(Gate::new(None, false)), self.0))? {
            keys.push(k);
            map.next_value::<de::IgnoredAny>()?;
        }
        Ok(keys)
    }
}

/// Permute the entries of everything which has no order.
pub fn permute(c: &mut C, rng: &mut crate::rng::Rng) {
    match c {
        C::Map(m) => {
            for i in (1..m.len()).rev() {
                m.swap(i, rng.below(i + 1));
            }
            for (k, v) in m {
                permute(k, rng);
                permute(v, rng);
            }
        }
        C::Struct(m) => {
            for (k, v) in m {
                permute(k, rng);
                permute(v, rng);
            }
        }
        C::Seq(s) => s.iter_mut().for_each(|c| permute(c, rng)),
        C::Some(c) => permute(c, rng),
        _ => {}
    }
}
