//! Monomorphic wrappers around the generic entry points of libgoldilocks (key generation from a
//! caller's RNG, serde). They live in their own crate so that the generic library code they
//! instantiate is compiled with the same SanitizerCoverage seam as the library itself.
use libgoldilocks::{SecretKey, SigningKey, VerifyingKey};
use rand_core::{CryptoRng, Error as RngError, RngCore};
use serde::de::{self, Deserialize, DeserializeOwned, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;
use std::io::{Read, Write};

/// A caller-supplied generator; every call is answered by the simulator.
pub struct DynRng<'a>(pub &'a mut dyn RngCore);
impl RngCore for DynRng<'_> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.0.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RngError> {
        self.0.try_fill_bytes(dest)
    }
}
impl CryptoRng for DynRng<'_> {}

#[inline(never)]
pub fn random_key(rng: &mut dyn RngCore) -> SigningKey {
    SigningKey::random(&mut DynRng(rng))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Secret,
    Signing,
    Verifying,
}
pub const KINDS: [Kind; 3] = [Kind::Secret, Kind::Signing, Kind::Verifying];

#[derive(Clone, PartialEq, Debug)]
pub enum Key {
    Secret(SecretKey),
    Signing(SigningKey),
    Verifying(VerifyingKey),
}

impl Key {
    pub fn make(kind: Kind, b: &[u8; 57]) -> Key {
        match kind {
            Kind::Secret => Key::Secret(SecretKey::from_bytes(b)),
            Kind::Signing => Key::Signing(SigningKey::from_slice(b)),
            Kind::Verifying => Key::Verifying(VerifyingKey::from_bytes(b)),
        }
    }
    pub fn kind(&self) -> Kind {
        match self {
            Key::Secret(_) => Kind::Secret,
            Key::Signing(_) => Kind::Signing,
            Key::Verifying(_) => Kind::Verifying,
        }
    }
}

#[inline(never)]
pub fn to_writer(k: &Key, w: &mut dyn Write) -> Result<(), String> {
    match k {
        Key::Secret(x) => serde_json::to_writer(w, x),
        Key::Signing(x) => serde_json::to_writer(w, x),
        Key::Verifying(x) => serde_json::to_writer(w, x),
    }
    .map_err(|e| e.to_string())
}

#[inline(never)]
pub fn to_string(k: &Key) -> Result<String, String> {
    match k {
        Key::Secret(x) => serde_json::to_string(x),
        Key::Signing(x) => serde_json::to_string(x),
        Key::Verifying(x) => serde_json::to_string(x),
    }
    .map_err(|e| e.to_string())
}

#[inline(never)]
pub fn to_value(k: &Key) -> Result<serde_json::Value, String> {
    match k {
        Key::Secret(x) => serde_json::to_value(x),
        Key::Signing(x) => serde_json::to_value(x),
        Key::Verifying(x) => serde_json::to_value(x),
    }
    .map_err(|e| e.to_string())
}

fn read_as<T: DeserializeOwned>(r: &mut dyn Read) -> Result<T, String> {
    serde_json::from_reader(r).map_err(|e| e.to_string())
}

#[inline(never)]
pub fn from_reader(kind: Kind, r: &mut dyn Read) -> Result<Key, String> {
    Ok(match kind {
        Kind::Secret => Key::Secret(read_as(r)?),
        Kind::Signing => Key::Signing(read_as(r)?),
        Kind::Verifying => Key::Verifying(read_as(r)?),
    })
}

#[inline(never)]
pub fn from_slice(kind: Kind, b: &[u8]) -> Result<Key, String> {
    let e = |e: serde_json::Error| e.to_string();
    Ok(match kind {
        Kind::Secret => Key::Secret(serde_json::from_slice(b).map_err(e)?),
        Kind::Signing => Key::Signing(serde_json::from_slice(b).map_err(e)?),
        Kind::Verifying => Key::Verifying(serde_json::from_slice(b).map_err(e)?),
    })
}

#[inline(never)]
pub fn from_value(kind: Kind, v: serde_json::Value) -> Result<Key, String> {
    let e = |e: serde_json::Error| e.to_string();
    Ok(match kind {
        Kind::Secret => Key::Secret(serde_json::from_value(v).map_err(e)?),
        Kind::Signing => Key::Signing(serde_json::from_value(v).map_err(e)?),
        Kind::Verifying => Key::Verifying(serde_json::from_value(v).map_err(e)?),
    })
}

// ------------------------------------------------------------------ simulated serde formats

#[derive(Debug, Clone, PartialEq)]
pub struct TapeErr(pub String);
impl fmt::Display for TapeErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TapeErr {}
impl ser::Error for TapeErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        TapeErr(format!("custom: {}", m))
    }
}
impl de::Error for TapeErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        TapeErr(format!("custom: {}", m))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SerFault {
    None,
    Fail,
    Panic,
    /// the format uses the library itself while it is being used
    Nested,
}

/// A serializer that records the one value it is given, or fails / panics instead.
pub struct TapeSer<'a> {
    pub human: bool,
    pub fault: SerFault,
    pub calls: &'a mut u32,
}
#[derive(Clone, PartialEq, Debug)]
pub enum TapeVal {
    Str(String),
    Bytes(Vec<u8>),
    Other(&'static str),
}
impl TapeSer<'_> {
    fn emit(self, v: TapeVal) -> Result<TapeVal, TapeErr> {
        *self.calls += 1;
        match self.fault {
            SerFault::None => Ok(v),
            SerFault::Fail => Err(TapeErr("medium: write failed".into())),
            SerFault::Panic => panic!("injected: serializer panicked"),
            SerFault::Nested => Ok(match v {
                TapeVal::Str(s) => {
                    let n = nested(s.as_bytes());
                    TapeVal::Str(s + &n)
                }
                o => o,
            }),
        }
    }
}
/// Ordinary use of the library from inside a format: keys of all kinds read and written.
fn nested(seed: &[u8]) -> String {
    let mut b = [0x11u8; 57];
    for (i, x) in seed.iter().enumerate() {
        b[i % 57] = b[i % 57].rotate_left(3) ^ x;
    }
    let mut out = String::new();
    for kind in KINDS {
        let t = to_string(&Key::make(kind, &b)).unwrap_or_default();
        out.push_str(&t);
        match from_slice(kind, t.as_bytes()) {
            Ok(k) => out.push_str(&to_string(&k).unwrap_or_default()),
            Err(_) => out.push('!'),
        }
    }
    out
}
macro_rules! other {
    ($($f:ident $t:ty),*) => {$(fn $f(self, _v: $t) -> Result<TapeVal, TapeErr> { self.emit(TapeVal::Other(stringify!($f))) })*};
}
type Imp = ser::Impossible<TapeVal, TapeErr>;
impl ser::Serializer for TapeSer<'_> {
    type Ok = TapeVal;
    type Error = TapeErr;
    type SerializeSeq = Imp;
    type SerializeTuple = TapeTuple;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
        serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<TapeVal, TapeErr> {
        let s = TapeVal::Str(v.to_string());
        self.emit(s)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<TapeVal, TapeErr> {
        let s = TapeVal::Bytes(v.to_vec());
        self.emit(s)
    }
    fn serialize_none(self) -> Result<TapeVal, TapeErr> {
        self.emit(TapeVal::Other("none"))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<TapeVal, TapeErr> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<TapeVal, TapeErr> {
        self.emit(TapeVal::Other("unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<TapeVal, TapeErr> {
        self.emit(TapeVal::Other("unit_struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<TapeVal, TapeErr> {
        self.emit(TapeVal::Other("unit_variant"))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<TapeVal, TapeErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<TapeVal, TapeErr> {
        self.emit(TapeVal::Other("newtype_variant"))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, TapeErr> {
        Err(TapeErr("seq unsupported".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<TapeTuple, TapeErr> {
        let human = self.human;
        self.emit(TapeVal::Other("tuple"))?;
        let _ = human;
        Ok(TapeTuple)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, TapeErr> {
        Err(TapeErr("tuple_struct unsupported".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, TapeErr> {
        Err(TapeErr("tuple_variant unsupported".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, TapeErr> {
        Err(TapeErr("map unsupported".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, TapeErr> {
        Err(TapeErr("struct unsupported".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, TapeErr> {
        Err(TapeErr("struct_variant unsupported".into()))
    }
}
pub struct TapeTuple;
impl ser::SerializeTuple for TapeTuple {
    type Ok = TapeVal;
    type Error = TapeErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), TapeErr> {
        Ok(())
    }
    fn end(self) -> Result<TapeVal, TapeErr> {
        Ok(TapeVal::Other("tuple"))
    }
}

#[inline(never)]
pub fn ser_tape(k: &Key, human: bool, fault: SerFault, calls: &mut u32) -> Result<TapeVal, TapeErr> {
    let t = TapeSer { human, fault, calls };
    match k {
        Key::Secret(x) => x.serialize(t),
        Key::Signing(x) => x.serialize(t),
        Key::Verifying(x) => x.serialize(t),
    }
}

/// What a simulated data format holds at the place of the key.
#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    /// text handed over as a transient `&str`
    Str(String),
    /// text borrowed from the input for its whole lifetime
    Borrowed(String),
    /// text handed over as an owned String
    Owned(String),
    /// UTF-8 (or not) bytes handed over as &[u8] / Vec<u8>
    Bytes(Vec<u8>),
    ByteBuf(Vec<u8>),
    U64(u64),
    I64(i64),
    F64(f64),
    Bool(bool),
    Unit,
    None,
    SomeStr(String),
    Char(char),
    Seq(Vec<u8>),
    Fail,
    Panic,
    /// text from a format that uses the library itself while reading
    Nested(String),
}

pub struct TapeDe<'de> {
    pub human: bool,
    pub item: &'de Item,
}
struct SeqU8<'a>(std::slice::Iter<'a, u8>);
impl<'de> de::SeqAccess<'de> for SeqU8<'_> {
    type Error = TapeErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, TapeErr> {
        match self.0.next() {
            None => Ok(None),
            Some(b) => seed.deserialize(de::value::U8Deserializer::new(*b)).map(Some),
        }
    }
}
impl<'de> de::Deserializer<'de> for TapeDe<'de> {
    type Error = TapeErr;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TapeErr> {
        match self.item {
            Item::Str(s) => v.visit_str(&s.clone()),
            Item::Borrowed(s) => v.visit_borrowed_str(s),
            Item::Owned(s) => v.visit_string(s.clone()),
            Item::Bytes(b) => v.visit_bytes(&b.clone()),
            Item::ByteBuf(b) => v.visit_byte_buf(b.clone()),
            Item::U64(x) => v.visit_u64(*x),
            Item::I64(x) => v.visit_i64(*x),
            Item::F64(x) => v.visit_f64(*x),
            Item::Bool(x) => v.visit_bool(*x),
            Item::Unit => v.visit_unit(),
            Item::None => v.visit_none(),
            Item::SomeStr(s) => v.visit_some(de::value::StrDeserializer::new(s)),
            Item::Char(c) => v.visit_char(*c),
            Item::Seq(b) => v.visit_seq(SeqU8(b.iter())),
            Item::Fail => Err(TapeErr("medium: read failed".into())),
            Item::Panic => panic!("injected: deserializer panicked"),
            Item::Nested(s) => {
                let n = nested(s.as_bytes());
                if n.contains('!') {
                    return Err(TapeErr("nested use failed".into()));
                }
                v.visit_str(s)
            }
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

#[inline(never)]
pub fn de_tape(kind: Kind, human: bool, item: &Item) -> Result<Key, TapeErr> {
    let d = TapeDe { human, item };
    Ok(match kind {
        Kind::Secret => Key::Secret(SecretKey::deserialize(d)?),
        Kind::Signing => Key::Signing(SigningKey::deserialize(d)?),
        Kind::Verifying => Key::Verifying(VerifyingKey::deserialize(d)?),
    })
}
