//! Minimal data formats, one human readable and one binary, for the analyser.
use crate::types::Sink;
use core::fmt::{self, Write as _};
use serde::de::{Deserializer, Visitor};
use serde::ser::{Impossible, Serializer};

#[derive(Debug)]
pub struct E;
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl serde::ser::StdError for E {}
impl serde::ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
impl serde::de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }

/// Ok(1): text, Ok(2): bytes, Ok(3): something else.
pub struct Ser<'a> { pub human: bool, pub s: &'a mut Sink }
macro_rules! other { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<u8, E> { Ok(3) })* } }
impl<'a> Serializer for Ser<'a> {
    type Ok = u8;
    type Error = E;
    type SerializeSeq = Impossible<u8, E>;
    type SerializeTuple = Impossible<u8, E>;
    type SerializeTupleStruct = Impossible<u8, E>;
    type SerializeTupleVariant = Impossible<u8, E>;
    type SerializeMap = Impossible<u8, E>;
    type SerializeStruct = Impossible<u8, E>;
    type SerializeStructVariant = Impossible<u8, E>;
    other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
           serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<u8, E> { self.s.write_str(v).map_err(|_| E)?; Ok(1) }
    fn serialize_bytes(self, v: &[u8]) -> Result<u8, E> {
        self.s.write_str(unsafe { core::str::from_utf8_unchecked(v) }).map_err(|_| E)?;
        Ok(2)
    }
    fn serialize_none(self) -> Result<u8, E> { Ok(3) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, v: &T) -> Result<u8, E> { v.serialize(self) }
    fn serialize_unit(self) -> Result<u8, E> { Ok(3) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u8, E> { Ok(3) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u8, E> { Ok(3) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<u8, E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u8, E> { Ok(3) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<u8, E> { write!(self.s, "{}", v).map_err(|_| E)?; Ok(1) }
    fn is_human_readable(&self) -> bool { self.human }
}

/// Human: the data is one string. Binary: the data is one byte string.
/// mode 0: transient, 1: borrowed, 2: (human only) delivered as bytes.
pub struct De { pub human: bool, pub mode: u8, pub d: &'static [u8] }
impl De {
    fn go<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> {
        if self.human {
            if self.mode == 2 { return v.visit_bytes(self.d); }
            let s = unsafe { core::str::from_utf8_unchecked(self.d) };
            if self.mode == 1 { v.visit_borrowed_str(s) } else { v.visit_str(s) }
        } else if self.mode == 1 { v.visit_borrowed_bytes(self.d) } else { v.visit_bytes(self.d) }
    }
}
macro_rules! no { ($($f:ident),*) => { $(fn $f<V: Visitor<'static>>(self, _: V) -> Result<V::Value, E> { Err(E) })* } }
impl Deserializer<'static> for De {
    type Error = E;
    // The binary format is not self-describing.
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> { if self.human { self.go(v) } else { Err(E) } }
    fn deserialize_str<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> { if self.human { self.go(v) } else { Err(E) } }
    fn deserialize_string<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> { if self.human { self.go(v) } else { Err(E) } }
    fn deserialize_bytes<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> { self.go(v) }
    fn deserialize_byte_buf<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> { self.go(v) }
    no!(deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16,
        deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_unit,
        deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> { v.visit_some(self) }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_unit_struct<V: Visitor<'static>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_tuple<V: Visitor<'static>>(self, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_tuple_struct<V: Visitor<'static>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_struct<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_enum<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
    fn is_human_readable(&self) -> bool { self.human }
}
