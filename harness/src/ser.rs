//! Serializer / deserializer doubles that record what they are asked for.
use pgnumeric::*;
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;

#[derive(Debug)]
pub struct HErr;
impl fmt::Display for HErr { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for HErr {}
impl ser::Error for HErr { fn custom<T: fmt::Display>(_: T) -> Self { event_custom_error(); HErr } }
impl de::Error for HErr { fn custom<T: fmt::Display>(_: T) -> Self { event_custom_error(); HErr } }

#[inline(never)]
pub fn event_custom_error() {}
#[inline(never)]
pub fn event_ser_other() {}
#[inline(never)]
pub fn event_ser_str(_v: &str) {}
#[inline(never)]
pub fn event_ser_bytes(_v: &[u8]) {}
#[inline(never)]
pub fn event_ser_seq(_n: Option<usize>) {}
#[inline(never)]
pub fn event_de_str() {}
#[inline(never)]
pub fn event_de_bytes() {}
#[inline(never)]
pub fn event_de_other() {}

pub struct Ser { pub human: bool }
pub struct Compound;
macro_rules! prim { ($($f:ident $t:ty;)*) => { $( fn $f(self, _v: $t) -> Result<(), HErr> { event_ser_other(); Ok(()) } )* } }
impl Serializer for Ser {
    type Ok = ();
    type Error = HErr;
    type SerializeSeq = Compound;
    type SerializeTuple = Compound;
    type SerializeTupleStruct = Compound;
    type SerializeTupleVariant = Compound;
    type SerializeMap = Compound;
    type SerializeStruct = Compound;
    type SerializeStructVariant = Compound;
    prim! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64;
            serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; }
    fn serialize_str(self, v: &str) -> Result<(), HErr> { event_ser_str(v); Ok(()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), HErr> { event_ser_bytes(v); Ok(()) }
    fn serialize_none(self) -> Result<(), HErr> { event_ser_other(); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), HErr> { event_ser_other(); Ok(()) }
    fn serialize_unit(self) -> Result<(), HErr> { event_ser_other(); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), HErr> { event_ser_other(); Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), HErr> { event_ser_other(); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), HErr> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), HErr> { event_ser_other(); Ok(()) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Compound, HErr> { event_ser_seq(n); Err(HErr) }
    fn serialize_tuple(self, n: usize) -> Result<Compound, HErr> { event_ser_seq(Some(n)); Err(HErr) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Compound, HErr> { event_ser_seq(Some(n)); Err(HErr) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Compound, HErr> { event_ser_seq(Some(n)); Err(HErr) }
    fn serialize_map(self, n: Option<usize>) -> Result<Compound, HErr> { event_ser_seq(n); Err(HErr) }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Compound, HErr> { event_ser_seq(Some(n)); Err(HErr) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Compound, HErr> { event_ser_seq(Some(n)); Err(HErr) }
    fn is_human_readable(&self) -> bool { self.human }
}
impl ser::SerializeSeq for Compound { type Ok = (); type Error = HErr; fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }
impl ser::SerializeTuple for Compound { type Ok = (); type Error = HErr; fn serialize_element<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }
impl ser::SerializeTupleStruct for Compound { type Ok = (); type Error = HErr; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }
impl ser::SerializeTupleVariant for Compound { type Ok = (); type Error = HErr; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }
impl ser::SerializeMap for Compound { type Ok = (); type Error = HErr; fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), HErr> { Err(HErr) } fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }
impl ser::SerializeStruct for Compound { type Ok = (); type Error = HErr; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }
impl ser::SerializeStructVariant for Compound { type Ok = (); type Error = HErr; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), HErr> { Err(HErr) } fn end(self) -> Result<(), HErr> { Err(HErr) } }

pub fn root_ser_n(a: &Numeric, human: bool) -> Result<(), HErr> { a.serialize(Ser { human }) }
pub fn root_ser_b(a: &NumericBuf, human: bool) -> Result<(), HErr> { a.serialize(Ser { human }) }

/// Answers every request with one kind of datum.
pub struct De<'de> { pub human: bool, pub how: u8, pub s: &'de str, pub b: &'de [u8] }
impl<'de> De<'de> {
    fn answer<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> {
        match self.how {
            0 => v.visit_str(self.s),
            1 => v.visit_borrowed_str(self.s),
            2 => v.visit_bytes(self.b),
            _ => v.visit_borrowed_bytes(self.b),
        }
    }
}
macro_rules! de_other { ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> { event_de_other(); self.answer(v) } )* } }
impl<'de> Deserializer<'de> for De<'de> {
    type Error = HErr;
    de_other! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16
        deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_option deserialize_unit deserialize_seq deserialize_map
        deserialize_identifier deserialize_ignored_any }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> { event_de_str(); self.answer(v) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> { event_de_str(); self.answer(v) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> { event_de_bytes(); self.answer(v) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> { event_de_bytes(); self.answer(v) }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, HErr> { event_de_other(); self.answer(v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, HErr> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, HErr> { event_de_other(); self.answer(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, HErr> { event_de_other(); self.answer(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, HErr> { event_de_other(); self.answer(v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, HErr> { event_de_other(); self.answer(v) }
    fn is_human_readable(&self) -> bool { self.human }
}
pub fn root_de_b<'de>(d: De<'de>) -> Result<NumericBuf, HErr> { NumericBuf::deserialize(d) }
pub fn root_de_n<'de>(d: De<'de>) -> Result<&'de Numeric, HErr> { <&'de Numeric>::deserialize(d) }
