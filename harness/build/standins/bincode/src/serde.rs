use ::serde::{de, ser, Deserialize, Serialize};
use std::fmt;
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: fmt::Display>(x: T) -> Self { Error(x.to_string()) } }
impl de::Error for Error { fn custom<T: fmt::Display>(x: T) -> Self { Error(x.to_string()) } }
pub fn encode_to_vec<T: Serialize>(x: T, _: ()) -> Result<Vec<u8>, Error> { let mut w = W(vec![]); x.serialize(&mut w)?; Ok(w.0) }
pub fn decode_from_slice<'a, T: Deserialize<'a>>(s: &'a [u8], _: ()) -> Result<(T, usize), Error> { let mut r = R(s); let x = T::deserialize(&mut r)?; Ok((x, s.len() - r.0.len())) }
struct W(Vec<u8>);
impl W { fn n(&mut self, n: usize) { self.0.extend((n as u64).to_le_bytes()) } }
macro_rules! puts { ($($f:ident $t:ty),*) => { $(fn $f(self, x: $t) -> Result<(), Error> { self.0.extend(x.to_le_bytes()); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = (); type Error = Error; type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    puts! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64 }
    fn serialize_bool(self, x: bool) -> Result<(), Error> { self.0.push(x as u8); Ok(()) }
    fn serialize_char(self, x: char) -> Result<(), Error> { self.serialize_u32(x as u32) }
    fn serialize_str(self, x: &str) -> Result<(), Error> { self.serialize_bytes(x.as_bytes()) }
    fn serialize_bytes(self, x: &[u8]) -> Result<(), Error> { self.n(x.len()); self.0.extend(x); Ok(()) }
    fn serialize_none(self) -> Result<(), Error> { self.0.push(0); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<(), Error> { self.0.push(1); x.serialize(self) }
    fn serialize_unit(self) -> Result<(), Error> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> { self.serialize_u32(i) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<(), Error> { x.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, x: &T) -> Result<(), Error> { self.0.extend(i.to_le_bytes()); x.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> { self.n(n.unwrap()); Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Error> { self.0.extend(i.to_le_bytes()); Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Error> { self.n(n.unwrap()); Ok(self) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Error> { self.0.extend(i.to_le_bytes()); Ok(self) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! parts { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut W { type Ok = (); type Error = Error; fn $f<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> { x.serialize(&mut **self) } fn end(self) -> Result<(), Error> { Ok(()) } })* } }
parts! { SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field }
macro_rules! fields { ($($t:ident),*) => { $(impl<'a> ser::$t for &'a mut W { type Ok = (); type Error = Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, x: &T) -> Result<(), Error> { x.serialize(&mut **self) } fn end(self) -> Result<(), Error> { Ok(()) } })* } }
fields! { SerializeStruct, SerializeStructVariant }
impl<'a> ser::SerializeMap for &'a mut W {
    type Ok = (); type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> { x.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> { x.serialize(&mut **self) }
    fn end(self) -> Result<(), Error> { Ok(()) }
}
struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Error> { if self.0.len() < n { return Err(Error("end of data".into())) } let (a, b) = self.0.split_at(n); self.0 = b; Ok(a) }
    fn n(&mut self) -> Result<usize, Error> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize) }
}
macro_rules! gets { ($($f:ident $t:ty, $v:ident, $n:expr);*) => { $(fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let x = <$t>::from_le_bytes(self.take($n)?.try_into().unwrap()); v.$v(x) })* } }
impl<'de, 'a> de::Deserializer<'de> for &'a mut R<'de> {
    type Error = Error;
    gets! { deserialize_i8 i8, visit_i8, 1; deserialize_i16 i16, visit_i16, 2; deserialize_i32 i32, visit_i32, 4; deserialize_i64 i64, visit_i64, 8; deserialize_u8 u8, visit_u8, 1; deserialize_u16 u16, visit_u16, 2; deserialize_u32 u32, visit_u32, 4; deserialize_u64 u64, visit_u64, 8; deserialize_f32 f32, visit_f32, 4; deserialize_f64 f64, visit_f64, 8 }
    fn deserialize_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { Err(Error("any".into())) }
    fn deserialize_bool<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let b = self.take(1)?[0]; v.visit_bool(b != 0) }
    fn deserialize_char<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let x = u32::from_le_bytes(self.take(4)?.try_into().unwrap()); v.visit_char(char::from_u32(x).ok_or(Error("char".into()))?) }
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let n = self.n()?; v.visit_borrowed_str(std::str::from_utf8(self.take(n)?).map_err(|e| Error(e.to_string()))?) }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_str(v) }
    fn deserialize_bytes<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let n = self.n()?; v.visit_borrowed_bytes(self.take(n)?) }
    fn deserialize_byte_buf<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_bytes(v) }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { if self.take(1)?[0] == 0 { v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_unit<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_unit() }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_unit() }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let n = self.n()?; v.visit_seq(Items(self, n)) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Items(self, n)) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Items(self, n)) }
    fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let n = self.n()?; v.visit_map(Items(self, n)) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_seq(Items(self, f.len())) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_enum(self) }
    fn deserialize_identifier<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { Err(Error("identifier".into())) }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { Err(Error("ignored".into())) }
    fn is_human_readable(&self) -> bool { false }
}
struct Items<'a, 'de>(&'a mut R<'de>, usize);
impl<'a, 'de> de::SeqAccess<'de> for Items<'a, 'de> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> { if self.1 == 0 { return Ok(None) } self.1 -= 1; s.deserialize(&mut *self.0).map(Some) }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
impl<'a, 'de> de::MapAccess<'de> for Items<'a, 'de> {
    type Error = Error;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> { if self.1 == 0 { return Ok(None) } self.1 -= 1; s.deserialize(&mut *self.0).map(Some) }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> { s.deserialize(&mut *self.0) }
}
impl<'a, 'de> de::EnumAccess<'de> for &'a mut R<'de> {
    type Error = Error; type Variant = Self;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), Error> {
        let i = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        Ok((s.deserialize(de::value::U32Deserializer::<Error>::new(i))?, self))
    }
}
impl<'a, 'de> de::VariantAccess<'de> for &'a mut R<'de> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> { Ok(()) }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> { s.deserialize(self) }
    fn tuple_variant<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Items(self, n)) }
    fn struct_variant<V: de::Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_seq(Items(self, f.len())) }
}
