//! a value tree for serde's data model: self-describing (names) or positional (order and indices only)
use serde::{de, ser, forward_to_deserialize_any};
#[derive(Clone)]
pub enum T { U(u64), I(i64), F(bool), S(String), B(Vec<u8>), L(Vec<T>), M(Vec<(&'static str, T)>), V(&'static str, u32, Box<T>), O(Option<Box<T>>), Nil }
#[derive(Debug)] pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<X: std::fmt::Display>(_: X) -> E { E } }
impl de::Error for E { fn custom<X: std::fmt::Display>(_: X) -> E { E } fn missing_field(_: &'static str) -> E { E } fn unknown_field(_: &str, _: &'static [&'static str]) -> E { E } fn unknown_variant(_: &str, _: &'static [&'static str]) -> E { E } fn invalid_length(_: usize, _: &dyn de::Expected) -> E { E } fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> E { E } fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> E { E } fn duplicate_field(_: &'static str) -> E { E } }
/// serializer
#[derive(Clone, Copy)] pub struct W { pub names: bool }
pub struct Seq { w: W, l: Vec<T>, v: Option<(&'static str, u32)> }
pub struct Fields { w: W, l: Vec<(&'static str, T)>, v: Option<(&'static str, u32)> }
fn wrap(v: Option<(&'static str, u32)>, t: T) -> T { match v { Some((n, i)) => T::V(n, i, Box::new(t)), None => t } }
macro_rules! num { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<T, E> { Ok(T::U(v as u64)) } )* } }
macro_rules! int { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<T, E> { Ok(T::I(v as i64)) } )* } }
impl ser::Serializer for W {
    type Ok = T; type Error = E; type SerializeSeq = Seq; type SerializeTuple = Seq; type SerializeTupleStruct = Seq; type SerializeTupleVariant = Seq; type SerializeMap = ser::Impossible<T, E>; type SerializeStruct = Fields; type SerializeStructVariant = Fields;
    num!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64); int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64);
    fn serialize_bool(self, v: bool) -> Result<T, E> { Ok(T::F(v)) } fn serialize_f32(self, _: f32) -> Result<T, E> { Err(E) } fn serialize_f64(self, _: f64) -> Result<T, E> { Err(E) } fn serialize_char(self, v: char) -> Result<T, E> { Ok(T::S(v.to_string())) }
    fn serialize_str(self, v: &str) -> Result<T, E> { Ok(T::S(v.to_string())) } fn serialize_bytes(self, v: &[u8]) -> Result<T, E> { Ok(T::B(v.to_vec())) } fn serialize_none(self) -> Result<T, E> { Ok(T::O(None)) } fn serialize_some<X: ser::Serialize + ?Sized>(self, v: &X) -> Result<T, E> { Ok(T::O(Some(Box::new(v.serialize(self)?)))) } fn serialize_unit(self) -> Result<T, E> { Ok(T::Nil) } fn serialize_unit_struct(self, _: &'static str) -> Result<T, E> { Ok(T::Nil) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<T, E> { Ok(wrap(Some((n, i)), T::Nil)) } fn serialize_newtype_struct<X: ser::Serialize + ?Sized>(self, _: &'static str, v: &X) -> Result<T, E> { v.serialize(self) } fn serialize_newtype_variant<X: ser::Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &X) -> Result<T, E> { Ok(wrap(Some((n, i)), v.serialize(self)?)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> { Ok(Seq { w: self, l: vec![], v: None }) } fn serialize_tuple(self, _: usize) -> Result<Seq, E> { Ok(Seq { w: self, l: vec![], v: None }) } fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> { Ok(Seq { w: self, l: vec![], v: None }) } fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Seq, E> { Ok(Seq { w: self, l: vec![], v: Some((n, i)) }) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) } fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, E> { Ok(Fields { w: self, l: vec![], v: None }) } fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Fields, E> { Ok(Fields { w: self, l: vec![], v: Some((n, i)) }) }
    fn is_human_readable(&self) -> bool { self.names }
}
macro_rules! seqs { ($($t:ident $f:ident),*) => { $( impl ser::$t for Seq { type Ok = T; type Error = E; fn $f<X: ser::Serialize + ?Sized>(&mut self, v: &X) -> Result<(), E> { self.l.push(v.serialize(self.w)?); Ok(()) } fn end(self) -> Result<T, E> { Ok(wrap(self.v, T::L(self.l))) } } )* } }
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! flds { ($($t:ident),*) => { $( impl ser::$t for Fields { type Ok = T; type Error = E; fn serialize_field<X: ser::Serialize + ?Sized>(&mut self, n: &'static str, v: &X) -> Result<(), E> { self.l.push((n, v.serialize(self.w)?)); Ok(()) } fn end(self) -> Result<T, E> { let t = if self.w.names { T::M(self.l) } else { T::L(self.l.into_iter().map(|x| x.1).collect()) }; Ok(wrap(self.v, t)) } } )* } }
flds!(SerializeStruct, SerializeStructVariant);
/// deserializer
pub struct D { pub t: T, pub names: bool }
impl<'de> de::Deserializer<'de> for D {
    type Error = E;
    fn deserialize_any<X: de::Visitor<'de>>(self, v: X) -> Result<X::Value, E> { let names = self.names; match self.t { T::U(u) => v.visit_u64(u), T::I(i) => v.visit_i64(i), T::F(b) => v.visit_bool(b), T::S(s) => v.visit_string(s), T::B(b) => v.visit_byte_buf(b), T::L(l) => v.visit_seq(Items { l: l.into_iter(), names }), T::M(m) => v.visit_map(Pairs { l: m.into_iter(), next: None, names }), T::V(n, i, t) => v.visit_enum(Variant { n, i, t: *t, names }), T::O(None) => v.visit_none(), T::O(Some(t)) => v.visit_some(D { t: *t, names }), T::Nil => v.visit_unit() } }
    fn deserialize_option<X: de::Visitor<'de>>(self, v: X) -> Result<X::Value, E> { self.deserialize_any(v) } fn deserialize_newtype_struct<X: de::Visitor<'de>>(self, _: &'static str, v: X) -> Result<X::Value, E> { v.visit_newtype_struct(self) }
    fn is_human_readable(&self) -> bool { self.names }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Items { l: std::vec::IntoIter<T>, names: bool }
impl<'de> de::SeqAccess<'de> for Items { type Error = E; fn next_element_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> { match self.l.next() { Some(t) => s.deserialize(D { t, names: self.names }).map(Some), None => Ok(None) } } fn size_hint(&self) -> Option<usize> { Some(self.l.len()) } }
struct Pairs { l: std::vec::IntoIter<(&'static str, T)>, next: Option<T>, names: bool }
impl<'de> de::MapAccess<'de> for Pairs { type Error = E; fn next_key_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> { match self.l.next() { Some((n, t)) => { self.next = Some(t); s.deserialize(de::value::BorrowedStrDeserializer::new(n)).map(Some) } None => Ok(None) } } fn next_value_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> { match self.next.take() { Some(t) => s.deserialize(D { t, names: self.names }), None => Err(E) } } }
struct Variant { n: &'static str, i: u32, t: T, names: bool }
impl<'de> de::EnumAccess<'de> for Variant { type Error = E; type Variant = D; fn variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, D), E> { let d = D { t: self.t, names: self.names }; if self.names { Ok((s.deserialize(de::value::BorrowedStrDeserializer::new(self.n))?, d)) } else { Ok((s.deserialize(de::IntoDeserializer::<E>::into_deserializer(self.i))?, d)) } } }
impl<'de> de::VariantAccess<'de> for D { type Error = E; fn unit_variant(self) -> Result<(), E> { Ok(()) } fn newtype_variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, E> { s.deserialize(self) } fn tuple_variant<X: de::Visitor<'de>>(self, _: usize, v: X) -> Result<X::Value, E> { de::Deserializer::deserialize_any(self, v) } fn struct_variant<X: de::Visitor<'de>>(self, _: &'static [&'static str], v: X) -> Result<X::Value, E> { de::Deserializer::deserialize_any(self, v) } }
/// there and back
pub fn again<X: ser::Serialize + de::DeserializeOwned>(x: &X, names: bool) -> Option<X> { let t = x.serialize(W { names }).ok()?; X::deserialize(D { t, names }).ok() }
