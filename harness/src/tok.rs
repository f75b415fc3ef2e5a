//! Self-describing serde format: serializes to a list of tokens and deserializes from it.
use std::fmt::{self, Display};

use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Bool(bool),
    U(u64, u8),
    I(i64, u8),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Tok>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
    Struct(Vec<(&'static str, Tok)>),
    Variant(u32, &'static str, Box<Tok>),
}

#[derive(Debug)]
pub struct Error;
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("tok") }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(_: T) -> Self { Error }
}
impl de::Error for Error {
    fn custom<T: Display>(_: T) -> Self { Error }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Error }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Error }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Error }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { Error }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { Error }
    fn missing_field(_: &'static str) -> Self { Error }
    fn duplicate_field(_: &'static str) -> Self { Error }
}

#[derive(Clone, Copy)]
pub struct Ser {
    pub mode: u64,
}
pub struct Seq(Ser, Vec<Tok>, Option<(u32, &'static str)>);
pub struct Map(Ser, Vec<(Tok, Tok)>, Option<Tok>);
pub struct Struct(Ser, Vec<(&'static str, Tok)>, Option<(u32, &'static str)>);

type R = Result<Tok, Error>;

fn wrap(v: Option<(u32, &'static str)>, t: Tok) -> R {
    Ok(match v {
        Some((i, n)) => Tok::Variant(i, n, Box::new(t)),
        None => t,
    })
}

impl ser::Serializer for Ser {
    type Ok = Tok;
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Struct;
    type SerializeStructVariant = Struct;

    fn is_human_readable(&self) -> bool { self.mode == 2 }
    fn serialize_bool(self, v: bool) -> R { Ok(Tok::Bool(v)) }
    fn serialize_i8(self, v: i8) -> R { Ok(Tok::I(v as i64, 1)) }
    fn serialize_i16(self, v: i16) -> R { Ok(Tok::I(v as i64, 2)) }
    fn serialize_i32(self, v: i32) -> R { Ok(Tok::I(v as i64, 4)) }
    fn serialize_i64(self, v: i64) -> R { Ok(Tok::I(v, 8)) }
    fn serialize_u8(self, v: u8) -> R { Ok(Tok::U(v as u64, 1)) }
    fn serialize_u16(self, v: u16) -> R { Ok(Tok::U(v as u64, 2)) }
    fn serialize_u32(self, v: u32) -> R { Ok(Tok::U(v as u64, 4)) }
    fn serialize_u64(self, v: u64) -> R { Ok(Tok::U(v, 8)) }
    fn serialize_f32(self, _: f32) -> R { Err(Error) }
    fn serialize_f64(self, _: f64) -> R { Err(Error) }
    fn serialize_char(self, v: char) -> R { Ok(Tok::U(v as u64, 4)) }
    fn serialize_str(self, v: &str) -> R { Ok(Tok::Str(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> R { Ok(Tok::Bytes(v.to_vec())) }
    fn serialize_none(self) -> R { Ok(Tok::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { Ok(Tok::Some(Box::new(v.serialize(self)?))) }
    fn serialize_unit(self) -> R { Ok(Tok::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(Tok::Unit) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> R {
        Ok(Tok::Variant(i, n, Box::new(Tok::Unit)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> R {
        Ok(Tok::Variant(i, n, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Error> { Ok(Seq(self, vec![], None)) }
    fn serialize_tuple(self, _: usize) -> Result<Seq, Error> { Ok(Seq(self, vec![], None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, Error> { Ok(Seq(self, vec![], None)) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Seq, Error> {
        Ok(Seq(self, vec![], Some((i, n))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, Error> { Ok(Map(self, vec![], None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Struct, Error> { Ok(Struct(self, vec![], None)) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Struct, Error> {
        Ok(Struct(self, vec![], Some((i, n))))
    }
    fn collect_str<T: ?Sized + Display>(self, v: &T) -> R { Ok(Tok::Str(v.to_string())) }
}

impl ser::SerializeSeq for Seq {
    type Ok = Tok;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> R { wrap(self.2, Tok::Seq(self.1)) }
}
impl ser::SerializeTuple for Seq {
    type Ok = Tok;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> R { wrap(self.2, Tok::Seq(self.1)) }
}
impl ser::SerializeTupleStruct for Seq {
    type Ok = Tok;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> R { wrap(self.2, Tok::Seq(self.1)) }
}
impl ser::SerializeTupleVariant for Seq {
    type Ok = Tok;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> R { wrap(self.2, Tok::Seq(self.1)) }
}
impl ser::SerializeMap for Map {
    type Ok = Tok;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.2 = Some(v.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.2.take().ok_or(Error)?;
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> R { Ok(Tok::Map(self.1)) }
}
impl ser::SerializeStruct for Struct {
    type Ok = Tok;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> R { wrap(self.2, Tok::Struct(self.1)) }
}
impl ser::SerializeStructVariant for Struct {
    type Ok = Tok;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> R { wrap(self.2, Tok::Struct(self.1)) }
}

pub struct De {
    pub t: Tok,
    pub mode: u64,
}
struct Items(std::vec::IntoIter<Tok>, u64);
struct Entries(std::vec::IntoIter<(Tok, Tok)>, Option<Tok>, u64);
struct Fields(std::vec::IntoIter<(&'static str, Tok)>, Option<Tok>, u64);
struct Var(u32, &'static str, Tok, u64);

impl<'de> SeqAccess<'de> for Items {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some(t) => Ok(Some(s.deserialize(De { t, mode: self.1 })?)),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> { Some(self.0.len()) }
}
impl<'de> MapAccess<'de> for Entries {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                Ok(Some(s.deserialize(De { t: k, mode: self.2 })?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(De { t: self.1.take().ok_or(Error)?, mode: self.2 })
    }
}
impl<'de> MapAccess<'de> for Fields {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                Ok(Some(s.deserialize(k.into_deserializer())?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(De { t: self.1.take().ok_or(Error)?, mode: self.2 })
    }
}
impl<'de> EnumAccess<'de> for Var {
    type Error = Error;
    type Variant = De;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, De), Error> {
        let v = if self.3 == 0 { s.deserialize(self.0.into_deserializer())? } else { s.deserialize(self.1.into_deserializer())? };
        Ok((v, De { t: self.2, mode: self.3 }))
    }
}
impl<'de> VariantAccess<'de> for De {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> { if self.t == Tok::Unit { Ok(()) } else { Err(Error) } }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> { De::go(self, v) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        De::go(self, v)
    }
}

impl Tok {
    fn fields(&self) -> Option<usize> {
        match self {
            Tok::Seq(s) => Some(s.len()),
            Tok::Struct(s) => Some(s.len()),
            _ => None,
        }
    }
}
impl De {
    /// A compact format relies on the type asking for just what was written.
    fn kind(self, ok: impl Fn(&Tok) -> bool) -> Result<De, Error> {
        if self.mode != 0 || ok(&self.t) { Ok(self) } else { Err(Error) }
    }
    fn go<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let mode = self.mode;
        match self.t {
            Tok::Bool(x) => v.visit_bool(x),
            Tok::U(x, 1) => v.visit_u8(x as u8),
            Tok::U(x, 2) => v.visit_u16(x as u16),
            Tok::U(x, 4) => v.visit_u32(x as u32),
            Tok::U(x, _) => v.visit_u64(x),
            Tok::I(x, 1) => v.visit_i8(x as i8),
            Tok::I(x, 2) => v.visit_i16(x as i16),
            Tok::I(x, 4) => v.visit_i32(x as i32),
            Tok::I(x, _) => v.visit_i64(x),
            Tok::Str(s) => v.visit_string(s),
            Tok::Bytes(b) => v.visit_byte_buf(b),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(t) => v.visit_some(De { t: *t, mode }),
            Tok::Seq(s) => v.visit_seq(Items(s.into_iter(), mode)),
            Tok::Map(s) => v.visit_map(Entries(s.into_iter(), None, mode)),
            Tok::Struct(s) if mode == 0 => v.visit_seq(Items(s.into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter(), mode)),
            Tok::Struct(s) => v.visit_map(Fields(s.into_iter(), None, mode)),
            Tok::Variant(i, n, t) => v.visit_enum(Var(i, n, *t, mode)),
        }
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn is_human_readable(&self) -> bool { self.mode == 2 }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.mode == 0 {
            return Err(Error);
        }
        self.go(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.go(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Bool(_)))?.go(v) }
    fn deserialize_i8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::I(_, 1)))?.go(v) }
    fn deserialize_i16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::I(_, 2)))?.go(v) }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::I(_, 4)))?.go(v) }
    fn deserialize_i64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::I(_, 8)))?.go(v) }
    fn deserialize_i128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::U(_, 1)))?.go(v) }
    fn deserialize_u16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::U(_, 2)))?.go(v) }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::U(_, 4)))?.go(v) }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::U(_, 8)))?.go(v) }
    fn deserialize_u128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::U(_, 4)))?.go(v) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Str(_)))?.go(v) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Str(_)))?.go(v) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Bytes(_)))?.go(v) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Bytes(_)))?.go(v) }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::None | Tok::Some(_)))?.go(v) }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Unit))?.go(v) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Seq(_)))?.go(v) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Map(_)))?.go(v) }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.kind(|t| matches!(t, Tok::Unit))?.go(v) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> { self.kind(|t| t.fields() == Some(n))?.go(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> { self.kind(|t| t.fields() == Some(n))?.go(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, n: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.kind(|t| t.fields() == Some(n.len()))?.go(v) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_unit() }
}

/// Mode 0: compact (no names, not self-describing), 1: self-describing, 2: human-readable.
pub fn to<T: Serialize>(v: &T, mode: u64) -> Option<Tok> { v.serialize(Ser { mode }).ok() }
pub fn from<T: de::DeserializeOwned>(t: Tok, mode: u64) -> Option<T> { T::deserialize(De { t, mode }).ok() }

/// Value of a field by its name.
pub fn field<'a>(t: &'a Tok, name: &str) -> Option<&'a Tok> {
    match t {
        Tok::Struct(f) => f.iter().find(|x| x.0 == name).map(|x| &x.1),
        _ => None,
    }
}
/// Bytes of a token, whether given as bytes or as a sequence of numbers.
pub fn raw(t: &Tok) -> Option<Vec<u8>> {
    match t {
        Tok::Bytes(b) => Some(b.clone()),
        Tok::Seq(s) => s.iter().map(|x| if let Tok::U(x, 1) = x { Some(*x as u8) } else { None }).collect(),
        _ => None,
    }
}
pub fn num(t: Option<&Tok>) -> Option<u64> {
    match t {
        Some(Tok::U(x, _)) => Some(*x),
        _ => None,
    }
}
