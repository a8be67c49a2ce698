//! A plain serde value: a data format of its own, in which every primitive kind is distinguished.
use serde::de::value::Error;
use serde::de::{Deserializer, Visitor};
use serde::ser::{Impossible, Serializer};
use serde::{forward_to_deserialize_any, Serialize};

#[derive(Clone, PartialEq, Debug)]
pub enum Prim {
    Bool(bool),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64),
    Char(char),
    /// lent for the call, lent for longer, handed over
    Str(String), Borrowed(String), Owned(String),
    Bytes(Vec<u8>), BorrowedBytes(Vec<u8>), ByteBuf(Vec<u8>),
    Unit, None,
}
use Prim::*;
#[derive(Clone, Copy)]
pub struct Val<'a>(pub &'a Prim, /** human readable */ pub bool);

impl<'de> Deserializer<'de> for Val<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Bool(x) => v.visit_bool(*x),
            I8(x) => v.visit_i8(*x),
            I16(x) => v.visit_i16(*x),
            I32(x) => v.visit_i32(*x),
            I64(x) => v.visit_i64(*x),
            I128(x) => v.visit_i128(*x),
            U8(x) => v.visit_u8(*x),
            U16(x) => v.visit_u16(*x),
            U32(x) => v.visit_u32(*x),
            U64(x) => v.visit_u64(*x),
            U128(x) => v.visit_u128(*x),
            F32(x) => v.visit_f32(*x),
            F64(x) => v.visit_f64(*x),
            Char(x) => v.visit_char(*x),
            Str(x) => v.visit_str(&x.clone()),
            Borrowed(x) => v.visit_borrowed_str(x),
            Owned(x) => v.visit_string(x.clone()),
            Bytes(x) => v.visit_bytes(&x.clone()),
            BorrowedBytes(x) => v.visit_borrowed_bytes(x),
            ByteBuf(x) => v.visit_byte_buf(x.clone()),
            Unit => v.visit_unit(),
            None => v.visit_none(),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Unit | None => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
}

/// The same value in a format which does not describe itself: it can be read only as the kind it was written as.
#[derive(Clone, Copy)]
pub struct Strict<'a>(pub Val<'a>);
macro_rules! only {
    ($($f:ident: $($k:ident)|+;)*) => {
        $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.0.0 {
                $($k { .. })|+ => self.0.deserialize_any(v),
                x => Err(serde::de::Error::custom(format!("{} asks for another kind than {x:?}", stringify!($f)))),
            }
        })*
    };
}
macro_rules! never {
    ($($f:ident($($a:ident: $t:ty),*))*) => {
        $(fn $f<V: Visitor<'de>>(self, $($a: $t,)* _: V) -> Result<V::Value, Error> {
            $(let _ = $a;)*
            Err(serde::de::Error::custom(concat!(stringify!($f), " in a format which does not describe itself")))
        })*
    };
}
impl<'de> Deserializer<'de> for Strict<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.0.1
    }
    only! {
        deserialize_bool: Bool;
        deserialize_i8: I8; deserialize_i16: I16; deserialize_i32: I32; deserialize_i64: I64; deserialize_i128: I128;
        deserialize_u8: U8; deserialize_u16: U16; deserialize_u32: U32; deserialize_u64: U64; deserialize_u128: U128;
        deserialize_f32: F32; deserialize_f64: F64; deserialize_char: Char;
        deserialize_str: Str | Borrowed | Owned; deserialize_string: Str | Borrowed | Owned;
        deserialize_bytes: Bytes | BorrowedBytes | ByteBuf; deserialize_byte_buf: Bytes | BorrowedBytes | ByteBuf;
        deserialize_unit: Unit;
    }
    never! {
        deserialize_any() deserialize_option() deserialize_unit_struct(a: &'static str) deserialize_seq() deserialize_tuple(a: usize)
        deserialize_tuple_struct(a: &'static str, b: usize) deserialize_map() deserialize_struct(a: &'static str, b: &'static [&'static str])
        deserialize_enum(a: &'static str, b: &'static [&'static str]) deserialize_identifier() deserialize_ignored_any()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
}

pub struct Ser(pub bool);
type No = Impossible<Prim, Error>;
fn no<T>() -> Result<T, Error> {
    Err(serde::de::Error::custom("compound"))
}
impl Serializer for Ser {
    type Ok = Prim;
    type Error = Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_bool(self, v: bool) -> Result<Prim, Error> { Ok(Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<Prim, Error> { Ok(I8(v)) }
    fn serialize_i16(self, v: i16) -> Result<Prim, Error> { Ok(I16(v)) }
    fn serialize_i32(self, v: i32) -> Result<Prim, Error> { Ok(I32(v)) }
    fn serialize_i64(self, v: i64) -> Result<Prim, Error> { Ok(I64(v)) }
    fn serialize_i128(self, v: i128) -> Result<Prim, Error> { Ok(I128(v)) }
    fn serialize_u8(self, v: u8) -> Result<Prim, Error> { Ok(U8(v)) }
    fn serialize_u16(self, v: u16) -> Result<Prim, Error> { Ok(U16(v)) }
    fn serialize_u32(self, v: u32) -> Result<Prim, Error> { Ok(U32(v)) }
    fn serialize_u64(self, v: u64) -> Result<Prim, Error> { Ok(U64(v)) }
    fn serialize_u128(self, v: u128) -> Result<Prim, Error> { Ok(U128(v)) }
    fn serialize_f32(self, v: f32) -> Result<Prim, Error> { Ok(F32(v)) }
    fn serialize_f64(self, v: f64) -> Result<Prim, Error> { Ok(F64(v)) }
    fn serialize_char(self, v: char) -> Result<Prim, Error> { Ok(Char(v)) }
    fn serialize_str(self, v: &str) -> Result<Prim, Error> { Ok(Str(v.into())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Prim, Error> { Ok(Bytes(v.into())) }
    fn serialize_none(self) -> Result<Prim, Error> { Ok(None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Prim, Error> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Prim, Error> { Ok(Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Prim, Error> { Ok(Unit) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Prim, Error> { no() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Prim, Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Prim, Error> { no() }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Error> { no() }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> { no() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { no() }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> { no() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> { no() }
}
