//! Serde endpoints under the explorer's control: a serializer that records
//! what it is given, and a deserializer that answers with a chosen token.
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serializer};
use std::fmt::Display;

use std::cell::Cell;

thread_local! {
    static HUMAN: Cell<bool> = const { Cell::new(true) };
    static FULL: Cell<bool> = const { Cell::new(false) };
}
struct Restore(bool, bool);
impl Drop for Restore {
    fn drop(&mut self) {
        HUMAN.with(|c| c.set(self.0));
        FULL.with(|c| c.set(self.1));
    }
}
/// Runs `f` where formats claim to be (or not to be) human readable.
pub fn human<R>(yes: bool, f: impl FnOnce() -> R) -> R {
    let _r = Restore(HUMAN.with(|c| c.replace(yes)), FULL.with(Cell::get));
    f()
}
/// Runs `f` where the serializer cannot take anything any more.
pub fn full<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(HUMAN.with(Cell::get), FULL.with(|c| c.replace(true)));
    f()
}
fn take(o: Out) -> Result<Out, Refused> {
    if FULL.with(Cell::get) {
        Err(Refused)
    } else {
        Ok(o)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Refused;
impl Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl std::error::Error for Refused {}
impl ser::Error for Refused {
    fn custom<T: Display>(m: T) -> Self {
        // Messages have to be presentable.
        let _ = m.to_string();
        Refused
    }
}
impl de::Error for Refused {
    fn custom<T: Display>(m: T) -> Self {
        let _ = m.to_string();
        Refused
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Str(String),
    Bytes(Vec<u8>),
    Other,
}
impl crate::run::Val for Out {
    fn same(&self, o: &Out) -> bool {
        self == o
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

pub struct Record;
pub struct Elements(Vec<u8>);

/// One byte of a sequence.
struct Byte;
macro_rules! other {
    ($($m:ident $t:ty),*) => {$(
        fn $m(self, _: $t) -> Result<Self::Ok, Refused> { take(Out::Other) }
    )*};
}
impl Serializer for Record {
    type Ok = Out;
    type Error = Refused;
    type SerializeSeq = Elements;
    type SerializeTuple = Elements;
    type SerializeTupleStruct = Impossible<Out, Refused>;
    type SerializeTupleVariant = Impossible<Out, Refused>;
    type SerializeMap = Impossible<Out, Refused>;
    type SerializeStruct = Impossible<Out, Refused>;
    type SerializeStructVariant = Impossible<Out, Refused>;
    other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
        serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char,
        serialize_unit_struct &'static str);
    fn serialize_str(self, v: &str) -> Result<Out, Refused> {
        take(Out::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Out, Refused> {
        take(Out::Bytes(v.to_vec()))
    }
    fn is_human_readable(&self) -> bool {
        HUMAN.with(Cell::get)
    }
    fn serialize_none(self) -> Result<Out, Refused> {
        take(Out::Other)
    }
    fn serialize_unit(self) -> Result<Out, Refused> {
        take(Out::Other)
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> Result<Out, Refused> {
        v.serialize(self)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Out, Refused> {
        take(Out::Other)
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<Out, Refused> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, Refused> {
        take(Out::Other)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Elements, Refused> {
        Ok(Elements(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Elements, Refused> {
        Ok(Elements(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Refused> {
        Err(Refused)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Refused> {
        Err(Refused)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Refused> {
        Err(Refused)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Refused> {
        Err(Refused)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Refused> {
        Err(Refused)
    }
}
impl Serializer for Byte {
    type Ok = u8;
    type Error = Refused;
    type SerializeSeq = Impossible<u8, Refused>;
    type SerializeTuple = Impossible<u8, Refused>;
    type SerializeTupleStruct = Impossible<u8, Refused>;
    type SerializeTupleVariant = Impossible<u8, Refused>;
    type SerializeMap = Impossible<u8, Refused>;
    type SerializeStruct = Impossible<u8, Refused>;
    type SerializeStructVariant = Impossible<u8, Refused>;
    fn serialize_u8(self, v: u8) -> Result<u8, Refused> {
        Ok(v)
    }
    fn serialize_bool(self, _: bool) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_i8(self, _: i8) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_i16(self, _: i16) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_i32(self, _: i32) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_i64(self, _: i64) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_u16(self, _: u16) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_u32(self, _: u32) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_u64(self, _: u64) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_f32(self, _: f32) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_f64(self, _: f64) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_char(self, _: char) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_str(self, _: &str) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_bytes(self, _: &[u8]) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_none(self) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_unit(self) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u8, Refused> { Err(Refused) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Refused> { Err(Refused) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Refused> { Err(Refused) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Refused> { Err(Refused) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Refused> { Err(Refused) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Refused> { Err(Refused) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Refused> { Err(Refused) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Refused> { Err(Refused) }
}
impl ser::SerializeSeq for Elements {
    type Ok = Out;
    type Error = Refused;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Refused> {
        self.0.push(v.serialize(Byte)?);
        Ok(())
    }
    fn end(self) -> Result<Out, Refused> {
        take(Out::Bytes(self.0))
    }
}
impl ser::SerializeTuple for Elements {
    type Ok = Out;
    type Error = Refused;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Refused> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Out, Refused> {
        take(Out::Bytes(self.0))
    }
}

/// An answer of the deserializer, whatever it was asked for.
#[derive(Clone, Copy, Debug)]
pub enum Tok<'a> {
    Str(&'a str),
    Borrowed(&'a str),
    Owned(&'a str),
    Char(char),
    Bytes(&'a [u8]),
    BorrowedBytes(&'a [u8]),
    ByteBuf(&'a [u8]),
    Seq(&'a [u8], Hint),
    /// A sequence whose element at this place is not a byte.
    BadSeq(&'a [u8], usize, Tail),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Bool(bool),
    Unit,
    None,
    Fail,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Unknown,
    /// A fixed number, right or wrong (less what has been taken).
    Says(usize),
}
#[derive(Clone, Copy, Debug)]
pub enum Tail {
    U16(u16),
    I8(i8),
    Error,
}

struct Elems<'a> {
    b: &'a [u8],
    at: usize,
    hint: Hint,
    bad: Option<(usize, Tail)>,
}
impl<'de> SeqAccess<'de> for Elems<'_> {
    type Error = Refused;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Refused> {
        let i = self.at;
        if i >= self.b.len() {
            return Ok(None);
        }
        self.at += 1;
        if let Some((k, t)) = self.bad {
            if k == i {
                return match t {
                    Tail::U16(v) => seed.deserialize(Tok::U16(v)).map(Some),
                    Tail::I8(v) => seed.deserialize(Tok::I8(v)).map(Some),
                    Tail::Error => Err(Refused),
                };
            }
        }
        seed.deserialize(Tok::U8(self.b[i])).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        match self.hint {
            Hint::Exact => Some(self.b.len() - self.at),
            Hint::Unknown => None,
            Hint::Says(n) => Some(n.saturating_sub(self.at)),
        }
    }
}

impl<'de> Deserializer<'de> for Tok<'de> {
    type Error = Refused;
    fn is_human_readable(&self) -> bool {
        HUMAN.with(Cell::get)
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        match self {
            Tok::Str(s) => v.visit_str(s),
            Tok::Borrowed(s) => v.visit_borrowed_str(s),
            Tok::Owned(s) => v.visit_string(s.to_string()),
            Tok::Char(c) => v.visit_char(c),
            Tok::Bytes(b) => v.visit_bytes(b),
            Tok::BorrowedBytes(b) => v.visit_borrowed_bytes(b),
            Tok::ByteBuf(b) => v.visit_byte_buf(b.to_vec()),
            Tok::Seq(b, hint) => v.visit_seq(Elems { b, at: 0, hint, bad: None }),
            Tok::BadSeq(b, k, t) => v.visit_seq(Elems { b, at: 0, hint: Hint::Exact, bad: Some((k, t)) }),
            Tok::I8(x) => v.visit_i8(x),
            Tok::I16(x) => v.visit_i16(x),
            Tok::I32(x) => v.visit_i32(x),
            Tok::I64(x) => v.visit_i64(x),
            Tok::I128(x) => v.visit_i128(x),
            Tok::U8(x) => v.visit_u8(x),
            Tok::U16(x) => v.visit_u16(x),
            Tok::U32(x) => v.visit_u32(x),
            Tok::U64(x) => v.visit_u64(x),
            Tok::U128(x) => v.visit_u128(x),
            Tok::F32(x) => v.visit_f32(x),
            Tok::F64(x) => v.visit_f64(x),
            Tok::Bool(x) => v.visit_bool(x),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Fail => Err(Refused),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A format that does not describe itself: what was written can only be read
/// back by asking for the same kind of thing.
pub struct Strict<'a>(pub &'a Out);
impl<'de> Strict<'de> {
    fn text<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        match self.0 {
            Out::Str(s) => v.visit_str(s),
            _ => Err(Refused),
        }
    }
    fn bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        match self.0 {
            Out::Bytes(b) => v.visit_bytes(b),
            _ => Err(Refused),
        }
    }
}
macro_rules! wrong {
    ($($m:ident)*) => {$(
        fn $m<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Refused> { Err(Refused) }
    )*};
}
impl<'de> Deserializer<'de> for Strict<'de> {
    type Error = Refused;
    fn is_human_readable(&self) -> bool {
        HUMAN.with(Cell::get)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        self.text(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        self.text(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        self.bytes(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> {
        self.bytes(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Refused> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Refused> {
        Err(Refused)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Refused> {
        Err(Refused)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Refused> {
        Err(Refused)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Refused> {
        Err(Refused)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Refused> {
        Err(Refused)
    }
    wrong!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64
        deserialize_char deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier
        deserialize_ignored_any);
}
