//! Independent reference serializer and deserializer for any serde type, used differentially against
//! the code under test and to build or observe wrapper values without it.
use crate::model::{put_varint, zigzag, unzigzag, Bad, Dec};
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};

#[derive(Debug, Clone, PartialEq)]
pub enum RErr {
    Key,
    Eof,
    Malformed,
    Undefined,
    Msg(String),
}
impl Display for RErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for RErr {}
impl ser::Error for RErr {
    fn custom<T: Display>(m: T) -> Self {
        RErr::Msg(m.to_string())
    }
}
impl de::Error for RErr {
    fn custom<T: Display>(m: T) -> Self {
        RErr::Msg(m.to_string())
    }
}
impl From<Bad> for RErr {
    fn from(b: Bad) -> Self {
        match b {
            Bad::Eof => RErr::Eof,
            Bad::Malformed => RErr::Malformed,
            Bad::Undefined => RErr::Undefined,
        }
    }
}

pub struct RefSer {
    pub out: Vec<u8>,
}

pub fn to_bytes<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, RErr> {
    let mut s = RefSer { out: Vec::new() };
    v.serialize(&mut s)?;
    Ok(s.out)
}

type RR = Result<(), RErr>;

impl<'a> ser::Serializer for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> RR {
        self.out.push(v as u8);
        Ok(())
    }
    fn serialize_i8(self, v: i8) -> RR {
        self.out.push(v as u8);
        Ok(())
    }
    fn serialize_i16(self, v: i16) -> RR {
        put_varint(&mut self.out, zigzag(v as i64), 16);
        Ok(())
    }
    fn serialize_i32(self, v: i32) -> RR {
        put_varint(&mut self.out, zigzag(v as i64), 32);
        Ok(())
    }
    fn serialize_i64(self, v: i64) -> RR {
        put_varint(&mut self.out, zigzag(v), 64);
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> RR {
        self.out.push(v);
        Ok(())
    }
    fn serialize_u16(self, v: u16) -> RR {
        put_varint(&mut self.out, v as u64, 16);
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> RR {
        put_varint(&mut self.out, v as u64, 32);
        Ok(())
    }
    fn serialize_u64(self, v: u64) -> RR {
        put_varint(&mut self.out, v, 64);
        Ok(())
    }
    fn serialize_f32(self, v: f32) -> RR {
        let b = v.to_bits();
        for k in 0..4 {
            self.out.push((b >> (8 * k)) as u8)
        }
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> RR {
        let b = v.to_bits();
        for k in 0..8 {
            self.out.push((b >> (8 * k)) as u8)
        }
        Ok(())
    }
    fn serialize_char(self, v: char) -> RR {
        let mut b = [0; 4];
        self.serialize_str(v.encode_utf8(&mut b))
    }
    fn serialize_str(self, v: &str) -> RR {
        put_varint(&mut self.out, v.len() as u64, 64);
        self.out.extend_from_slice(v.as_bytes());
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> RR {
        put_varint(&mut self.out, v.len() as u64, 64);
        self.out.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> RR {
        self.out.push(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> RR {
        self.out.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> RR {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> RR {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> RR {
        put_varint(&mut self.out, i as u64, 32);
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> RR {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> RR {
        put_varint(&mut self.out, i as u64, 32);
        v.serialize(self)
    }
    // A sequence of unknown length has no count on the wire (that is how the wrappers write their parts).
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, RErr> {
        if let Some(n) = n {
            put_varint(&mut self.out, n as u64, 64);
        }
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, RErr> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, RErr> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, RErr> {
        put_varint(&mut self.out, i as u64, 32);
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, RErr> {
        if let Some(n) = n {
            put_varint(&mut self.out, n as u64, 64);
        }
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, RErr> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, RErr> {
        put_varint(&mut self.out, i as u64, 32);
        Ok(self)
    }
}
impl<'a> ser::SerializeSeq for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}
impl<'a> ser::SerializeTuple for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleStruct for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleVariant for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}
impl<'a> ser::SerializeMap for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> RR {
        k.serialize(KeySer(&mut self.out))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}
impl<'a> ser::SerializeStruct for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}
impl<'a> ser::SerializeStructVariant for &'a mut RefSer {
    type Ok = ();
    type Error = RErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> RR {
        v.serialize(&mut **self)
    }
    fn end(self) -> RR {
        Ok(())
    }
}

struct KeySer<'a>(&'a mut Vec<u8>);
type Imp = ser::Impossible<(), RErr>;
macro_rules! nokey { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> RR { Err(RErr::Key) })* } }
impl<'a> ser::Serializer for KeySer<'a> {
    type Ok = ();
    type Error = RErr;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    nokey!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
           serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
           serialize_f64 f64, serialize_char char, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_str(self, v: &str) -> RR {
        put_varint(self.0, v.len() as u64, 64);
        self.0.extend_from_slice(v.as_bytes());
        Ok(())
    }
    fn serialize_none(self) -> RR {
        Err(RErr::Key)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> RR {
        Err(RErr::Key)
    }
    fn serialize_unit(self) -> RR {
        Err(RErr::Key)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> RR {
        Err(RErr::Key)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> RR {
        Err(RErr::Key)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> RR {
        Err(RErr::Key)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, RErr> {
        Err(RErr::Key)
    }
}

// ------------------------------------------------------------------------------------------------

pub struct RefDe<'b> {
    pub d: Dec<'b>,
}

/// Decoded value, bytes consumed, and whether rejecting would also have been acceptable.
pub fn from_bytes<T: de::DeserializeOwned>(b: &[u8]) -> Result<(T, usize, bool), RErr> {
    let mut r = RefDe { d: Dec::new(b) };
    let v = T::deserialize(&mut r)?;
    Ok((v, r.d.pos, r.d.lenient))
}

impl<'de, 'a, 'b> de::Deserializer<'de> for &'a mut RefDe<'b> {
    type Error = RErr;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, RErr> {
        Err(RErr::Msg("any".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, RErr> {
        Err(RErr::Msg("ignored any".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_bool(self.d.bool()?)
    }
    fn deserialize_i8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_i8(self.d.u8()? as i8)
    }
    fn deserialize_i16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_i16(unzigzag(self.d.varint(16)?) as i16)
    }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_i32(unzigzag(self.d.varint(32)?) as i32)
    }
    fn deserialize_i64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_i64(unzigzag(self.d.varint(64)?))
    }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_u8(self.d.u8()?)
    }
    fn deserialize_u16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_u16(self.d.varint(16)? as u16)
    }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_u32(self.d.varint(32)? as u32)
    }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_u64(self.d.varint(64)?)
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        let b = self.d.take(4)?;
        v.visit_f32(f32::from_bits(u32::from_le_bytes([b[0], b[1], b[2], b[3]])))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        let b = self.d.take(8)?;
        v.visit_f64(f64::from_bits(u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])))
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        let s = self.d.string()?;
        let mut cs = s.chars();
        let c = cs.next().ok_or(RErr::Malformed)?;
        if cs.next().is_some() {
            return Err(RErr::Malformed);
        }
        v.visit_char(c)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_string(self.d.string()?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_string(self.d.string()?)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_byte_buf(self.d.bytes()?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_byte_buf(self.d.bytes()?)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        if self.d.bool()? {
            v.visit_some(self)
        } else {
            v.visit_none()
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, RErr> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, RErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        let n = self.d.varint(64)?;
        v.visit_seq(Items { r: self, n })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, RErr> {
        v.visit_seq(Items { r: self, n: n as u64 })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, RErr> {
        v.visit_seq(Items { r: self, n: n as u64 })
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        let n = self.d.varint(64)?;
        v.visit_map(Items { r: self, n })
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, RErr> {
        v.visit_seq(Items { r: self, n: f.len() as u64 })
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, RErr> {
        v.visit_enum(En { r: self })
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RErr> {
        v.visit_u32(self.d.varint(32)? as u32)
    }
}

struct Items<'a, 'b> {
    r: &'a mut RefDe<'b>,
    n: u64,
}
impl<'de, 'a, 'b> de::SeqAccess<'de> for Items<'a, 'b> {
    type Error = RErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, RErr> {
        if self.n == 0 {
            return Ok(None);
        }
        if self.r.d.fuel == 0 {
            return Err(RErr::Undefined);
        }
        self.r.d.fuel -= 1;
        self.n -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
}
impl<'de, 'a, 'b> de::MapAccess<'de> for Items<'a, 'b> {
    type Error = RErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, RErr> {
        de::SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, RErr> {
        s.deserialize(&mut *self.r)
    }
}
struct En<'a, 'b> {
    r: &'a mut RefDe<'b>,
}
impl<'de, 'a, 'b> de::EnumAccess<'de> for En<'a, 'b> {
    type Error = RErr;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), RErr> {
        let v = s.deserialize(&mut *self.r)?;
        Ok((v, self))
    }
}
impl<'de, 'a, 'b> de::VariantAccess<'de> for En<'a, 'b> {
    type Error = RErr;
    fn unit_variant(self) -> RR {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, RErr> {
        s.deserialize(self.r)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, RErr> {
        v.visit_seq(Items { r: self.r, n: n as u64 })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, RErr> {
        v.visit_seq(Items { r: self.r, n: f.len() as u64 })
    }
}
