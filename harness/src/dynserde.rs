//! Drives the serializer and deserializer under test through every serde data-model method,
//! for types and values known only at run time.
use crate::hook;
use crate::model::{enc, Ty, Val, Var};
use serde::de::{self, DeserializeSeed, Deserializer, Visitor};
use serde::ser::{
    Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use std::fmt;
use std::sync::OnceLock;

/// Static field/variant names. Set 1 has awkward names; names never reach the wire.
pub fn names(set: usize, n: usize) -> &'static [&'static str] {
    static A: OnceLock<Vec<&'static str>> = OnceLock::new();
    static B: OnceLock<Vec<&'static str>> = OnceLock::new();
    const MAX: usize = 70_000;
    let v = if set == 0 {
        A.get_or_init(|| (0..MAX).map(|i| &*Box::leak(format!("f{}", i).into_boxed_str())).collect())
    } else {
        B.get_or_init(|| {
            (0..MAX)
                .map(|i| {
                    let s = match i {
                        0 => String::new(),
                        1 => "0".to_string(),
                        2 => "ひらがな".to_string(),
                        3 => "x".repeat(300),
                        4 => "$serde::private".to_string(),
                        i => format!("{}-{}", "n".repeat(i % 7), i),
                    };
                    &*Box::leak(s.into_boxed_str())
                })
                .collect()
        })
    };
    &v[..n]
}

/// How a value is pushed through serde; none of it may matter to the bytes.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Style {
    pub names: usize,
    /// map entries through serialize_key + serialize_value instead of serialize_entry
    pub split_entries: bool,
    /// strings through collect_str
    pub collect_str: bool,
    /// struct-likes also report skipped fields
    pub skip_fields: bool,
    /// decode structs from a sequence-only / map-only visitor: 0 both, 1 map only
    pub visitor: u8,
    /// decode text through deserialize_str and bytes through deserialize_bytes
    pub borrowed: bool,
}

pub struct SerVal<'a>(pub &'a Ty, pub &'a Val, pub Style);

struct Disp<'a>(&'a str);
impl<'a> fmt::Display for Disp<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // several pieces, so that any streaming of the pieces would show
        hook::tick_fmt();
        let s = self.0;
        let mut i = s.len() / 2;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        f.write_str(&s[..i])?;
        hook::tick_fmt();
        f.write_str(&s[i..])
    }
}

struct Raw<'a>(&'a [u8]);
impl<'a> Serialize for Raw<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

pub fn wrapper<T: de::DeserializeOwned>(ty: &Ty, v: &Val) -> T {
    let b = enc(ty, v);
    match crate::refserde::from_bytes::<T>(&b) {
        Ok((w, n, _)) if n == b.len() => w,
        Ok((_, n, _)) => crate::case::broken(format!(
            "the {} wrapper takes {} of the {} bytes {} that encode a value",
            ty,
            n,
            b.len(),
            crate::case::hexs(&b)
        )),
        Err(e) => crate::case::broken(format!("the {} wrapper rejects the bytes {} of a value: {}", ty, crate::case::hexs(&b), e)),
    }
}

fn may_fail_ser<E: serde::ser::Error>() -> Result<(), E> {
    match hook::tick() {
        None => Ok(()),
        Some(f) => Err(f.ser()),
    }
}
fn may_fail_de<E: de::Error>() -> Result<(), E> {
    match hook::tick() {
        None => Ok(()),
        Some(f) => Err(f.de()),
    }
}

/// A map key with a serialization of the user's own.
struct SerKey<'a>(&'a str, bool);
impl<'a> Serialize for SerKey<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        may_fail_ser()?;
        let r = if self.1 { s.collect_str(&Disp(self.0))? } else { s.serialize_str(self.0)? };
        may_fail_ser()?;
        Ok(r)
    }
}

impl<'a> Serialize for SerVal<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        may_fail_ser()?;
        let r = self.put(s)?;
        may_fail_ser()?;
        Ok(r)
    }
}
impl<'a> SerVal<'a> {
    fn put<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let st = self.2;
        match (self.0, self.1) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("UnitStruct"),
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::U8, Val::U(u)) => s.serialize_u8(*u as u8),
            (Ty::U16, Val::U(u)) => s.serialize_u16(*u as u16),
            (Ty::U32, Val::U(u)) => s.serialize_u32(*u as u32),
            (Ty::U64, Val::U(u)) => s.serialize_u64(*u),
            (Ty::I8, Val::I(u)) => s.serialize_i8(*u as i8),
            (Ty::I16, Val::I(u)) => s.serialize_i16(*u as i16),
            (Ty::I32, Val::I(u)) => s.serialize_i32(*u as i32),
            (Ty::I64, Val::I(u)) => s.serialize_i64(*u),
            (Ty::F32, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (Ty::F64, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(x)) => {
                if st.collect_str {
                    s.collect_str(&Disp(x))
                } else {
                    s.serialize_str(x)
                }
            }
            (Ty::Bytes, Val::Bytes(b)) => Raw(b).serialize(s),
            (Ty::Opt(_), Val::Opt(None)) => s.serialize_none(),
            (Ty::Opt(t), Val::Opt(Some(v))) => s.serialize_some(&SerVal(t, v, st)),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("Newtype", &SerVal(t, v, st)),
            (Ty::Seq(t), Val::Seq(vs)) => {
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for v in vs {
                    q.serialize_element(&SerVal(t, v, st))?;
                }
                q.end()
            }
            (Ty::Map(t), Val::Map(vs)) => {
                let mut q = s.serialize_map(Some(vs.len()))?;
                for (k, v) in vs {
                    if st.split_entries {
                        q.serialize_key(&SerKey(k, st.collect_str))?;
                        q.serialize_value(&SerVal(t, v, st))?;
                    } else {
                        q.serialize_entry(&SerKey(k, st.collect_str), &SerVal(t, v, st))?;
                    }
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::Tup(vs)) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&SerVal(t, v, st))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Tup(vs)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&SerVal(t, v, st))?;
                }
                q.end()
            }
            (Ty::Struct(ts), Val::Tup(vs)) => {
                let mut q = s.serialize_struct("Struct", ts.len())?;
                for (i, (t, v)) in ts.iter().zip(vs).enumerate() {
                    if st.skip_fields && i % 2 == 0 {
                        q.skip_field("skipped")?;
                    }
                    q.serialize_field(names(st.names, ts.len())[i], &SerVal(t, v, st))?;
                }
                q.end()
            }
            (Ty::Enum(base, vars), Val::Enum(i, p)) => {
                let k = (*i - *base) as usize;
                let vn = names(st.names, vars.len())[k];
                match (&vars[k], &**p) {
                    (Var::Unit, _) => s.serialize_unit_variant("Enum", *i, vn),
                    (Var::Newtype(t), v) => s.serialize_newtype_variant("Enum", *i, vn, &SerVal(t, v, st)),
                    (Var::Tuple(ts), Val::Tup(vs)) => {
                        let mut q = s.serialize_tuple_variant("Enum", *i, vn, ts.len())?;
                        for (t, v) in ts.iter().zip(vs) {
                            q.serialize_field(&SerVal(t, v, st))?;
                        }
                        q.end()
                    }
                    (Var::Struct(ts), Val::Tup(vs)) => {
                        let mut q = s.serialize_struct_variant("Enum", *i, vn, ts.len())?;
                        for (j, (t, v)) in ts.iter().zip(vs).enumerate() {
                            if st.skip_fields && j % 2 == 1 {
                                q.skip_field("skipped")?;
                            }
                            q.serialize_field(names(st.names, ts.len())[j], &SerVal(t, v, st))?;
                        }
                        q.end()
                    }
                    _ => panic!("dynserde: variant"),
                }
            }
            (t @ Ty::BigUint, v) => wrapper::<dlhn::BigUint>(t, v).serialize(s),
            (t @ Ty::BigInt, v) => wrapper::<dlhn::BigInt>(t, v).serialize(s),
            (t @ Ty::BigDec, v) => wrapper::<dlhn::BigDecimal>(t, v).serialize(s),
            (t @ Ty::Date, v) => wrapper::<dlhn::Date>(t, v).serialize(s),
            (t @ Ty::DateTime, v) => wrapper::<dlhn::DateTime>(t, v).serialize(s),
            (t, v) => panic!("dynserde: {} with {:?}", t, v),
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// The visitor of a type whose user checks what was read, before and after.
struct Hk<V>(V);
macro_rules! hk {
    ($($m:ident $t:ty),*) => {
        $(fn $m<E: de::Error>(self, v: $t) -> Result<V::Value, E> {
            may_fail_de()?;
            let r = self.0.$m(v)?;
            may_fail_de()?;
            Ok(r)
        })*
    };
}
impl<'de, V: Visitor<'de>> Visitor<'de> for Hk<V> {
    type Value = V::Value;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.expecting(f)
    }
    hk!(visit_bool bool, visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128,
        visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128, visit_f32 f32, visit_f64 f64,
        visit_char char, visit_str &str, visit_borrowed_str &'de str, visit_string String,
        visit_bytes &[u8], visit_borrowed_bytes &'de [u8], visit_byte_buf Vec<u8>);
    fn visit_none<E: de::Error>(self) -> Result<V::Value, E> {
        may_fail_de()?;
        let r = self.0.visit_none()?;
        may_fail_de()?;
        Ok(r)
    }
    fn visit_unit<E: de::Error>(self) -> Result<V::Value, E> {
        may_fail_de()?;
        let r = self.0.visit_unit()?;
        may_fail_de()?;
        Ok(r)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V::Value, D::Error> {
        may_fail_de()?;
        let r = self.0.visit_some(d)?;
        may_fail_de()?;
        Ok(r)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V::Value, D::Error> {
        may_fail_de()?;
        let r = self.0.visit_newtype_struct(d)?;
        may_fail_de()?;
        Ok(r)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, a: A) -> Result<V::Value, A::Error> {
        may_fail_de()?;
        let r = self.0.visit_seq(a)?;
        may_fail_de()?;
        Ok(r)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, a: A) -> Result<V::Value, A::Error> {
        may_fail_de()?;
        let r = self.0.visit_map(a)?;
        may_fail_de()?;
        Ok(r)
    }
    // No tick before the variant is read: when the index is taken from the input is not specified.
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<V::Value, A::Error> {
        let r = self.0.visit_enum(a)?;
        may_fail_de()?;
        Ok(r)
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Ty, pub Style);

/// The value a wrapper holds, seen through its own serialization.
pub fn observe_wrapper(ty: &Ty, w: &impl Serialize) -> Val {
    let b = match crate::refserde::to_bytes(w) {
        Ok(b) => b,
        Err(e) => crate::case::broken(format!("a decoded {} cannot be serialized: {}", ty, e)),
    };
    let mut d = crate::model::Dec::new(&b);
    match crate::model::decode(ty, &mut d) {
        Ok(v) if d.pos == b.len() => v,
        _ => crate::case::broken(format!("a decoded {} serializes to {}, which is no encoding of one", ty, crate::case::hexs(&b))),
    }
}

fn observe<E: de::Error>(ty: &Ty, w: &impl Serialize) -> Result<Val, E> {
    Ok(observe_wrapper(ty, w))
}

macro_rules! leaf {
    ($name:ident, $out:expr, $($m:ident $t:ty),*) => {
        struct $name;
        impl<'de> Visitor<'de> for $name {
            type Value = Val;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(stringify!($name)) }
            $(fn $m<E: de::Error>(self, v: $t) -> Result<Val, E> { let o: fn($t) -> Val = $out; Ok(o(v)) })*
        }
    };
}
struct VBool;
impl<'de> Visitor<'de> for VBool {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bool")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
}
struct VUnit;
impl<'de> Visitor<'de> for VUnit {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}
/// Like serde's own integer visitors: any integer call in range is fine.
struct VUint(u32);
impl<'de> Visitor<'de> for VUint {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unsigned integer")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        if self.0 < 64 && v >> self.0 != 0 {
            return Err(E::custom("integer out of range"));
        }
        Ok(Val::U(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        if v < 0 {
            return Err(E::custom("integer out of range"));
        }
        self.visit_u64(v as u64)
    }
}
struct VInt(u32);
impl<'de> Visitor<'de> for VInt {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("signed integer")
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        let sh = 64 - self.0;
        if (v << sh) >> sh != v {
            return Err(E::custom("integer out of range"));
        }
        Ok(Val::I(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        if v > i64::MAX as u64 {
            return Err(E::custom("integer out of range"));
        }
        self.visit_i64(v as i64)
    }
}
leaf!(VF32, |v| Val::F32(v.to_bits()), visit_f32 f32);
leaf!(VF64, |v| Val::F64(v.to_bits()), visit_f64 f64);
struct VChar;
impl<'de> Visitor<'de> for VChar {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("char")
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        Ok(Val::Char(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        let mut c = v.chars();
        match (c.next(), c.next()) {
            (Some(x), None) => Ok(Val::Char(x)),
            _ => Err(E::custom("not a single character")),
        }
    }
}
struct VStr;
impl<'de> Visitor<'de> for VStr {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("string")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn visit_string<E: de::Error>(self, v: String) -> Result<Val, E> {
        Ok(Val::Str(v))
    }
}
struct VBytes;
impl<'de> Visitor<'de> for VBytes {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Val, E> {
        Ok(Val::Bytes(v))
    }
}
struct VOpt<'a>(&'a Ty, Style);
impl<'de, 'a> Visitor<'de> for VOpt<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Opt(None))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Opt(None))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Opt(Some(Box::new(Seed(self.0, self.1).deserialize(d)?))))
    }
}
struct VNew<'a>(&'a Ty, Style);
impl<'de, 'a> Visitor<'de> for VNew<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0, self.1).deserialize(d)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        a.next_element_seed(Seed(self.0, self.1))?.ok_or_else(|| de::Error::invalid_length(0, &"1"))
    }
}
struct VSeq<'a>(&'a Ty, Style);
impl<'de, 'a> Visitor<'de> for VSeq<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("seq")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(Seed(self.0, self.1))? {
            v.push(x);
        }
        Ok(Val::Seq(v))
    }
}
struct VMap<'a>(&'a Ty, Style);
impl<'de, 'a> Visitor<'de> for VMap<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        if self.1.split_entries {
            while let Some(Val::Str(k)) = a.next_key_seed(Seed(&Ty::Str, self.1))? {
                v.push((k, a.next_value_seed(Seed(self.0, self.1))?));
            }
        } else {
            while let Some((Val::Str(k), x)) = a.next_entry_seed(Seed(&Ty::Str, self.1), Seed(self.0, self.1))? {
                v.push((k, x));
            }
        }
        Ok(Val::Map(v))
    }
}
struct VTup<'a>(&'a [Ty], Style);
impl<'de, 'a> Visitor<'de> for VTup<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::with_capacity(self.0.len());
        for (i, t) in self.0.iter().enumerate() {
            v.push(a.next_element_seed(Seed(t, self.1))?.ok_or_else(|| de::Error::invalid_length(i, &"more"))?);
        }
        Ok(Val::Tup(v))
    }
}
/// Like a derived struct visitor: accepts a sequence, or a map keyed by field name or index.
struct VStruct<'a>(&'a [Ty], Style);
struct Key<'a>(&'a [&'static str], usize);
impl<'de, 'a> DeserializeSeed<'de> for Key<'a> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de, 'a> Visitor<'de> for Key<'a> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("field identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if (v as usize) < self.0.len() {
            Ok(v as usize)
        } else {
            Err(E::custom("unknown field index"))
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        if self.0.get(self.1).map_or(false, |n| *n == v) {
            return Ok(self.1);
        }
        self.0.iter().position(|n| *n == v).ok_or_else(|| E::custom("unknown field"))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<usize, E> {
        self.0.iter().position(|n| n.as_bytes() == v).ok_or_else(|| E::custom("unknown field"))
    }
}
impl<'de, 'a> Visitor<'de> for VStruct<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        VTup(self.0, self.1).visit_seq(a)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let ns = names(self.1.names, self.0.len());
        let mut v: Vec<Option<Val>> = vec![None; self.0.len()];
        let mut next = 0usize;
        loop {
            let k = a.next_key_seed(Key(ns, next))?;
            let k = match k {
                Some(k) => k,
                None => break,
            };
            if k >= v.len() {
                return Err(de::Error::custom("more fields than the struct has"));
            }
            if v[k].is_some() {
                return Err(de::Error::duplicate_field("field"));
            }
            v[k] = Some(a.next_value_seed(Seed(&self.0[k], self.1))?);
            next += 1;
        }
        let mut o = Vec::with_capacity(v.len());
        for x in v {
            o.push(x.ok_or_else(|| de::Error::missing_field("field"))?);
        }
        Ok(Val::Tup(o))
    }
}
struct VEnum<'a>(u32, &'a [Var], Style);
struct VarId<'a>(u32, &'a [Var], Style);
impl<'de, 'a> DeserializeSeed<'de> for VarId<'a> {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        d.deserialize_identifier(Hk(self))
    }
}
impl<'de, 'a> Visitor<'de> for VarId<'a> {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u32, E> {
        if v >= self.0 as u64 && v < self.0 as u64 + self.1.len() as u64 {
            Ok(v as u32)
        } else {
            Err(E::custom("unknown variant index"))
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<u32, E> {
        names(self.2.names, self.1.len())
            .iter()
            .position(|n| *n == v)
            .map(|p| p as u32 + self.0)
            .ok_or_else(|| E::custom("unknown variant"))
    }
}
impl<'de, 'a> Visitor<'de> for VEnum<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        use de::VariantAccess;
        let (i, va) = a.variant_seed(VarId(self.0, self.1, self.2))?;
        let p = match &self.1[(i - self.0) as usize] {
            Var::Unit => {
                va.unit_variant()?;
                Val::Unit
            }
            Var::Newtype(t) => va.newtype_variant_seed(Seed(t, self.2))?,
            Var::Tuple(ts) => va.tuple_variant(ts.len(), Hk(VTup(ts, self.2)))?,
            Var::Struct(ts) => va.struct_variant(names(self.2.names, ts.len()), Hk(VStruct(ts, self.2)))?,
        };
        Ok(Val::Enum(i, Box::new(p)))
    }
}

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        may_fail_de()?;
        let v = self.get(d)?;
        may_fail_de()?;
        Ok(v)
    }
}
impl<'a> Seed<'a> {
    fn get<'de, D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        use serde::Deserialize;
        let st = self.1;
        match self.0 {
            Ty::Unit => d.deserialize_unit(Hk(VUnit)),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", Hk(VUnit)),
            Ty::Bool => d.deserialize_bool(Hk(VBool)),
            Ty::U8 => d.deserialize_u8(Hk(VUint(8))),
            Ty::U16 => d.deserialize_u16(Hk(VUint(16))),
            Ty::U32 => d.deserialize_u32(Hk(VUint(32))),
            Ty::U64 => d.deserialize_u64(Hk(VUint(64))),
            Ty::I8 => d.deserialize_i8(Hk(VInt(8))),
            Ty::I16 => d.deserialize_i16(Hk(VInt(16))),
            Ty::I32 => d.deserialize_i32(Hk(VInt(32))),
            Ty::I64 => d.deserialize_i64(Hk(VInt(64))),
            Ty::F32 => d.deserialize_f32(Hk(VF32)),
            Ty::F64 => d.deserialize_f64(Hk(VF64)),
            Ty::Char => d.deserialize_char(Hk(VChar)),
            Ty::Str => {
                if st.borrowed {
                    d.deserialize_str(Hk(VStr))
                } else {
                    d.deserialize_string(Hk(VStr))
                }
            }
            Ty::Bytes => {
                if st.borrowed {
                    d.deserialize_bytes(Hk(VBytes))
                } else {
                    d.deserialize_byte_buf(Hk(VBytes))
                }
            }
            Ty::Opt(t) => d.deserialize_option(Hk(VOpt(t, st))),
            Ty::Newtype(t) => d.deserialize_newtype_struct("Newtype", Hk(VNew(t, st))),
            Ty::Seq(t) => d.deserialize_seq(Hk(VSeq(t, st))),
            Ty::Map(t) => d.deserialize_map(Hk(VMap(t, st))),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), Hk(VTup(ts, st))),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("TupleStruct", ts.len(), Hk(VTup(ts, st))),
            Ty::Struct(ts) => d.deserialize_struct("Struct", names(st.names, ts.len()), Hk(VStruct(ts, st))),
            Ty::Enum(base, vars) => d.deserialize_enum("Enum", names(st.names, vars.len()), Hk(VEnum(*base, vars, st))),
            t @ Ty::BigUint => observe(t, &dlhn::BigUint::deserialize(d)?),
            t @ Ty::BigInt => observe(t, &dlhn::BigInt::deserialize(d)?),
            t @ Ty::BigDec => observe(t, &dlhn::BigDecimal::deserialize(d)?),
            t @ Ty::Date => observe(t, &dlhn::Date::deserialize(d)?),
            t @ Ty::DateTime => observe(t, &dlhn::DateTime::deserialize(d)?),
        }
    }
}
