//! Calls into the code under test.
use crate::dynserde::{Seed, SerVal, Style};
use crate::hook;
use crate::iox::{Rd, Turns, Wr};
use crate::model::{Ty, Val};
use dlhn::{Body, DeserializeHeader, Deserializer, Header, Serializer};
use serde::de::{DeserializeOwned, DeserializeSeed};
use serde::Serialize;

pub type SErr = dlhn::ser::Error;
pub type DErr = dlhn::de::Error;

pub fn ser<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, SErr> {
    let mut b = Vec::new();
    if hook::io_on() {
        let mut s = Serializer::new(Turns(&mut b));
        v.serialize(&mut s)?;
        return Ok(b);
    }
    let mut s = Serializer::new(&mut b);
    v.serialize(&mut s)?;
    Ok(b)
}
pub fn ser_to<T: Serialize + ?Sized>(v: &T, w: &Wr) -> Result<(), SErr> {
    let mut s = Serializer::new(w.clone());
    v.serialize(&mut s)
}
pub fn ser_val(ty: &Ty, v: &Val, st: Style) -> Result<Vec<u8>, SErr> {
    ser(&SerVal(ty, v, st))
}
/// Decodes one value; also gives the number of bytes taken from the reader.
pub fn de_val(ty: &Ty, b: &[u8], st: Style) -> (Result<Val, DErr>, usize) {
    let mut r = b;
    let v = if hook::io_on() {
        let mut t = Turns(&mut r);
        let mut d = Deserializer::new(&mut t);
        Seed(ty, st).deserialize(&mut d)
    } else {
        let mut d = Deserializer::new(&mut r);
        Seed(ty, st).deserialize(&mut d)
    };
    (v, b.len() - r.len())
}
pub fn de_val_from(ty: &Ty, r: &Rd, st: Style) -> Result<Val, DErr> {
    let mut r = r.clone();
    let mut d = Deserializer::new(&mut r);
    Seed(ty, st).deserialize(&mut d)
}
pub fn de<T: DeserializeOwned>(b: &[u8]) -> (Result<T, DErr>, usize) {
    let mut r = b;
    let v = if hook::io_on() {
        let mut t = Turns(&mut r);
        let mut d = Deserializer::new(&mut t);
        T::deserialize(&mut d)
    } else {
        let mut d = Deserializer::new(&mut r);
        T::deserialize(&mut d)
    };
    (v, b.len() - r.len())
}
pub fn de_from<T: DeserializeOwned>(r: &Rd) -> Result<T, DErr> {
    let mut r = r.clone();
    let mut d = Deserializer::new(&mut r);
    T::deserialize(&mut d)
}
pub fn de_body(h: &Header, b: &[u8]) -> (Result<Body, DErr>, usize) {
    let mut r = b;
    let v = if hook::io_on() {
        let mut t = Turns(&mut r);
        let mut d = Deserializer::new(&mut t);
        Body::deserialize(h, &mut d)
    } else {
        let mut d = Deserializer::new(&mut r);
        Body::deserialize(h, &mut d)
    };
    (v, b.len() - r.len())
}
pub fn de_body_from(h: &Header, r: &Rd) -> Result<Body, DErr> {
    let mut r = r.clone();
    let mut d = Deserializer::new(&mut r);
    Body::deserialize(h, &mut d)
}
pub fn ser_header(h: &Header) -> std::io::Result<Vec<u8>> {
    let mut b = Vec::new();
    if hook::io_on() {
        h.serialize(&mut Turns(&mut b))?;
    } else {
        h.serialize(&mut b)?;
    }
    Ok(b)
}
pub fn de_header(b: &[u8]) -> (std::io::Result<Header>, usize) {
    let mut r = b;
    let h = if hook::io_on() { Turns(&mut r).deserialize_header() } else { r.deserialize_header() };
    let n = r.len();
    (h, b.len() - n)
}
pub fn de_header_from(r: &Rd) -> std::io::Result<Header> {
    let mut r = r.clone();
    r.deserialize_header()
}
