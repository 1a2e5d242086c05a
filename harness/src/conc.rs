//! Concrete Rust types (standard library and serde-derived) used next to the dynamic types.
//! Values come from the reference decoder, expectations from the reference serializer.
use crate::model::{self, parse_ty, Dec, Ty, Val};
use crate::refserde::{self, RErr};
use crate::tape::Src;
use crate::under::{self, DErr, SErr};
use crate::iox::{Rd, Wr};
#[cfg(feature = "headers")]
use dlhn::SerializeHeader;
use dlhn::{BigDecimal, BigInt, BigUint, Date, DateTime, Deserializer, Header, Serializer};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::OnceLock;

/// Fixed hash function, so that hash maps iterate the same way in every run.
#[derive(Default, Clone)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0100_0000_01b3);
        }
    }
}
pub type HMap<V> = HashMap<String, V, BuildHasherDefault<Fnv>>;
pub type HSet<V> = HashSet<V, BuildHasherDefault<Fnv>>;

pub struct Conc {
    pub name: &'static str,
    pub desc: &'static str,
    /// element order is not fixed by the value
    pub hashy: bool,
    ser: fn(&[u8]) -> Option<(Result<Vec<u8>, SErr>, Vec<u8>)>,
    ser_with: fn(&[u8], &mut Serializer<Wr>) -> Option<Result<(), SErr>>,
    de: fn(&[u8]) -> (Result<Vec<u8>, DErr>, usize),
    de_with: fn(&mut Deserializer<Rd>) -> Result<Vec<u8>, DErr>,
    de_mem: fn(&[u8]) -> (bool, i64, usize),
    re: fn(&[u8]) -> Result<(Vec<u8>, usize, bool), RErr>,
    /// writes the header of the type
    pub header: Option<fn(&mut Wr) -> std::io::Result<()>>,
    ty: OnceLock<Ty>,
}

fn f_ser<T: Serialize + DeserializeOwned>(b: &[u8]) -> Option<(Result<Vec<u8>, SErr>, Vec<u8>)> {
    let v: T = refserde::from_bytes(b).ok()?.0;
    let e = refserde::to_bytes(&v).ok()?;
    Some((under::ser(&v), e))
}
fn f_ser_with<T: Serialize + DeserializeOwned>(b: &[u8], s: &mut Serializer<Wr>) -> Option<Result<(), SErr>> {
    let v: T = refserde::from_bytes(b).ok()?.0;
    Some(v.serialize(s))
}
fn see<T: Serialize>(v: &T) -> Vec<u8> {
    match refserde::to_bytes(v) {
        Ok(b) => b,
        Err(e) => crate::case::broken(format!("a decoded value cannot be serialized: {}", e)),
    }
}
fn f_de<T: Serialize + DeserializeOwned>(b: &[u8]) -> (Result<Vec<u8>, DErr>, usize) {
    let (v, n) = under::de::<T>(b);
    (v.map(|v| see(&v)), n)
}
fn f_de_with<T: Serialize + DeserializeOwned>(d: &mut Deserializer<Rd>) -> Result<Vec<u8>, DErr> {
    T::deserialize(d).map(|v| see(&v))
}
fn f_de_mem<T: Serialize + DeserializeOwned>(b: &[u8]) -> (bool, i64, usize) {
    let (r, peak, req) = crate::alloc::measure(|| under::de::<T>(b).0);
    (r.is_ok(), peak, req)
}
fn f_re<T: Serialize + DeserializeOwned>(b: &[u8]) -> Result<(Vec<u8>, usize, bool), RErr> {
    let (v, n, l) = refserde::from_bytes::<T>(b)?;
    Ok((refserde::to_bytes(&v)?, n, l))
}

impl Conc {
    pub fn new<T: Serialize + DeserializeOwned>(name: &'static str, desc: &'static str, hashy: bool) -> Conc {
        Conc {
            name,
            desc,
            hashy,
            ser: f_ser::<T>,
            ser_with: f_ser_with::<T>,
            de: f_de::<T>,
            de_with: f_de_with::<T>,
            de_mem: f_de_mem::<T>,
            re: f_re::<T>,
            header: None,
            ty: OnceLock::new(),
        }
    }
    #[cfg(feature = "headers")]
    pub fn with_header<T: Serialize + DeserializeOwned + SerializeHeader>(name: &'static str, desc: &'static str, hashy: bool) -> Conc {
        let mut c = Conc::new::<T>(name, desc, hashy);
        c.header = Some(|w| T::serialize_header(w));
        c
    }
    /// Without the headers of static types, for trees whose derive or header implementations do not compile.
    #[cfg(not(feature = "headers"))]
    pub fn with_header<T: Serialize + DeserializeOwned>(name: &'static str, desc: &'static str, hashy: bool) -> Conc {
        Conc::new::<T>(name, desc, hashy)
    }
    pub fn ty(&self) -> &Ty {
        self.ty.get_or_init(|| parse_ty(self.desc))
    }
    /// Reference bytes that denote a value of the type (None: the draw is outside the type).
    pub fn gen(&self, s: &mut Src) -> Option<Vec<u8>> {
        let v = crate::gen::val(s, self.ty());
        let b = model::enc(self.ty(), &v);
        (self.re)(&b).ok()?;
        Some(b)
    }
    /// Bytes from the code under test, and the expected ones.
    pub fn ser(&self, b: &[u8]) -> Option<(Result<Vec<u8>, SErr>, Vec<u8>)> {
        (self.ser)(b)
    }
    pub fn ser_with(&self, b: &[u8], s: &mut Serializer<Wr>) -> Option<Result<(), SErr>> {
        (self.ser_with)(b, s)
    }
    /// Decodes with the code under test; the value is reported as its reference encoding.
    pub fn de(&self, b: &[u8]) -> (Result<Vec<u8>, DErr>, usize) {
        (self.de)(b)
    }
    pub fn de_with(&self, d: &mut Deserializer<Rd>) -> Result<Vec<u8>, DErr> {
        (self.de_with)(d)
    }
    /// Success, peak of additional live bytes and largest request while decoding.
    pub fn de_mem(&self, b: &[u8]) -> (bool, i64, usize) {
        (self.de_mem)(b)
    }
    /// The encoding may differ between instances holding the same value.
    pub fn unstable(&self) -> bool {
        self.hashy
    }
    pub fn reference(&self, b: &[u8]) -> Result<(Vec<u8>, usize, bool), RErr> {
        (self.re)(b)
    }
    /// Encodings of equal values are equal after this.
    pub fn canon(&self, b: &[u8]) -> Vec<u8> {
        if !self.hashy {
            return b.to_vec();
        }
        let mut d = Dec::new(b);
        match model::decode(self.ty(), &mut d) {
            Ok(v) => format!("{:?}", sorted(v)).into_bytes(),
            Err(_) => b.to_vec(),
        }
    }
    pub fn same(&self, a: &[u8], b: &[u8]) -> bool {
        a == b || (self.hashy && self.canon(a) == self.canon(b))
    }
}

fn sorted(v: Val) -> Val {
    match v {
        Val::Opt(Some(b)) => Val::Opt(Some(Box::new(sorted(*b)))),
        Val::Seq(v) => {
            let mut v: Vec<Val> = v.into_iter().map(sorted).collect();
            v.sort_by_key(|x| format!("{:?}", x));
            Val::Seq(v)
        }
        Val::Tup(v) => Val::Tup(v.into_iter().map(sorted).collect()),
        Val::Enum(i, b) => Val::Enum(i, Box::new(sorted(*b))),
        Val::Map(v) => {
            let mut v: Vec<(String, Val)> = v.into_iter().map(|(k, x)| (k, sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            Val::Map(v)
        }
        v => v,
    }
}

// ---------------------------------------------------------------- types

#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct Unit;
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct EmptyBraces {}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct EmptyTuple();
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct New(u64);
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct Pair(i16, String);
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct Plain {
    a: bool,
    b: u8,
    c: Option<i32>,
    d: Vec<u16>,
}
#[derive(Serialize, Deserialize)]
#[serde(rename_all = "camelCase", deny_unknown_fields, default)]
#[derive(Default)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct Attrs {
    first_field: u8,
    #[serde(rename = "другое")]
    second: Option<String>,
    #[serde(default)]
    third: i64,
    #[serde(skip)]
    hidden: u32,
    last: Vec<bool>,
}
#[derive(Serialize, Deserialize)]
pub struct Generic<T, U> {
    left: T,
    inner: Box<Option<U>>,
    marker: std::marker::PhantomData<T>,
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub enum Mixed {
    A,
    B(u32),
    C(i8, String),
    D { x: f64, y: Option<Plain> },
    E(),
    F {},
    G(Vec<Mixed2>),
    #[serde(rename = "")]
    H((u8, (u16,))),
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub enum Mixed2 {
    One { a: i64 },
    Two(BTreeMap<String, u8>),
    Three,
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
#[repr(u16)]
pub enum Discr {
    Seven = 7,
    Three = 3,
    Big = 60000,
}
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct Transparent {
    inner: Vec<i32>,
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct Adapted {
    #[serde(with = "dlhn::format::big_uint")]
    u: num_bigint::BigUint,
    #[serde(with = "dlhn::format::big_int")]
    i: num_bigint::BigInt,
    #[serde(with = "dlhn::format::big_decimal")]
    d: bigdecimal::BigDecimal,
    #[serde(with = "dlhn::format::date")]
    t: time::Date,
    #[serde(with = "dlhn::format::date_time")]
    o: time::OffsetDateTime,
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub struct Wrapped {
    u: BigUint,
    i: BigInt,
    d: BigDecimal,
    t: Date,
    o: DateTime,
    tail: u8,
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub enum AdaptedEnum {
    U(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint),
    D {
        #[serde(with = "dlhn::format::big_decimal")]
        a: bigdecimal::BigDecimal,
        #[serde(with = "dlhn::format::big_decimal")]
        b: bigdecimal::BigDecimal,
    },
    T(#[serde(with = "dlhn::format::date_time")] time::OffsetDateTime, #[serde(with = "dlhn::format::date")] time::Date),
}
#[derive(Serialize, Deserialize)]
pub struct ByteFields {
    #[serde(with = "serde_bytes")]
    a: Vec<u8>,
    b: ByteBuf,
    c: Option<ByteBuf>,
    #[serde(with = "serde_bytes")]
    d: Option<Vec<u8>>,
}
#[derive(Serialize, Deserialize)]
#[serde(from = "u16", into = "u16")]
#[derive(Clone)]
pub struct Via(u16);
impl From<u16> for Via {
    fn from(v: u16) -> Via {
        Via(v)
    }
}
impl From<Via> for u16 {
    fn from(v: Via) -> u16 {
        v.0
    }
}
#[derive(Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
#[derive(Clone)]
pub struct Short(String);
impl TryFrom<String> for Short {
    type Error = &'static str;
    fn try_from(v: String) -> Result<Short, &'static str> {
        if v.len() <= 20 {
            Ok(Short(v))
        } else {
            Err("too long")
        }
    }
}
impl From<Short> for String {
    fn from(v: Short) -> String {
        v.0
    }
}
#[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
pub enum Skips {
    A {
        a: u8,
        #[serde(skip)]
        b: u16,
        c: u8,
    },
    B(u8, #[serde(skip)] u16, i32),
    C(#[serde(skip)] u16),
}
/// 130 variants: indices of two bytes.
macro_rules! wide_enum {
    ($name:ident $($v:ident)*) => {
        #[derive(Serialize, Deserialize)]
#[cfg_attr(feature = "headers", derive(SerializeHeader))]
        pub enum $name { $($v),*, Last(u8) }
    };
}
wide_enum!(Wide A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9 C0 C1 C2 C3 C4 C5 C6 C7 C8 C9
    D0 D1 D2 D3 D4 D5 D6 D7 D8 D9 E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 F0 F1 F2 F3 F4 F5 F6 F7 F8 F9
    G0 G1 G2 G3 G4 G5 G6 G7 G8 G9 H0 H1 H2 H3 H4 H5 H6 H7 H8 H9 I0 I1 I2 I3 I4 I5 I6 I7 I8 I9
    J0 J1 J2 J3 J4 J5 J6 J7 J8 J9 K0 K1 K2 K3 K4 K5 K6 K7 K8 K9 L0 L1 L2 L3 L4 L5 L6 L7 L8 L9
    M0 M1 M2 M3 M4 M5 M6 M7 M8 M9);

pub fn all() -> &'static [Conc] {
    static L: OnceLock<Vec<Conc>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v = Vec::new();
        macro_rules! t { ($t:ty, $d:expr) => { v.push(Conc::new::<$t>(stringify!($t), $d, false)); }; ($t:ty, $d:expr, h) => { v.push(Conc::new::<$t>(stringify!($t), $d, true)); } }
        macro_rules! d { ($t:ty, $d:expr) => { v.push(Conc::with_header::<$t>(stringify!($t), $d, false)); }; ($t:ty, $d:expr, h) => { v.push(Conc::with_header::<$t>(stringify!($t), $d, true)); } }
        d!((), "unit");
        d!(bool, "bool");
        d!(u8, "u8");
        d!(u16, "u16");
        d!(u32, "u32");
        d!(u64, "u64");
        d!(i8, "i8");
        d!(i16, "i16");
        d!(i32, "i32");
        d!(i64, "i64");
        d!(f32, "f32");
        d!(f64, "f64");
        t!(char, "char");
        t!(usize, "u64");
        t!(isize, "i64");
        d!(String, "str");
        d!(ByteBuf, "bytes");
        d!(BigUint, "biguint");
        d!(BigInt, "bigint");
        d!(BigDecimal, "bigdec");
        d!(Date, "date");
        d!(DateTime, "datetime");
        d!(Option<u16>, "O(u16)");
        d!(Option<Option<()>>, "O(O(unit))");
        d!(Option<Vec<Option<String>>>, "O(Q(O(str)))");
        d!(Vec<u8>, "Q(u8)");
        d!(Vec<i64>, "Q(i64)");
        d!(Vec<Vec<bool>>, "Q(Q(bool))");
        d!(Vec<BigDecimal>, "Q(bigdec)");
        d!(Vec<(Date, DateTime)>, "Q(T(date,datetime))");
        d!((u8,), "T(u8)");
        d!((u16, String, Option<i8>), "T(u16,str,O(i8))");
        d!((u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String, ByteBuf, (), BigInt, Date),
           "T(u8,u16,u32,u64,i8,i16,i32,i64,f32,f64,bool,str,bytes,unit,bigint,date)");
        d!(((u8, (u16,)), Vec<(i32, ())>), "T(T(u8,T(u16)),Q(T(i32,unit)))");
        d!(BTreeMap<String, u32>, "M(u32)");
        d!(BTreeMap<String, BTreeMap<String, Option<i64>>>, "M(M(O(i64)))");
        d!(BTreeMap<String, (ByteBuf, f32)>, "M(T(bytes,f32))");
        d!(HMapD<u16>, "M(u16)", h);
        t!(HMap<u16>, "M(u16)", h);
        t!(HMap<Vec<Option<String>>>, "M(Q(O(str)))", h);
        t!(HSet<i32>, "Q(i32)", h);
        t!(BTreeSet<String>, "Q(str)");
        t!(BTreeSet<(i8, u16)>, "Q(T(i8,u16))");
        t!(BinaryHeap<u16>, "Q(u16)", h);
        t!(VecDeque<i16>, "Q(i16)");
        t!(LinkedList<char>, "Q(char)");
        t!([u16; 0], "T()");
        t!([u8; 5], "T(u8,u8,u8,u8,u8)");
        t!([Option<i64>; 32], "T(32*O(i64))");
        t!(Box<str>, "str");
        t!(Box<[u32]>, "Q(u32)");
        t!(Box<(u8, Box<Option<Box<i64>>>)>, "T(u8,O(i64))");
        t!(Cow<'static, str>, "str");
        t!(Cow<'static, [u16]>, "Q(u16)");
        t!(Cell<i32>, "i32");
        t!(RefCell<Vec<u8>>, "Q(u8)");
        t!(std::sync::Mutex<u64>, "u64");
        t!(std::num::Wrapping<i16>, "i16");
        t!(std::num::NonZeroU8, "u8");
        t!(std::num::NonZeroI64, "i64");
        t!(Option<std::num::NonZeroU32>, "O(u32)");
        t!(std::cmp::Reverse<u32>, "u32");
        t!(std::ops::Range<i32>, "S(i32,i32)");
        t!(std::ops::RangeInclusive<u8>, "S(u8,u8)");
        t!(std::ops::RangeFrom<u64>, "S(u64)");
        t!(std::ops::Bound<u16>, "E0(VU,VN(u16),VN(u16))");
        t!(Result<u16, String>, "E0(VN(u16),VN(str))");
        t!(std::time::Duration, "S(u64,u32)");
        t!(std::time::SystemTime, "S(u64,u32)");
        t!(std::net::IpAddr, "E0(VN(T(u8,u8,u8,u8)),VN(T(16*u8)))");
        t!(std::net::SocketAddrV4, "T(T(u8,u8,u8,u8),u16)");
        t!(std::net::SocketAddr, "E0(VN(T(T(4*u8),u16)),VN(T(T(16*u8),u16)))");
        t!(std::path::PathBuf, "str");
        t!(std::ffi::CString, "bytes");
        t!(std::sync::atomic::AtomicU32, "u32");
        t!(std::marker::PhantomData<u8>, "ustruct");
        d!(Unit, "ustruct");
        d!(EmptyBraces, "S()");
        d!(EmptyTuple, "TS()");
        d!(New, "N(u64)");
        d!(Pair, "TS(i16,str)");
        d!(Plain, "S(bool,u8,O(i32),Q(u16))");
        d!(Attrs, "S(u8,O(str),i64,Q(bool))");
        t!(Generic<u32, Generic<i8, String>>, "S(u32,O(S(i8,O(str),ustruct)),ustruct)");
        d!(Mixed, "E0(VU,VN(u32),VT(i8,str),VS(f64,O(S(bool,u8,O(i32),Q(u16)))),VT(),VS(),VN(Q(E0(VS(i64),VN(M(u8)),VU))),VN(T(u8,T(u16))))");
        d!(Vec<Mixed2>, "Q(E0(VS(i64),VN(M(u8)),VU))");
        d!(Discr, "E0(VU,VU,VU)");
        t!(Transparent, "Q(i32)");
        d!(Adapted, "S(biguint,bigint,bigdec,date,datetime)");
        d!(Vec<Adapted>, "Q(S(biguint,bigint,bigdec,date,datetime))");
        d!(Wrapped, "S(biguint,bigint,bigdec,date,datetime,u8)");
        d!(Option<Wrapped>, "O(S(biguint,bigint,bigdec,date,datetime,u8))");
        d!(AdaptedEnum, "E0(VN(biguint),VS(bigdec,bigdec),VT(datetime,date))");
        t!(ByteFields, "S(bytes,bytes,O(bytes),O(bytes))");
        t!(Vec<Via>, "Q(u16)");
        t!(Option<Short>, "O(str)");
        d!(Skips, "E0(VS(u8,u8),VT(u8,i32),VU)");
        d!(Vec<Wide>, "Q(E0(130*VU,VN(u8)))");
        d!(BTreeMap<Box<str>, New>, "M(N(u64))");
        d!(BTreeMap<String, ()>, "M(unit)");
        d!(Vec<()>, "Q(unit)");
        d!(Vec<Unit>, "Q(ustruct)");
        d!((Option<i8>, i32), "T(O(i8),i32)");
        d!((bool, Vec<u8>, u32, f32), "T(bool,Q(u8),u32,f32)");
        d!((u64, i64, bool, Vec<u8>, u32), "T(u64,i64,bool,Q(u8),u32)");
        d!((String, BigInt, u64, i64, bool, Vec<u8>), "T(str,bigint,u64,i64,bool,Q(u8))");
        d!((i16, f64, String, BigInt, u64, i64, bool), "T(i16,f64,str,bigint,u64,i64,bool)");
        d!(((), u8, i16, f64, String, BigInt, u64, i64), "T(unit,u8,i16,f64,str,bigint,u64,i64)");
        d!((i32, u16, (), u8, i16, f64, String, BigInt, u64), "T(i32,u16,unit,u8,i16,f64,str,bigint,u64)");
        d!((f32, Option<i8>, i32, u16, (), u8, i16, f64, String, BigInt), "T(f32,O(i8),i32,u16,unit,u8,i16,f64,str,bigint)");
        d!((Vec<u8>, u32, f32, Option<i8>, i32, u16, (), u8, i16, f64, String), "T(Q(u8),u32,f32,O(i8),i32,u16,unit,u8,i16,f64,str)");
        d!((i64, bool, Vec<u8>, u32, f32, Option<i8>, i32, u16, (), u8, i16, f64), "T(i64,bool,Q(u8),u32,f32,O(i8),i32,u16,unit,u8,i16,f64)");
        d!((BigInt, u64, i64, bool, Vec<u8>, u32, f32, Option<i8>, i32, u16, (), u8, i16), "T(bigint,u64,i64,bool,Q(u8),u32,f32,O(i8),i32,u16,unit,u8,i16)");
        d!((f64, String, BigInt, u64, i64, bool, Vec<u8>, u32, f32, Option<i8>, i32, u16, (), u8), "T(f64,str,bigint,u64,i64,bool,Q(u8),u32,f32,O(i8),i32,u16,unit,u8)");
        d!((u8, i16, f64, String, BigInt, u64, i64, bool, Vec<u8>, u32, f32, Option<i8>, i32, u16, ()), "T(u8,i16,f64,str,bigint,u64,i64,bool,Q(u8),u32,f32,O(i8),i32,u16,unit)");
        v
    })
}

/// A hash map with the standard hasher type parameter but a header implementation (headers only exist
/// for the default hasher); decoding order may differ from run to run, so it is only used canonically.
pub type HMapD<V> = HashMap<String, V>;

/// Types whose header is implemented or derived.
pub fn described() -> &'static [&'static Conc] {
    static L: OnceLock<Vec<&'static Conc>> = OnceLock::new();
    L.get_or_init(|| all().iter().filter(|c| c.header.is_some()).collect())
}

pub fn expected_header(c: &Conc) -> Option<Header> {
    model::header_of(c.ty())
}

pub fn pick(s: &mut Src) -> &'static Conc {
    let a = all();
    &a[s.usize(a.len())]
}
/// Types without sequences of zero-sized elements.
pub fn pick_sized(s: &mut Src) -> &'static Conc {
    let c = pick(s);
    if c.ty().has_zero_size_elements() {
        &all()[30]
    } else {
        c
    }
}
