//! C23: requests the format cannot serve.
use super::*;
use crate::case::{hexs, Case, R};
use crate::gen::*;
use crate::iox::Wr;
use crate::runner::no_panic;
use crate::under;
use dlhn::Deserializer;
use serde::de::{Deserialize, Deserializer as _, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize as De, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::{self, Debug};

pub static C23: Prop = Prop {
    id: "C23",
    rule: "case: one of the listed types whose decoding needs an unsupported request, in one of the listed contexts, a random value of it; serialized, and decoded from its own bytes, from mutated ones and from random ones. Non-trivial: distinct (type, context, bytes decoded) with at least one byte",
    quick: 4_000_000,
    thorough: 10_000_000,
    run: c23,
    blocks: None,
    blocks_note: "",
    known: &[],
    assumptions: &["equality of values is equality of their debug forms"],
};

/// A value decoded without knowing the type.
#[derive(Debug, Clone, Serialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum AnyVal {
    Unit,
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    Str(String),
    Bytes(serde_bytes::ByteBuf),
    Some(Box<AnyVal>),
    Seq(Vec<AnyVal>),
    Map(BTreeMap<String, AnyVal>),
    #[serde(skip)]
    Other,
}
struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = AnyVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<AnyVal, E> {
        Ok(AnyVal::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<AnyVal, E> {
        Ok(AnyVal::I(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<AnyVal, E> {
        Ok(AnyVal::U(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<AnyVal, E> {
        Ok(AnyVal::F(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<AnyVal, E> {
        Ok(AnyVal::Str(v.into()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<AnyVal, E> {
        Ok(AnyVal::Bytes(v.to_vec().into()))
    }
    fn visit_none<E>(self) -> Result<AnyVal, E> {
        Ok(AnyVal::Unit)
    }
    fn visit_unit<E>(self) -> Result<AnyVal, E> {
        Ok(AnyVal::Unit)
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<AnyVal, D::Error> {
        AnyVal::deserialize(d).map(|v| AnyVal::Some(Box::new(v)))
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<AnyVal, D::Error> {
        AnyVal::deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<AnyVal, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x)
        }
        Ok(AnyVal::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<AnyVal, A::Error> {
        let mut m = BTreeMap::new();
        while let Some((k, x)) = a.next_entry()? {
            m.insert(k, x);
        }
        Ok(AnyVal::Map(m))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<AnyVal, A::Error> {
        let (_, v): (IgnoredAny, _) = a.variant()?;
        v.unit_variant()?;
        Ok(AnyVal::Other)
    }
}
impl<'de> Deserialize<'de> for AnyVal {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<AnyVal, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}

#[derive(Debug, Clone, Serialize, De)]
#[serde(untagged)]
enum Untagged {
    A(bool),
    B { x: u16, y: String },
    C(Vec<u8>),
    D(String),
}
#[derive(Debug, Clone, Serialize, De)]
#[serde(tag = "t")]
enum Internal {
    A,
    B { x: u16, y: String },
    C { z: Option<i8> },
}
#[derive(Debug, Clone, Serialize, De)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A,
    B { x: u16, y: String },
    C(i8, u8),
    D(Vec<bool>),
}
#[derive(Debug, Clone, Serialize, De)]
struct FlatInner {
    x: u16,
    y: String,
}
#[derive(Debug, Clone, Serialize, De)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    inner: FlatInner,
    b: bool,
}
#[derive(Debug, Clone, Serialize, De)]
struct FlatMap {
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, u8>,
}
#[derive(Debug, Clone, Serialize, De)]
struct Wide128 {
    a: u8,
    w: i128,
    x: Option<u128>,
}
#[derive(Debug, Clone, Serialize, De)]
struct Borrowing<'a> {
    a: u8,
    #[serde(borrow)]
    s: Cow<'a, str>,
    t: &'a str,
    b: bool,
}
#[derive(Debug, Clone, Serialize)]
struct BorrowingOwned {
    a: u8,
    s: String,
    t: String,
    b: bool,
}

#[derive(Debug, Clone, Serialize, De)]
struct St<T> {
    a: u8,
    t: T,
    b: String,
}
#[derive(Debug, Clone, Serialize, De)]
struct Nt<T>(T);
#[derive(Debug, Clone, Serialize, De)]
enum En<T> {
    A,
    B(T),
    C { x: u8, t: T },
    D(T, u8),
}

type DeFn = fn(&[u8]) -> Result<String, under::DErr>;

fn bounded(b: &mut Vec<u8>) {
    // a type that takes no bytes makes the count of a sequence the only limit
    if let Some(f) = b.first_mut() {
        *f &= 0x7f
    }
}

/// Serializes, then decodes own, mutated and random bytes.
fn drive<S: Serialize + Debug>(c: &mut Case, name: &str, v: &S, de: DeFn) -> R {
    c.evals += 1;
    let own = no_panic(&format!("serializing {}", name), || under::ser(v))?;
    c.describe(|| format!("{} = {:?}", name, v));
    let mut b = match own {
        Ok(b) => {
            let mut long = b.clone();
            long.extend(tail(&mut c.src));
            c.eval();
            match no_panic(&format!("decoding {} from {}", name, hexs(&long)), || de(&long))? {
                Ok(s) => {
                    let e = format!("{:?}", v);
                    check!(s == e, "{}: {} came back as {}", name, e, s);
                    c.label("own bytes decode to the value");
                }
                Err(_) => c.label("own bytes rejected"),
            }
            c.nontrivial(h2(name.as_bytes(), &b));
            b
        }
        Err(_) => {
            c.label("serialization rejected");
            // the same through a writer that fails
            let w = Wr::new();
            let _ = no_panic(&format!("serializing {}", name), || under::ser_to(v, &w))?;
            w.bytes()
        }
    };
    for _ in 0..c.src.below(4) {
        mutate(&mut c.src, &mut b);
    }
    bounded(&mut b);
    c.eval();
    let _ = no_panic(&format!("decoding {} from {}", name, hexs(&b)), || de(&b))?;
    c.nontrivial(h2(name.as_bytes(), &b));
    let n = c.src.usize(40);
    let mut b: Vec<u8> = (0..n).map(|_| c.src.byte()).collect();
    if c.src.bool() {
        for x in &mut b {
            *x &= 7
        }
    }
    bounded(&mut b);
    c.eval();
    let _ = no_panic(&format!("decoding {} from {}", name, hexs(&b)), || de(&b))?;
    if !b.is_empty() {
        c.nontrivial(h2(name.as_bytes(), &b));
    }
    Ok(())
}

macro_rules! de {
    ($d:ty) => {
        |b: &[u8]| -> Result<String, under::DErr> {
            let mut r = b;
            let mut d = Deserializer::new(&mut r);
            let v = <$d>::deserialize(&mut d).map(|v| format!("{:?}", v));
            // the deserializer stays usable
            let _ = <(u8, String, Option<u16>)>::deserialize(&mut d);
            v
        }
    };
}

macro_rules! contexts {
    ($c:expr, $name:literal, $d:ty, $mk:expr) => {{
        let k = $c.src.below(10);
        let mk = $mk;
        let short = |s: &mut Src| gen_string_of(s, 3);
        match k {
            0 | 1 => {
                let v = mk(&mut $c.src);
                drive($c, $name, &v, de!($d))
            }
            2 => {
                let v = if $c.src.chance(230) { Some(mk(&mut $c.src)) } else { None };
                drive($c, concat!("Option<", $name, ">"), &v, de!(Option<$d>))
            }
            3 => {
                let n = $c.src.usize(4);
                let v: Vec<_> = (0..n).map(|_| mk(&mut $c.src)).collect();
                drive($c, concat!("Vec<", $name, ">"), &v, de!(Vec<$d>))
            }
            4 => {
                let v = ($c.src.byte(), mk(&mut $c.src), $c.src.byte());
                drive($c, concat!("(u8, ", $name, ", u8)"), &v, de!((u8, $d, u8)))
            }
            5 => {
                let v = St { a: $c.src.byte(), t: mk(&mut $c.src), b: short(&mut $c.src) };
                drive($c, concat!("struct of ", $name), &v, de!(St<$d>))
            }
            6 => {
                let v = Nt(mk(&mut $c.src));
                drive($c, concat!("newtype of ", $name), &v, de!(Nt<$d>))
            }
            7 => {
                let v = match $c.src.below(4) {
                    0 => En::B(mk(&mut $c.src)),
                    1 => En::C { x: 3, t: mk(&mut $c.src) },
                    2 => En::D(mk(&mut $c.src), 9),
                    _ => En::A,
                };
                drive($c, concat!("enum of ", $name), &v, de!(En<$d>))
            }
            8 => {
                let n = $c.src.usize(4);
                let v: BTreeMap<String, _> = (0..n).map(|i| (format!("k{}", i), mk(&mut $c.src))).collect();
                drive($c, concat!("map of ", $name), &v, de!(BTreeMap<String, $d>))
            }
            _ => {
                let v = Some(vec![(1u8, St { a: 1, t: En::B(mk(&mut $c.src)), b: short(&mut $c.src) })]);
                drive($c, concat!("nest of ", $name), &v, de!(Option<Vec<(u8, St<En<$d>>)>>))
            }
        }
    }};
}

fn text(s: &mut Src) -> String {
    let n = s.usize(20);
    gen_string_of(s, n)
}
fn any(s: &mut Src, depth: u32) -> AnyVal {
    match s.below(if depth == 0 { 7 } else { 10 }) {
        0 => AnyVal::Unit,
        1 => AnyVal::Bool(s.bool()),
        2 => AnyVal::I(s.int(64)),
        3 => AnyVal::U(s.uint(64)),
        4 => AnyVal::F(s.int(20) as f64),
        5 => AnyVal::Str(text(s)),
        6 => AnyVal::Bytes(text(s).into_bytes().into()),
        7 => AnyVal::Some(Box::new(any(s, depth - 1))),
        8 => {
            let n = s.usize(4);
            AnyVal::Seq((0..n).map(|_| any(s, depth - 1)).collect())
        }
        _ => {
            let n = s.usize(4);
            AnyVal::Map((0..n).map(|i| (format!("{}", i), any(s, depth - 1))).collect())
        }
    }
}

fn c23(c: &mut Case) -> R {
    match c.src.below(17) {
        0 => contexts!(c, "i128", i128, |s: &mut Src| (s.int(64) as i128) << (s.below(64) as u32)),
        1 => contexts!(c, "u128", u128, |s: &mut Src| (s.uint(64) as u128) << (s.below(64) as u32)),
        2 => contexts!(c, "struct with 128-bit fields", Wide128, |s: &mut Src| Wide128 {
            a: s.byte(),
            w: s.int(64) as i128,
            x: if s.bool() { Some(1) } else { None }
        }),
        3 => contexts!(c, "&str", &str, text),
        4 => contexts!(c, "&[u8]", &[u8], |s: &mut Src| serde_bytes::ByteBuf::from(text(s).into_bytes())),
        5 => contexts!(c, "&serde_bytes::Bytes", &serde_bytes::Bytes, |s: &mut Src| serde_bytes::ByteBuf::from(text(s).into_bytes())),
        6 => contexts!(c, "Borrowing", Borrowing, |s: &mut Src| BorrowingOwned { a: s.byte(), s: text(s), t: text(s), b: s.bool() }),
        7 => contexts!(c, "AnyVal", AnyVal, |s: &mut Src| any(s, 2)),
        8 => contexts!(c, "Untagged", Untagged, |s: &mut Src| match s.below(4) {
            0 => Untagged::A(s.bool()),
            1 => Untagged::B { x: s.uint(16) as u16, y: text(s) },
            2 => Untagged::C(text(s).into_bytes()),
            _ => Untagged::D(text(s)),
        }),
        9 => contexts!(c, "Internal", Internal, |s: &mut Src| match s.below(3) {
            0 => Internal::A,
            1 => Internal::B { x: s.uint(16) as u16, y: text(s) },
            _ => Internal::C { z: Some(s.byte() as i8) },
        }),
        10 => contexts!(c, "Adjacent", Adjacent, |s: &mut Src| match s.below(4) {
            0 => Adjacent::A,
            1 => Adjacent::B { x: s.uint(16) as u16, y: text(s) },
            2 => Adjacent::C(s.byte() as i8, s.byte()),
            _ => Adjacent::D(vec![s.bool(), s.bool()]),
        }),
        11 => contexts!(c, "Flat", Flat, |s: &mut Src| Flat {
            a: s.byte(),
            inner: FlatInner { x: s.uint(16) as u16, y: text(s) },
            b: s.bool()
        }),
        12 => contexts!(c, "FlatMap", FlatMap, |s: &mut Src| FlatMap {
            a: s.byte(),
            rest: (0..s.usize(4)).map(|i| (format!("r{}", i), i as u8)).collect()
        }),
        13 => ignored(c),
        14 => raw_requests(c),
        15 => contexts!(c, "(Untagged, Internal)", (Untagged, Internal), |s: &mut Src| (Untagged::A(s.bool()), Internal::A)),
        _ => contexts!(c, "BTreeMap<&str, u8>", BTreeMap<&str, u8>, |s: &mut Src| -> BTreeMap<String, u8> {
            (0..s.usize(4)).map(|i| (format!("m{}{}", i, text(s)), i as u8)).collect()
        }),
    }
}

/// Content skipped without knowing its type.
fn ignored(c: &mut Case) -> R {
    let o = TyOpts { depth: c.src.below(3) as u32, nodes: 6, wide: false, ..TyOpts::typed() };
    let ty = gen_ty(&mut c.src, o);
    let v = gen_val(&mut c.src, &ty, &mut VOpts { sorted_maps: false, budget: 20 });
    let mut b = enc(&ty, &v);
    let mark = c.src.byte();
    b.push(mark);
    b.extend(tail(&mut c.src));
    c.describe(|| format!("ignored {} = {}", ty, show(&v)));
    c.eval();
    c.nontrivial(h2(b"IgnoredAny", &b));
    let r = no_panic(&format!("skipping {} in {}", ty, hexs(&b)), || under::de::<(IgnoredAny, u8)>(&b).0)?;
    if let Ok((_, x)) = r {
        check!(x == mark, "skipping {} ({}) leaves the input at {}, the value after it is {}", ty, hexs(&b), x, mark);
    }
    c.label("ignored content");
    bounded(&mut b);
    macro_rules! all {
        ($($t:ty),*) => { $(
            c.eval();
            let _ = no_panic(concat!("decoding ", stringify!($t)), || de!($t)(&b))?;
        )* };
    }
    all!(IgnoredAny, Option<IgnoredAny>, Vec<IgnoredAny>, St<IgnoredAny>, En<IgnoredAny>, BTreeMap<String, IgnoredAny>, (u8, IgnoredAny));
    Ok(())
}

/// The requests themselves, made directly.
fn raw_requests(c: &mut Case) -> R {
    struct Strict;
    impl<'de> Visitor<'de> for Strict {
        type Value = ();
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("nothing")
        }
    }
    let n = c.src.usize(24);
    let b: Vec<u8> = (0..n).map(|_| c.src.byte()).collect();
    c.describe(|| format!("direct requests on {}", hexs(&b)));
    c.label("direct requests");
    if !b.is_empty() {
        c.nontrivial(h2(b"direct", &b));
    }
    macro_rules! req {
        ($($m:ident($($a:expr),*));* $(;)?) => { $(
            for any in [false, true] {
                c.eval();
                let r = no_panic(concat!("requesting ", stringify!($m)), || {
                    let mut r = &b[..];
                    let mut d = Deserializer::new(&mut r);
                    if any { d.$m($($a,)* AnyVisitor).map(|_| ()) } else { d.$m($($a,)* Strict) }
                })?;
                if !any && r.is_ok() {
                    fail!("{} on {} produced a value although the visitor takes none", stringify!($m), hexs(&b));
                }
            }
        )* };
    }
    req! {
        deserialize_any();
        deserialize_ignored_any();
        deserialize_i128();
        deserialize_u128();
        deserialize_str();
        deserialize_bytes();
        deserialize_identifier();
        deserialize_bool();
        deserialize_char();
        deserialize_unit();
        deserialize_unit_struct("U");
        deserialize_newtype_struct("N");
        deserialize_option();
        deserialize_string();
        deserialize_byte_buf();
        deserialize_tuple(2);
        deserialize_tuple_struct("T", 2);
        deserialize_struct("S", &["a", "b"]);
        deserialize_enum("E", &["A", "B"]);
        deserialize_u8();
        deserialize_u64();
        deserialize_i32();
        deserialize_f32();
        deserialize_f64();
    }
    Ok(())
}
