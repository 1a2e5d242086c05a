//! C21: headers of the built-in types.
#![recursion_limit = "1024"]
use dlhn_verif::case::{hexs, Case, R};
use dlhn_verif::derived::{check_header, check_value, header_bytes, Ops};
use dlhn_verif::model::{show, val_of, Val};
use dlhn_verif::props::h2;
use dlhn_verif::runner::Prop;
use dlhn_verif::{check, under};
use serde_bytes::{ByteBuf, Bytes};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

pub static C21: Prop = Prop {
    id: "C21",
    rule: "case: one of the listed compositions of built-in types, its header against the structural one, a random value serialized and decoded under the header. Non-trivial: distinct (type, encoding) with an encoding of at least 2 bytes",
    quick: 150_000,
    thorough: 6_000_000,
    run: c21,
    blocks: Some((c21_blocks, c21_block)),
    blocks_note: "every listed composition, with every leaf type alone, optional, in a vector and in a map, and tuples of every size 1..=16; borrowed and unordered types; 400 values each",
    known: &[],
    assumptions: &["values are built by the independent reference decoder"],
};

type Entry = (Ops, &'static str);

macro_rules! builtin_types {
    ($($t:ty => $d:literal;)*) => {
        static TYPES: &[Entry] = &[$((Ops::of::<$t>(stringify!($t)), $d)),*];
    };
}
include!("builtin_types.rs");

fn one(c: &mut Case, i: usize) -> R {
    let (o, d) = &TYPES[i];
    let h = check_header(c, o, d)?;
    check_value(c, o, d, d, &h)
}

fn c21(c: &mut Case) -> R {
    if c.src.chance(16) {
        return unordered(c);
    }
    let i = c.src.usize(TYPES.len());
    c.label(match TYPES[i].1.as_bytes()[0] {
        b'O' => "option",
        b'Q' => "vector",
        b'M' => "map",
        b'T' => "tuple",
        _ => "leaf",
    });
    one(c, i)
}

/// Hash maps: the order of the entries is the map's own.
fn unordered(c: &mut Case) -> R {
    c.label("hash map");
    let h = check_header(c, &Ops::of::<HashMap<String, Option<u16>>>("HashMap<String, Option<u16>>"), "M(O(u16))")?;
    let n = c.src.usize(9);
    let mut m: HashMap<String, Option<u16>> = HashMap::new();
    for i in 0..n {
        let v = if c.src.bool() { Some(c.src.uint(16) as u16) } else { None };
        m.insert(dlhn_verif::gen::gen_key(&mut c.src, i), v);
    }
    c.eval();
    let b = under::ser(&m).map_err(|e| format!("hash map not serialized: {:?}", e))?;
    let (body, used) = under::de_body(&h, &b);
    let body = body.map_err(|e| format!("hash map bytes {} do not decode under the header: {:?}", hexs(&b), e))?;
    check!(used == b.len(), "hash map: the body takes {} of {} bytes", used, b.len());
    let have = val_of(&h, &body)?;
    let mut want: Vec<(String, Val)> = m
        .iter()
        .map(|(k, v)| (k.clone(), Val::Opt(v.map(|x| Box::new(Val::U(x as u64))))))
        .collect();
    want.sort_by(|a, b| a.0.cmp(&b.0));
    check!(have == Val::Map(want.clone()), "hash map {:?} reads as the body {}", m, show(&have));
    let (back, used) = under::de::<HashMap<String, Option<u16>>>(&b);
    check!(back == Ok(m.clone()) && used == b.len(), "hash map {:?} comes back as {:?}", m, back);
    // borrowed keys
    let r: HashMap<&str, Option<u16>> = m.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    let b2 = under::ser(&r).map_err(|e| format!("hash map with borrowed keys not serialized: {:?}", e))?;
    let (body2, used) = under::de_body(&h, &b2);
    check!(body2 == Ok(body) && used == b2.len(), "hash map with borrowed keys {:?} reads as {:?}", m, body2);
    if n > 1 {
        c.nontrivial(h2(b"HashMap", &b));
    }
    Ok(())
}

fn c21_blocks(_: bool) -> u64 {
    TYPES.len() as u64 + 1
}
fn c21_block(i: u64, c: &mut Case) -> R {
    if (i as usize) < TYPES.len() {
        for _ in 0..400 {
            one(c, i as usize)?;
        }
        return Ok(());
    }
    // header implementations without owned values, and those for the libraries' own types
    macro_rules! hdr {
        ($($t:ty => $d:literal),* $(,)?) => { $(check_header(c, &Ops::header_only::<$t>(stringify!($t)), $d)?;)* };
    }
    hdr! {
        &str => "str",
        &'static str => "str",
        Bytes => "bytes",
        Option<&str> => "O(str)",
        Vec<&str> => "Q(str)",
        (&str, u8) => "T(str,u8)",
        BTreeMap<&str, u8> => "M(u8)",
        HashMap<&str, (u8, Bool)> => "M(T(u8,bool))",
        HashMap<String, HashMap<String, ()>> => "M(M(unit))",
        num_bigint::BigUint => "biguint",
        num_bigint::BigInt => "bigint",
        bigdecimal::BigDecimal => "bigdec",
        time::Date => "date",
        time::OffsetDateTime => "datetime",
        Vec<Option<num_bigint::BigInt>> => "Q(O(bigint))",
        (time::Date, time::OffsetDateTime, bigdecimal::BigDecimal) => "T(date,datetime,bigdec)",
    }
    // headers of thousands of bytes
    macro_rules! sixteen {
        ($t:ty) => { ($t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t) };
    }
    type A = sixteen!(u8);
    type B = sixteen!(A);
    type C = sixteen!(B);
    type D = sixteen!(C);
    let times = |d: &str| format!("T({})", vec![d; 16].join(","));
    let c3 = times(&times(&times("u8")));
    let c4 = times(&c3);
    macro_rules! long {
        ($($t:ty => $f:literal $d:expr),* $(,)?) => { $(check_header(c, &Ops::header_only::<$t>(stringify!($t)), &$f.replace('*', $d))?;)* };
    }
    long! {
        C => "*" &c3,
        Option<C> => "O(*)" &c3,
        Vec<C> => "Q(*)" &c3,
        BTreeMap<String, C> => "M(*)" &c3,
        HashMap<String, C> => "M(*)" &c3,
        (u8, C, u8) => "T(u8,*,u8)" &c3,
        D => "*" &c4,
        Option<Vec<D>> => "O(Q(*))" &c4,
        HashMap<&str, D> => "M(*)" &c4,
    }
    check!(header_bytes(&Ops::of::<Vec<ByteBuf>>("")).map_err(|e| e.to_string())? != header_bytes(&Ops::of::<Vec<Vec<u8>>>("")).map_err(|e| e.to_string())?, "byte buffers and vectors of bytes have one header");
    Ok(())
}
type Bool = bool;

fn main() {
    dlhn_verif::cli::run(&[&C21])
}
