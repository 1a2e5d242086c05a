//! C22: one build of dlhn with some selection of features. Every case is a pure function of its tape; the
//! driver (check.py) compares what the builds of all selections print for the same cases.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
#[path = "@HARNESS@/case.rs"]
mod case;
#[path = "@HARNESS@/dynserde.rs"]
mod dynserde;
#[path = "@HARNESS@/hook.rs"]
mod hook;
#[path = "@HARNESS@/gen.rs"]
mod gen;
#[path = "@HARNESS@/iox.rs"]
mod iox;
#[path = "@HARNESS@/model.rs"]
mod model;
#[path = "@HARNESS@/refserde.rs"]
mod refserde;
#[path = "@HARNESS@/tape.rs"]
mod tape;
#[path = "@HARNESS@/under.rs"]
mod under;

use case::{hex, hexs, unhex};
use gen::*;
use model::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tape::{case_seed, fnv, Src};

/// What a case shows, per lane. A lane exists where the selection has the types it is about.
struct Log {
    lanes: Vec<(&'static str, String)>,
    nontrivial: bool,
}
impl Log {
    fn put(&mut self, lane: &'static str, t: String) {
        match self.lanes.iter_mut().find(|l| l.0 == lane) {
            Some(l) => {
                l.1.push_str("; ");
                l.1.push_str(&t)
            }
            None => self.lanes.push((lane, t)),
        }
    }
    fn run<T: Debug>(&mut self, lane: &'static str, what: &str, f: impl FnOnce() -> T) {
        let t = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => format!("{} = {:?}", what, v),
            Err(_) => format!("{} panics", what),
        };
        self.put(lane, t)
    }
}

fn kind(e: under::DErr) -> &'static str {
    use dlhn::de::Error::*;
    match e {
        Read => "Read",
        CharSize => "CharSize",
        UnsupportedKeyType => "UnsupportedKeyType",
        Message(_) => "Message",
    }
}
fn skind(e: under::SErr) -> &'static str {
    use dlhn::ser::Error::*;
    match e {
        Write => "Write",
        UnsupportedKeyType => "UnsupportedKeyType",
        Message(_) => "Message",
    }
}
fn enc_of<T: Serialize>(v: &T) -> Result<String, &'static str> {
    under::ser(v).map(|b| hex(&b)).map_err(skind)
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Wrapped {
    a: dlhn::BigUint,
    b: Option<dlhn::BigInt>,
    c: Vec<dlhn::BigDecimal>,
    d: std::collections::BTreeMap<String, dlhn::Date>,
    e: dlhn::DateTime,
}
const WRAPPED: &str = "S(biguint,O(bigint),Q(bigdec),M(date),datetime)";

fn wrapper<T: Serialize + for<'a> Deserialize<'a> + Debug + Ord + std::hash::Hash + Clone>(l: &mut Log, name: &str, x: &[u8], y: &[u8]) {
    let one = |b: &[u8]| -> (Result<T, &'static str>, usize) {
        let (r, n) = under::de::<T>(b);
        (r.map_err(kind), n)
    };
    l.run("core", &format!("{} of {}", name, hexs(x)), || {
        let (r, n) = one(x);
        let e = r.as_ref().map(enc_of).map_err(|e| *e);
        (format!("{:?}", r), n, e)
    });
    l.run("core", &format!("{} order", name), || match (one(x).0, one(y).0) {
        (Ok(a), Ok(b)) => {
            use std::hash::Hash;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            a.hash(&mut h);
            Some((a.cmp(&b), a == b, std::hash::Hasher::finish(&h)))
        }
        _ => None,
    });
}

/// Conversions of a library's own types: through the wrapper, through the adapter, and its header.
macro_rules! library {
    ($m:ident, $lane:literal, $t:ty, $with:literal, $desc:literal, $from:expr, $into:expr) => {
        mod $m {
            use super::*;
            #[derive(Serialize, Deserialize)]
            #[serde(transparent)]
            struct A(#[serde(with = $with)] $t);
            pub fn run(l: &mut Log, b: &[u8]) {
                l.run($lane, concat!($desc, " adapter"), || {
                    let (r, n) = under::de::<A>(b);
                    (r.map(|a| (a.0.to_string(), enc_of(&a))).map_err(kind), n)
                });
                l.run($lane, concat!($desc, " conversion"), || {
                    let w = under::de(b).0.map_err(kind)?;
                    let v: $t = ($into)(w).map_err(|_| "not convertible")?;
                    let t = v.to_string();
                    let again = ($from)(v);
                    Ok::<_, &'static str>((t, enc_of(&again)))
                });
                l.run($lane, concat!($desc, " header"), || {
                    let mut h = Vec::new();
                    <$t as dlhn::SerializeHeader>::serialize_header(&mut h).map(|_| h).map_err(|e| e.kind())
                });
            }
        }
    };
}
#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
library!(biguint, "num", num_bigint::BigUint, "dlhn::format::big_uint", "biguint", dlhn::BigUint::from, |w: dlhn::BigUint| Ok::<num_bigint::BigUint, ()>(w.into()));
#[cfg(all(feature = "num-traits", feature = "num-bigint"))]
library!(bigint, "num", num_bigint::BigInt, "dlhn::format::big_int", "bigint", dlhn::BigInt::from, |w: dlhn::BigInt| Ok::<num_bigint::BigInt, ()>(w.into()));
#[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
library!(bigdec, "dec", bigdecimal::BigDecimal, "dlhn::format::big_decimal", "bigdec", dlhn::BigDecimal::from, |w: dlhn::BigDecimal| Ok::<bigdecimal::BigDecimal, ()>(w.into()));
#[cfg(feature = "time")]
library!(date, "time", time::Date, "dlhn::format::date", "date", dlhn::Date::from, |w: dlhn::Date| -> Result<time::Date, _> { std::convert::TryInto::try_into(w) });
#[cfg(feature = "time")]
library!(date_time, "time", time::OffsetDateTime, "dlhn::format::date_time", "datetime", dlhn::DateTime::from, |w: dlhn::DateTime| -> Result<time::OffsetDateTime, _> { std::convert::TryInto::try_into(w) });

#[cfg(feature = "dlhn_derive")]
mod derived {
    use super::*;
    use dlhn::SerializeHeader;
    #[derive(SerializeHeader)]
    struct D {
        a: dlhn::BigUint,
        #[serde(skip)]
        b: u8,
        c: (dlhn::Date, Option<dlhn::BigDecimal>),
        e: E,
    }
    #[derive(SerializeHeader)]
    enum E {
        A,
        B(dlhn::DateTime),
        C { x: dlhn::BigInt, y: Vec<String> },
    }
    pub fn run(l: &mut Log) {
        l.run("derive", "header", || {
            let mut h = Vec::new();
            D::serialize_header(&mut h).map(|_| hex(&h)).map_err(|e| e.kind())
        });
    }
}

/// Encodings of numbers no longer than the libraries print in reasonable time.
fn small_num(s: &mut Src, ty: &Ty) -> Vec<u8> {
    s.cap = 60;
    let b = match s.below(3) {
        0 => gen_hostile(s, ty).0,
        _ => {
            let v = match (val(s, ty), ty) {
                (Val::BigDec(d, e), _) => Val::BigDec(d, e.clamp(-400, 400)),
                (v, _) => v,
            };
            enc(ty, &v)
        }
    };
    s.cap = usize::MAX;
    b
}
/// Would the library print the number in reasonable time?
fn printable(b: &[u8]) -> bool {
    let mut d = Dec::new(b);
    match decode(&Ty::BigDec, &mut d) {
        Ok(Val::BigDec(_, e)) => (-2000..2000).contains(&e),
        _ => b.len() < 3000,
    }
}

fn case(s: &mut Src) -> Log {
    let mut l = Log { lanes: vec![], nontrivial: false };
    match s.below(8) {
        0 => {
            let o = TyOpts { depth: s.below(5) as u32, ..TyOpts::typed() };
            let ty = gen_ty(s, o);
            let v = val(s, &ty);
            let st = gen_style(s);
            l.run("core", &format!("typed {} = {}", ty, show(&v)), || {
                let b = under::ser_val(&ty, &v, st).map_err(skind)?;
                let (r, n) = under::de_val(&ty, &b, st);
                Ok::<_, &'static str>((hex(&b), r.map_err(kind), n))
            });
            l.nontrivial = ty.is_composite();
        }
        1 | 2 => {
            let o = TyOpts { depth: s.below(4) as u32, zero_elems: false, ..TyOpts::typed() };
            let ty = gen_ty(s, o);
            let (b, _) = gen_hostile(s, &ty);
            if ty.has_zero_size_elements() {
                return l;
            }
            l.run("core", &format!("typed {} from {}", ty, hexs(&b)), || {
                let (r, n) = under::de_val(&ty, &b, Default::default());
                (r.map_err(kind), n)
            });
            l.nontrivial = b.len() > 1;
        }
        3 => {
            let d = s.usize(7);
            let mut n = 40;
            let h = gen_header(s, d, &mut n, false);
            let mut b = Vec::new();
            put_header(&h, &mut b);
            for _ in 0..s.usize(4) {
                mutate(s, &mut b);
            }
            l.run("core", &format!("header {}", hexs(&b)), || {
                let (r, n) = under::de_header(&b);
                (r.map_err(|e| e.kind()), n)
            });
            l.run("core", "header bytes", || under::ser_header(&h).map_err(|e| e.kind()));
            l.nontrivial = b.len() > 1;
        }
        4 | 5 => {
            let o = TyOpts { depth: s.below(5) as u32, zero_elems: false, ..TyOpts::described() };
            let ty = gen_ty(s, o);
            let h = match header_of(&ty) {
                Some(h) if !ty.has_zero_size_elements() => h,
                _ => return l,
            };
            let v = body_val(s, &ty);
            let other = {
                let mut n = 6;
                gen_header(s, 3, &mut n, false)
            };
            let (hostile, _) = gen_hostile(s, &ty);
            l.run("core", &format!("body {} = {}", ty, show(&v)), || {
                let b = body_of(&ty, &v);
                let e = under::ser(&b).map_err(skind)?;
                let (r, n) = under::de_body(&h, &e);
                Ok::<_, &'static str>((hex(&e), r == Ok(b.clone()), n, b.validate(&h), b.validate(&other)))
            });
            l.run("core", &format!("body under {} from {}", ty, hexs(&hostile)), || {
                let (r, n) = under::de_body(&h, &hostile);
                (r.map_err(kind), n)
            });
            l.nontrivial = true;
        }
        6 => {
            let ty = parse_ty(WRAPPED);
            let (x, _) = gen_hostile(s, &ty);
            let (y, _) = gen_hostile(s, &ty);
            wrapper::<Wrapped>(&mut l, "Wrapped", &x, &y);
            macro_rules! w {
                ($t:ty, $d:expr) => {
                    let (x, _) = gen_hostile(s, &$d);
                    let (y, _) = gen_hostile(s, &$d);
                    wrapper::<$t>(&mut l, stringify!($t), &x, &y);
                };
            }
            w!(dlhn::BigUint, Ty::BigUint);
            w!(dlhn::BigInt, Ty::BigInt);
            w!(dlhn::BigDecimal, Ty::BigDec);
            w!(dlhn::Date, Ty::Date);
            w!(dlhn::DateTime, Ty::DateTime);
            l.nontrivial = true;
        }
        _ => {
            let u = small_num(s, &Ty::BigUint);
            let i = small_num(s, &Ty::BigInt);
            let d = small_num(s, &Ty::BigDec);
            let day = small_num(s, &Ty::Date);
            let at = small_num(s, &Ty::DateTime);
            let ok = printable(&d) && u.len() < 3000 && i.len() < 3000;
            #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
            if ok {
                biguint::run(&mut l, &u);
                bigint::run(&mut l, &i);
            }
            #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
            if ok {
                bigdec::run(&mut l, &d);
            }
            #[cfg(feature = "time")]
            {
                date::run(&mut l, &day);
                date_time::run(&mut l, &at);
            }
            #[cfg(feature = "dlhn_derive")]
            derived::run(&mut l);
            l.put("core", format!("numbers {} {} {}, dates {} {}, {}", hexs(&u), hexs(&i), hexs(&d), hexs(&day), hexs(&at), ok));
            l.nontrivial = true;
        }
    }
    l
}

fn at(seed: u64, i: u64) -> (Log, Vec<u8>) {
    let mut s = Src::random(case_seed(seed, "C22", i));
    let l = case(&mut s);
    (l, s.tape)
}

fn cut(t: &str, n: usize) -> String {
    if t.chars().count() <= n {
        return t.to_string();
    }
    t.chars().take(n).collect::<String>() + "…"
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(64 << 20);
    let h = t
        .spawn(move || {
            let num = |i: usize| -> u64 { a[i].parse().unwrap() };
            match a[1].as_str() {
            // blocks <seed> <first> <last> <size>: per block and lane the hash of what the cases show
            "blocks" => {
                let (seed, from, to, size) = (num(2), num(3), num(4), num(5));
                let mut i = from;
                while i < to {
                    let end = (i + size).min(to);
                    let mut lanes: Vec<(&'static str, u64)> = vec![];
                    let mut nt = 0;
                    for k in i..end {
                        let (l, _) = at(seed, k);
                        nt += l.nontrivial as u64;
                        for (n, t) in &l.lanes {
                            let x = fnv(t.as_bytes());
                            match lanes.iter_mut().find(|y| y.0 == *n) {
                                Some(y) => y.1 = y.1.rotate_left(7) ^ x,
                                None => lanes.push((n, x)),
                            }
                        }
                    }
                    print!("{} {}", i, nt);
                    lanes.sort();
                    for (n, h) in lanes {
                        print!(" {}={:016x}", n, h);
                    }
                    println!();
                    i = end;
                }
            }
            // tape <file with hex>: what the case shows
            "tape" => {
                let l = case(&mut Src::replay(unhex(&std::fs::read_to_string(&a[2]).unwrap())));
                for (n, t) in l.lanes {
                    println!("{} {:016x} {}", n, fnv(t.as_bytes()), cut(&t, 1500).replace('\n', " "));
                }
            }
            // draw <seed> <case>: the tape
            "draw" => println!("{}", hex(&at(num(2), num(3)).1)),
            // show <seed> <case>
            "show" => {
                for (n, t) in at(num(2), num(3)).0.lanes {
                    println!("{} {}", n, cut(&t, 400).replace('\n', " "));
                }
            }
            _ => std::process::exit(2),
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
