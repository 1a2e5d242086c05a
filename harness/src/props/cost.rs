//! C26: the work is proportional to the data.
use super::*;
use crate::alloc::measure;
use crate::case::{Case, R};
use crate::dynserde::{Seed, SerVal};
use crate::gen::*;
use dlhn::{Body, DeserializeHeader, Deserializer, Header, Serializer};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};

pub static C26: Prop = Prop {
    id: "C26",
    rule: "case: a random type and value around one dimension (elements, map entries in any order, text, byte string, number, tuple, enum, header entries, values in one stream) at a size of some 16 KiB and at 16 times that; encoding, decoding, decoding cut input, dynamic encoding and decoding, conformance checking of right and wrong bodies, number adapters and header coding measured by processor time of the thread, reader or writer calls and memory. Superlinear time counts when the ratio exceeds 60 (16 is linear, 256 quadratic) and, over another factor of 4, 10 (8 downwards). Memory may grow 40-fold and by a MiB, for values coded one by one in one stream 4-fold and by 64 KiB; transport calls 20-fold. Non-trivial: distinct (type, dimension) with the larger encoding of at least 64 KiB",
    quick: 1_600,
    thorough: 30_000,
    run: c26,
    blocks: Some((|_| 3, deep)),
    blocks_note: "every wrapper and all in turn nested to depth 16, 28 and 120 around one small value: each operation within half a second of processor time",
    known: &[],
    assumptions: &["serde's collections and the harness's own types take time proportional to their elements", "processor time of a thread grows by less than 3.7 times for other reasons when data grows 16 times"],
};

/// Processor seconds of this thread.
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// A writer that counts and forgets.
struct Sink {
    calls: u64,
    bytes: u64,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        self.bytes += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Counted<'a> {
    b: &'a [u8],
    calls: u64,
}
impl<'a> Read for Counted<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.b.read(b)
    }
}

const DIMS: [&str; 10] =
    ["elements", "map entries", "text", "byte string", "number", "tuple", "enum", "payload", "values in one stream", "text elements"];

/// The inner type and value at size n.
struct Grown {
    dim: usize,
    elem: Ty,
    vals: Vec<Val>,
    order: u64,
    wrap: Vec<u64>,
    st: crate::dynserde::Style,
}

impl Grown {
    /// Some texts and byte strings are all different.
    fn nth(&self, i: usize) -> Val {
        match (&self.elem, self.order & 8) {
            (Ty::Str, 8) => Val::Str(format!("{:08x}", (i as u32).wrapping_mul(0x9E37_79B1))),
            (Ty::Bytes, 8) => Val::Bytes((i as u64).to_le_bytes().to_vec()),
            _ => self.vals[i % self.vals.len()].clone(),
        }
    }

    fn at(&self, n: usize) -> (Ty, Val) {
        let bx = |t: &Ty| Box::new(t.clone());
        let cycle = |n: usize| (0..n).map(|i| self.nth(i)).collect::<Vec<_>>();
        let (mut t, mut v) = match self.dim {
            0 | 8 => (Ty::Seq(bx(&self.elem)), Val::Seq(cycle(n))),
            9 => (Ty::Seq(Box::new(Ty::Str)), Val::Seq((0..n).map(|i| Val::Str(format!("{}{}", i, "é".repeat(i * self.order as usize % 90)))).collect())),
            1 => {
                let key = |i: usize| match self.order % 4 {
                    0 => format!("{:08}", i),
                    1 => format!("{:08}", n - i),
                    2 => format!("{:08x}", (i as u32).wrapping_mul(0x9E37_79B1)),
                    _ => format!("a long prefix all keys share {}", i),
                };
                let mut m: Vec<(String, Val)> = (0..n).map(|i| (key(i), self.nth(i))).collect();
                if self.order % 8 < 4 {
                    m.sort_by(|a, b| a.0.cmp(&b.0));
                }
                (Ty::Map(bx(&self.elem)), Val::Map(m))
            }
            2 => (Ty::Str, Val::Str(if self.order % 2 == 0 { "x".repeat(n) } else { "é€".repeat(n / 5) })),
            3 => (Ty::Bytes, Val::Bytes((0..n).map(|i| (i ^ (i >> 8)) as u8).collect())),
            4 => {
                let mut b: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
                b.push(1);
                match self.order % 3 {
                    0 => (Ty::BigUint, Val::BigUint(b)),
                    1 => (Ty::BigInt, Val::BigInt(b)),
                    _ => {
                        b[0] |= 1;
                        if divisible_by_10(&b) {
                            b[0] ^= 2;
                        }
                        (Ty::BigDec, Val::BigDec(b, 5))
                    }
                }
            }
            5 => {
                let ts = vec![self.elem.clone(); n];
                (if self.order % 2 == 0 { Ty::Tuple(ts) } else { Ty::TupleStruct(ts) }, Val::Tup(cycle(n)))
            }
            6 => {
                let vars: Vec<Var> = (0..n).map(|i| if i % 3 == 0 { Var::Unit } else { Var::Newtype(self.elem.clone()) }).collect();
                let k = |i: usize| if i % 3 == 0 { Val::Enum(i as u32, Box::new(Val::Unit)) } else { Val::Enum(i as u32, Box::new(self.vals[i % self.vals.len()].clone())) };
                (Ty::Enum(0, vars), k(n - 1))
            }
            _ => (Ty::Enum(0, vec![Var::Unit, Var::Tuple(vec![self.elem.clone(); n])]), Val::Enum(1, Box::new(Val::Tup(cycle(n))))),
        };
        for w in &self.wrap {
            (t, v) = match *w {
                0 => (Ty::Opt(Box::new(t)), Val::Opt(Some(Box::new(v)))),
                1 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v])),
                2 => (Ty::Map(Box::new(t)), Val::Map(vec![("k".into(), v)])),
                3 => (Ty::Tuple(vec![Ty::U8, t, Ty::Str]), Val::Tup(vec![Val::U(1), v, Val::Str("end".into())])),
                4 => (Ty::Enum(0, vec![Var::Unit, Var::Newtype(t)]), Val::Enum(1, Box::new(v))),
                _ => (Ty::Struct(vec![t, Ty::Bool]), Val::Tup(vec![v, Val::Bool(true)])),
            };
        }
        (t, v)
    }
}

macro_rules! adapted {
    ($n:ident $t:ty, $w:literal) => {
        #[derive(Serialize, Deserialize)]
        #[serde(transparent)]
        struct $n(#[serde(with = $w)] $t);
    };
}
adapted!(AUint num_bigint::BigUint, "dlhn::format::big_uint");
adapted!(AInt num_bigint::BigInt, "dlhn::format::big_int");
adapted!(ADec bigdecimal::BigDecimal, "dlhn::format::big_decimal");

enum Num {
    U(AUint),
    I(AInt),
    D,
}

/// Everything an operation needs, made beforehand.
struct Made {
    ty: Ty,
    v: Val,
    st: crate::dynserde::Style,
    bytes: Vec<u8>,
    /// header, body, header's bytes, the body with its last part replaced
    header: Option<(Header, Body, Vec<u8>, Body)>,
    /// the elements, for a stream
    parts: Option<(Ty, Vec<Val>, Vec<u8>)>,
    num: Option<Num>,
}

fn made(g: &Grown, n: usize) -> Made {
    let (ty, v) = g.at(n);
    let bytes = enc(&ty, &v);
    let header = header_of(&ty).map(|h| {
        let b = body_of(&ty, &v);
        let mut hb = Vec::new();
        put_header(&h, &mut hb);
        let mut bad = b.clone();
        spoil(&mut bad);
        (h, b, hb, bad)
    });
    let parts = if g.dim == 8 {
        let vs: Vec<Val> = (0..n).map(|i| g.nth(i)).collect();
        let mut b = Vec::new();
        for x in &vs {
            b.extend(enc(&g.elem, x));
        }
        Some((g.elem.clone(), vs, b))
    } else {
        None
    };
    let num = match &v {
        Val::BigUint(b) => Some(Num::U(AUint(num_bigint::BigUint::from_bytes_le(b)))),
        Val::BigInt(b) => Some(Num::I(AInt(num_bigint::BigInt::from_signed_bytes_le(b)))),
        Val::BigDec(..) => Some(Num::D),
        _ => None,
    };
    Made { ty, v, st: g.st, bytes, header, parts, num }
}

const OPS: [&str; 13] = [
    "encoding",
    "decoding",
    "decoding all but the last byte",
    "dynamic encoding",
    "dynamic decoding",
    "checking conformance",
    "encoding the header",
    "decoding the header",
    "encoding one by one",
    "decoding one by one",
    "checking conformance of a body wrong at its end",
    "encoding through the adapter",
    "decoding through the adapter",
];

/// Runs the operation; None where it does not apply. Transport calls, whether it went as it must.
fn perform(op: usize, m: &Made) -> Option<(u64, bool)> {
    let sink = || Sink { calls: 0, bytes: 0 };
    let src = |b| Counted { b, calls: 0 };
    Some(match op {
        0 => {
            let mut w = sink();
            let ok = SerVal(&m.ty, &m.v, m.st).serialize(&mut Serializer::new(&mut w)).is_ok();
            (w.calls, ok && w.bytes == m.bytes.len() as u64)
        }
        1 | 2 => {
            let cut = if op == 2 { m.bytes.len().checked_sub(1)? } else { m.bytes.len() };
            let mut r = src(&m.bytes[..cut]);
            let ok = Seed(&m.ty, m.st).deserialize(&mut Deserializer::new(&mut r)).is_ok();
            (r.calls, ok == (op == 1))
        }
        3 => {
            let (_, b, ..) = m.header.as_ref()?;
            let mut w = sink();
            let ok = b.serialize(&mut Serializer::new(&mut w)).is_ok();
            (w.calls, ok)
        }
        4 => {
            let (h, ..) = m.header.as_ref()?;
            let mut r = src(&m.bytes);
            let ok = Body::deserialize(h, &mut Deserializer::new(&mut r)).is_ok();
            (r.calls, ok)
        }
        5 => {
            let (h, b, ..) = m.header.as_ref()?;
            (0, b.validate(h))
        }
        6 => {
            let (h, ..) = m.header.as_ref()?;
            let mut w = sink();
            let ok = h.serialize(&mut w).is_ok();
            (w.calls, ok)
        }
        7 => {
            let (_, _, hb, _) = m.header.as_ref()?;
            let mut r = src(hb);
            let h: io::Result<Header> = r.deserialize_header();
            let ok = h.is_ok();
            (r.calls, ok)
        }
        8 => {
            let (t, vs, b) = m.parts.as_ref()?;
            let mut w = sink();
            let ok = {
                let mut s = Serializer::new(&mut w);
                vs.iter().all(|v| SerVal(t, v, m.st).serialize(&mut s).is_ok())
            };
            (w.calls, ok && w.bytes == b.len() as u64)
        }
        9 => {
            let (t, vs, b) = m.parts.as_ref()?;
            let mut r = src(b);
            let ok = {
                let mut d = Deserializer::new(&mut r);
                vs.iter().all(|_| Seed(t, m.st).deserialize(&mut d).is_ok())
            };
            (r.calls, ok)
        }
        10 => {
            let (h, .., bad) = m.header.as_ref()?;
            (0, !bad.validate(h))
        }
        11 => {
            let mut w = sink();
            let mut s = Serializer::new(&mut w);
            let ok = match m.num.as_ref()? {
                Num::U(x) => x.serialize(&mut s).is_ok(),
                Num::I(x) => x.serialize(&mut s).is_ok(),
                // normalizing is the number library's, and more than linear
                Num::D => return None,
            };
            (w.calls, ok && w.bytes == m.bytes.len() as u64)
        }
        _ => {
            let mut r = src(&m.bytes);
            let mut d = Deserializer::new(&mut r);
            let ok = match m.num.as_ref()? {
                Num::U(_) => AUint::deserialize(&mut d).is_ok(),
                Num::I(_) => AInt::deserialize(&mut d).is_ok(),
                Num::D => ADec::deserialize(&mut d).is_ok(),
            };
            (r.calls, ok)
        }
    })
}

/// Replaces the last leaf by something its header does not describe.
fn spoil(b: &mut Body) {
    match b {
        Body::Optional(Some(x)) | Body::Enum(_, x) => return spoil(x),
        Body::Array(x) | Body::Tuple(x) if !x.is_empty() => return spoil(x.last_mut().unwrap()),
        Body::Map(x) if !x.is_empty() => return spoil(x.values_mut().next_back().unwrap()),
        _ => {}
    }
    *b = if matches!(b, Body::Boolean(_)) { Body::Unit } else { Body::Boolean(true) };
}

/// Least processor time of some runs.
fn least(op: usize, m: &Made, runs: usize) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..runs {
        let t = cpu();
        std::hint::black_box(perform(op, m));
        best = best.min(cpu() - t);
    }
    best
}

fn c26(c: &mut Case) -> R {
    let s = &mut c.src;
    let dim = s.usize(DIMS.len());
    let describable = s.chance(170);
    let mut elem = Ty::U32;
    let mut vals = Vec::new();
    if !matches!(dim, 2 | 3 | 4 | 9) {
        let leaf = s.chance(50);
        if leaf {
            elem = if s.bool() { Ty::Str } else { Ty::Bytes };
        }
        for _ in 0..if leaf { 0 } else { 4 } {
            let t = gen_ty(s, TyOpts { depth: 3, nodes: 6, describable, zero_elems: false, wide: false });
            if !t.has_zero_size_elements() && !t.has_empty_enum() && !Ty::Seq(Box::new(t.clone())).has_zero_size_elements() {
                elem = t;
                break;
            }
        }
        for _ in 0..1 + s.usize(4) {
            let cap = s.cap;
            s.cap = 40;
            vals.push(gen_val(s, &elem, &mut VOpts { sorted_maps: true, budget: 12 }));
            s.cap = cap;
        }
    }
    let g = Grown { dim, elem, vals, order: s.below(64), wrap: (0..s.usize(4)).map(|_| s.below(6)).collect(), st: gen_style(s) };
    let one = g.vals.iter().map(|v| enc(&g.elem, v).len()).max().unwrap_or(1).max(1);
    let n = match dim {
        2 | 3 => if s.chance(64) { 1 << 20 } else { 256 << 10 },
        4 => 16 << 10,
        5 | 7 => (16_384 / one).clamp(16, 4_000),
        6 => 2_000,
        9 => 400,
        _ => (16_384 / one).clamp(16, 4_096),
    };
    let small = made(&g, n);
    let big = made(&g, 16 * n);
    c.describe(|| format!("{} of {}: {} and {} ({} and {} bytes), wrapped {:?}", DIMS[dim], g.elem, n, 16 * n, small.bytes.len(), big.bytes.len(), g.wrap));
    c.label(DIMS[dim]);
    if big.bytes.len() >= 65_536 || dim == 6 {
        c.nontrivial(h2(g.elem.to_string().as_bytes(), &[dim as u8, g.order as u8, g.wrap.len() as u8]));
    }
    for op in 0..OPS.len() {
        if op == 2 && g.wrap.len() + big.bytes.len() < 64 {
            continue;
        }
        let Some((calls, ok)) = perform(op, &small) else { continue };
        let (r, peak, _) = measure(|| perform(op, &big));
        let Some((calls16, ok16)) = r else { continue };
        if !ok || !ok16 {
            // another property's
            c.label("an operation failed");
            continue;
        }
        c.eval();
        check!(
            calls16 <= 20 * calls + 256,
            "{} {} {} takes {} transport calls, {} takes {}",
            OPS[op],
            n,
            DIMS[dim],
            calls,
            16 * n,
            calls16
        );
        let (_, peak1, _) = measure(|| perform(op, &small));
        check!(
            peak <= if op == 8 || op == 9 { 4 * peak1.max(0) + (64 << 10) } else { 40 * peak1.max(0) + (1 << 20) },
            "{} {} {} needs {} bytes of memory, {} needs {}",
            OPS[op],
            n,
            DIMS[dim],
            peak1,
            16 * n,
            peak
        );
        let a = least(op, &small, 2);
        let b = least(op, &big, 1);
        if b <= 60.0 * a + 0.03 {
            continue;
        }
        // again, with more care
        let a = least(op, &small, 9);
        let b = least(op, &big, 3);
        if b <= 60.0 * a + 0.03 {
            c.label("measured twice");
            continue;
        }
        // once more at another scale; the header's own limits stand in the way of wider tuples and
        // enums, and time of longer work: downwards then
        let (x, y, most) = if matches!(dim, 5 | 6 | 7) || b > 0.2 {
            (least(op, &made(&g, 4 * n), 5), b, 8.0)
        } else {
            (b, least(op, &made(&g, 64 * n), 2), 10.0)
        };
        check!(
            y <= most * x,
            "{} {} {} takes {:.6} s of processor time, {} takes {:.6} s ({} bytes): more than in proportion",
            OPS[op],
            n,
            DIMS[dim],
            a,
            16 * n,
            b,
            big.bytes.len()
        );
    }
    Ok(())
}

fn deep(i: u64, c: &mut Case) -> R {
    let depth = [16, 28, 120][i as usize];
    for kind in 0..7u64 {
        let g = Grown {
            dim: 2,
            elem: Ty::Unit,
            vals: vec![],
            order: 0,
            wrap: (0..depth).map(|k| if kind == 6 { k % 6 } else { kind }).collect(),
            st: gen_style(&mut c.src),
        };
        let m = made(&g, 30);
        c.describe(|| format!("{} levels of wrapper {}", depth, kind));
        for op in (0..8).chain([10]) {
            let t = cpu();
            let Some((_, ok)) = perform(op, &m) else { continue };
            let t = cpu() - t;
            c.eval();
            check!(ok || op == 7, "{} {} levels of wrapper {} fails", OPS[op], depth, kind);
            check!(t < 0.5, "{} {} levels of wrapper {} takes {:.3} s of processor time", OPS[op], depth, kind, t);
        }
        c.nontrivial(h2(b"deep", &[kind as u8, i as u8]));
    }
    Ok(())
}
