//! C16 big numbers, C17 dates, C18 date-times.
use super::*;
use crate::case::{hexs, Case, R};
use crate::gen::*;
use crate::runner::no_panic;
use crate::under;
use num_bigint::{BigInt as NInt, BigUint as NUint};
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryInto;
use std::hash::{Hash, Hasher};

macro_rules! adapted {
    ($n:ident $t:ty, $w:literal) => {
        #[derive(Serialize, Deserialize, Clone)]
        #[serde(transparent)]
        struct $n(#[serde(with = $w)] $t);
    };
}
adapted!(AUint NUint, "dlhn::format::big_uint");
adapted!(AInt NInt, "dlhn::format::big_int");
adapted!(ADec bigdecimal::BigDecimal, "dlhn::format::big_decimal");
adapted!(ADate time::Date, "dlhn::format::date");
adapted!(ADateTime time::OffsetDateTime, "dlhn::format::date_time");

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn lenbytes(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    put_varint(&mut o, b.len() as u64, 64);
    o.extend_from_slice(b);
    o
}

/// A number known by the bytes it must be written as.
trait Num {
    const NAME: &'static str;
    type N: Clone;
    type W: Clone + PartialEq + Hash + std::fmt::Debug + Serialize + for<'a> Deserialize<'a>;
    type A: Serialize + for<'a> Deserialize<'a>;
    fn wrap(n: Self::N) -> Self::W;
    fn unwrap(w: Self::W) -> Self::N;
    fn adapt(n: Self::N) -> Self::A;
    fn adapted(a: Self::A) -> Self::N;
    /// canonical wire bytes, computed from the number's digits
    fn wire(n: &Self::N) -> Vec<u8>;
    /// draws a number; `again` is the same number built differently
    fn draw(s: &mut Src) -> (Self::N, Self::N);
    fn near(s: &mut Src, n: &Self::N) -> Self::N;
    /// Wire bytes as any writer may produce them, and the number they denote.
    fn loose(s: &mut Src) -> Vec<u8>;
    fn text(n: &Self::N) -> String;
}

fn short(mut t: String) -> String {
    if t.len() > 120 {
        t.truncate(120);
        t.push_str("...");
    }
    t
}

struct U;
impl Num for U {
    const NAME: &'static str = "unsigned";
    type N = NUint;
    type W = dlhn::BigUint;
    type A = AUint;
    fn wrap(n: NUint) -> Self::W {
        n.into()
    }
    fn unwrap(w: Self::W) -> NUint {
        w.into()
    }
    fn adapt(n: NUint) -> AUint {
        AUint(n)
    }
    fn adapted(a: AUint) -> NUint {
        a.0
    }
    fn wire(n: &NUint) -> Vec<u8> {
        // digits by repeated division, not by the library's byte export
        let mut b = Vec::new();
        for d in n.iter_u64_digits() {
            b.extend_from_slice(&d.to_le_bytes());
        }
        lenbytes(&minimize_unsigned(b))
    }
    fn draw(s: &mut Src) -> (NUint, NUint) {
        let b = gen_biguint(s);
        let n = NUint::from_bytes_le(&b);
        let mut m = NUint::from(0u8);
        // the same number through arithmetic
        m += &n;
        m <<= 9u32;
        m >>= 9u32;
        (n, m)
    }
    fn near(s: &mut Src, n: &NUint) -> NUint {
        match s.below(3) {
            0 => n + 1u8,
            1 => n << 8u32,
            _ => n ^ &(NUint::from(1u8) << s.usize(n.bits() as usize + 9)),
        }
    }
    fn loose(s: &mut Src) -> Vec<u8> {
        let mut b = gen_biguint(s);
        for _ in 0..s.usize(4) {
            b.push(0);
        }
        lenbytes(&b)
    }
    fn text(n: &NUint) -> String {
        short(format!("{:x}", n))
    }
}

fn signed_wire(n: &NInt) -> Vec<u8> {
    // two's complement from sign and magnitude
    let (neg, mag) = match n.sign() {
        num_bigint::Sign::Minus => (true, n.magnitude().clone()),
        _ => (false, n.magnitude().clone()),
    };
    let mut b = Vec::new();
    for d in mag.iter_u64_digits() {
        b.extend_from_slice(&d.to_le_bytes());
    }
    b.push(0);
    if neg {
        let mut carry = true;
        for x in b.iter_mut() {
            *x = !*x;
            if carry {
                let (y, c) = x.overflowing_add(1);
                *x = y;
                carry = c;
            }
        }
    }
    minimize_signed(b)
}

struct I;
impl Num for I {
    const NAME: &'static str = "signed";
    type N = NInt;
    type W = dlhn::BigInt;
    type A = AInt;
    fn wrap(n: NInt) -> Self::W {
        n.into()
    }
    fn unwrap(w: Self::W) -> NInt {
        w.into()
    }
    fn adapt(n: NInt) -> AInt {
        AInt(n)
    }
    fn adapted(a: AInt) -> NInt {
        a.0
    }
    fn wire(n: &NInt) -> Vec<u8> {
        lenbytes(&signed_wire(n))
    }
    fn draw(s: &mut Src) -> (NInt, NInt) {
        let b = gen_bigint(s);
        let n = NInt::from_signed_bytes_le(&b);
        let m = &n - NInt::from(77) + NInt::from(77);
        (n, m)
    }
    fn near(s: &mut Src, n: &NInt) -> NInt {
        match s.below(4) {
            0 => n + 1u8,
            1 => -n + NInt::from((n.sign() == num_bigint::Sign::NoSign) as u8),
            2 => n - 1u8,
            _ => n + (NInt::from(1u8) << s.usize(n.bits() as usize + 9)),
        }
    }
    fn loose(s: &mut Src) -> Vec<u8> {
        let mut b = gen_bigint(s);
        let fill = if b.last().map_or(false, |x| x & 0x80 != 0) { 0xff } else { 0 };
        for _ in 0..s.usize(4) {
            b.push(fill);
        }
        lenbytes(&b)
    }
    fn text(n: &NInt) -> String {
        short(format!("{:x}", n))
    }
}

/// Digits without the factors of ten that the scale can express, and the scale, both computed here.
fn dec_parts(n: &bigdecimal::BigDecimal) -> (NInt, i128) {
    let (mut d, s) = n.as_bigint_and_exponent();
    let mut s = s as i128;
    if d.sign() == num_bigint::Sign::NoSign {
        return (d, 0);
    }
    loop {
        let q = &d / 10;
        if &q * 10 != d || s == i64::MIN as i128 {
            return (d, s);
        }
        d = q;
        s -= 1;
    }
}

struct D;
impl Num for D {
    const NAME: &'static str = "decimal";
    type N = bigdecimal::BigDecimal;
    type W = dlhn::BigDecimal;
    type A = ADec;
    fn wrap(n: Self::N) -> Self::W {
        n.into()
    }
    fn unwrap(w: Self::W) -> Self::N {
        w.into()
    }
    fn adapt(n: Self::N) -> ADec {
        ADec(n)
    }
    fn adapted(a: ADec) -> Self::N {
        a.0
    }
    fn wire(n: &Self::N) -> Vec<u8> {
        let (d, s) = dec_parts(n);
        let mut o = lenbytes(&signed_wire(&d));
        if d.sign() != num_bigint::Sign::NoSign {
            put_varint(&mut o, zigzag(s as i64), 64);
        }
        o
    }
    fn draw(s: &mut Src) -> (Self::N, Self::N) {
        let d = NInt::from_signed_bytes_le(&gen_bigint(s));
        let (mut a, mut z) = dec_parts(&bigdecimal::BigDecimal::new(d, 0));
        let zero = a.sign() == num_bigint::Sign::NoSign;
        z += match s.below(5) {
            0 => 0,
            1 => s.int(8) as i128,
            2 => s.int(32) as i128,
            3 => *s.pick(&[i64::MAX as i128 - 64, i64::MIN as i128, i64::MIN as i128 + 1, -64, 63, 64, -65, 8191, 8192, -8193]),
            _ => s.int(64) as i128,
        };
        let z = z.clamp(i64::MIN as i128, i64::MAX as i128 - 64) as i64;
        if z == i64::MIN {
            // zeros that no scale can express
            for _ in 0..s.usize(4) {
                a = a * 10;
            }
        }
        // trailing zeros in the digits: the same number at another scale
        let k = s.usize(24) as u32;
        let mut b = a.clone();
        let mut zb = z;
        for _ in 0..k {
            b = b * 10;
            zb += 1;
        }
        if zero {
            // zero at any scale
            zb = s.int(32);
            a = NInt::from(0);
        }
        let (x, y) = (bigdecimal::BigDecimal::new(a, z), bigdecimal::BigDecimal::new(b, zb));
        if s.bool() {
            (x, y)
        } else {
            (y, x)
        }
    }
    fn near(s: &mut Src, n: &Self::N) -> Self::N {
        let (d, e) = n.as_bigint_and_exponent();
        let bump = (d.sign() == num_bigint::Sign::NoSign) as u8;
        match s.below(4) {
            0 => bigdecimal::BigDecimal::new(d + 1, e),
            1 => bigdecimal::BigDecimal::new(-d + bump, e),
            2 => bigdecimal::BigDecimal::new(d + bump, e.checked_add(1).unwrap_or(0)),
            _ => bigdecimal::BigDecimal::new(d + bump, e.checked_sub(1).unwrap_or(0)),
        }
    }
    fn loose(s: &mut Src) -> Vec<u8> {
        let mut d = NInt::from_signed_bytes_le(&gen_bigint(s));
        for _ in 0..s.usize(4) {
            d = d * 10;
        }
        let mut b = signed_wire(&d);
        let fill = if b.last().map_or(false, |x| x & 0x80 != 0) { 0xff } else { 0 };
        for _ in 0..s.usize(3) {
            b.push(fill);
        }
        let mut o = lenbytes(&b);
        if !b.is_empty() {
            let e = s.int(64);
            put_varint(&mut o, zigzag(e), 64);
        }
        o
    }
    fn text(n: &Self::N) -> String {
        let (d, e) = n.as_bigint_and_exponent();
        short(format!("{:x} / 10^{}", d, e))
    }
}

fn number<N: Num>(c: &mut Case) -> R {
    let (n, again) = N::draw(&mut c.src);
    let want = N::wire(&n);
    if N::wire(&again) != want {
        fail!("HARNESS: two forms of one number");
    }
    c.describe(|| format!("{} {} -> {}", N::NAME, N::text(&n), hexs(&want)));
    let t = tail(&mut c.src);
    let mut long = want.clone();
    long.extend_from_slice(&t);
    let mut wrappers = Vec::new();
    for (form, x) in [("", &n), (" (other form)", &again)] {
        c.evals += 4;
        let w = N::wrap(x.clone());
        let back = N::unwrap(w.clone());
        check!(
            N::wire(&back) == want,
            "{} {}{}: the wrapper holds {}",
            N::NAME,
            N::text(x),
            form,
            N::text(&back)
        );
        let b = under::ser(&w).map_err(|e| format!("{} {}{}: wrapper not serialized: {:?}", N::NAME, N::text(x), form, e))?;
        check!(b == want, "{} {}{}: the wrapper encodes to {}, expected {}", N::NAME, N::text(x), form, hexs(&b), hexs(&want));
        let b = under::ser(&N::adapt(x.clone()))
            .map_err(|e| format!("{} {}{}: adapter does not serialize: {:?}", N::NAME, N::text(x), form, e))?;
        check!(b == want, "{} {}{}: the adapter encodes to {}, expected {}", N::NAME, N::text(x), form, hexs(&b), hexs(&want));
        wrappers.push(w);
    }
    check!(
        wrappers[0] == wrappers[1] && hash(&wrappers[0]) == hash(&wrappers[1]),
        "{} {}: two forms of one number give wrappers {:?} and {:?}",
        N::NAME,
        N::text(&n),
        wrappers[0],
        wrappers[1]
    );
    c.evals += 2;
    let (w, used) = under::de::<N::W>(&long);
    let w = w.map_err(|e| format!("{}: wrapper rejects {}: {:?}", N::NAME, hexs(&want), e))?;
    check!(w == wrappers[0] && used == want.len(), "{} {}: {} decodes to the wrapper {:?} ({} bytes)", N::NAME, N::text(&n), hexs(&want), w, used);
    let (a, used) = under::de::<N::A>(&long);
    let a = N::adapted(a.map_err(|e| format!("{}: adapter rejects {}: {:?}", N::NAME, hexs(&want), e))?);
    check!(
        N::wire(&a) == want && used == want.len(),
        "{} {}: {} decodes through the adapter to {} ({} bytes)",
        N::NAME,
        N::text(&n),
        hexs(&want),
        N::text(&a),
        used
    );
    // a different number is told apart
    let m = N::near(&mut c.src, &n);
    let mw = N::wire(&m);
    if mw != want {
        c.eval();
        let w2 = N::wrap(m.clone());
        let b2 = under::ser(&w2).map_err(|e| format!("{} {}: not serialized: {:?}", N::NAME, N::text(&m), e))?;
        check!(b2 == mw, "{} {}: the wrapper encodes to {}, expected {}", N::NAME, N::text(&m), hexs(&b2), hexs(&mw));
        check!(w2 != wrappers[0], "{}: {} and {} give the same wrapper", N::NAME, N::text(&n), N::text(&m));
    } else {
        c.exclude("neighbour equal to the number");
    }
    if want.len() > 1 {
        c.nontrivial(h2(N::NAME.as_bytes(), &want));
    }
    // bytes from anywhere: both routes agree
    let mut b = N::loose(&mut c.src);
    if c.src.chance(128) {
        mutate(&mut c.src, &mut b);
    }
    b.extend(tail(&mut c.src));
    c.evals += 2;
    let (w, nw) = under::de::<N::W>(&b);
    let (a, na) = under::de::<N::A>(&b);
    match (w, a) {
        (Ok(w), Ok(a)) => {
            let (x, y) = (N::unwrap(w), N::adapted(a));
            let same = N::wire(&x) == N::wire(&y);
            check!(same, "{}: {} is {} through the wrapper and {} through the adapter", N::NAME, hexs(&b), N::text(&x), N::text(&y));
            check!(nw == na, "{}: {} takes {} bytes through the wrapper and {} through the adapter", N::NAME, hexs(&b), nw, na);
            c.label("loose bytes accepted by both routes");
        }
        (Err(_), Err(_)) => c.label("loose bytes rejected by both routes"),
        (Ok(_), Err(e)) => fail!("{}: {} accepted by the wrapper, rejected by the adapter ({:?})", N::NAME, hexs(&b), e),
        (Err(e), Ok(_)) => fail!("{}: {} accepted by the adapter, rejected by the wrapper ({:?})", N::NAME, hexs(&b), e),
    }
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "case: random unsigned, signed or decimal number in two representations (decimals with trailing zeros and another scale), its neighbour, and one loose byte string; wrapper and adapter compared with bytes computed from the number's digits. Blocks: every integer in -70000..=70000 and around every power of two up to 2^600 as signed, unsigned and decimal at several scales. Non-trivial: distinct (kind, encoding) of a number other than zero",
    quick: 600_000,
    thorough: 10_000_000,
    run: c16,
    blocks: Some((c16_blocks, c16_block)),
    blocks_note: "all integers of magnitude up to 70000, and 2^k-2..2^k+2 with both signs for k up to 600, through all three kinds",
    known: &[],
    assumptions: &["the arithmetic of num-bigint (shifts, addition, division, 64-bit digit iteration) is right", "decimal scales stay at least 64 away from the ends of the 64-bit range, where the decimal library itself overflows"],
};

fn c16(c: &mut Case) -> R {
    match c.src.below(3) {
        0 => number::<U>(c),
        1 => number::<I>(c),
        _ => number::<D>(c),
    }
}
const C16_B: u64 = 64;
fn c16_blocks(_: bool) -> u64 {
    C16_B + 8
}
fn exact<N: Num>(c: &mut Case, n: N::N) -> R {
    let want = N::wire(&n);
    c.evals += 2;
    let w = N::wrap(n.clone());
    let b = under::ser(&w).map_err(|e| format!("{}: {:?}", N::NAME, e))?;
    let b2 = under::ser(&N::adapt(n.clone())).map_err(|e| format!("{}: {:?}", N::NAME, e))?;
    check!(b == want && b2 == want, "{} {}: encodes to {} (wrapper), {} (adapter), expected {}", N::NAME, N::text(&n), hexs(&b), hexs(&b2), hexs(&want));
    check!(N::wire(&N::unwrap(w.clone())) == want, "{} {}: the wrapper holds another number", N::NAME, N::text(&n));
    let (x, u) = under::de::<N::W>(&want);
    let (y, v) = under::de::<N::A>(&want);
    match (x, y) {
        (Ok(x), Ok(y)) => check!(
            x == w && N::wire(&N::adapted(y)) == want && u == want.len() && v == want.len(),
            "{} {}: {} decodes to another number",
            N::NAME,
            N::text(&n),
            hexs(&want)
        ),
        (x, y) => fail!("{} {}: {} rejected (wrapper {:?}, adapter {:?})", N::NAME, N::text(&n), hexs(&want), x.err(), y.err()),
    }
    if want.len() > 1 {
        c.nontrivial(h2(N::NAME.as_bytes(), &want));
    }
    Ok(())
}
fn exact_all(c: &mut Case, n: &NInt, scales: &[i64]) -> R {
    exact::<I>(c, n.clone())?;
    if let Some(u) = n.to_biguint() {
        exact::<U>(c, u)?;
    }
    for e in scales {
        exact::<D>(c, bigdecimal::BigDecimal::new(n.clone(), *e))?;
    }
    Ok(())
}
fn c16_block(i: u64, c: &mut Case) -> R {
    if i < C16_B {
        let mut x = -70_000 + i as i64;
        while x <= 70_000 {
            exact_all(c, &NInt::from(x), &[0, -3, 70])?;
            x += C16_B as i64;
        }
        return Ok(());
    }
    for k in (i - C16_B..=600).step_by(8) {
        for d in -2i32..=2 {
            let p = (NInt::from(1) << k as usize) + d;
            exact_all(c, &p, &[0, -1, 1, 63, 64, -64, -65, 1 << 40])?;
            exact_all(c, &-p, &[0, -1, 1, 63, 64, -64, -65, 1 << 40])?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17",
    rule: "blocks: every date of the library (-9999-01-01 to 9999-12-31), each year also with every wire day-of-year around its end and a sample beyond; cases: pairs of random dates, and wire integers of any size (any i32 year, any u16 day), and mutated bytes. Non-trivial: distinct dates, and distinct wire integer pairs that are not dates",
    quick: 900_000,
    thorough: 12_000_000,
    run: c17,
    blocks: Some((c17_blocks, c17_block)),
    blocks_note: "all 7,304,484 dates the date library supports (both tiers); per year every wire day-of-year 0..=400, thorough 0..=65535",
    known: &[],
    assumptions: &["the calendar rules (leap years) are stated in the model", "date library built without large dates"],
};

fn date_wire(y: i64, o: i64) -> Vec<u8> {
    let mut b = Vec::new();
    put_varint(&mut b, zigzag(y - 2000) & 0xffff_ffff, 32);
    put_varint(&mut b, (o - 1) as u64 & 0xffff, 16);
    b
}

fn good_date(y: i64, o: u32, buf: &mut Vec<u8>) -> Result<dlhn::Date, String> {
    let d = time::Date::from_ordinal_date(y as i32, o as u16).map_err(|e| format!("HARNESS: date {} {}: {}", y, o, e))?;
    let want = date_wire(y, o as i64);
    let w = dlhn::Date::from(d);
    buf.clear();
    w.serialize(&mut dlhn::Serializer::new(&mut *buf)).map_err(|e| format!("date {}-{}: wrapper not serialized: {:?}", y, o, e))?;
    check!(*buf == want, "date {} day {}: the wrapper encodes to {}, expected {}", y, o, hexs(buf), hexs(&want));
    buf.clear();
    dlhn::format::date::serialize(&d, &mut dlhn::Serializer::new(&mut *buf))
        .map_err(|e| format!("date {}-{}: adapter does not serialize: {:?}", y, o, e))?;
    check!(*buf == want, "date {} day {}: the adapter encodes to {}, expected {}", y, o, hexs(buf), hexs(&want));
    buf.extend_from_slice(&[0xc3, 0]);
    let (x, n) = under::de::<dlhn::Date>(buf);
    check!(
        x == Ok(w) && n == want.len(),
        "date {} day {}: {} decodes to the wrapper {:?} ({} bytes)",
        y,
        o,
        hexs(&want),
        x,
        n
    );
    let back: Result<time::Date, ()> = w.try_into();
    check!(back == Ok(d), "date {} day {}: the wrapper converts back to {:?}", y, o, back);
    let mut r = &buf[..];
    let a = dlhn::format::date::deserialize(&mut dlhn::Deserializer::new(&mut r));
    let n = buf.len() - r.len();
    check!(a == Ok(d) && n == want.len(), "date {} day {}: {} decodes through the adapter to {:?} ({} bytes)", y, o, hexs(&want), a, n);
    Ok(w)
}

/// Any pair of wire integers.
fn any_date(y: i32, o: u16, buf: &mut Vec<u8>) -> R {
    buf.clear();
    put_varint(buf, zigzag(y as i64) & 0xffff_ffff, 32);
    put_varint(buf, o as u64, 16);
    date_bytes(buf, y as i64 + 2000, o as i64 + 1)
}

fn date_bytes(b: &[u8], year: i64, ord: i64) -> R {
    let valid = is_date(year, ord as u32);
    let mut r = b;
    let a = dlhn::format::date::deserialize(&mut dlhn::Deserializer::new(&mut r));
    let na = b.len() - r.len();
    let (w, nw) = under::de::<dlhn::Date>(b);
    match &a {
        Ok(d) => check!(
            valid && d.year() as i64 == year && d.ordinal() as i64 == ord,
            "bytes {} (year {}, day {}) decode through the adapter to {}",
            hexs(b),
            year,
            ord,
            d
        ),
        Err(e) => check!(!valid, "bytes {} of the date year {} day {} rejected by the adapter: {:?}", hexs(b), year, ord, e),
    }
    match w {
        Ok(w) => {
            let t: Result<time::Date, ()> = w.try_into();
            match t {
                Ok(t) => check!(
                    valid && a == Ok(t) && na == nw,
                    "bytes {} (year {}, day {}) convert to the date {}",
                    hexs(b),
                    year,
                    ord,
                    t
                ),
                Err(()) => check!(!valid, "bytes {} of the date year {} day {} do not convert", hexs(b), year, ord),
            }
            // whatever was accepted can be written again without trouble
            let s = under::ser(&w).map_err(|e| format!("decoded wrapper of {} not serialized: {:?}", hexs(b), e))?;
            let mut e = Vec::new();
            put_varint(&mut e, zigzag(year - 2000) & 0xffff_ffff, 32);
            put_varint(&mut e, (ord - 1) as u64, 16);
            check!(s == e, "the wrapper of {} (year {}, day {}) encodes to {}", hexs(b), year, ord, hexs(&s));
        }
        Err(e) => check!(!valid, "bytes {} of the date year {} day {} rejected by the wrapper: {:?}", hexs(b), year, ord, e),
    }
    Ok(())
}

const C17_B: u64 = 20_000 / 25;
fn c17_blocks(_: bool) -> u64 {
    C17_B
}
fn c17_block(i: u64, c: &mut Case) -> R {
    let mut buf = Vec::new();
    let mut prev: Option<dlhn::Date> = None;
    let lo = -9999 + i as i64 * 25;
    for y in lo..(lo + 25).min(10_000) {
        for o in 1..=if is_leap(y) { 366 } else { 365 } {
            let w = good_date(y, o, &mut buf)?;
            if let Some(p) = prev {
                check!(p < w && p != w && w > p, "date {} day {} is not ordered after its predecessor", y, o);
            }
            prev = Some(w);
            c.evals += 5;
            c.nontrivial(((y as u64) << 16) ^ o as u64);
        }
        let top: u32 = if c.thorough { 65_536 } else { 400 };
        for o in 0..top {
            any_date((y - 2000) as i32, o as u16, &mut buf)?;
            c.evals += 2;
        }
        for o in [511u16, 512, 16_383, 16_384, 32_767, 32_768, 65_534, 65_535] {
            any_date((y - 2000) as i32, o, &mut buf)?;
            c.evals += 2;
        }
    }
    Ok(())
}

fn c17(c: &mut Case) -> R {
    let mut buf = Vec::new();
    // order, equality and hash of two dates
    let (a, b) = (gen_date(&mut c.src), gen_date(&mut c.src));
    let b = if c.src.chance(40) { a } else { b };
    let wa = good_date(a.0, a.1, &mut buf)?;
    let wb = good_date(b.0, b.1, &mut buf)?;
    check!(
        (wa == wb) == (a == b) && wa.cmp(&wb) == a.cmp(&b) && wa.partial_cmp(&wb) == Some(a.cmp(&b)),
        "dates {:?} and {:?} compare {:?} in the wrapper",
        a,
        b,
        wa.cmp(&wb)
    );
    check!(a != b || hash(&wa) == hash(&wb), "equal dates {:?} hash differently", a);
    c.evals += 10;
    // any wire integers
    let s = &mut c.src;
    let y = match s.below(4) {
        0 => s.int(32) as i32,
        1 => *s.pick(&[i32::MAX, i32::MIN, i32::MAX - 1999, i32::MAX - 2000, i32::MAX - 2001, 7999, 8000, -11999, -12000, i32::MIN + 1]),
        2 => (gen_date(s).0 - 2000) as i32,
        _ => (s.range(0, 24_000) as i64 - 14_000) as i32,
    };
    let o = match s.below(4) {
        0 => s.uint(16) as u16,
        1 => 360 + s.below(10) as u16,
        2 => *s.pick(&[u16::MAX, u16::MAX - 1, 0x7fff, 0x8000, 256, 511, 512, 0]),
        _ => s.below(366) as u16,
    };
    c.describe(|| format!("dates {:?} {:?}; wire year {} day {}", a, b, y, o));
    no_panic("date decoding", || any_date(y, o, &mut buf))??;
    c.evals += 3;
    if !is_date(y as i64 + 2000, o as u32 + 1) {
        c.nontrivial(h2(&y.to_le_bytes(), &o.to_le_bytes()));
        c.label("wire integers that are no date");
    } else {
        c.label("wire integers of a date");
    }
    // any bytes
    let mut b = buf.clone();
    b.extend(tail(&mut c.src));
    mutate(&mut c.src, &mut b);
    let mut d = Dec::new(&b);
    let ints = d.varint(32).and_then(|y| d.varint(16).map(|o| (y, o)));
    c.evals += 2;
    match ints {
        Ok((y, o)) if !d.lenient => no_panic("date decoding", || date_bytes(&b, unzigzag(y) as i32 as i64 + 2000, o as i64 + 1))??,
        Ok(_) => {
            let mut r = &b[..];
            let a = no_panic("date adapter", || dlhn::format::date::deserialize(&mut dlhn::Deserializer::new(&mut r)))?;
            let (w, _) = no_panic("date wrapper", || under::de::<dlhn::Date>(&b))?;
            if let (Ok(a), Ok(w)) = (a, w) {
                let t: Result<time::Date, ()> = w.try_into();
                check!(t == Ok(a), "bytes {} are {} through the adapter and {:?} through the wrapper", hexs(&b), a, t);
            }
            c.label("non-canonical integers");
        }
        Err(_) => {
            let mut r = &b[..];
            let a = no_panic("date adapter", || dlhn::format::date::deserialize(&mut dlhn::Deserializer::new(&mut r)))?;
            let (w, _) = no_panic("date wrapper", || under::de::<dlhn::Date>(&b))?;
            check!(a.is_err() && w.is_err(), "truncated bytes {} decode to {:?} / {:?}", hexs(&b), a, w);
            c.label("truncated bytes");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

pub static C18: Prop = Prop {
    id: "C18",
    rule: "case: random instant (any representable second, any nanosecond) seen from several UTC offsets, its neighbour instants, wire integers of any size, and mutated bytes; blocks: instants around every year start and every power of two with edge nanoseconds. Non-trivial: distinct instants other than the epoch, and distinct out-of-range wire pairs",
    quick: 3_000_000,
    thorough: 12_000_000,
    run: c18,
    blocks: Some((c18_blocks, c18_block)),
    blocks_note: "every year start -9999..9999 and +-2^k seconds, each with seconds -2..2 and 6 nanosecond values",
    known: &[],
    assumptions: &["constructing date-times from a UNIX time and changing their offset in the date library is right"],
};

const NS: i128 = 1_000_000_000;

fn dt_wire(ts: i64, n: u32) -> Vec<u8> {
    let mut b = Vec::new();
    put_varint(&mut b, zigzag(ts), 64);
    put_varint(&mut b, n as u64, 32);
    b
}
fn dt_make(ts: i64, n: u32) -> Result<time::OffsetDateTime, String> {
    time::OffsetDateTime::from_unix_timestamp_nanos(ts as i128 * NS + n as i128).map_err(|e| format!("HARNESS: instant {} {}: {}", ts, n, e))
}

fn good_dt(ts: i64, n: u32, offs: &[i32], buf: &mut Vec<u8>) -> R {
    let t0 = dt_make(ts, n)?;
    let want = dt_wire(ts, n);
    let w0 = dlhn::DateTime::from(t0);
    for o in std::iter::once(&0).chain(offs) {
        let off = time::UtcOffset::from_whole_seconds(*o).map_err(|e| format!("HARNESS: offset {}", e))?;
        let t = match t0.checked_to_offset(off) {
            Some(t) => t,
            // no local form in that offset
            None => continue,
        };
        let w = dlhn::DateTime::from(t);
        check!(w == w0 && hash(&w) == hash(&w0), "instant {}s {}ns at offset {}: wrapper {:?}, at offset 0 {:?}", ts, n, o, w, w0);
        buf.clear();
        w.serialize(&mut dlhn::Serializer::new(&mut *buf)).map_err(|e| format!("date-time wrapper not serialized: {:?}", e))?;
        check!(*buf == want, "instant {}s {}ns at offset {}: the wrapper encodes to {}, expected {}", ts, n, o, hexs(buf), hexs(&want));
        buf.clear();
        dlhn::format::date_time::serialize(&t, &mut dlhn::Serializer::new(&mut *buf))
            .map_err(|e| format!("date-time adapter does not serialize: {:?}", e))?;
        check!(*buf == want, "instant {}s {}ns at offset {}: the adapter encodes to {}, expected {}", ts, n, o, hexs(buf), hexs(&want));
    }
    let back: Result<time::OffsetDateTime, ()> = w0.try_into();
    check!(
        back.map(|b| b.unix_timestamp_nanos()) == Ok(ts as i128 * NS + n as i128),
        "instant {}s {}ns: the wrapper converts back to {:?}",
        ts,
        n,
        back
    );
    buf.extend_from_slice(&[0xee, 0x55]);
    let (x, u) = under::de::<dlhn::DateTime>(buf);
    check!(x == Ok(w0) && u == want.len(), "instant {}s {}ns: {} decodes to the wrapper {:?} ({} bytes)", ts, n, hexs(&want), x, u);
    let mut r = &buf[..];
    let a = dlhn::format::date_time::deserialize(&mut dlhn::Deserializer::new(&mut r));
    let u = buf.len() - r.len();
    match a {
        Ok(a) => check!(
            a.unix_timestamp_nanos() == ts as i128 * NS + n as i128 && u == want.len(),
            "instant {}s {}ns: {} decodes through the adapter to {} ({} bytes)",
            ts,
            n,
            hexs(&want),
            a,
            u
        ),
        Err(e) => fail!("instant {}s {}ns: adapter rejects {}: {:?}", ts, n, hexs(&want), e),
    }
    Ok(())
}

fn dt_bytes(b: &[u8], ts: i64, n: u32) -> R {
    let total = ts as i128 * NS + n as i128;
    let inside = total >= MIN_TS as i128 * NS && total < (MAX_TS as i128 + 1) * NS;
    let proper = inside && (n as i128) < NS;
    let mut r = b;
    let a = dlhn::format::date_time::deserialize(&mut dlhn::Deserializer::new(&mut r));
    match a {
        Ok(a) => check!(
            inside && a.unix_timestamp_nanos() == total,
            "bytes {} ({}s {}ns) decode through the adapter to {}",
            hexs(b),
            ts,
            n,
            a
        ),
        Err(e) => check!(!proper, "bytes {} of {}s {}ns rejected by the adapter: {:?}", hexs(b), ts, n, e),
    }
    let (w, _) = under::de::<dlhn::DateTime>(b);
    match w {
        Ok(w) => {
            let t: Result<time::OffsetDateTime, ()> = w.try_into();
            match t {
                Ok(t) => check!(
                    inside && t.unix_timestamp_nanos() == total,
                    "bytes {} ({}s {}ns) convert to {}",
                    hexs(b),
                    ts,
                    n,
                    t
                ),
                Err(()) => check!(!proper, "bytes {} of {}s {}ns do not convert", hexs(b), ts, n),
            }
        }
        Err(e) => check!(!proper, "bytes {} of {}s {}ns rejected by the wrapper: {:?}", hexs(b), ts, n, e),
    }
    Ok(())
}

const C18_B: u64 = 128;
fn c18_blocks(_: bool) -> u64 {
    C18_B
}
/// Days since 1970-01-01 of January 1st of a year.
fn year_start(y: i64) -> i64 {
    let p = y - 1;
    let days = p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    let d1970 = 1969 * 365 + 1969 / 4 - 1969 / 100 + 1969 / 400;
    (days - d1970) * 86_400
}
fn around(c: &mut Case, base: i64, buf: &mut Vec<u8>) -> R {
    for d in -2i64..=2 {
        let ts = match base.checked_add(d) {
            Some(t) => t,
            None => continue,
        };
        for n in [0u32, 1, 127, 500_000_000, 999_999_998, 999_999_999] {
            c.evals += 6;
            if (MIN_TS..=MAX_TS).contains(&ts) {
                good_dt(ts, n, &[3600, -86_399 + n as i32 % 7], buf)?;
                c.nontrivial(h2(&ts.to_le_bytes(), &n.to_le_bytes()));
            }
            dt_bytes(&dt_wire(ts, n), ts, n)?;
        }
    }
    Ok(())
}
fn c18_block(i: u64, c: &mut Case) -> R {
    let mut buf = Vec::new();
    let mut y = -9999 + i as i64;
    while y <= 10_000 {
        around(c, year_start(y), &mut buf)?;
        y += C18_B as i64;
    }
    if i < 63 {
        around(c, 1i64 << i, &mut buf)?;
        around(c, -(1i64 << i), &mut buf)?;
    } else if i == 63 {
        around(c, i64::MIN, &mut buf)?;
        around(c, i64::MAX, &mut buf)?;
        around(c, MIN_TS, &mut buf)?;
        around(c, MAX_TS, &mut buf)?;
    }
    Ok(())
}

fn c18(c: &mut Case) -> R {
    let mut buf = Vec::new();
    let (ts, n) = gen_datetime(&mut c.src);
    let offs: Vec<i32> = (0..3)
        .map(|_| match c.src.below(4) {
            0 => *c.src.pick(&[86_399, -86_399, 1, -1, 3600, -3600, 50_400, -43_200, 20_700, -12_600]),
            _ => c.src.below(172_799) as i32 - 86_399,
        })
        .collect();
    c.evals += 12;
    good_dt(ts, n, &offs, &mut buf)?;
    if (ts, n) != (0, 0) {
        c.nontrivial(h2(&ts.to_le_bytes(), &n.to_le_bytes()));
    }
    // another instant is another encoding
    let (ts2, n2) = match c.src.below(3) {
        0 => (ts, (n + 1) % 1_000_000_000),
        1 => (if ts == MAX_TS { ts - 1 } else { ts + 1 }, n),
        _ => (if ts == i64::MIN { 0 } else { (-ts).clamp(MIN_TS, MAX_TS) }, n),
    };
    if (ts2, n2) != (ts, n) {
        c.evals += 2;
        let (a, b) = (dlhn::DateTime::from(dt_make(ts, n)?), dlhn::DateTime::from(dt_make(ts2, n2)?));
        check!(a != b, "instants {}s {}ns and {}s {}ns give the same wrapper", ts, n, ts2, n2);
        check!(a.cmp(&b) == (ts, n).cmp(&(ts2, n2)), "instants {}s {}ns and {}s {}ns are ordered {:?}", ts, n, ts2, n2, a.cmp(&b));
    }
    let s = &mut c.src;
    let wts = match s.below(5) {
        0 => s.int(64),
        1 => *s.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, MAX_TS + 1, MIN_TS - 1, MAX_TS, MIN_TS, MIN_TS - 4, MAX_TS - 3]),
        2 => MAX_TS + s.int(8),
        3 => MIN_TS + s.int(8),
        _ => s.int(42),
    };
    let wn = match s.below(4) {
        0 => s.uint(32) as u32,
        1 => *s.pick(&[u32::MAX, 1_000_000_000, 999_999_999, 1_999_999_999, 2_000_000_000, 4_000_000_000, 0]),
        _ => s.below(1_000_000_000) as u32,
    };
    c.describe(|| format!("instant {}s {}ns offsets {:?}; wire {}s {}ns", ts, n, offs, wts, wn));
    let w = dt_wire(wts, wn);
    c.evals += 2;
    no_panic("date-time decoding", || dt_bytes(&w, wts, wn))??;
    if wts < MIN_TS || wts > MAX_TS {
        c.label("wire instant out of range");
        c.nontrivial(h2(&wts.to_le_bytes(), &wn.to_le_bytes()));
    } else if wn >= 1_000_000_000 {
        c.label("wire nanoseconds beyond a second");
    } else {
        c.label("wire instant in range");
    }
    let mut b = w;
    b.extend(tail(&mut c.src));
    mutate(&mut c.src, &mut b);
    let mut d = Dec::new(&b);
    let ints = d.varint(64).and_then(|y| d.varint(32).map(|o| (y, o)));
    c.evals += 2;
    match ints {
        Ok((y, o)) if !d.lenient => no_panic("date-time decoding", || dt_bytes(&b, unzigzag(y), o as u32))??,
        Ok(_) => {
            let mut r = &b[..];
            let a = no_panic("date-time adapter", || dlhn::format::date_time::deserialize(&mut dlhn::Deserializer::new(&mut r)))?;
            let (w, _) = no_panic("date-time wrapper", || under::de::<dlhn::DateTime>(&b))?;
            if let (Ok(a), Ok(w)) = (a, w) {
                let t: Result<time::OffsetDateTime, ()> = w.try_into();
                check!(t == Ok(a), "bytes {} are {} through the adapter and {:?} through the wrapper", hexs(&b), a, t);
            }
            c.label("non-canonical integers");
        }
        Err(_) => {
            let mut r = &b[..];
            let a = no_panic("date-time adapter", || dlhn::format::date_time::deserialize(&mut dlhn::Deserializer::new(&mut r)))?;
            let (w, _) = no_panic("date-time wrapper", || under::de::<dlhn::DateTime>(&b))?;
            check!(a.is_err() && w.is_err(), "truncated bytes {} decode to {:?} / {:?}", hexs(&b), a, w);
            c.label("truncated bytes");
        }
    }
    Ok(())
}
