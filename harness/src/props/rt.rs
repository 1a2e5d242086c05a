//! C01 round trips, C02 wire bytes, C03 integers, C12 static/dynamic interchange.
use super::*;
use crate::case::{hexs, Case, R};
use crate::conc;
use crate::gen::*;
use crate::sizes;
use crate::under;
use serde::{Deserialize, Serialize};

fn typed(c: &mut Case) -> (Ty, Val) {
    let o = TyOpts { depth: 1 + c.src.below(6) as u32, ..TyOpts::typed() };
    let ty = gen_ty(&mut c.src, o);
    let v = val(&mut c.src, &ty);
    (ty, v)
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: "case: random type (dynamic, or one of the listed concrete std/serde-derived types), random value of it, random serde style; encode, decode with random bytes following. Non-trivial: distinct (type, encoding) with an encoding of at least 2 bytes",
    quick: 800_000,
    thorough: 12_000_000,
    run: c01,
    blocks: Some((sized_blocks, c01_sized)),
    blocks_note: "everything with a length, count, variant index or nesting at every size 0..=300 and around the powers of two to 2^17 (texts and bytes to 2^24, nesting to 150; thorough: counts to 2^20)",
    known: &[("alias", known_alias), ("unknown-length", known_unknown_length)],
    assumptions: &["values of concrete types are built by, and compared through, the independent reference codec"],
};

fn c01(c: &mut Case) -> R {
    if c.src.chance(70) {
        let k = conc::pick(&mut c.src);
        let b = match k.gen(&mut c.src) {
            Some(b) => b,
            None => {
                c.exclude("value outside a concrete type's own invariant");
                return Ok(());
            }
        };
        let (got, want) = k.ser(&b).ok_or("HARNESS: value vanished")?;
        let got = match got {
            Ok(g) => g,
            Err(_) => {
                c.label("serialization reported an error");
                return Ok(());
            }
        };
        c.eval();
        let mut long = got.clone();
        long.extend(tail(&mut c.src));
        let (back, n) = k.de(&long);
        c.describe(|| format!("{} ({}) bytes {}", k.name, k.desc, hexs(&got)));
        match back {
            Err(e) => fail!("{}: own encoding {} rejected: {:?}", k.name, hexs(&got), e),
            Ok(v) => {
                check!(k.same(&v, &want), "{}: {} came back as {} (reference encodings)", k.name, hexs(&want), hexs(&v));
                check!(n == got.len(), "{}: decoding took {} of the {} bytes", k.name, n, got.len());
            }
        }
        if got.len() > 1 {
            c.nontrivial(h2(k.name.as_bytes(), &b));
        }
        c.label("concrete type");
        return Ok(());
    }
    let (ty, v) = typed(c);
    let st = gen_style(&mut c.src);
    let mut st2 = gen_style(&mut c.src);
    st2.names = st.names;
    c.eval();
    c.describe(|| format!("{} = {}", ty, show(&v)));
    let b = match under::ser_val(&ty, &v, st) {
        Ok(b) => b,
        Err(_) => {
            c.label("serialization reported an error");
            return Ok(());
        }
    };
    let mut long = b.clone();
    long.extend(tail(&mut c.src));
    let (back, n) = under::de_val(&ty, &long, st2);
    match back {
        Err(e) => fail!("{}: own encoding {} of {} rejected: {:?}", ty, hexs(&b), show(&v), e),
        Ok(x) => {
            check!(x == v, "{}: {} came back as {} (bytes {})", ty, show(&v), show(&x), hexs(&b));
            check!(n == b.len(), "{}: decoding {} took {} of {} bytes", ty, show(&v), n, b.len());
        }
    }
    if b.len() > 1 {
        c.nontrivial(h2(ty.to_string().as_bytes(), &b));
    }
    c.label(if b.len() > 4096 {
        "dynamic type, more than 4096 bytes"
    } else if b.len() > 128 {
        "dynamic type, 129..4096 bytes"
    } else {
        "dynamic type, up to 128 bytes"
    });
    Ok(())
}

fn sized_blocks(_: bool) -> u64 {
    sizes::blocks()
}
fn c01_sized(i: u64, c: &mut Case) -> R {
    let thorough = c.thorough;
    sizes::each(i, thorough, &mut |ty, v| {
        c.eval();
        let name = sizes::brief(ty);
        let mut b = match under::ser_val(ty, v, Default::default()) {
            Ok(b) => b,
            Err(_) => {
                c.label("serialization reported an error");
                return Ok(());
            }
        };
        let n = b.len();
        b.extend([0x80, 0xff, 1]);
        match under::de_val(ty, &b, Default::default()) {
            (Ok(x), m) => {
                check!(x == *v, "{}: an encoding of {} bytes ({}) came back as {}", name, n, hexs(&b[..n]), show(&x));
                check!(m == n, "{}: decoding took {} of {} bytes", name, m, n);
            }
            (Err(e), _) => fail!("{}: own encoding {} rejected: {:?}", name, hexs(&b[..n]), e),
        }
        if n > 1 {
            c.nontrivial(h2(name.as_bytes(), &b));
        }
        Ok(())
    })
}
fn c02_sized(i: u64, c: &mut Case) -> R {
    let thorough = c.thorough;
    sizes::each(i, thorough, &mut |ty, v| {
        c.eval();
        let name = sizes::brief(ty);
        let want = enc(ty, v);
        match under::ser_val(ty, v, Default::default()) {
            Ok(b) => {
                if b != want {
                    let k = b.iter().zip(&want).take_while(|(x, y)| x == y).count();
                    fail!("{}: encodes to {} bytes, expected {}; they part at byte {} ({} and {})", name, b.len(), want.len(), k, hexs(&b[k..b.len().min(k + 8)]), hexs(&want[k..want.len().min(k + 8)]));
                }
            }
            Err(e) => fail!("{}: not serialized: {:?}", name, e),
        }
        if want.len() > 1 {
            c.nontrivial(h2(name.as_bytes(), &want));
        }
        Ok(())
    })
}
fn c12_sized(i: u64, c: &mut Case) -> R {
    let thorough = c.thorough;
    sizes::each(i, thorough, &mut |ty, v| {
        let name = sizes::brief(ty);
        let h = match header_of(ty) {
            Some(h) => h,
            None => return Ok(()),
        };
        c.evals += 2;
        let body = body_of(ty, v);
        let tb = under::ser_val(ty, v, Default::default()).map_err(|e| format!("{}: not serialized: {:?}", name, e))?;
        let bb = under::ser(&body).map_err(|e| format!("{}: body not serialized: {:?}", name, e))?;
        check!(tb == bb, "{}: {} bytes typed, {} bytes as a body, or not the same ones", name, tb.len(), bb.len());
        match under::de_val(ty, &bb, Default::default()) {
            (Ok(x), n) => check!(x == *v && n == bb.len(), "{}: bytes of the body ({}) decode to {} ({} bytes)", name, hexs(&bb), show(&x), n),
            (Err(e), _) => fail!("{}: bytes of the body ({}) rejected by the type: {:?}", name, hexs(&bb), e),
        }
        match under::de_body(&h, &tb) {
            (Ok(y), n) => {
                let yv = val_of(&h, &y).map_err(|e| format!("{}: decoded body does not conform: {}", name, e))?;
                check!(yv == plain_val(ty, v) && n == tb.len(), "{}: typed bytes ({}) decode to the body {} ({} bytes)", name, hexs(&tb), show(&yv), n);
            }
            (Err(e), _) => fail!("{}: typed bytes ({}) rejected under the header: {:?}", name, hexs(&tb), e),
        }
        if ty.is_composite() && tb.len() > 1 {
            c.nontrivial(h2(name.as_bytes(), &tb));
        }
        Ok(())
    })
}

fn known_alias() -> bool {
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct A {
        #[serde(alias = "other")]
        a: u8,
        b: u8,
    }
    let v = A { a: 1, b: 2 };
    let b = under::ser(&v).unwrap();
    under::de::<A>(&b).0 != Ok(v)
}
fn known_unknown_length() -> bool {
    struct It;
    impl Serialize for It {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_seq([5u8, 6, 7].iter().filter(|x| **x > 4))
        }
    }
    match under::ser(&It) {
        Err(_) => false,
        Ok(b) => under::de::<Vec<u8>>(&b).0 != Ok(vec![5, 6, 7]),
    }
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: "case: random type and value (dynamic or concrete), serialized in two random serde styles and compared byte for byte with the independent reference encoder. Non-trivial: distinct (type, encoding) with an encoding of at least 2 bytes",
    quick: 800_000,
    thorough: 12_000_000,
    run: c02,
    blocks: Some((sized_blocks, c02_sized)),
    blocks_note: "everything with a length, count, variant index or nesting at every size 0..=300 and around the powers of two to 2^17 (texts and bytes to 2^24, nesting to 150; thorough: counts to 2^20)",
    known: &[("unknown-length", known_unknown_length)],
    assumptions: &["the reference encoder states the DLHN wire format"],
};

fn c02(c: &mut Case) -> R {
    if c.src.chance(60) {
        let k = conc::pick(&mut c.src);
        let b = match k.gen(&mut c.src) {
            Some(b) => b,
            None => {
                c.exclude("value outside a concrete type's own invariant");
                return Ok(());
            }
        };
        c.eval();
        let (got, want) = k.ser(&b).ok_or("HARNESS: value vanished")?;
        c.describe(|| format!("{} ({}) bytes {}", k.name, k.desc, hexs(&want)));
        match got {
            Ok(g) => check!(g == want, "{} ({}): encodes to {}, expected {}", k.name, k.desc, hexs(&g), hexs(&want)),
            Err(e) => fail!("{} ({}): serialization failed: {:?}", k.name, k.desc, e),
        }
        if want.len() > 1 {
            c.nontrivial(h2(k.name.as_bytes(), &want));
        }
        c.label("concrete type");
        return Ok(());
    }
    let (ty, v) = typed(c);
    let want = enc(&ty, &v);
    c.describe(|| format!("{} = {} -> {}", ty, show(&v), hexs(&want)));
    for _ in 0..2 {
        let st = gen_style(&mut c.src);
        c.eval();
        match under::ser_val(&ty, &v, st) {
            Ok(g) => check!(g == want, "{}: {} encodes to {}, expected {} ({:?})", ty, show(&v), hexs(&g), hexs(&want), st),
            Err(e) => fail!("{}: {} not serialized: {:?}", ty, show(&v), e),
        }
    }
    // the place of the value makes no difference: the same value twice, wrapped and between other values
    if want.len() < 2000 {
        let st = gen_style(&mut c.src);
        let (wty, wv, pre, post) = embed(&mut c.src, &ty, &v);
        let mut e = pre;
        e.extend_from_slice(&want);
        e.extend(post);
        c.eval();
        match under::ser_val(&wty, &wv, st) {
            Ok(g) => check!(g == e, "{}: embedded {} encodes to {}, expected {}", wty, show(&wv), hexs(&g), hexs(&e)),
            Err(x) => fail!("{}: {} not serialized: {:?}", wty, show(&wv), x),
        }
    }
    if want.len() > 1 {
        c.nontrivial(h2(ty.to_string().as_bytes(), &want));
    }
    c.label(if want.len() > 4096 {
        "dynamic type, more than 4096 bytes"
    } else if want.len() > 128 {
        "dynamic type, 129..4096 bytes"
    } else {
        "dynamic type, up to 128 bytes"
    });
    Ok(())
}

/// The value inside another one; the bytes around it are computed here, not by the model.
fn embed(s: &mut Src, ty: &Ty, v: &Val) -> (Ty, Val, Vec<u8>, Vec<u8>) {
    let t = ty.clone();
    let v = v.clone();
    match s.below(8) {
        0 => (Ty::Opt(Box::new(t)), Val::Opt(Some(Box::new(v))), vec![1], vec![]),
        1 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v]), vec![1], vec![]),
        2 => (Ty::Map(Box::new(t)), Val::Map(vec![("k".into(), v)]), vec![1, 1, b'k'], vec![]),
        3 => (Ty::Tuple(vec![Ty::U8, t, Ty::U8]), Val::Tup(vec![Val::U(7), v, Val::U(9)]), vec![7], vec![9]),
        4 => (Ty::Struct(vec![Ty::U8, t, Ty::U8]), Val::Tup(vec![Val::U(7), v, Val::U(9)]), vec![7], vec![9]),
        5 => (Ty::TupleStruct(vec![t, Ty::Bool]), Val::Tup(vec![v, Val::Bool(true)]), vec![], vec![1]),
        6 => (Ty::Newtype(Box::new(t)), v, vec![], vec![]),
        _ => (
            Ty::Enum(0, vec![Var::Unit, Var::Newtype(t.clone()), Var::Struct(vec![t])]),
            Val::Enum(2, Box::new(Val::Tup(vec![v]))),
            vec![2],
            vec![],
        ),
    }
}

// ---------------------------------------------------------------- C03

pub static C03: Prop = Prop {
    id: "C03",
    rule: "blocks: every 8- and 16-bit integer, every value within 300 of a power of two and of both ends for 32 and 64 bits, every byte string of 3 bytes for the 16-bit decoders, (thorough) every 32-bit integer; cases: random 32/64-bit integers of random magnitude, encoded alone and decoded with random bytes following. Non-trivial: distinct (type, value) with a multi-byte encoding",
    quick: 2_400_000,
    thorough: 20_000_000,
    run: c03,
    blocks: Some((c03_blocks, c03_block)),
    blocks_note: "all u8, i8, u16, i16 values; all 2^24 three-byte inputs of the 16-bit decoders; thorough: all u32 and i32 values",
    known: &[],
    assumptions: &[],
};

fn bits_needed(u: u64) -> u32 {
    64 - u.leading_zeros()
}

/// Shortest length by definition: one byte per started group of 7 magnitude bits, at most width/8+1.
fn short_len(u: u64, width: u32) -> usize {
    if width == 8 {
        return 1;
    }
    let groups = ((bits_needed(u) + 6) / 7).max(1);
    groups.min(width / 8 + 1) as usize
}

trait Int: Serialize + for<'a> Deserialize<'a> + Copy + PartialEq + std::fmt::Display {
    const TY: Ty;
    const W: u32;
    fn make(u: u64) -> Self;
    fn mag(self) -> u64;
    fn model(self) -> Val;
}
macro_rules! int {
    ($($t:ident $ty:ident $w:expr, $signed:expr);*) => {$(
        impl Int for $t {
            const TY: Ty = Ty::$ty;
            const W: u32 = $w;
            fn make(u: u64) -> Self { u as $t }
            fn mag(self) -> u64 { if $signed && $w > 8 { zigzag(self as i64) } else { self as u64 } }
            fn model(self) -> Val { if $signed { Val::I(self as i64) } else { Val::U(self as u64) } }
        }
    )*};
}
int!(u8 U8 8, false; u16 U16 16, false; u32 U32 32, false; u64 U64 64, false;
     i8 I8 8, true; i16 I16 16, true; i32 I32 32, true; i64 I64 64, true);

fn one<T: Int>(v: T, buf: &mut Vec<u8>, want: &mut Vec<u8>) -> R {
    buf.clear();
    {
        let mut s = dlhn::Serializer::new(&mut *buf);
        if let Err(e) = v.serialize(&mut s) {
            fail!("{} {} not serialized: {:?}", T::TY, v, e);
        }
    }
    let n = buf.len();
    if n != if T::W == 8 { 1 } else { short_len(v.mag(), T::W) } {
        fail!("{} {} encodes to {} ({} bytes), the shortest form has {}", T::TY, v, hexs(buf), n, short_len(v.mag(), T::W));
    }
    want.clear();
    encode(&T::TY, &v.model(), want);
    if buf != want {
        fail!("{} {} encodes to {}, expected {}", T::TY, v, hexs(buf), hexs(want));
    }
    buf.extend_from_slice(&[0xff, 0x00, 0xa5]);
    let mut r = &buf[..];
    let got = {
        let mut d = dlhn::Deserializer::new(&mut r);
        T::deserialize(&mut d)
    };
    let used = buf.len() - r.len();
    match got {
        Ok(x) if x == v && used == n => Ok(()),
        Ok(x) => Err(format!("{} {} ({}) came back as {} from {} bytes", T::TY, v, hexs(want), x, used)),
        Err(e) => Err(format!("{} {}: own encoding {} rejected: {:?}", T::TY, v, hexs(want), e)),
    }
}

fn windows<T: Int>(c: &mut Case) -> R {
    let (mut b, mut w) = (Vec::new(), Vec::new());
    for k in 0..=T::W {
        let p = if k == 64 { 0u64 } else { 1u64 << k };
        for d in 0..=600u64 {
            let u = p.wrapping_add(d).wrapping_sub(300);
            for u in [u, u.wrapping_neg()] {
                c.evals += 1;
                let v = T::make(u);
                one(v, &mut b, &mut w)?;
                // values beyond the width wrap around and are counted once
                if w.len() > 1 {
                    c.nontrivial(h2(T::TY.to_string().as_bytes(), &w));
                }
            }
        }
    }
    Ok(())
}

const DEC_BLOCKS: u64 = 32;
const FULL_BLOCKS: u64 = 512;

fn c03_blocks(thorough: bool) -> u64 {
    8 + DEC_BLOCKS + if thorough { 2 * FULL_BLOCKS } else { 0 }
}

fn c03_block(i: u64, c: &mut Case) -> R {
    let (mut b, mut w) = (Vec::new(), Vec::new());
    match i {
        0 | 1 => {
            for u in 0..256u64 {
                c.evals += 1;
                if i == 0 {
                    one(u as u8, &mut b, &mut w)?
                } else {
                    one(u as u8 as i8, &mut b, &mut w)?
                }
            }
            Ok(())
        }
        2 | 3 => {
            for u in 0..65536u64 {
                c.evals += 1;
                if i == 2 {
                    one(u as u16, &mut b, &mut w)?
                } else {
                    one(u as u16 as i16, &mut b, &mut w)?
                }
                if w.len() > 1 {
                    c.nontrivial(h2(&[i as u8], &w));
                }
            }
            Ok(())
        }
        4 => windows::<u32>(c),
        5 => windows::<i32>(c),
        6 => windows::<u64>(c),
        7 => windows::<i64>(c),
        i if i < 8 + DEC_BLOCKS => {
            let step = (1u32 << 24) / DEC_BLOCKS as u32;
            let lo = (i as u32 - 8) * step;
            for x in lo..lo + step {
                let bytes = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
                c.evals += 2;
                let mut d = Dec::new(&bytes);
                let want = d.varint(16).map_err(|_| "HARNESS: 3 bytes always hold a 16-bit integer")?;
                let lenient = d.lenient;
                let pos = d.pos;
                {
                    let mut r = &bytes[..];
                    let g = u16::deserialize(&mut dlhn::Deserializer::new(&mut r));
                    let used = 3 - r.len();
                    match g {
                        Ok(g) => check!(
                            g as u64 == want && used == pos,
                            "u16 from {}: {} ({} bytes), expected {} ({} bytes)",
                            hexs(&bytes),
                            g,
                            used,
                            want,
                            pos
                        ),
                        Err(e) => check!(lenient, "u16 from {} rejected: {:?}", hexs(&bytes), e),
                    }
                }
                {
                    let mut r = &bytes[..];
                    let g = i16::deserialize(&mut dlhn::Deserializer::new(&mut r));
                    let used = 3 - r.len();
                    match g {
                        Ok(g) => check!(
                            g as i64 == unzigzag(want) && used == pos,
                            "i16 from {}: {} ({} bytes), expected {} ({} bytes)",
                            hexs(&bytes),
                            g,
                            used,
                            unzigzag(want),
                            pos
                        ),
                        Err(e) => check!(lenient, "i16 from {} rejected: {:?}", hexs(&bytes), e),
                    }
                }
            }
            Ok(())
        }
        i => {
            let k = i - 8 - DEC_BLOCKS;
            let step = (1u64 << 32) / FULL_BLOCKS;
            let lo = (k % FULL_BLOCKS) * step;
            for u in lo..lo + step {
                c.evals += 1;
                if k < FULL_BLOCKS {
                    one(u as u32, &mut b, &mut w)?
                } else {
                    one(u as u32 as i32, &mut b, &mut w)?
                }
            }
            Ok(())
        }
    }
}

fn c03(c: &mut Case) -> R {
    let (mut b, mut w) = (Vec::new(), Vec::new());
    let n = 16;
    for _ in 0..n {
        let k = c.src.below(4);
        let bits = if k < 2 { 32 } else { 64 };
        // uniform over bit lengths, dense near the boundaries of every length
        let u = c.src.uint(bits);
        c.evals += 1;
        match k {
            0 => one(u as u32, &mut b, &mut w),
            1 => one(unzigzag(u) as i32, &mut b, &mut w),
            2 => one(u, &mut b, &mut w),
            _ => one(unzigzag(u), &mut b, &mut w),
        }?;
        if w.len() > 1 {
            c.nontrivial(h2(&[k as u8], &w));
        }
        c.describe(|| format!("{} bits: {} -> {}", bits, u, hexs(&w)));
    }
    // decoding of arbitrary bytes: value or error, and exactly the model's value
    let ty = [Ty::U16, Ty::U32, Ty::U64, Ty::I16, Ty::I32, Ty::I64, Ty::U8, Ty::I8][c.src.usize(8)].clone();
    let len = c.src.usize(12);
    let mut bytes: Vec<u8> = (0..len).map(|_| c.src.byte()).collect();
    if let Some(f) = bytes.first_mut() {
        // every prefix class equally likely
        let ones = c.src.below(9) as u32;
        if ones < 8 {
            *f = !(0xffu32 >> ones) as u8 | (*f & (0x7f >> ones.min(7)) as u8);
        } else {
            *f = 0xff;
        }
    }
    c.eval();
    let (g, used) = under::de_val(&ty, &bytes, Default::default());
    judge(verdict(&ty, &bytes, 10), &g, used, &|| format!("{} from {}", ty, hexs(&bytes)))?;
    Ok(())
}

// ---------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12",
    rule: "case: random describable type and value; typed bytes, body bytes and reference bytes compared, then each side decodes the other's bytes. Non-trivial: distinct (type, encoding) of a composite type with an encoding of at least 2 bytes",
    quick: 500_000,
    thorough: 8_000_000,
    run: c12,
    blocks: Some((sized_blocks, c12_sized)),
    blocks_note: "everything with a length, count, variant index or nesting at every size 0..=300 and around the powers of two to 2^17 (texts and bytes to 2^24, nesting to 150; thorough: counts to 2^20)",
    known: &[],
    assumptions: &["the correspondence between types and headers is the one the format documents (products are tuples, small variant payloads are not wrapped)"],
};

fn c12(c: &mut Case) -> R {
    if c.src.chance(40) {
        let a = conc::all();
        let k = &a[c.src.usize(a.len())];
        if let Some(h) = conc::expected_header(k) {
            let b = match k.gen(&mut c.src) {
                Some(b) => b,
                None => {
                    c.exclude("value outside a concrete type's own invariant");
                    return Ok(());
                }
            };
            let (got, want) = k.ser(&b).ok_or("HARNESS: value vanished")?;
            let got = got.map_err(|e| format!("{}: not serialized: {:?}", k.name, e))?;
            c.eval();
            let mut d = Dec::new(&want);
            let v = decode(k.ty(), &mut d).map_err(|e| format!("HARNESS: {} {:?}", k.name, e))?;
            let mut long = got.clone();
            long.extend(tail(&mut c.src));
            let (body, n) = under::de_body(&h, &long);
            let body = body.map_err(|e| format!("{}: typed bytes {} do not decode as a body: {:?}", k.name, hexs(&got), e))?;
            check!(n == got.len(), "{}: body takes {} of {} bytes", k.name, n, got.len());
            let pv = normalize_maps(plain_val(k.ty(), &v));
            let bv = val_of(&h, &body).map_err(|e| format!("{}: {}", k.name, e))?;
            check!(bv == pv, "{}: body holds {}, the value is {}", k.name, show(&bv), show(&pv));
            let bb = under::ser(&body).map_err(|e| format!("{}: body not serialized: {:?}", k.name, e))?;
            let (back, n2) = k.de(&bb);
            match back {
                Ok(x) => check!(
                    n2 == bb.len() && (k.same(&x, &want) || k.desc.contains('M')),
                    "{}: bytes of the body decode to another value",
                    k.name
                ),
                Err(e) => fail!("{}: bytes {} of the body rejected: {:?}", k.name, hexs(&bb), e),
            }
            c.describe(|| format!("{} ({}) bytes {}", k.name, k.desc, hexs(&got)));
            if got.len() > 1 {
                c.nontrivial(h2(k.name.as_bytes(), &got));
            }
            c.label("concrete type");
            return Ok(());
        }
    }
    let o = TyOpts { depth: 1 + c.src.below(6) as u32, ..TyOpts::described() };
    let ty = gen_ty(&mut c.src, o);
    let h = header_of(&ty).ok_or("HARNESS: type without header")?;
    let v = body_val(&mut c.src, &ty);
    let want = enc(&ty, &v);
    let body = body_of(&ty, &v);
    let st = gen_style(&mut c.src);
    c.describe(|| format!("{} = {} -> {}", ty, show(&v), hexs(&want)));
    c.evals += 2;
    let tb = under::ser_val(&ty, &v, st).map_err(|e| format!("{}: {} not serialized: {:?}", ty, show(&v), e))?;
    let bb = under::ser(&body).map_err(|e| format!("{}: body of {} not serialized: {:?}", ty, show(&v), e))?;
    check!(
        tb == bb,
        "{}: {} encodes to {} typed and {} as a body",
        ty,
        show(&v),
        hexs(&tb),
        hexs(&bb)
    );
    check!(tb == want, "{}: {} encodes to {} on both sides, expected {}", ty, show(&v), hexs(&tb), hexs(&want));
    let mut long = want.clone();
    long.extend(tail(&mut c.src));
    let mut st2 = gen_style(&mut c.src);
    st2.names = st.names;
    c.evals += 2;
    let (x, n) = under::de_val(&ty, &long, st2);
    match x {
        Ok(x) => check!(x == v && n == want.len(), "{}: bytes {} of a body decode to {} ({} bytes)", ty, hexs(&want), show(&x), n),
        Err(e) => fail!("{}: bytes {} of a body rejected by the type: {:?}", ty, hexs(&want), e),
    }
    let (y, n) = under::de_body(&h, &long);
    match y {
        Ok(y) => {
            let yv = val_of(&h, &y).map_err(|e| format!("{}: decoded body does not conform: {}", ty, e))?;
            check!(
                yv == plain_val(&ty, &v) && n == want.len(),
                "{}: typed bytes {} decode to the body {} ({} bytes)",
                ty,
                hexs(&want),
                show(&yv),
                n
            );
        }
        Err(e) => fail!("{}: typed bytes {} rejected under the header: {:?}", ty, hexs(&want), e),
    }
    if ty.is_composite() && want.len() > 1 {
        c.nontrivial(h2(ty.to_string().as_bytes(), &want));
    }
    c.label(if ty.is_composite() { "composite type" } else { "leaf type" });
    Ok(())
}
