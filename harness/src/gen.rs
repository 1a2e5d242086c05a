//! Generators: types, values, headers, hostile encodings, mutations. All choices come from the tape.
use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Copy)]
pub struct TyOpts {
    pub depth: u32,
    pub nodes: i64,
    /// only types a header can describe
    pub describable: bool,
    /// sequences of zero-sized elements allowed
    pub zero_elems: bool,
    /// very wide products and sums allowed
    pub wide: bool,
}

impl TyOpts {
    pub fn typed() -> Self {
        TyOpts { depth: 5, nodes: 24, describable: false, zero_elems: true, wide: true }
    }
    pub fn described() -> Self {
        TyOpts { depth: 5, nodes: 24, describable: true, zero_elems: true, wide: true }
    }
}

pub const LEAVES: &[Ty] = &[
    Ty::U8,
    Ty::Unit,
    Ty::Bool,
    Ty::U16,
    Ty::U32,
    Ty::U64,
    Ty::I8,
    Ty::I16,
    Ty::I32,
    Ty::I64,
    Ty::F32,
    Ty::F64,
    Ty::Str,
    Ty::Bytes,
    Ty::BigUint,
    Ty::BigInt,
    Ty::BigDec,
    Ty::Date,
    Ty::DateTime,
    Ty::UnitStruct,
    Ty::Char,
];

pub fn gen_leaf(s: &mut Src, describable: bool) -> Ty {
    let n = if describable { 19 } else { 21 };
    LEAVES[s.usize(n)].clone()
}

/// Widths at which an entry count or an index changes its encoded length, and their neighbours.
pub fn gen_width(s: &mut Src, max: usize) -> usize {
    let w = match s.below(4) {
        0 => 60 + s.usize(10),
        1 => 125 + s.usize(6),
        2 => 254 + s.usize(5),
        _ => 16 + s.usize(400),
    };
    w.min(max)
}

pub fn gen_ty(s: &mut Src, o: TyOpts) -> Ty {
    let mut nodes = o.nodes;
    ty_rec(s, &o, o.depth, &mut nodes)
}

fn ty_rec(s: &mut Src, o: &TyOpts, depth: u32, nodes: &mut i64) -> Ty {
    *nodes -= 1;
    if depth == 0 || *nodes <= 0 {
        return gen_leaf(s, o.describable);
    }
    match s.weighted(&[7, 3, 4, 3, 3, 2, 3, 4, 1]) {
        0 => gen_leaf(s, o.describable),
        1 => Ty::Opt(Box::new(ty_rec(s, o, depth - 1, nodes))),
        2 => {
            let t = ty_rec(s, o, depth - 1, nodes);
            if t.min_size() == 0 && !o.zero_elems {
                // keep the shape, give the element a size
                return Ty::Seq(Box::new(Ty::Opt(Box::new(t))));
            }
            Ty::Seq(Box::new(t))
        }
        3 => Ty::Map(Box::new(ty_rec(s, o, depth - 1, nodes))),
        4 => Ty::Tuple(ty_list(s, o, depth, nodes, 5)),
        5 => {
            if s.bool() {
                Ty::TupleStruct(ty_list(s, o, depth, nodes, 4))
            } else {
                Ty::Newtype(Box::new(ty_rec(s, o, depth - 1, nodes)))
            }
        }
        6 => Ty::Struct(ty_list(s, o, depth, nodes, 5)),
        7 => {
            let base = if o.describable {
                0
            } else {
                match s.below(6) {
                    0..=3 => 0,
                    4 => *s.pick(&[1u32, 62, 63, 64, 126, 127, 128, 255, 256, 8190, 8191, 8192, 16382, 16383, 16384]),
                    _ => *s.pick(&[
                        65_533u32,
                        65_534,
                        65_535,
                        65_536,
                        (1 << 21) - 2,
                        1 << 21,
                        (1 << 28) - 2,
                        1 << 28,
                        u32::MAX - 600,
                    ]),
                }
            };
            let n = 1 + s.usize(5);
            let mut vars: Vec<Var> = (0..n).map(|_| var_rec(s, o, depth, nodes)).collect();
            if o.wide && s.chance(24) {
                let w = gen_width(s, 400);
                while vars.len() < w {
                    vars.push(match s.below(3) {
                        0 => Var::Unit,
                        1 => Var::Newtype(gen_leaf(s, o.describable)),
                        _ => Var::Tuple(vec![Ty::U8, Ty::U8]),
                    });
                }
            }
            Ty::Enum(base, vars)
        }
        _ => {
            if !o.wide {
                return gen_leaf(s, o.describable);
            }
            let w = gen_width(s, 400);
            let t = gen_leaf(s, o.describable);
            let mut v = vec![t; w];
            let k = s.usize(w);
            v[k] = gen_leaf(s, o.describable);
            if s.bool() {
                Ty::Struct(v)
            } else {
                Ty::Tuple(v)
            }
        }
    }
}

fn ty_list(s: &mut Src, o: &TyOpts, depth: u32, nodes: &mut i64, max: usize) -> Vec<Ty> {
    let n = s.usize(max + 1);
    (0..n).map(|_| ty_rec(s, o, depth - 1, nodes)).collect()
}

fn var_rec(s: &mut Src, o: &TyOpts, depth: u32, nodes: &mut i64) -> Var {
    match s.below(4) {
        0 => Var::Unit,
        1 => Var::Newtype(ty_rec(s, o, depth - 1, nodes)),
        2 => {
            let mut v = ty_list(s, o, depth, nodes, 3);
            if v.len() == 1 {
                // serde calls a one-field tuple variant a newtype variant
                Var::Newtype(v.pop().unwrap())
            } else {
                Var::Tuple(v)
            }
        }
        _ => Var::Struct(ty_list(s, o, depth, nodes, 4)),
    }
}

// ---------------------------------------------------------------- values

pub fn gen_len(s: &mut Src, cheap: bool) -> usize {
    match s.weighted(&[60, 20, 8, 6, 4, 2, 4]) {
        0 => s.usize(5),
        1 => s.usize(20),
        6 => s.literal_len(if cheap { 20_000 } else { 60 }),
        2 => 124 + s.usize(8),
        3 => 252 + s.usize(8),
        4 => {
            if cheap {
                s.usize(3000)
            } else {
                s.usize(40)
            }
        }
        _ => {
            if cheap {
                16380 + s.usize(8)
            } else {
                s.usize(60)
            }
        }
    }
}

pub fn gen_text_len(s: &mut Src) -> usize {
    let n = text_len(s);
    n.min(s.cap)
}
fn text_len(s: &mut Src) -> usize {
    match s.weighted(&[110, 40, 30, 14, 8, 8, 4, 2, 1, 6]) {
        0 => s.usize(8),
        9 => s.literal_len(70_000),
        1 => s.usize(64),
        2 => 120 + s.usize(16),
        3 => 250 + s.usize(12),
        4 => 4090 + s.usize(12),
        5 => 4096 * (1 + s.usize(5)) + s.usize(5) - 2,
        6 => 16380 + s.usize(8),
        7 => 65530 + s.usize(12),
        _ => {
            if s.chance(40) {
                (1 << 21) - 2 + s.usize(5)
            } else {
                s.usize(20000)
            }
        }
    }
}

pub fn gen_bytes_of(s: &mut Src, n: usize) -> Vec<u8> {
    if n <= 16 {
        return (0..n).map(|_| s.byte()).collect();
    }
    let seed = s.raw(4);
    let mode = seed % 4;
    let mut r = crate::tape::Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    match mode {
        0 => v.resize(n, (seed >> 8) as u8),
        1 => {
            // position-dependent, so a shifted or repeated block shows
            for i in 0..n {
                v.push((i ^ (i >> 8)) as u8)
            }
        }
        _ => {
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes())
            }
            v.truncate(n);
        }
    }
    v
}

const CHARS: &[char] = &[
    'a', '\0', 'Z', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', 'ひ', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}',
    '\u{10000}', '😀', '\u{10ffff}',
];

pub fn gen_char(s: &mut Src) -> char {
    match s.below(5) {
        4 => {
            let v = s.literal() as u32;
            char::from_u32(v).unwrap_or('\u{fffd}')
        }
        0 => (b'a' + s.below(26) as u8) as char,
        1 | 2 => *s.pick(CHARS),
        _ => {
            let c = s.below(0x110000) as u32;
            char::from_u32(c).unwrap_or('\u{fffd}')
        }
    }
}

/// A string of exactly n bytes.
pub fn gen_string_of(s: &mut Src, n: usize) -> String {
    let mut o = String::with_capacity(n + 4);
    if n == 0 {
        return o;
    }
    if n <= 12 {
        while o.len() < n {
            let c = gen_char(s);
            if o.len() + c.len_utf8() <= n {
                o.push(c)
            } else {
                o.push('x')
            }
        }
        return o;
    }
    let seed = s.raw(4);
    let mut r = crate::tape::Rng::new(seed);
    match seed % 4 {
        0 => {
            for _ in 0..n {
                o.push('a')
            }
        }
        1 => {
            // one wide character repeated, shifted by 0..3 bytes so it straddles any boundary
            let c = CHARS[(r.next() % CHARS.len() as u64) as usize];
            for _ in 0..(seed >> 8) % 4 {
                if o.len() < n {
                    o.push('-')
                }
            }
            while o.len() + c.len_utf8() <= n {
                o.push(c)
            }
            while o.len() < n {
                o.push('.')
            }
        }
        _ => {
            while o.len() < n {
                let k = r.next();
                let c = if k % 3 == 0 {
                    CHARS[(k >> 8) as usize % CHARS.len()]
                } else {
                    char::from_u32((k >> 8) as u32 % 0x3000).unwrap_or('?')
                };
                if o.len() + c.len_utf8() <= n {
                    o.push(c)
                } else {
                    o.push('x')
                }
            }
        }
    }
    o
}

/// A text the code mentions, alone, in pieces or with company.
pub fn literal_text(s: &mut Src) -> String {
    let t: &String = s.pick(&crate::tape::dict().texts);
    match s.below(6) {
        0 => format!("{}{}", t, gen_char(s)),
        1 => format!("{}{}", gen_char(s), t),
        2 => t.chars().take(s.usize(t.len() + 1)).collect(),
        3 => s.literal().to_string(),
        _ => t.clone(),
    }
}

pub fn gen_key(s: &mut Src, i: usize) -> String {
    match s.below(6) {
        5 if i == 0 || s.bool() => literal_text(s),
        0 => format!("{}", i),
        1 => String::new(),
        2 => {
            let n = s.usize(6);
            gen_string_of(s, n)
        }
        3 => format!("{}{}", *s.pick(CHARS), i),
        _ => {
            let n = gen_text_len(s).min(5000);
            gen_string_of(s, n)
        }
    }
}

pub fn gen_f32(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => *s.pick(&[
            0,
            0x8000_0000,
            0x3f80_0000,
            0x7f80_0000,
            0xff80_0000,
            0x7fc0_0000,
            0xffc0_0001,
            0x7f80_0001,
            0x7fa0_1234,
            1,
            0x007f_ffff,
            0x7f7f_ffff,
        ]),
        3 => {
            let f = match s.below(3) {
                0 => *s.pick(&crate::tape::dict().floats),
                1 => s.int(64) as f64,
                _ => s.literal() as f64,
            };
            (if s.bool() { f } else { -f } as f32).to_bits()
        }
        _ => s.raw(4) as u32,
    }
}
pub fn gen_f64(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => *s.pick(&[
            0,
            1 << 63,
            0x3ff0_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0xfff8_0000_0000_0001,
            0x7ff0_0000_0000_0001,
            0x7ff4_1234_5678_9abc,
            1,
            0x000f_ffff_ffff_ffff,
        ]),
        3 => {
            let f = match s.below(3) {
                0 => *s.pick(&crate::tape::dict().floats),
                1 => s.int(64) as f64,
                _ => s.literal() as f64,
            };
            (if s.bool() { f } else { -f }).to_bits()
        }
        _ => s.raw(8),
    }
}

fn big_len(s: &mut Src) -> usize {
    let n = any_big_len(s);
    n.min(s.cap)
}
fn any_big_len(s: &mut Src) -> usize {
    match s.weighted(&[40, 30, 6, 3, 2, 1, 2]) {
        0 => s.usize(10),
        6 => s.literal_len(20_000),
        1 => s.usize(40),
        2 => 120 + s.usize(16),
        3 => 250 + s.usize(12),
        4 => s.usize(3000),
        _ => 16380 + s.usize(8),
    }
}

/// Shortest little-endian magnitude.
pub fn gen_biguint(s: &mut Src) -> Vec<u8> {
    let n = big_len(s);
    let mut b = match s.below(4) {
        3 => {
            let mut b = s.literal().to_le_bytes().to_vec();
            if s.chance(40) {
                b.splice(0..0, std::iter::repeat(0).take(n.min(40)));
            }
            b
        }
        0 => {
            let mut b = vec![0u8; n];
            if n > 0 {
                b[n - 1] = *s.pick(&[1u8, 0x7f, 0x80, 0xff]);
            }
            if s.bool() && n > 1 {
                b[0] = 1;
            }
            b
        }
        1 => vec![0xff; n],
        _ => gen_bytes_of(s, n),
    };
    b = minimize_unsigned(b);
    b
}

/// Shortest two's complement little-endian bytes.
pub fn gen_bigint(s: &mut Src) -> Vec<u8> {
    let n = big_len(s);
    let b = match s.below(5) {
        4 => {
            let v = s.literal() as i128;
            let mut b = (if s.bool() { v } else { -v }).to_le_bytes().to_vec();
            if s.chance(40) {
                b.splice(0..0, std::iter::repeat(0).take(n.min(40)));
            }
            b
        }
        0 => {
            let mut b = vec![*s.pick(&[0u8, 0xff]); n];
            if n > 0 {
                b[n - 1] = *s.pick(&[1u8, 0x7f, 0x80, 0xff, 0, 0x40, 0xc0]);
            }
            if n > 1 && s.bool() {
                b[n - 2] = *s.pick(&[0u8, 0x7f, 0x80, 0xff]);
            }
            b
        }
        _ => gen_bytes_of(s, n),
    };
    minimize_signed(b)
}

/// Value modulo 10 of two's complement little-endian bytes is zero?
pub fn divisible_by_10(b: &[u8]) -> bool {
    let neg = b.last().map_or(false, |x| x & 0x80 != 0);
    let mut m: i64 = 0;
    let mut p: i64 = 1;
    for x in b {
        m = (m + p * (*x as i64)) % 10;
        p = (p * 256) % 10;
    }
    if neg {
        m = (m - p).rem_euclid(10);
    }
    m.rem_euclid(10) == 0
}

pub fn gen_bigdec(s: &mut Src) -> (Vec<u8>, i64) {
    let mut b = gen_bigint(s);
    if b.is_empty() {
        return (b, 0);
    }
    // normalized digits: no factor of ten
    while divisible_by_10(&b) {
        b[0] = b[0].wrapping_add(1);
        b = minimize_signed(b);
        if b.is_empty() {
            b = vec![1];
        }
    }
    let scale = match s.below(5) {
        4 => {
            let v = s.literal() as i64;
            (if s.bool() { v } else { v.wrapping_neg() }).clamp(-(1 << 62), 1 << 62)
        }
        0 => 0,
        1 => s.int(8),
        2 => s.int(32),
        _ => s.int(63).clamp(-(1 << 62), 1 << 62),
    };
    (b, scale)
}

pub fn gen_date(s: &mut Src) -> (i64, u32) {
    let y: i64 = match s.below(5) {
        0 => 2000 + s.int(8),
        1 => *s.pick(&[
            2000i64, 1999, 2001, 1970, 0, -1, -4, 4, 1900, 2100, 2004, -9999, 9999, -9996, 9996, 1936, 1937, 2063, 2064,
            10192 - 200, -6192, -6193, -6191, 8191,
        ]),
        3 => match s.below(3) {
            0 => s.literal() as i64 % 10_000,
            1 => -(s.literal() as i64 % 10_000),
            _ => 2000 - s.literal() as i64 % 10_000,
        },
        _ => s.range(0, 19998) as i64 - 9999,
    };
    let y = y.clamp(-9999, 9999);
    let max = if is_leap(y) { 366 } else { 365 };
    let o = match s.below(5) {
        4 => (s.literal() % 367) as u32,
        0 => 1 + s.below(3) as u32,
        1 => max - s.below(3) as u32,
        2 => *s.pick(&[59u32, 60, 61, 63, 64, 65, 66, 127, 128, 129, 130, 256, 257]),
        _ => s.range(1, max as u64) as u32,
    };
    (y, o.clamp(1, max))
}

pub fn gen_datetime(s: &mut Src) -> (i64, u32) {
    let ts = match s.below(6) {
        5 => {
            // multiples of days, years and whatever the code mentions
            let k = *s.pick(&[1i64, 60, 3600, 86_400, 31_536_000]);
            let v = (s.literal() as i64).wrapping_mul(k);
            (if s.bool() { v } else { v.wrapping_neg() }).wrapping_add(s.below(3) as i64 - 1)
        }
        0 => s.int(8),
        1 => s.int(32),
        2 => *s.pick(&[0i64, -1, 1, -86400, 86399, MIN_TS, MIN_TS + 1, MAX_TS, MAX_TS - 1, i32::MAX as i64, i32::MIN as i64, -2208988800]),
        _ => s.int(40),
    }
    .clamp(MIN_TS, MAX_TS);
    let n = match s.below(4) {
        0 => 0,
        3 => (s.literal() % 1_000_000_000) as u32,
        1 => *s.pick(&[1u32, 999_999_999, 500_000_000, 127, 128, 16383, 16384, 1 << 21, 1 << 28, (1 << 28) - 1]),
        _ => s.below(1_000_000_000) as u32,
    };
    (ts, n)
}

pub struct VOpts {
    /// map keys sorted and unique
    pub sorted_maps: bool,
    pub budget: i64,
}

pub fn gen_val(s: &mut Src, ty: &Ty, o: &mut VOpts) -> Val {
    let cap = s.cap;
    if o.budget < 10 {
        s.cap = cap.min(300);
    }
    let v = val_rec(s, ty, o);
    s.cap = cap;
    v
}
fn val_rec(s: &mut Src, ty: &Ty, o: &mut VOpts) -> Val {
    o.budget -= 1;
    match ty {
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Bool => Val::Bool(s.bool()),
        Ty::U8 => Val::U(s.uint(8)),
        Ty::U16 => Val::U(s.uint(16)),
        Ty::U32 => Val::U(s.uint(32)),
        Ty::U64 => Val::U(s.uint(64)),
        Ty::I8 => Val::I(s.int(8)),
        Ty::I16 => Val::I(s.int(16)),
        Ty::I32 => Val::I(s.int(32)),
        Ty::I64 => Val::I(s.int(64)),
        Ty::F32 => Val::F32(gen_f32(s)),
        Ty::F64 => Val::F64(gen_f64(s)),
        Ty::Char => Val::Char(gen_char(s)),
        Ty::Str => {
            let n = if o.budget < 0 { s.usize(3) } else { gen_text_len(s) };
            o.budget -= (n / 64) as i64;
            if n > 0 && n < 64 && s.chance(20) {
                return Val::Str(literal_text(s));
            }
            Val::Str(gen_string_of(s, n))
        }
        Ty::Bytes => {
            let n = if o.budget < 0 { s.usize(3) } else { gen_text_len(s) };
            o.budget -= (n / 64) as i64;
            if n > 0 && n < 64 && s.chance(10) {
                return Val::Bytes(if s.bool() { literal_text(s).into_bytes() } else { s.literal().to_le_bytes()[..1 + s.usize(8)].to_vec() });
            }
            Val::Bytes(gen_bytes_of(s, n))
        }
        Ty::Opt(t) => {
            if o.budget > -50 && !s.chance(80) && s.byte() > 0 {
                Val::Opt(Some(Box::new(gen_val(s, t, o))))
            } else {
                Val::Opt(None)
            }
        }
        Ty::Newtype(t) => gen_val(s, t, o),
        Ty::Seq(t) => Val::Seq(gen_elems(s, t, o)),
        Ty::Map(t) => {
            let vs = gen_elems(s, t, o);
            let mut m: Vec<(String, Val)> = Vec::with_capacity(vs.len());
            let many = vs.len() > 40;
            let seed = if many { s.raw(4) } else { 0 };
            let mut sub = Src::random(seed);
            sub.cap = if vs.len() > 1000 { 40 } else { 300 };
            let mut seen = std::collections::HashSet::new();
            for (i, v) in vs.into_iter().enumerate() {
                let mut k = if many { gen_key(&mut sub, i) } else { gen_key(s, i) };
                o.budget -= (k.len() / 64) as i64;
                if o.budget < 10 {
                    s.cap = s.cap.min(300);
                }
                if !seen.insert(k.clone()) {
                    k = format!("{}~{}", if k.len() > 100 { "" } else { &k }, i);
                    seen.insert(k.clone());
                }
                m.push((k, v));
            }
            if o.sorted_maps {
                m.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
                m.dedup_by(|a, b| a.0 == b.0);
            }
            Val::Map(m)
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Val::Tup(gen_fields(s, ts, o)),
        Ty::Enum(base, vars) => {
            let k = match s.below(4) {
                0 => vars.len() - 1,
                _ => s.usize(vars.len()),
            };
            let p = match &vars[k] {
                Var::Unit => Val::Unit,
                Var::Newtype(t) => gen_val(s, t, o),
                Var::Tuple(ts) | Var::Struct(ts) => Val::Tup(gen_fields(s, ts, o)),
            };
            Val::Enum(*base + k as u32, Box::new(p))
        }
        Ty::BigUint => Val::BigUint(gen_biguint(s)),
        Ty::BigInt => Val::BigInt(gen_bigint(s)),
        Ty::BigDec => {
            let (b, e) = gen_bigdec(s);
            Val::BigDec(b, e)
        }
        Ty::Date => {
            let (y, d) = gen_date(s);
            Val::Date(y, d)
        }
        Ty::DateTime => {
            let (t, n) = gen_datetime(s);
            Val::DateTime(t, n)
        }
    }
}

fn gen_fields(s: &mut Src, ts: &[Ty], o: &mut VOpts) -> Vec<Val> {
    if ts.len() > 40 {
        let mut sub = Src::random(s.raw(4));
        sub.cap = s.cap.min(if ts.len() > 1000 { 40 } else { 300 });
        ts.iter().map(|t| gen_val(&mut sub, t, o)).collect()
    } else {
        ts.iter().map(|t| gen_val(s, t, o)).collect()
    }
}

fn gen_elems(s: &mut Src, t: &Ty, o: &mut VOpts) -> Vec<Val> {
    let cheap = !t.is_composite() && !matches!(t, Ty::Str | Ty::Bytes | Ty::BigUint | Ty::BigInt | Ty::BigDec);
    let mut n = if o.budget <= 0 { s.usize(2) } else { gen_len(s, cheap) };
    let w = t.nodes() as i64;
    if (n as i64) * w > 40_000 {
        n = (40_000 / w) as usize;
    }
    if o.budget < 10 {
        n = n.min(300);
    }
    if !cheap && n as i64 * w > o.budget.max(10) {
        n = (o.budget.max(10) / w) as usize;
    }
    if n > 40 {
        let mut sub = Src::random(s.raw(4));
        sub.cap = s.cap.min(if n > 1000 { 40 } else { 300 });
        // the element budget is shared out so that long sequences hold small elements
        let mut each = VOpts { sorted_maps: o.sorted_maps, budget: if cheap { 4 } else { 2 } };
        o.budget -= n as i64;
        (0..n)
            .map(|_| {
                each.budget = 2;
                gen_val(&mut sub, t, &mut each)
            })
            .collect()
    } else {
        (0..n).map(|_| gen_val(s, t, o)).collect()
    }
}

pub fn val(s: &mut Src, ty: &Ty) -> Val {
    gen_val(s, ty, &mut VOpts { sorted_maps: false, budget: 400 })
}
pub fn body_val(s: &mut Src, ty: &Ty) -> Val {
    gen_val(s, ty, &mut VOpts { sorted_maps: true, budget: 400 })
}

pub fn gen_style(s: &mut Src) -> crate::dynserde::Style {
    crate::dynserde::Style {
        names: s.usize(2),
        split_entries: s.bool(),
        collect_str: s.chance(64),
        skip_fields: s.chance(64),
        visitor: 0,
        borrowed: s.chance(64),
    }
}

// ---------------------------------------------------------------- hostile bytes

/// Encodes something shaped like `ty`, with defects injected at random nodes.
pub struct Hostile<'a> {
    pub s: &'a mut Src,
    pub out: Vec<u8>,
    /// chance of a defect per node, of 256
    pub p: u32,
    pub defects: u32,
    pub budget: i64,
}

impl<'a> Hostile<'a> {
    fn defect(&mut self) -> bool {
        let d = self.s.chance(self.p);
        if d {
            self.defects += 1;
        }
        d
    }
    fn varint(&mut self, v: u64, width: u32) {
        let mask = if width == 64 { u64::MAX } else { (1 << width) - 1 };
        let v = v & mask;
        if !self.defect() {
            put_varint(&mut self.out, v, width);
            return;
        }
        match self.s.below(4) {
            0 => put_varint_last(&mut self.out, v, width, 0),
            1 => {
                let n = self.s.byte();
                put_varint_last(&mut self.out, v, width, n)
            }
            2 => {
                // a longer prefixed form
                let mut need = 1;
                while need < width / 8 && v >= 1u64 << (7 * need) {
                    need += 1;
                }
                if width / 8 > need && (7 * need >= 64 || v < 1u64 << (7 * need)) {
                    let n = need + 1 + self.s.below((width / 8 - need) as u64) as u32;
                    put_varint_len(&mut self.out, v, n);
                } else {
                    put_varint(&mut self.out, v, width)
                }
            }
            _ => {
                let r = self.s.uint(width);
                put_varint(&mut self.out, r, width)
            }
        }
    }
    fn len(&mut self, n: usize) {
        if !self.defect() {
            put_varint(&mut self.out, n as u64, 64);
            return;
        }
        let v = match self.s.below(6) {
            0 => n as u64 + 1,
            1 => (n as u64).saturating_sub(1),
            2 => n as u64 + 1 + self.s.below(300),
            3 => *self.s.pick(&[
                u64::MAX,
                u64::MAX - 1,
                1 << 63,
                (1 << 63) - 1,
                1 << 62,
                1 << 60,
                1 << 59,
                1 << 58,
                1 << 48,
                1 << 40,
                1 << 36,
                (1 << 32) + 1,
                1 << 32,
                u32::MAX as u64,
                1 << 31,
                1 << 30,
                1 << 26,
                1 << 22,
                1 << 20,
                1 << 16,
                4097,
                4096,
                1025,
                128,
            ]),
            4 => self.s.uint(64),
            _ => {
                self.varint(n as u64, 64);
                return;
            }
        };
        put_varint(&mut self.out, v, 64);
    }
    fn bool(&mut self, b: bool) {
        if self.defect() {
            let x = match self.s.below(3) {
                0 => 2,
                1 => 0xff,
                _ => self.s.byte(),
            };
            self.out.push(x)
        } else {
            self.out.push(b as u8)
        }
    }
    fn text(&mut self) {
        let n = if self.budget < 0 { self.s.usize(3) } else { gen_text_len(self.s).min(20_000) };
        self.budget -= n as i64 / 64;
        let mut b = gen_string_of(self.s, n).into_bytes();
        if self.defect() {
            let bad: &[u8] = *self.s.pick(&[
                &[0x80][..],
                &[0xff],
                &[0xc0, 0x80],
                &[0xe0, 0x80, 0x80],
                &[0xed, 0xa0, 0x80],
                &[0xf4, 0x90, 0x80, 0x80],
                &[0xf8, 0x88, 0x80, 0x80, 0x80],
                &[0xc3],
                &[0xe3, 0x81],
                &[0xf0, 0x9f, 0x98],
            ]);
            match self.s.below(3) {
                0 => b.extend_from_slice(bad),
                1 => {
                    let k = self.s.usize(b.len() + 1);
                    let t = b.split_off(k);
                    b.extend_from_slice(bad);
                    b.extend(t);
                }
                _ => {
                    // keep the length, damage the tail
                    let k = b.len().min(bad.len());
                    let n = b.len();
                    b[n - k..].copy_from_slice(&bad[..k]);
                }
            }
        }
        self.len(b.len());
        self.out.extend_from_slice(&b);
    }
    pub fn ty(&mut self, ty: &Ty) {
        self.budget -= 1;
        match ty {
            Ty::Unit | Ty::UnitStruct => {}
            Ty::Bool => {
                let b = self.s.bool();
                self.bool(b)
            }
            Ty::U8 | Ty::I8 => {
                let b = self.s.byte();
                self.out.push(b)
            }
            Ty::U16 | Ty::I16 => {
                let v = self.s.uint(16);
                self.varint(v, 16)
            }
            Ty::U32 | Ty::I32 => {
                let v = self.s.uint(32);
                self.varint(v, 32)
            }
            Ty::U64 | Ty::I64 => {
                let v = self.s.uint(64);
                self.varint(v, 64)
            }
            Ty::F32 => {
                let b = gen_f32(self.s);
                self.out.extend_from_slice(&b.to_le_bytes())
            }
            Ty::F64 => {
                let b = gen_f64(self.s);
                self.out.extend_from_slice(&b.to_le_bytes())
            }
            Ty::Char => {
                if self.defect() {
                    match self.s.below(3) {
                        0 => self.out.push(0),
                        1 => {
                            let n = self.s.usize(6);
                            let t = gen_string_of(self.s, n);
                            put_varint(&mut self.out, t.len() as u64, 64);
                            self.out.extend_from_slice(t.as_bytes());
                        }
                        _ => self.text(),
                    }
                } else {
                    let c = gen_char(self.s).to_string();
                    self.len(c.len());
                    self.out.extend_from_slice(c.as_bytes());
                }
            }
            Ty::Str => self.text(),
            Ty::Bytes => {
                let n = if self.budget < 0 { self.s.usize(3) } else { gen_text_len(self.s).min(20_000) };
                self.budget -= n as i64 / 64;
                let b = gen_bytes_of(self.s, n);
                self.len(n);
                self.out.extend_from_slice(&b);
            }
            Ty::Opt(t) => {
                let b = self.budget > -50 && self.s.bool();
                self.bool(b);
                if b {
                    self.ty(t)
                }
            }
            Ty::Newtype(t) => self.ty(t),
            Ty::Seq(t) => {
                let n = self.count();
                self.len(n);
                for _ in 0..n {
                    self.ty(t)
                }
            }
            Ty::Map(t) => {
                let n = self.count();
                self.len(n);
                let mut last: Option<Vec<u8>> = None;
                for i in 0..n {
                    match &last {
                        // duplicate keys are part of what can arrive
                        Some(k) if self.s.chance(30) => {
                            let k = k.clone();
                            self.out.extend_from_slice(&k)
                        }
                        _ => {
                            let at = self.out.len();
                            if self.s.chance(100) {
                                let k = gen_key(self.s, i);
                                put_varint(&mut self.out, k.len() as u64, 64);
                                self.out.extend_from_slice(k.as_bytes());
                            } else {
                                self.text();
                            }
                            last = Some(self.out[at..].to_vec());
                        }
                    }
                    self.ty(t)
                }
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => self.list(ts),
            Ty::Enum(base, vars) => {
                let k = self.s.usize(vars.len().max(1));
                let i = if self.defect() {
                    let n = vars.len() as u64;
                    let b = *base as u64;
                    match self.s.below(5) {
                        0 => b + n,
                        1 => b + n + 1 + self.s.below(70),
                        2 => b.wrapping_sub(1),
                        3 => u32::MAX as u64,
                        _ => b + n + (1 << 16) * self.s.below(4),
                    }
                } else {
                    *base as u64 + k as u64
                };
                self.varint(i, 32);
                match vars.get(k) {
                    None | Some(Var::Unit) => {}
                    Some(Var::Newtype(t)) => self.ty(t),
                    Some(Var::Tuple(ts)) | Some(Var::Struct(ts)) => self.list(ts),
                }
            }
            Ty::BigUint | Ty::BigInt | Ty::BigDec => {
                let mut b = if *ty == Ty::BigUint { gen_biguint(self.s) } else { gen_bigint(self.s) };
                if self.defect() {
                    let x = *self.s.pick(&[0u8, 0xff]);
                    for _ in 0..1 + self.s.usize(3) {
                        b.push(x)
                    }
                }
                self.len(b.len());
                self.out.extend_from_slice(&b);
                if *ty == Ty::BigDec && !b.is_empty() {
                    let e = zigzag(self.s.int(64));
                    self.varint(e, 64)
                }
            }
            Ty::Date => {
                let (mut y, mut o) = gen_date(self.s);
                if self.defect() {
                    match self.s.below(5) {
                        0 => o = if is_leap(y) { 367 } else { 366 },
                        1 => o = 1 + self.s.uint(16) as u32,
                        2 => y = 2000 + self.s.int(32),
                        3 => {
                            y = *self.s.pick(&[
                                10_000i64,
                                -10_000,
                                9999,
                                -9999,
                                i32::MAX as i64 + 2000,
                                i32::MAX as i64,
                                i32::MAX as i64 + 1,
                                i32::MIN as i64 + 2000,
                                999_999,
                                1_000_000,
                                -999_999,
                            ])
                        }
                        _ => {
                            y = 2000 + self.s.int(32);
                            o = 1 + self.s.uint(16) as u32
                        }
                    }
                }
                self.varint(zigzag(y - 2000), 32);
                self.varint(o as u64 - 1, 16);
            }
            Ty::DateTime => {
                let (mut t, mut n) = gen_datetime(self.s);
                if self.defect() {
                    match self.s.below(4) {
                        0 => n = *self.s.pick(&[1_000_000_000u32, 1_000_000_001, u32::MAX, 1_999_999_999, 2_000_000_000]),
                        1 => t = *self.s.pick(&[MAX_TS + 1, MIN_TS - 1, i64::MAX, i64::MIN, MAX_TS, MAX_TS - 3, MIN_TS - 4]),
                        2 => t = self.s.int(64),
                        _ => {
                            t = self.s.int(64);
                            n = self.s.uint(32) as u32
                        }
                    }
                }
                self.varint(zigzag(t), 64);
                self.varint(n as u64, 32);
            }
        }
    }
    fn count(&mut self) -> usize {
        if self.budget <= 0 {
            self.s.usize(2)
        } else {
            match self.s.weighted(&[20, 6, 1]) {
                0 => self.s.usize(4),
                1 => self.s.usize(12),
                _ => (120 + self.s.usize(20)).min(self.budget as usize),
            }
        }
    }
    fn list(&mut self, ts: &[Ty]) {
        for t in ts {
            self.ty(t)
        }
    }
}

pub const HOSTILE_KINDS: [&str; 4] = ["bytes: random", "bytes: mutated valid", "bytes: typed with defects", "bytes: typed, many defects"];

/// Bytes to throw at a decoder of `ty`.
pub fn gen_hostile(s: &mut Src, ty: &Ty) -> (Vec<u8>, &'static str) {
    let mut kind = s.weighted(&[2, 3, 8, 3]);
    if kind == 1 && ty.has_empty_enum() {
        kind = 2;
    }
    let mut b = match kind {
        0 => {
            let n = match s.below(3) {
                0 => s.usize(4),
                1 => s.usize(24),
                _ => s.usize(200),
            };
            match s.below(3) {
                0 => gen_bytes_of(s, n),
                1 => (0..n).map(|_| s.below(4) as u8).collect(),
                _ => (0..n).map(|_| s.uint(8) as u8).collect(),
            }
        }
        1 => {
            let v = gen_val(s, ty, &mut VOpts { sorted_maps: false, budget: 60 });
            let mut b = enc(ty, &v);
            let k = 1 + s.usize(3);
            for _ in 0..k {
                mutate(s, &mut b)
            }
            b
        }
        _ => {
            let p = if kind == 2 { 14 } else { 70 };
            let mut h = Hostile { s, out: Vec::new(), p, defects: 0, budget: 120 };
            h.ty(ty);
            h.out
        }
    };
    match s.below(4) {
        0 => {
            let k = s.usize(b.len() + 1);
            if s.bool() {
                b.truncate(k)
            }
        }
        1 => {
            let n = s.usize(12);
            let t = gen_bytes_of(s, n);
            b.extend(t)
        }
        _ => {}
    }
    (b, HOSTILE_KINDS[kind])
}

pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(s.byte());
        return;
    }
    // early positions matter most: they hold lengths and indices
    let at = if s.bool() { s.usize(b.len().min(12)) } else { s.usize(b.len()) };
    match s.below(7) {
        0 => b[at] ^= 1 << s.below(8),
        1 => b[at] = s.byte(),
        2 => b[at] = *s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xf7, 0xf8, 0xfe, 0xff]),
        3 => {
            let x = s.byte();
            b.insert(at, x)
        }
        4 => {
            b.remove(at);
        }
        5 => {
            let k = (at + 1 + s.usize(8)).min(b.len());
            let t = b[at..k].to_vec();
            for (i, x) in t.into_iter().enumerate() {
                b.insert(at + i, x)
            }
        }
        _ => b.truncate(at),
    }
}

// ---------------------------------------------------------------- headers

use dlhn::Header;

pub fn leaf_header(i: usize) -> Header {
    [
        Header::Unit,
        Header::Boolean,
        Header::UInt8,
        Header::UInt16,
        Header::UInt32,
        Header::UInt64,
        Header::Int8,
        Header::Int16,
        Header::Int32,
        Header::Int64,
        Header::Float32,
        Header::Float64,
        Header::BigUInt,
        Header::BigInt,
        Header::BigDecimal,
        Header::String,
        Header::Binary,
        Header::Date,
        Header::DateTime,
    ][i]
        .clone()
}
pub const LEAF_HEADERS: usize = 19;

/// Any header, nested at most about `depth`.
pub fn gen_header(s: &mut Src, depth: usize, nodes: &mut i64, wide: bool) -> Header {
    *nodes -= 1;
    if depth == 0 || *nodes <= 0 {
        return leaf_header(s.usize(LEAF_HEADERS));
    }
    match s.weighted(&[6, 3, 3, 3, 5, 5, 1]) {
        0 => leaf_header(s.usize(LEAF_HEADERS)),
        1 => Header::Optional(Box::new(gen_header(s, depth - 1, nodes, wide))),
        2 => Header::Array(Box::new(gen_header(s, depth - 1, nodes, wide))),
        3 => Header::Map(Box::new(gen_header(s, depth - 1, nodes, wide))),
        4 => {
            let n = s.usize(6);
            Header::Tuple((0..n).map(|_| gen_header(s, depth - 1, nodes, wide)).collect())
        }
        5 => {
            let n = s.usize(6);
            Header::Enum((0..n).map(|_| gen_header(s, depth - 1, nodes, wide)).collect())
        }
        _ => {
            let n = if wide {
                match s.below(14) {
                    12 | 13 => s.literal_len(20_000),
                    0 => 16380 + s.usize(10),
                    1 => 65530 + s.usize(6),
                    2 => s.usize(66000).min(65535),
                    _ => gen_width(s, 500),
                }
            } else {
                gen_width(s, 500)
            };
            let seed = s.raw(4);
            let mut sub = Src::random(seed);
            let mixed = seed % 3 == 0;
            let first = leaf_header(sub.usize(LEAF_HEADERS));
            let v: Vec<Header> = (0..n)
                .map(|_| {
                    if mixed {
                        match sub.below(8) {
                            0 => Header::Optional(Box::new(leaf_header(sub.usize(LEAF_HEADERS)))),
                            1 => Header::Tuple(vec![leaf_header(sub.usize(LEAF_HEADERS)); sub.usize(3)]),
                            _ => leaf_header(sub.usize(LEAF_HEADERS)),
                        }
                    } else {
                        first.clone()
                    }
                })
                .collect();
            *nodes -= (n / 16) as i64;
            if s.bool() {
                Header::Enum(v)
            } else {
                Header::Tuple(v)
            }
        }
    }
}

/// A chain of `depth` wrappers of random kinds around a small header.
pub fn gen_deep_header(s: &mut Src, depth: usize) -> Header {
    let mut n = 3;
    let mut h = gen_header(s, 1, &mut n, false);
    if header_depth(&h) > 0 {
        h = leaf_header(s.usize(LEAF_HEADERS));
    }
    for _ in 0..depth {
        h = match s.below(6) {
            0 => Header::Optional(Box::new(h)),
            1 => Header::Array(Box::new(h)),
            2 => Header::Map(Box::new(h)),
            3 => Header::Tuple(vec![h]),
            4 => Header::Enum(vec![h]),
            _ => Header::Tuple(vec![Header::UInt8, h]),
        };
    }
    h
}

/// A deep header and a value of it that reaches all the way down.
pub fn gen_deep_full(s: &mut Src, depth: usize) -> (Header, Val) {
    let mut h = leaf_header(s.usize(LEAF_HEADERS));
    let ty = crate::model::ty_of_header(&h);
    let mut v = gen_val(s, &ty, &mut VOpts { sorted_maps: true, budget: 3 });
    let mut copies = 3;
    for _ in 0..depth {
        (h, v) = wrap_full(s.below(8), h, v, &mut copies);
    }
    (h, v)
}
/// One more level around a header and a value of it.
pub fn wrap_full(kind: u64, h: Header, v: Val, copies: &mut u32) -> (Header, Val) {
    match kind {
        0 => (Header::Optional(Box::new(h)), Val::Opt(Some(Box::new(v)))),
        1 => (Header::Array(Box::new(h)), Val::Seq(vec![v])),
        2 => (Header::Map(Box::new(h)), Val::Map(vec![("k".into(), v)])),
        3 => (Header::Tuple(vec![h]), Val::Tup(vec![v])),
        4 => (Header::Enum(vec![h]), Val::Enum(0, Box::new(v))),
        5 => (Header::Enum(vec![Header::Unit, h]), Val::Enum(1, Box::new(v))),
        6 => (Header::Tuple(vec![Header::UInt8, h]), Val::Tup(vec![Val::U(200), v])),
        _ => {
            if *copies == 0 {
                (Header::Tuple(vec![h, Header::Boolean]), Val::Tup(vec![v, Val::Bool(true)]))
            } else {
                *copies -= 1;
                (Header::Array(Box::new(h)), Val::Seq(vec![v.clone(), v]))
            }
        }
    }
}
