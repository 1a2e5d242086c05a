//! Long and deep values: every length up to 300 and around the powers of two for everything that has a
//! length, a count, an index or a nesting. Exhaustive over this set in every run.
use crate::model::{Ty, Val, Var};

/// Lengths for things that are cheap per element.
pub fn long(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for k in 9..=if thorough { 20u32 } else { 17 } {
        for d in 0..3usize {
            v.push((1 << k) + d - 1);
        }
    }
    v.extend([1000, 4094, 10_000, 16_382, 65_534, 70_000, 100_000, 99_999]);
    // lengths the code mentions
    for l in &crate::tape::dict().ints {
        for n in l - 1..l.saturating_add(2) {
            if n > 300 && n < 1 << 18 && !v.contains(&(n as usize)) {
                v.push(n as usize);
            }
        }
    }
    v
}
fn short() -> Vec<usize> {
    (0..=300).collect()
}
fn text(n: usize, salt: usize) -> String {
    let mut s: String = (0..n).map(|i| (b'a' + ((i + salt) % 26) as u8) as char).collect();
    if salt % 3 == 1 && n >= 3 {
        s.truncate(n - 3);
        s.push('€');
    }
    if salt % 3 == 2 && n >= 4 {
        s.truncate(n - 4);
        s.insert(0, '😀');
    }
    s
}
fn mixed(i: usize) -> u64 {
    (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (i % 50)
}

pub const KINDS: u64 = 20;
const PARTS: u64 = 3;
pub fn blocks() -> u64 {
    KINDS * PARTS
}

/// Builds the value of the kind at a length; None where that length makes no sense for the kind.
fn make(kind: u64, n: usize, thorough: bool) -> Option<(Ty, Val)> {
    fn bx<T>(t: T) -> Box<T> {
        Box::new(t)
    }
    let max = match kind {
        0..=3 => usize::MAX,
        4..=6 => 1 << if thorough { 20 } else { 17 },
        7..=9 => 140_000,
        10..=14 => 70_000,
        _ => 150,
    };
    if n > max {
        return None;
    }
    let nest = |n: usize, t: Ty, v: Val, f: &dyn Fn(usize, Ty, Val) -> (Ty, Val)| {
        let mut x = (t, v);
        for i in 0..n {
            x = f(i, x.0, x.1);
        }
        x
    };
    Some(match kind {
        0 => (Ty::Str, Val::Str(text(n, n))),
        1 => (Ty::Tuple(vec![Ty::Str, Ty::U8]), Val::Tup(vec![Val::Str(text(n, n + 1)), Val::U(9)])),
        2 => (Ty::Bytes, Val::Bytes((0..n).map(|i| (i ^ (i >> 8)) as u8).collect())),
        3 => (Ty::Opt(bx(Ty::Bytes)), Val::Opt(Some(bx(Val::Bytes(vec![0xff; n]))))),
        4 => (Ty::Seq(bx(Ty::U8)), Val::Seq((0..n).map(|i| Val::U(i as u64 & 255)).collect())),
        5 => (Ty::Seq(bx(Ty::I64)), Val::Seq((0..n).map(|i| Val::I(mixed(i) as i64)).collect())),
        6 => (Ty::Seq(bx(Ty::Opt(bx(Ty::Bool)))), Val::Seq((0..n).map(|i| Val::Opt(if i % 3 == 0 { None } else { Some(bx(Val::Bool(i % 2 == 0))) })).collect())),
        7 => (Ty::Seq(bx(Ty::Str)), Val::Seq((0..n).map(|i| Val::Str(text(i % 5, i))).collect())),
        8 | 9 => {
            // sorted keys
            let m = (0..n).map(|i| (format!("{:06}", i), if kind == 8 { Val::U(i as u64) } else { Val::Tup(vec![Val::U(i as u64 & 255), Val::Str(text(i % 3, i))]) })).collect();
            (Ty::Map(bx(if kind == 8 { Ty::U32 } else { Ty::Struct(vec![Ty::U8, Ty::Str]) })), Val::Map(m))
        }
        10 => (Ty::Tuple((0..n).map(|i| if i % 2 == 0 { Ty::U8 } else { Ty::I32 }).collect()), Val::Tup((0..n).map(|i| if i % 2 == 0 { Val::U(i as u64 & 255) } else { Val::I(-(i as i64)) }).collect())),
        11 => (Ty::TupleStruct(vec![Ty::U16; n]), Val::Tup((0..n).map(|i| Val::U(i as u64 & 0xffff)).collect())),
        12 => (Ty::Struct(vec![Ty::U64; n]), Val::Tup((0..n).map(|i| Val::U(mixed(i))).collect())),
        13 => (
            Ty::Enum(0, vec![Var::Unit, Var::Tuple(vec![Ty::U8; n]), Var::Struct(vec![Ty::U8; n])]),
            Val::Enum(1 + (n % 2) as u32, bx(Val::Tup((0..n).map(|i| Val::U(i as u64 & 255)).collect()))),
        ),
        14 => {
            let vars: Vec<Var> = (0..=n.min(69_998)).map(|i| if i % 2 == 0 { Var::Unit } else { Var::Newtype(Ty::U8) }).collect();
            let i = vars.len() - 1;
            (Ty::Enum(0, vars), Val::Enum(i as u32, bx(if i % 2 == 0 { Val::Unit } else { Val::U(7) })))
        }
        15 => nest(n, Ty::U16, Val::U(300), &|_, t, v| (Ty::Opt(bx(t)), Val::Opt(Some(bx(v))))),
        16 => nest(n, Ty::U16, Val::U(300), &|_, t, v| (Ty::Seq(bx(t)), Val::Seq(vec![v]))),
        17 => nest(n, Ty::Str, Val::Str("é".into()), &|i, t, v| (Ty::Map(bx(t)), Val::Map(vec![(format!("{}", i), v)]))),
        18 => nest(n, Ty::I8, Val::I(-5), &|i, t, v| {
            if i % 2 == 0 {
                (Ty::Struct(vec![Ty::U8, t]), Val::Tup(vec![Val::U(i as u64 & 255), v]))
            } else {
                (Ty::Tuple(vec![t, Ty::Bool]), Val::Tup(vec![v, Val::Bool(true)]))
            }
        }),
        _ => nest(n, Ty::U64, Val::U(1 << 40), &|i, t, v| {
            if i % 2 == 0 {
                (Ty::Enum(0, vec![Var::Unit, Var::Newtype(t)]), Val::Enum(1, bx(v)))
            } else {
                (Ty::Enum(0, vec![Var::Struct(vec![t, Ty::U8])]), Val::Enum(0, bx(Val::Tup(vec![v, Val::U(3)]))))
            }
        }),
    })
}

/// The values of one block.
pub fn each(block: u64, thorough: bool, f: &mut dyn FnMut(&Ty, &Val) -> Result<(), String>) -> Result<(), String> {
    let (kind, part) = (block / PARTS, block % PARTS);
    let mut ns = match part {
        0 => short(),
        _ => long(thorough).into_iter().enumerate().filter(|(i, _)| i % 2 == part as usize - 1).map(|x| x.1).collect(),
    };
    if part == 1 && kind < 3 {
        ns.extend([(1 << 21) - 1, 1 << 21, (1 << 21) + 1, (1 << 22) + 3, (1 << 24) - 1, 1 << 24]);
    }
    for n in ns {
        if let Some((t, v)) = make(kind, n, thorough) {
            f(&t, &v)?;
        }
    }
    Ok(())
}

/// One of them, of moderate size.
pub fn pick(s: &mut crate::tape::Src) -> Option<(Ty, Val)> {
    let kind = s.below(KINDS);
    let n = match s.below(4) {
        0 => s.usize(300),
        1 => *s.pick(&[511usize, 512, 513, 1000, 4096, 16_383, 16_384]),
        2 => 65_530 + s.usize(12),
        _ => s.usize(20_000),
    };
    make(kind, n.min(if kind >= 10 && kind <= 14 { 3000 } else { usize::MAX }), false)
}

/// A short name of a type that may have thousands of parts.
pub fn brief(ty: &Ty) -> String {
    let mut s = match ty {
        Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) if v.len() > 8 => format!("a product of {} fields", v.len()),
        Ty::Enum(_, v) if v.len() > 8 => format!("an enum of {} variants", v.len()),
        t => t.to_string(),
    };
    if s.len() > 200 {
        let mut k = 200;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
    s
}
