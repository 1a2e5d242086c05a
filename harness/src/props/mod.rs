//! The properties as executable checks.
use crate::model::*;
use crate::runner::Prop;
use crate::tape::{fnv, Src};
use crate::under::DErr;

pub mod body;
pub mod cost;
pub mod errs;
pub mod header;
pub mod hostile;
pub mod io;
pub mod keys;
pub mod nums;
pub mod pure;
pub mod rt;
pub mod unsup;

pub fn all() -> &'static [&'static Prop] {
    static ALL: &[&Prop] = &[
        &rt::C01,
        &rt::C02,
        &rt::C03,
        &hostile::C04,
        &io::C05,
        &io::C06,
        &io::C07,
        &io::C08,
        &header::C09,
        &header::C10,
        &body::C11,
        &rt::C12,
        &hostile::C13,
        &body::C14,
        &hostile::C15,
        &nums::C16,
        &nums::C17,
        &nums::C18,
        &keys::C19,
        &unsup::C23,
        &pure::C24,
        &errs::C25,
        &cost::C26,
    ];
    ALL
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().iter().copied().find(|p| p.id == id)
}

pub fn h2(a: &[u8], b: &[u8]) -> u64 {
    fnv(a).rotate_left(17) ^ fnv(b)
}

/// Numeric normal form of the big-number and date parts of a value (for non-canonical encodings).
pub fn norm_big(v: Val) -> Val {
    match v {
        Val::BigUint(b) => Val::BigUint(minimize_unsigned(b)),
        Val::BigInt(b) => Val::BigInt(minimize_signed(b)),
        Val::BigDec(b, s) => {
            let b = minimize_signed(b);
            if b.is_empty() {
                Val::BigDec(b, 0)
            } else {
                Val::BigDec(b, s)
            }
        }
        Val::Opt(Some(b)) => Val::Opt(Some(Box::new(norm_big(*b)))),
        Val::Seq(v) => Val::Seq(v.into_iter().map(norm_big).collect()),
        Val::Tup(v) => Val::Tup(v.into_iter().map(norm_big).collect()),
        Val::Enum(i, b) => Val::Enum(i, Box::new(norm_big(*b))),
        Val::Map(v) => Val::Map(v.into_iter().map(|(k, x)| (k, norm_big(x))).collect()),
        v => v,
    }
}

pub enum Verdict {
    /// the model gives no answer
    Undefined,
    MustFail,
    Must(Val, usize),
    May(Val, usize),
}

/// What the model says about decoding `b` as `ty`.
pub fn verdict(ty: &Ty, b: &[u8], fuel: u64) -> Verdict {
    let mut d = Dec::new(b);
    d.fuel = fuel;
    match decode(ty, &mut d) {
        Err(Bad::Undefined) => Verdict::Undefined,
        Err(_) => Verdict::MustFail,
        Ok(v) => {
            if d.lenient {
                Verdict::May(v, d.pos)
            } else {
                Verdict::Must(v, d.pos)
            }
        }
    }
}

pub fn judge(v: Verdict, got: &Result<Val, DErr>, used: usize, what: &dyn Fn() -> String) -> Result<&'static str, String> {
    match (v, got) {
        (Verdict::Undefined, _) => Ok("no answer from the model"),
        (Verdict::MustFail, Ok(g)) => Err(format!("{}: decoded to {} although the bytes encode nothing", what(), show(g))),
        (Verdict::MustFail, Err(_)) => Ok("rejected"),
        (Verdict::Must(e, n), Ok(g)) => {
            if *g != e {
                return Err(format!("{}: decoded to {}, the bytes encode {}", what(), show(g), show(&e)));
            }
            if used != n {
                return Err(format!("{}: decoding took {} bytes, the encoding has {}", what(), used, n));
            }
            Ok("accepted")
        }
        (Verdict::Must(e, _), Err(x)) => Err(format!("{}: rejected with {:?}, the bytes encode {}", what(), x, show(&e))),
        (Verdict::May(e, n), Ok(g)) => {
            if norm_big(g.clone()) != norm_big(e.clone()) {
                return Err(format!("{}: decoded to {}, the bytes encode {}", what(), show(g), show(&e)));
            }
            if used != n {
                return Err(format!("{}: decoding took {} bytes, the encoding has {}", what(), used, n));
            }
            Ok("non-canonical accepted")
        }
        (Verdict::May(..), Err(_)) => Ok("non-canonical rejected"),
    }
}

/// Positions to cut or fail at: all of them, or a spread with both ends.
pub fn positions(s: &mut Src, n: usize, max: usize) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..max / 3).collect();
    v.extend(n - max / 3..n);
    for _ in 0..max / 3 {
        v.push(s.usize(n));
    }
    v.sort();
    v.dedup();
    v
}

pub fn tail(s: &mut Src) -> Vec<u8> {
    let n = s.usize(10);
    (0..n).map(|_| s.byte()).collect()
}
