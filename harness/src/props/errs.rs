//! C25: errors of the user's own types come through unchanged.
use super::*;
use crate::case::{hexs, Case, R};
use crate::conc::{self, HMap};
use crate::dynserde::{SerVal, Seed, Style};
use crate::gen::*;
use crate::hook::{self, Act, Fail};
use crate::iox::{gen_frag, Rd, Stop, Wr, KINDS};
use crate::model::Dec;
use crate::refserde::{self, RErr, RefDe, RefSer};
use crate::runner::no_panic;
use crate::under::{self, DErr, SErr};
use dlhn::{Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::collections::BTreeMap;

pub static C25: Prop = Prop {
    id: "C25",
    rule: "case: a generated type and value, or a concrete type and mutated bytes; the user's own Serialize or Deserialize code fails at one of its turns (every turn of small values, a spread of large ones): before or after a value, key, variant index or visitor call, with a message or one of serde's own error constructors, alone or with a failing transport. The error must be the message the reference gives at that turn, what was written a prefix of the encoding, what was read no more than what precedes the turn, and the same serializer or deserializer must work afterwards. Non-trivial: distinct (encoding, turn, message) with the turn inside a compound value, or a concrete type's own message",
    quick: 400_000,
    thorough: 8_000_000,
    run: c25,
    blocks: Some((|_| 4, blocks)),
    blocks_note: "values of the standard library that cannot be serialized (borrowed cells, times before the epoch, paths that are no text), as map values, payloads and elements",
    known: &[],
    assumptions: &["serde's derive and the standard library's implementations call the serializer as documented"],
};

fn gen_fail(s: &mut Src) -> Fail {
    let text = |s: &mut Src| {
        let n = match s.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => 1 + s.usize(12),
            6 => 60 + s.usize(10),
            _ => s.usize(600),
        };
        // what libraries commonly say, and what the code under test mentions
        const COMMON: &[&str] = &[
            "{}", "write error", "read error", "unexpected end of file", "failed to fill whole buffer", "failed to write whole buffer",
            "invalid utf-8 sequence of 1 bytes from index 0", "invalid length 3, expected a tuple of size 2", "missing field `a`",
            "unknown variant", "custom error: ", "message", "Read", "unsupported key type", "key must be a string", "not supported",
            "stream did not contain valid UTF-8", "operation interrupted", "\n", " ",
        ];
        match s.below(8) {
            0 | 1 => s.pick(COMMON).to_string(),
            2 => literal_text(s),
            3 => {
                let a = gen_string_of(s, n.min(12));
                let b = if s.bool() { literal_text(s) } else { s.pick(COMMON).to_string() };
                let c = gen_string_of(s, n % 7);
                format!("{}{}{}", a, b, c)
            }
            _ => gen_string_of(s, n),
        }
    };
    match s.below(16) {
        0 => Fail::Length(s.usize(5)),
        1 => Fail::Variant(text(s)),
        2 => Fail::Field(text(s)),
        3 => Fail::Missing,
        4 => Fail::Duplicate,
        5 => Fail::Type(s.uint(64)),
        6 => Fail::Value(text(s)),
        _ => Fail::Custom(text(s)),
    }
}

fn is_ser(e: &SErr, m: &str) -> bool {
    matches!(e, SErr::Message(x) if x == m) && e.to_string() == m
}
fn is_de(e: &DErr, m: &str) -> bool {
    matches!(e, DErr::Message(x) if x == m) && e.to_string() == m
}

fn turns(c: &mut Case, total: usize) -> Vec<usize> {
    positions(&mut c.src, total, 18)
}

fn pick(c: &mut Case) -> (Ty, Val, Style) {
    let deep = c.src.below(5) as u32;
    let ty = gen_ty(&mut c.src, TyOpts { depth: deep, nodes: 10, describable: false, zero_elems: true, wide: false });
    let v = gen_val(&mut c.src, &ty, &mut VOpts { sorted_maps: false, budget: 24 });
    let st = gen_style(&mut c.src);
    (ty, v, st)
}

fn encoding(c: &mut Case) -> R {
    let (ty, v, st) = pick(c);
    let whole = enc(&ty, &v);
    let total = hook::with(vec![], || drop(refserde::to_bytes(&SerVal(&ty, &v, st)))).ticks;
    c.describe(|| format!("encode {} = {}, {} turns", ty, show(&v), total));
    for k in turns(c, total) {
        let f = gen_fail(&mut c.src);
        // what the reference has written by then
        let mut r = RefSer { out: Vec::new() };
        let want = match hook::with(vec![(k, Act::Fail(f.clone()))], || SerVal(&ty, &v, st).serialize(&mut r)).out {
            Err(RErr::Msg(m)) => m,
            x => crate::case::broken(format!("the reference gives {:?} for a failure at turn {} of {}", x, k, total)),
        };
        let before = r.out.len();
        // the transport may fail as well
        let stop = if c.src.chance(60) { Some(c.src.usize(whole.len() + 2)) } else { None };
        let kind = *c.src.pick(KINDS);
        let w = Wr::with(
            gen_frag(&mut c.src),
            match stop {
                Some(at) => Stop::Err(at, kind),
                None => Stop::None,
            },
        );
        c.eval();
        let mut s = Serializer::new(w.clone());
        let say = || format!("encoding {} = {} with a failure of the user's own at turn {} of {}{}", ty, show(&v), k, total, match stop {
            Some(at) => format!(" and a writer failing at {}", at),
            None => String::new(),
        });
        let ran = no_panic(&say(), || hook::with(vec![(k, Act::Fail(f.clone()))], || SerVal(&ty, &v, st).serialize(&mut s)))?;
        let out = w.bytes();
        check!(whole.starts_with(&out), "{}: wrote {}, which is no prefix of {}", say(), hexs(&out), hexs(&whole));
        match &ran.out {
            Ok(()) => fail!("{}: reports success", say()),
            Err(e) if is_ser(e, &want) => {}
            Err(SErr::Write) if stop.map_or(false, |at| at < whole.len()) => {
                let at = stop.unwrap();
                check!(w.0.borrow().failed > 0, "{}: a write error although no write failed", say());
                check!(at < before, "{}: a write error, although the user's error came first", say());
                c.label("the writer failed first");
                continue;
            }
            Err(e) => fail!("{}: gives {:?}, the user's error is {:?}", say(), e, want),
        }
        check!(ran.left == 0, "{}: the user's code at that turn did not run", say());
        // the same serializer goes on
        w.0.borrow_mut().stop = Stop::None;
        let n = w.len();
        c.eval();
        match no_panic("the next value", || SerVal(&ty, &v, st).serialize(&mut s))? {
            Ok(()) => {
                let all = w.bytes();
                check!(all[n..] == whole[..], "{}: the next value is then encoded as {}, not {}", say(), hexs(&all[n..]), hexs(&whole));
            }
            Err(e) => fail!("{}: the next value then gives {:?}", say(), e),
        }
        if k > 0 && k + 1 < total {
            c.nontrivial(h2(&whole, want.as_bytes()).rotate_left(k as u32));
        }
        c.label("encoding");
    }
    Ok(())
}

fn decoding(c: &mut Case) -> R {
    let (ty, v, st) = pick(c);
    let mut b = enc(&ty, &v);
    let len = b.len();
    let mut d = Dec::new(&b);
    if !matches!(decode(&ty, &mut d), Ok(ref x) if *x == v && d.pos == len) {
        c.exclude("the value does not read back as itself in the model");
        return Ok(());
    }
    let total = hook::with(vec![], || {
        let mut r = RefDe { d: Dec::new(&b) };
        drop(Seed(&ty, st).deserialize(&mut r))
    })
    .ticks;
    b.extend(tail(&mut c.src));
    c.describe(|| format!("decode {} from {}, {} turns", ty, hexs(&b), total));
    for k in turns(c, total) {
        let f = gen_fail(&mut c.src);
        let mut r = RefDe { d: Dec::new(&b) };
        let want = match hook::with(vec![(k, Act::Fail(f.clone()))], || Seed(&ty, st).deserialize(&mut r)).out {
            Err(RErr::Msg(m)) => m,
            x => crate::case::broken(format!("the reference gives {:?} for a failure at turn {} of {}", x, k, total)),
        };
        let before = r.d.pos;
        let stop = if c.src.chance(60) { Some(c.src.usize(len + 1)) } else { None };
        let kind = *c.src.pick(KINDS);
        let cut = c.src.bool();
        let data = match stop {
            Some(at) if cut => &b[..at],
            _ => &b[..],
        };
        let rd = Rd::with(
            data,
            gen_frag(&mut c.src),
            match stop {
                Some(at) if !cut => Stop::Err(at, kind),
                _ => Stop::None,
            },
        );
        let say = || format!("decoding {} from {} with a failure of the user's own at turn {} of {}{}", ty, hexs(&b[..len]), k, total, match stop {
            Some(at) => format!(" and input {} at {}", if cut { "ending" } else { "failing" }, at),
            None => String::new(),
        });
        c.eval();
        let mut src = rd.clone();
        let mut d = Deserializer::new(&mut src);
        let ran = no_panic(&say(), || hook::with(vec![(k, Act::Fail(f.clone()))], || Seed(&ty, st).deserialize(&mut d)))?;
        if let Some(at) = stop {
            if at < before {
                match &ran.out {
                    Ok(x) => fail!("{}: decoded to {}", say(), show(x)),
                    Err(_) => {
                        check!(ran.left == 1, "{}: the user's code at that turn ran although the input had not got there", say());
                        c.label("the input failed first");
                        continue;
                    }
                }
            }
        }
        match &ran.out {
            Ok(x) => fail!("{}: decoded to {}", say(), show(x)),
            Err(e) if is_de(e, &want) => {}
            Err(e) => fail!("{}: gives {:?}, the user's error is {:?}", say(), e, want),
        }
        check!(rd.pos() <= before, "{}: {} bytes were read, {} come before that turn", say(), rd.pos(), before);
        if stop.is_none() && rd.pos() == before {
            // the same deserializer goes on where the user's code stopped
            let n = b.len() - before;
            let rest = Ty::Tuple(vec![Ty::U8; n]);
            c.eval();
            match no_panic("the rest of the input", || Seed(&rest, Style::default()).deserialize(&mut d))? {
                Ok(Val::Tup(x)) => {
                    check!(x.iter().zip(&b[before..]).all(|(x, y)| *x == Val::U(*y as u64)), "{}: the rest of the input then reads as {:?}, not {}", say(), x, hexs(&b[before..]));
                }
                x => fail!("{}: reading the rest of the input then gives {:?}", say(), x),
            }
        }
        if k > 0 && k + 1 < total {
            c.nontrivial(h2(&b[..len], want.as_bytes()).rotate_left(k as u32));
        }
        c.label("decoding");
    }
    Ok(())
}

/// Messages of derived and standard types.
fn concrete(c: &mut Case) -> R {
    let k = conc::pick_sized(&mut c.src);
    let mut b = match k.gen(&mut c.src) {
        Some(b) => b,
        None => {
            c.exclude("value outside a concrete type's own invariant");
            return Ok(());
        }
    };
    for _ in 0..1 + c.src.below(3) {
        mutate(&mut c.src, &mut b);
    }
    c.eval();
    c.describe(|| format!("decode {} from {}", k.name, hexs(&b)));
    let (got, _) = no_panic("decoding", || k.de(&b))?;
    if let Err(RErr::Msg(m)) = k.reference(&b) {
        match got {
            Ok(x) => fail!("{} from {}: decoded to {}, the type refuses it: {:?}", k.name, hexs(&b), hexs(&x), m),
            Err(e) => check!(is_de(&e, &m), "{} from {}: gives {:?}, the type's own error is {:?}", k.name, hexs(&b), e, m),
        }
        c.nontrivial(h2(k.name.as_bytes(), &b));
        c.label("a concrete type's own message");
    }
    Ok(())
}

fn c25(c: &mut Case) -> R {
    match c.src.weighted(&[9, 9, 3]) {
        0 => encoding(c),
        1 => decoding(c),
        _ => concrete(c),
    }
}

/// The same refused value in many places.
fn everywhere<T: Serialize>(c: &mut Case, what: &'static str, make: &dyn Fn() -> T) -> R {
    #[derive(Serialize)]
    struct Named<T> {
        a: u8,
        b: T,
        c: u8,
    }
    #[derive(Serialize)]
    struct New<T>(T);
    #[derive(Serialize)]
    struct Tup<T>(u8, T);
    #[derive(Serialize)]
    enum E<T> {
        N(T),
        T(u8, T),
        S { x: T },
    }
    fn one<X: Serialize>(c: &mut Case, what: &str, place: &str, x: X) -> R {
        c.eval();
        let want = match refserde::to_bytes(&x) {
            Err(RErr::Msg(m)) => m,
            y => crate::case::broken(format!("the reference gives {:?} for {} as {}", y, what, place)),
        };
        match no_panic(what, || under::ser(&x))? {
            Ok(b) => fail!("{} as {}: encoded as {}, its own error is {:?}", what, place, hexs(&b), want),
            Err(e) => check!(is_ser(&e, &want), "{} as {}: gives {:?}, its own error is {:?}", what, place, e, want),
        }
        c.nontrivial(h2(what.as_bytes(), place.as_bytes()));
        Ok(())
    }
    one(c, what, "itself", make())?;
    one(c, what, "option", Some(make()))?;
    one(c, what, "box", Box::new(make()))?;
    one(c, what, "element", vec![make(), make()])?;
    one(c, what, "tuple part", (1u8, make(), 2u8))?;
    one(c, what, "array element", [make()])?;
    one(c, what, "map value", BTreeMap::from([("k", make())]))?;
    let mut h: HMap<T> = HMap::default();
    h.insert("k".into(), make());
    one(c, what, "hash map value", h)?;
    one(c, what, "field", Named { a: 1, b: make(), c: 2 })?;
    one(c, what, "newtype", New(make()))?;
    one(c, what, "tuple struct part", Tup(1, make()))?;
    one(c, what, "newtype variant", E::N(make()))?;
    one(c, what, "tuple variant part", E::T(3, make()))?;
    one(c, what, "struct variant field", E::S { x: make() })?;
    one(c, what, "result", Ok::<_, ()>(make()))?;
    one(c, what, "nested", vec![Some(BTreeMap::from([("a".to_string(), (Some(vec![New(make())]), 5u64))]))])?;
    Ok(())
}

fn blocks(b: u64, c: &mut Case) -> R {
    use std::cell::RefCell;
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    use std::path::Path;
    use std::time::{Duration, SystemTime};
    match b {
        0 => {
            let cell = RefCell::new(5u32);
            let hold = cell.borrow_mut();
            let r = everywhere(c, "a cell that is borrowed", &|| &cell);
            drop(hold);
            r
        }
        1 => everywhere(c, "a time before the epoch", &|| SystemTime::UNIX_EPOCH - Duration::from_secs(1)),
        2 => everywhere(c, "a path that is no text", &|| Path::new(OsStr::from_bytes(b"a\xff"))),
        _ => {
            let m = std::sync::Arc::new(std::sync::Mutex::new(1u8));
            let m2 = m.clone();
            let _ = std::thread::spawn(move || {
                let _g = m2.lock();
                std::panic::resume_unwind(Box::new(()));
            })
            .join();
            everywhere(c, "a poisoned mutex", &|| &*m)
        }
    }
}
