//! C24: purity and independence.
use super::*;
use crate::case::{hexs, Case, R};
use crate::conc::{self, Conc};
use crate::dynserde::{Seed, SerVal, Style};
use crate::gen::*;
use crate::hook::{self, Act, Fail, Unwound};
use crate::iox::{Frag, Rd, Stop, Wr};
use crate::runner::no_panic;
use crate::under;
use dlhn::{Body, Deserializer, Header, Serializer};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub static C24: Prop = Prop {
    id: "C24",
    rule: "case: 3 to 8 operations (encoding or decoding of typed values, headers, bodies; hostile bytes, failing writers, unsupported keys among them), each judged by the model, then repeated in reverse, with other operations at generated turns of the user's code in their middle (serialization, formatting, readers, writers), after being given up there by an error or by unwinding, after a burst of failing operations, and on four threads at once; or one serializer and one deserializer used for several values, some failing; or ordered maps built in different ways. Non-trivial: distinct operation lists holding at least two operations with results of at least 2 bytes, distinct reuse histories with a failure and a success, distinct maps of two entries or more",
    quick: 120_000,
    thorough: 2_000_000,
    run: c24,
    blocks: None,
    blocks_note: "",
    known: &[],
    assumptions: &["threads run truly in parallel; interleavings inside one operation are left to the scheduler"],
};

enum Op {
    Ser(Ty, Val, Style),
    De(Ty, Vec<u8>, Style),
    SerHeader(Header),
    DeHeader(Vec<u8>),
    SerBody(Ty, Val),
    DeBody(Header, Vec<u8>),
    ConcSer(&'static Conc, Vec<u8>),
    ConcDe(&'static Conc, Vec<u8>),
    FailedWrite(Ty, Val, usize),
    BadKey(String),
}

fn gen_op(s: &mut Src) -> Option<Op> {
    let ty = |s: &mut Src, describable: bool| {
        let o = TyOpts {
            depth: s.below(4) as u32,
            nodes: 8,
            describable,
            zero_elems: false,
            wide: false,
        };
        gen_ty(s, o)
    };
    let val = |s: &mut Src, t: &Ty| gen_val(s, t, &mut VOpts { sorted_maps: true, budget: 30 });
    let spoil = |s: &mut Src, b: &mut Vec<u8>| {
        for _ in 0..s.below(4) {
            mutate(s, b)
        }
    };
    Some(match s.below(10) {
        0 => {
            let t = ty(s, false);
            let v = val(s, &t);
            Op::Ser(t, v, gen_style(s))
        }
        1 => {
            let t = ty(s, false);
            let v = val(s, &t);
            let mut b = enc(&t, &v);
            spoil(s, &mut b);
            Op::De(t, b, gen_style(s))
        }
        2 => {
            let d = s.usize(5);
            let mut n = 12;
            Op::SerHeader(gen_header(s, d, &mut n, false))
        }
        3 => {
            let h = if s.chance(60) { gen_deep_header(s, 60) } else {
                let d = s.usize(5);
                let mut n = 12;
                gen_header(s, d, &mut n, false)
            };
            let mut b = Vec::new();
            put_header(&h, &mut b);
            spoil(s, &mut b);
            Op::DeHeader(b)
        }
        4 => {
            let t = ty(s, true);
            let v = val(s, &t);
            Op::SerBody(t, v)
        }
        5 => {
            let t = ty(s, true);
            let v = val(s, &t);
            let mut b = enc(&t, &v);
            spoil(s, &mut b);
            Op::DeBody(header_of(&t)?, b)
        }
        6 => {
            let k = conc::pick_sized(s);
            if k.unstable() {
                return None;
            }
            Op::ConcSer(k, k.gen(s)?)
        }
        7 => {
            let k = conc::pick_sized(s);
            if k.unstable() {
                return None;
            }
            let mut b = k.gen(s)?;
            spoil(s, &mut b);
            Op::ConcDe(k, b)
        }
        8 => {
            let t = ty(s, false);
            let v = val(s, &t);
            let n = enc(&t, &v).len();
            Op::FailedWrite(t, v, s.usize(n + 1))
        }
        _ => Op::BadKey(gen_string_of(s, 5)),
    })
}

impl Op {
    fn run(&self) -> String {
        match self {
            Op::Ser(t, v, st) => format!("{:?}", under::ser_val(t, v, *st)),
            Op::De(t, b, st) => format!("{:?}", under::de_val(t, b, *st)),
            Op::SerHeader(h) => format!("{:?}", under::ser_header(h).map_err(|e| e.kind())),
            Op::DeHeader(b) => {
                let (h, n) = under::de_header(b);
                format!("{:?} {}", h.map_err(|e| e.kind()), n)
            }
            Op::SerBody(t, v) => format!("{:?}", under::ser(&body_of(t, v))),
            Op::DeBody(h, b) => {
                let (x, n) = under::de_body(h, b);
                // floats may be NaN; the debug form does not tell their bits
                format!("{:?} {}", x.map(|x| val_of(h, &x)), n)
            }
            Op::ConcSer(k, b) => format!("{:?}", k.ser(b).map(|x| x.0)),
            Op::ConcDe(k, b) => format!("{:?}", k.de(b)),
            Op::FailedWrite(t, v, n) => {
                let w = Wr::with(Frag { plan: vec![] }, Stop::Err(*n, ErrorKind::BrokenPipe));
                let r = under::ser_to(&crate::dynserde::SerVal(t, v, Style::default()), &w);
                format!("{:?} {}", r, hexs(&w.bytes()))
            }
            Op::BadKey(k) => {
                let m: BTreeMap<(String, u8), Vec<u8>> = [((k.clone(), 1), vec![1u8, 2, 3])].into_iter().collect();
                format!("{:?}", under::ser(&(k, m)))
            }
        }
    }
    /// Against the model; Ok(length of what was produced).
    fn judge(&self, got: &str) -> Result<usize, String> {
        let same = |want: String| -> Result<(), String> {
            if got == want {
                Ok(())
            } else {
                Err(format!("{} gives {}, expected {}", self.show(), cut(got), cut(&want)))
            }
        };
        match self {
            Op::Ser(t, v, _) => {
                let e = enc(t, v);
                same(format!("{:?}", Ok::<_, under::SErr>(&e)))?;
                Ok(e.len())
            }
            Op::SerBody(t, v) => {
                let e = enc(t, v);
                same(format!("{:?}", Ok::<_, under::SErr>(&e)))?;
                Ok(e.len())
            }
            Op::SerHeader(h) => {
                let mut e = Vec::new();
                put_header(h, &mut e);
                same(format!("{:?}", Ok::<_, ErrorKind>(&e)))?;
                Ok(e.len())
            }
            Op::De(t, b, _) => {
                if let Verdict::Must(v, n) = verdict(t, b, 100_000) {
                    same(format!("{:?}", (Ok::<_, under::DErr>(v), n)))?;
                } else if matches!(verdict(t, b, 100_000), Verdict::MustFail) && got.starts_with("(Ok") {
                    fail!("{} gives {}, the bytes encode nothing", self.show(), cut(got));
                }
                Ok(b.len())
            }
            Op::DeBody(h, b) => {
                let t = ty_of_header(h);
                if let Verdict::Must(v, n) = verdict(&t, b, 100_000) {
                    let v = normalize_maps(v);
                    same(format!("{:?} {}", Ok::<_, under::DErr>(Ok::<_, String>(v)), n))?;
                } else if matches!(verdict(&t, b, 100_000), Verdict::MustFail) && got.starts_with("Ok") {
                    fail!("{} gives {}, the bytes encode nothing", self.show(), cut(got));
                }
                Ok(b.len())
            }
            Op::DeHeader(b) => {
                let mut d = Dec::new(b);
                let mut seen = 0;
                if let Ok(h) = get_header(&mut d, &mut seen) {
                    if header_depth(&h.header) <= super::header::LIMIT {
                        same(format!("{:?} {}", Ok::<_, ErrorKind>(&h.header), d.pos))?;
                    }
                } else if got.starts_with("Ok") {
                    fail!("{} gives {}, the bytes encode nothing", self.show(), cut(got));
                }
                Ok(b.len())
            }
            Op::ConcSer(k, b) => {
                if let Some((_, e)) = k.ser(b) {
                    same(format!("{:?}", Some(Ok::<_, under::SErr>(e))))?;
                }
                Ok(b.len())
            }
            Op::ConcDe(k, b) => {
                if let Ok((e, n, false)) = k.reference(b) {
                    same(format!("{:?}", (Ok::<_, under::DErr>(e), n)))?;
                }
                Ok(b.len())
            }
            Op::FailedWrite(..) | Op::BadKey(_) => {
                check!(!got.starts_with("Ok") || matches!(self, Op::FailedWrite(t, v, n) if *n >= enc(t, v).len()), "{} reports success: {}", self.show(), cut(got));
                Ok(0)
            }
        }
    }
    fn show(&self) -> String {
        match self {
            Op::Ser(t, v, _) => format!("encode {} = {}", t, show(v)),
            Op::De(t, b, _) => format!("decode {} from {}", t, hexs(b)),
            Op::SerHeader(h) => cut(&format!("encode header {:?}", h)),
            Op::DeHeader(b) => format!("decode header from {}", hexs(b)),
            Op::SerBody(t, v) => format!("encode body {} = {}", t, show(v)),
            Op::DeBody(h, b) => format!("decode body {} from {}", cut(&format!("{:?}", h)), hexs(b)),
            Op::ConcSer(k, b) => format!("encode {} {}", k.name, hexs(b)),
            Op::ConcDe(k, b) => format!("decode {} from {}", k.name, hexs(b)),
            Op::FailedWrite(t, v, n) => format!("encode {} = {} to a writer failing after {}", t, show(v), n),
            Op::BadKey(k) => format!("encode a map with the tuple key {:?}", k),
        }
    }
}

fn cut(s: &str) -> String {
    let mut t = s.to_string();
    if t.len() > 300 {
        let mut k = 300;
        while !t.is_char_boundary(k) {
            k -= 1
        }
        t.truncate(k);
        t.push_str("...");
    }
    t
}

/// Operations that end early, in every way there is.
fn burst(s: &mut Src) {
    let kind = s.below(7);
    let n = 40 + s.usize(300);
    let deep = {
        let mut b = vec![1u8; 200];
        put_header(&Header::Optional(Box::new(Header::Unit)), &mut b);
        b
    };
    let nested = {
        let mut t = Ty::U8;
        for _ in 0..30 {
            t = Ty::Opt(Box::new(Ty::Tuple(vec![t])));
        }
        t
    };
    let h = header_of(&nested);
    let mut hb = Vec::new();
    if let Some(h) = &h {
        put_header(h, &mut hb);
    }
    for i in 0..n {
        match kind {
            0 => drop(under::de_header(&deep)),
            1 => drop(under::de_header(&hb[..hb.len() - 1 - i % 20])),
            2 => drop(under::de_val(&nested, &[1; 10], Style::default())),
            3 => {
                if let Some(h) = &h {
                    drop(under::de_body(h, &[1; 20]));
                }
            }
            4 => drop(Op::BadKey("k".into()).run()),
            5 => drop(Op::FailedWrite(Ty::Seq(Box::new(Ty::Str)), Val::Seq(vec![Val::Str("abc".into()); 3]), i % 12).run()),
            _ => {
                let h = Header::Tuple(vec![Header::Unit; 3]);
                let mut w = Wr::with(Frag { plan: vec![] }, Stop::Err(i % 5, ErrorKind::Other));
                drop(h.serialize(&mut w));
                drop(under::de::<Vec<String>>(&[3, 1, b'a', 5, b'b']));
            }
        }
    }
}

fn maps(c: &mut Case) -> R {
    let ty = gen_ty(&mut c.src, TyOpts { depth: 1, nodes: 4, describable: true, zero_elems: true, wide: false });
    let n = c.src.usize(12);
    let mut entries: Vec<(String, Val)> = Vec::new();
    for i in 0..n {
        let k = gen_key(&mut c.src, i);
        let v = gen_val(&mut c.src, &ty, &mut VOpts { sorted_maps: true, budget: 5 });
        if !entries.iter().any(|e| e.0 == k) {
            entries.push((k, v));
        }
    }
    let mut sorted = entries.clone();
    sorted.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let want = enc(&Ty::Map(Box::new(ty.clone())), &Val::Map(sorted));
    // built in another order, with entries that come and go or are overwritten
    let build = |s: &mut Src| -> BTreeMap<String, Body> {
        let mut order: Vec<usize> = (0..entries.len()).collect();
        for i in (1..order.len()).rev() {
            let j = s.usize(i + 1);
            order.swap(i, j);
        }
        let mut m = BTreeMap::new();
        for i in order {
            if s.chance(40) {
                m.insert(format!("gone{}", i), Body::Unit);
                m.insert(entries[i].0.clone(), Body::Unit);
            }
            m.insert(entries[i].0.clone(), body_of(&ty, &entries[i].1));
        }
        m.retain(|k, _| entries.iter().any(|e| e.0 == *k));
        m
    };
    for _ in 0..3 {
        let m = build(&mut c.src);
        c.evals += 2;
        let a = under::ser(&m).map_err(|e| format!("ordered map not serialized: {:?}", e))?;
        check!(a == want, "an ordered map of {} encodes to {}, its entries in key order to {}", ty, hexs(&a), hexs(&want));
        let b = under::ser(&Body::Map(m)).map_err(|e| format!("map body not serialized: {:?}", e))?;
        check!(b == want, "a map body of {} encodes to {}, its entries in key order to {}", ty, hexs(&b), hexs(&want));
    }
    if n > 1 {
        c.nontrivial(h2(b"maps", &want));
    }
    c.describe(|| format!("map of {} with {} entries -> {}", ty, n, hexs(&want)));
    c.label("ordered maps built differently");
    Ok(())
}

/// The user's own code, in the middle of an operation, performs others, fails, or unwinds.
fn inside(ops: &Rc<Vec<Op>>, first: &Rc<Vec<String>>, c: &mut Case) -> R {
    for (o, r) in ops.iter().zip(first.iter()) {
        let total = hook::with_all(vec![], || drop(o.run())).ticks;
        if total == 0 {
            continue;
        }
        let mut plan = Vec::new();
        for _ in 0..1 + c.src.usize(4) {
            let (ops, first) = (ops.clone(), first.clone());
            let j = c.src.usize(ops.len());
            let nest = move || {
                let x = ops[j].run();
                if x == first[j] {
                    Ok(())
                } else {
                    Err(format!("{}, in the middle of another operation: {} where it was {}", ops[j].show(), cut(&x), cut(&first[j])))
                }
            };
            plan.push((c.src.usize(total), Act::Nest(Rc::new(nest))));
        }
        c.evals += 1 + plan.len() as u64;
        let ran = hook::with_all(plan, || o.run());
        if let Some(m) = ran.bad {
            return Err(m);
        }
        check!(ran.out == *r, "{}, with other operations in its middle: {} where it was {}", o.show(), cut(&ran.out), cut(r));
        // abandoned half way
        let k = c.src.usize(total);
        if c.src.bool() {
            drop(hook::with_all(vec![(k, Act::Fail(Fail::Custom("abandoned".into())))], || o.run()).out);
        } else {
            unwound(|| drop(hook::with_all(vec![(k, Act::Panic)], || o.run())));
        }
        c.eval();
        let x = o.run();
        check!(x == *r, "{}, after it was abandoned half way: {} where it was {}", o.show(), cut(&x), cut(r));
    }
    Ok(())
}

/// One serializer and one deserializer live through values that fail in the middle, in every way there is;
/// the values between come out as from new ones.
fn reuse(c: &mut Case) -> R {
    struct BadMap<'a>(&'a [u8], u64);
    impl Serialize for BadMap<'_> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeMap;
            let mut m = s.serialize_map(Some(self.0.len()))?;
            for (i, k) in self.0.iter().enumerate() {
                match k % 8 {
                    0 => m.serialize_key(&1u8)?,
                    1 => m.serialize_key(&Some("k"))?,
                    2 => m.serialize_key(&("k", 2u8))?,
                    3 => m.serialize_key(&'k')?,
                    4 => m.serialize_key(&std::collections::BTreeMap::from([("k", 1u8)]))?,
                    _ => m.serialize_key("k")?,
                }
                match k / 8 % 8 {
                    0 => m.serialize_value(&BadMap(&self.0[i + 1..], self.1))?,
                    1 => m.serialize_value(&(self.1 as i128))?,
                    2 => m.serialize_value(&Some(vec![self.1 as u128]))?,
                    _ => m.serialize_value(&self.1)?,
                }
            }
            m.end()
        }
    }
    let n = 2 + c.src.usize(8);
    let w = Wr::new();
    let rd = Rd::new(&[]);
    let mut src = rd.clone();
    let (mut s, mut d) = (Serializer::new(w.clone()), Deserializer::new(&mut src));
    let mut past: Vec<String> = Vec::new();
    let mut good = Vec::new();
    let mut bad = 0;
    for _ in 0..n {
        let depth = c.src.below(4) as u32;
        let t = gen_ty(&mut c.src, TyOpts { depth, nodes: 8, describable: false, zero_elems: false, wide: false });
        let v = gen_val(&mut c.src, &t, &mut VOpts { sorted_maps: true, budget: 20 });
        let st = gen_style(&mut c.src);
        let e = enc(&t, &v);
        let said = past.join("; ");
        c.eval();
        match c.src.below(9) {
            0 => {
                let keys: Vec<u8> = (0..1 + c.src.usize(4)).map(|_| c.src.below(256) as u8).collect();
                let m = BadMap(&keys, c.src.uint(64));
                drop(no_panic("a map with other keys", || m.serialize(&mut s))?);
                past.push(format!("a map with keys and values {} was encoded", hexs(&keys)));
                bad += 1;
            }
            1 => {
                w.0.borrow_mut().stop = Stop::Err(w.len() + c.src.usize(e.len() + 1), ErrorKind::Other);
                drop(no_panic("a failing writer", || SerVal(&t, &v, st).serialize(&mut s))?);
                w.0.borrow_mut().stop = Stop::None;
                past.push(format!("{} = {} was encoded while the writer failed", t, show(&v)));
                bad += 1;
            }
            2 => {
                let total = hook::with_all(vec![], || drop(SerVal(&t, &v, st).serialize(&mut Serializer::new(Wr::new())))).ticks;
                let k = c.src.usize(total.max(1));
                let act = if c.src.bool() { Act::Panic } else { Act::Fail(Fail::Custom("given up".into())) };
                unwound(|| drop(hook::with_all(vec![(k, act)], || SerVal(&t, &v, st).serialize(&mut s))));
                past.push(format!("encoding {} = {} was given up at turn {}", t, show(&v), k));
                bad += 1;
            }
            3 | 4 => {
                let before = w.len();
                let r = no_panic("encoding", || SerVal(&t, &v, st).serialize(&mut s))?;
                let got = w.bytes()[before..].to_vec();
                check!(r.is_ok() && got == e, "after [{}], the same serializer encodes {} = {} as {} ({:?}), not {}", said, t, show(&v), hexs(&got), r, hexs(&e));
                good.extend_from_slice(&e);
            }
            5 | 6 => {
                // input of any other kind, or given up in the middle
                let mut b = e.clone();
                let what = c.src.below(4);
                let (u, k) = match what {
                    0 => {
                        b.truncate(c.src.usize(b.len() + 1));
                        (t.clone(), None)
                    }
                    1 => {
                        mutate(&mut c.src, &mut b);
                        (t.clone(), None)
                    }
                    2 => (gen_ty(&mut c.src, TyOpts { depth: 2, nodes: 6, describable: false, zero_elems: false, wide: false }), None),
                    _ => (t.clone(), Some(c.src.usize(40))),
                };
                give(&rd, &b);
                let act = if c.src.bool() { Act::Panic } else { Act::Fail(Fail::Custom("given up".into())) };
                unwound(|| {
                    drop(hook::with_all(k.map(|k| (k, act)).into_iter().collect(), || Seed(&u, st).deserialize(&mut d)))
                });
                past.push(format!("{} was decoded from {}", u, hexs(&b)));
                bad += 1;
            }
            7 => {
                // something the format cannot express
                give(&rd, &e);
                match c.src.below(3) {
                    0 => drop(no_panic("i128", || i128::deserialize(&mut d))?),
                    1 => drop(no_panic("u128", || <Vec<u128>>::deserialize(&mut d))?),
                    _ => drop(no_panic("ignored", || <BTreeMap<String, serde::de::IgnoredAny>>::deserialize(&mut d))?),
                }
                past.push(format!("a request the format does not support, on {}", hexs(&e)));
                bad += 1;
            }
            _ => {
                if !matches!(verdict(&t, &e, 100_000), Verdict::Must(ref x, n) if n == e.len() && *x == v) {
                    continue;
                }
                give(&rd, &e);
                let r = no_panic("decoding", || Seed(&t, st).deserialize(&mut d))?;
                check!(r.as_ref().ok() == Some(&v) && rd.pos() == e.len(), "after [{}], the same deserializer gives {:?} after {} bytes for {} from {}", said, r, rd.pos(), t, hexs(&e));
                good.extend_from_slice(&e);
            }
        }
    }
    c.describe(|| past.join("; "));
    if bad > 0 && good.len() > 2 {
        c.nontrivial(h2(&good, past.join(";").as_bytes()));
    }
    c.label("one serializer and one deserializer through failures");
    Ok(())
}
/// New input for a reader in use.
fn give(rd: &Rd, b: &[u8]) {
    let mut s = rd.0.borrow_mut();
    s.data = b.to_vec();
    s.pos = 0;
}
/// Runs code that may unwind by plan.
fn unwound(f: impl FnOnce()) {
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        if p.downcast_ref::<Unwound>().is_none() {
            std::panic::resume_unwind(p);
        }
    }
}

fn c24(c: &mut Case) -> R {
    if c.src.chance(50) {
        return maps(c);
    }
    if c.src.chance(60) {
        return reuse(c);
    }
    let n = 3 + c.src.usize(6);
    let mut ops = Vec::new();
    for _ in 0..n {
        match gen_op(&mut c.src) {
            Some(o) => ops.push(o),
            None => c.exclude("value outside a concrete type's own invariant, or an unordered type"),
        }
    }
    c.describe(|| ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; "));
    let mut first = Vec::new();
    let mut big = 0;
    let mut key = Vec::new();
    for o in &ops {
        c.eval();
        let r = o.run();
        if o.judge(&r)? > 1 {
            big += 1;
        }
        key.extend_from_slice(r.as_bytes());
        first.push(r);
    }
    let (ops, first) = (Rc::new(ops), Rc::new(first));
    if big >= 2 {
        c.nontrivial(crate::tape::fnv(&key));
    }
    let again = |when: &str, c: &mut Case| -> R {
        for (o, r) in ops.iter().zip(first.iter()).rev() {
            c.eval();
            let x = o.run();
            check!(x == *r, "{}, {}: {} where it was {}", o.show(), when, cut(&x), cut(r));
        }
        Ok(())
    };
    again("repeated", c)?;
    if c.src.chance(110) {
        inside(&ops, &first, c)?;
        again("after user code ran in the middle of others", c)?;
        c.label("with user code that encodes, decodes, fails or unwinds in the middle");
    }
    if !ops.is_empty() && c.src.chance(30) {
        // one of them given up at the same place again and again
        let o = &ops[c.src.usize(ops.len().max(1))];
        let total = hook::with_all(vec![], || drop(o.run())).ticks.max(1);
        let k = c.src.usize(total);
        let act = if c.src.chance(170) { Act::Panic } else { Act::Fail(Fail::Custom("given up".into())) };
        let n = 20 + c.src.usize(1100);
        for _ in 0..n {
            unwound(|| drop(hook::with_all(vec![(k, act.clone())], || o.run())));
        }
        let x = o.run();
        let r = &first[ops.iter().position(|p| std::ptr::eq(p, o)).unwrap()];
        check!(x == *r, "{}, after it was given up {} times at turn {}: {} where it was {}", o.show(), n, k, cut(&x), cut(r));
        again("after operations given up in the middle", c)?;
        c.label("with an operation given up many times");
    }
    if c.src.chance(20) {
        burst(&mut c.src);
        again("after failing operations", c)?;
        c.label("with a burst of failing operations");
    }
    if c.src.chance(100) {
        c.label("on four threads at once");
        let rounds = 3;
        c.evals += (4 * rounds * ops.len()) as u64;
        let (ops, first): (&Vec<Op>, &Vec<String>) = (&ops, &first);
        let bad: Option<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    sc.spawn(move || {
                        for r in 0..rounds {
                            for i in 0..ops.len() {
                                let k = (i * (1 + t % 2) + t + r) % ops.len();
                                let x = ops[k].run();
                                if x != first[k] {
                                    return Some(format!("{}, next to other threads: {} where it was {}", ops[k].show(), cut(&x), cut(&first[k])));
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            let mut bad = None;
            for h in hs {
                match h.join() {
                    Ok(None) => {}
                    Ok(Some(m)) => bad = Some(m),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            bad
        });
        if let Some(m) = bad {
            return Err(m);
        }
    }
    Ok(())
}
