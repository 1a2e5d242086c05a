//! C05 truncated and failing input, C06 fragmentation, C07 write failures, C08 streams.
use super::*;
use crate::case::{hexs, Case, R};
use crate::conc::{self, Conc};
use crate::dynserde::{Seed, SerVal, Style};
use crate::gen::*;
use crate::iox::{gen_frag, Frag, Rd, Stop, Wr, KINDS};
use crate::under::{SErr};
use dlhn::{Body, DeserializeHeader, Deserializer, Header, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::io::ErrorKind;

/// One thing that can be written to and read from a stream.
pub enum Item {
    Typed(Ty, Val, Style),
    Conc(&'static Conc, Vec<u8>),
    Header(Header),
    /// the header a type writes about itself
    Static(&'static Conc, Header),
    Body(Header, Ty, Val, Body),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Val(Val),
    Enc(Vec<u8>),
    Header(Header),
}
#[derive(Clone, Debug, PartialEq)]
pub enum RdErr {
    De(DErr),
    Io(ErrorKind),
}
#[derive(Debug)]
pub enum WrErr {
    Ser(SErr),
    Io(ErrorKind),
}

impl Item {
    pub fn gen(s: &mut Src, small: bool) -> Option<Item> {
        if !small && s.chance(3) {
            // something long or deep
            let (ty, v) = crate::sizes::pick(s)?;
            if s.bool() {
                return Some(Item::Typed(ty, v, gen_style(s)));
            }
            let h = header_of(&ty)?;
            let b = body_of(&ty, &v);
            return Some(Item::Body(h, ty, v, b));
        }
        Some(match s.weighted(&[5, 3, 2, 4, 1]) {
            0 => {
                let o = TyOpts {
                    depth: s.below(if small { 3 } else { 5 }) as u32,
                    nodes: if small { 6 } else { 16 },
                    wide: !small,
                    ..TyOpts::typed()
                };
                let ty = gen_ty(s, o);
                let v = if small { gen_val(s, &ty, &mut VOpts { sorted_maps: false, budget: 20 }) } else { val(s, &ty) };
                let st = gen_style(s);
                Item::Typed(ty, v, st)
            }
            1 => {
                let k = conc::pick(s);
                let b = if small {
                    let v = gen_val(s, k.ty(), &mut VOpts { sorted_maps: false, budget: 20 });
                    let b = enc(k.ty(), &v);
                    k.reference(&b).ok()?;
                    b
                } else {
                    k.gen(s)?
                };
                // the normal form the type itself serializes to
                let b = k.reference(&b).ok()?.0;
                Item::Conc(k, b)
            }
            2 => {
                let d = s.usize(6);
                let mut n = if small { 8 } else { 30 };
                let wide = !small && s.chance(10);
                Item::Header(gen_header(s, d, &mut n, wide))
            }
            4 => {
                let a = conc::described();
                if a.is_empty() {
                    return None;
                }
                let k = a[s.usize(a.len())];
                Item::Static(k, conc::expected_header(k)?)
            }
            _ => {
                let o = TyOpts {
                    depth: s.below(if small { 3 } else { 5 }) as u32,
                    nodes: if small { 6 } else { 16 },
                    wide: !small,
                    ..TyOpts::described()
                };
                let ty = gen_ty(s, o);
                let h = header_of(&ty)?;
                let v = gen_val(s, &ty, &mut VOpts { sorted_maps: true, budget: if small { 20 } else { 200 } });
                let b = body_of(&ty, &v);
                Item::Body(h, ty, v, b)
            }
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Item::Typed(..) => "item: dynamic type",
            Item::Conc(..) => "item: concrete type",
            Item::Header(..) => "item: header",
            Item::Static(..) => "item: header of a type",
            Item::Body(..) => "item: body",
        }
    }
    pub fn unstable(&self) -> bool {
        matches!(self, Item::Conc(k, _) if k.unstable())
    }
    /// The reference encoding.
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Item::Typed(t, v, _) => enc(t, v),
            Item::Conc(_, b) => b.clone(),
            Item::Header(h) | Item::Static(_, h) => {
                let mut b = Vec::new();
                put_header(h, &mut b);
                b
            }
            Item::Body(_, t, v, _) => enc(t, v),
        }
    }
    pub fn out(&self) -> Out {
        match self {
            Item::Typed(_, v, _) => Out::Val(v.clone()),
            Item::Conc(k, b) => Out::Enc(k.canon(b)),
            Item::Header(h) | Item::Static(_, h) => Out::Header(h.clone()),
            Item::Body(_, t, v, _) => Out::Val(plain_val(t, v)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Item::Typed(t, v, _) => format!("typed {} = {}", t, show(v)),
            Item::Conc(k, b) => format!("{} {}", k.name, hexs(b)),
            Item::Header(h) => {
                let mut t = format!("header {:?}", h);
                if t.len() > 300 {
                    t.truncate(300);
                }
                t
            }
            Item::Static(k, _) => format!("header of {}", k.name),
            Item::Body(_, t, v, _) => format!("body {} = {}", t, show(v)),
        }
    }
    pub fn write(&self, s: &mut Serializer<Wr>, w: &Wr) -> Result<(), WrErr> {
        match self {
            Item::Typed(t, v, st) => SerVal(t, v, *st).serialize(s).map_err(WrErr::Ser),
            Item::Conc(k, b) => match k.ser_with(b, s) {
                Some(r) => r.map_err(WrErr::Ser),
                None => panic!("value of {} vanished", k.name),
            },
            Item::Header(h) => h.serialize(&mut w.clone()).map_err(|e| WrErr::Io(e.kind())),
            Item::Static(k, _) => match k.header {
                Some(f) => f(&mut w.clone()).map_err(|e| WrErr::Io(e.kind())),
                None => crate::case::broken(format!("{} has no header", k.name)),
            },
            Item::Body(_, _, _, b) => b.serialize(s).map_err(WrErr::Ser),
        }
    }
    pub fn read(&self, d: &mut Deserializer<Rd>, r: &Rd) -> Result<Out, RdErr> {
        match self {
            Item::Typed(t, _, st) => Seed(t, *st).deserialize(d).map(Out::Val).map_err(RdErr::De),
            Item::Conc(k, _) => k.de_with(d).map(|b| Out::Enc(k.canon(&b))).map_err(RdErr::De),
            Item::Header(_) | Item::Static(..) => r.clone().deserialize_header().map(Out::Header).map_err(|e| RdErr::Io(e.kind())),
            Item::Body(h, _, _, _) => match Body::deserialize(h, d) {
                Err(e) => Err(RdErr::De(e)),
                Ok(b) => match val_of(h, &b) {
                    Ok(v) => Ok(Out::Val(v)),
                    Err(m) => crate::case::broken(format!("decoded body does not conform to its header: {}", m)),
                },
            },
        }
    }
    pub fn read_new(&self, r: &Rd) -> Result<Out, RdErr> {
        let mut rr = r.clone();
        let mut d = Deserializer::new(&mut rr);
        self.read(&mut d, r)
    }
    /// The reader failed or ended early.
    pub fn right_error(&self, e: &RdErr, kind: ErrorKind) -> bool {
        match e {
            RdErr::De(e) => *e == DErr::Read,
            RdErr::Io(k) => *k == kind,
        }
    }
}

fn gen_item(c: &mut Case, small: bool) -> Option<Item> {
    let i = Item::gen(&mut c.src, small);
    match &i {
        None => c.exclude("value outside a concrete type's own invariant"),
        Some(i) => c.label(i.kind()),
    }
    i
}

fn key(i: &Item, b: &[u8]) -> u64 {
    let k = match i {
        Item::Typed(t, ..) | Item::Body(_, t, ..) => t.to_string(),
        Item::Conc(k, _) => k.name.to_string(),
        Item::Header(_) => "header".into(),
        Item::Static(k, _) => k.name.to_string(),
    };
    h2(k.as_bytes(), b)
}

// ---------------------------------------------------------------- C05

pub static C05: Prop = Prop {
    id: "C05",
    rule: "case: one encoded value, header or body, cut at every offset (60 spread ones for long encodings) and read from a reader that ends, fails for good or fails once there, in one piece or fragmented. Non-trivial: distinct encodings of at least 2 bytes",
    quick: 60_000,
    thorough: 2_500_000,
    run: c05,
    blocks: None,
    blocks_note: "",
    known: &[],
    assumptions: &[],
};

fn c05(c: &mut Case) -> R {
    let it = match gen_item(c, false) {
        Some(i) => i,
        None => return Ok(()),
    };
    let b = it.bytes();
    let frag = gen_frag(&mut c.src);
    c.describe(|| format!("{} ({}), {:?}", it.show(), hexs(&b), frag));
    for k in positions(&mut c.src, b.len(), 60) {
        let kind = *c.src.pick(KINDS);
        let stops: &[Stop] = &[Stop::None, Stop::Err(k, kind), Stop::ErrOnce(k, kind)];
        for (n, stop) in stops.iter().enumerate() {
            let data = if n == 0 { &b[..k] } else { &b[..] };
            let f = if n == 1 || c.src.bool() { frag.clone() } else { Frag::default() };
            let r = Rd::with(data, f, stop.clone());
            c.eval();
            let got = it.read_new(&r);
            let want = if n == 0 { ErrorKind::UnexpectedEof } else { kind };
            match got {
                Ok(v) => fail!("{}: {} of {} bytes present ({:?}), yet decoded to {:?}", it.show(), k, b.len(), stop, v),
                Err(e) => check!(
                    it.right_error(&e, want),
                    "{}: {} of {} bytes present ({:?}): reported as {:?}",
                    it.show(),
                    k,
                    b.len(),
                    stop,
                    e
                ),
            }
        }
    }
    if b.len() > 1 {
        c.nontrivial(key(&it, &b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06",
    rule: "case: one value, header or body; written through a fragmenting or interrupting writer and read (its own bytes with others following, and hostile bytes) through a fragmenting or interrupting reader, compared with the transfer in one piece. Non-trivial: distinct (encoding, fragmentation) where at least two transfers were needed",
    quick: 500_000,
    thorough: 8_000_000,
    run: c06,
    blocks: None,
    blocks_note: "",
    known: &[],
    assumptions: &["interruptions end eventually"],
};

fn c06(c: &mut Case) -> R {
    let it = match gen_item(c, false) {
        Some(i) => i,
        None => return Ok(()),
    };
    let b = it.bytes();
    let frag = gen_frag(&mut c.src);
    c.describe(|| format!("{} ({}), {:?}", it.show(), hexs(&b), frag));
    // writing
    {
        let w = Wr::with(frag.clone(), Stop::None);
        let mut s = Serializer::new(w.clone());
        c.eval();
        if let Err(e) = it.write(&mut s, &w) {
            fail!("{}: writing through {:?} fails: {:?}", it.show(), frag, e);
        }
        // the serializer is still alive
        let got = w.bytes();
        if it.unstable() {
            check!(got.len() == b.len(), "{}: {} bytes through {:?}, {} expected", it.show(), got.len(), frag, b.len());
        } else {
            check!(got == b, "{}: written through {:?}: {}, expected {}", it.show(), frag, hexs(&got), hexs(&b));
        }
        drop(s);
        check!(w.len() == b.len(), "{}: bytes written when the serializer is dropped", it.show());
    }
    // reading the value
    let mut long = b.clone();
    long.extend(tail(&mut c.src));
    let r = Rd::with(&long, frag.clone(), Stop::None);
    c.eval();
    match it.read_new(&r) {
        Ok(o) => {
            let e = it.out();
            check!(o == e, "{}: read through {:?}: {:?}, expected {:?}", it.show(), frag, o, e);
            check!(r.pos() == b.len(), "{}: read through {:?}: {} bytes taken instead of {}", it.show(), frag, r.pos(), b.len());
        }
        Err(e) => fail!("{}: reading {} through {:?} fails: {:?}", it.show(), hexs(&b), frag, e),
    }
    // reading hostile bytes
    let h: Option<Vec<u8>> = match &it {
        Item::Typed(t, ..) | Item::Body(_, t, ..) => {
            let (h, _) = gen_hostile(&mut c.src, t);
            if matches!(verdict(t, &h, 100_000), Verdict::Undefined) {
                None
            } else {
                Some(h)
            }
        }
        Item::Conc(k, _) => {
            let (h, _) = gen_hostile(&mut c.src, k.ty());
            if matches!(k.reference(&h), Err(crate::refserde::RErr::Undefined)) {
                None
            } else {
                Some(h)
            }
        }
        Item::Header(_) | Item::Static(..) => {
            let mut h = b.clone();
            mutate(&mut c.src, &mut h);
            Some(h)
        }
    };
    if let Some(h) = h {
        let plain = Rd::new(&h);
        let pieces = Rd::with(&h, frag.clone(), Stop::None);
        c.evals += 2;
        let x = it.read_new(&plain);
        let y = it.read_new(&pieces);
        check!(x == y, "{} from {}: {:?} in one piece, {:?} through {:?}", it.kind(), hexs(&h), x, y, frag);
        check!(
            plain.pos() == pieces.pos(),
            "{} from {} ({:?}): {} bytes taken in one piece, {} through {:?}",
            it.kind(),
            hexs(&h),
            x,
            plain.pos(),
            pieces.pos(),
            frag
        );
        // a slice is a reader too
        let mut sl = &h[..];
        let z = match &it {
            Item::Header(_) | Item::Static(..) => sl.deserialize_header().map(Out::Header).map_err(|e| RdErr::Io(e.kind())),
            Item::Typed(t, _, st) => Seed(t, *st).deserialize(&mut Deserializer::new(&mut sl)).map(Out::Val).map_err(RdErr::De),
            Item::Conc(..) => x.clone(),
            Item::Body(h, ..) => Body::deserialize(h, &mut Deserializer::new(&mut sl))
                .map(|b| Out::Val(val_of(h, &b).unwrap_or(Val::Unit)))
                .map_err(RdErr::De),
        };
        check!(x == z, "{} from {}: {:?} from a reader, {:?} from a slice", it.kind(), hexs(&h), x, z);
    }
    if b.len() > 1 && !frag.plan.is_empty() {
        c.nontrivial(key(&it, &b) ^ fnv(format!("{:?}", frag).as_bytes()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    rule: "case: one value, header or body written to a writer that fails (every time, or once) or accepts nothing at every offset (60 spread ones for long encodings), in one piece or fragmented. Non-trivial: distinct encodings of at least 2 bytes",
    quick: 60_000,
    thorough: 2_500_000,
    run: c07,
    blocks: None,
    blocks_note: "",
    known: &[],
    assumptions: &["interruptions are not failures"],
};

fn c07(c: &mut Case) -> R {
    let it = match gen_item(c, false) {
        Some(i) => i,
        None => return Ok(()),
    };
    if it.unstable() {
        c.exclude("unordered collection (no fixed encoding)");
        return Ok(());
    }
    let b = it.bytes();
    let frag = gen_frag(&mut c.src);
    c.describe(|| format!("{} ({}), {:?}", it.show(), hexs(&b), frag));
    // a healthy writer
    let w = Wr::with(frag.clone(), Stop::None);
    c.eval();
    if let Err(e) = it.write(&mut Serializer::new(w.clone()), &w) {
        fail!("{}: {:?} although the writer never fails", it.show(), e);
    }
    check!(w.bytes() == b, "{}: a healthy writer got {}, expected {}", it.show(), hexs(&w.bytes()), hexs(&b));
    // one that fails only beyond the end
    let w = Wr::with(frag.clone(), Stop::Err(b.len(), ErrorKind::Other));
    if let Err(e) = it.write(&mut Serializer::new(w.clone()), &w) {
        fail!("{}: {:?} although the writer accepted everything there is", it.show(), e);
    }
    for k in positions(&mut c.src, b.len(), 60) {
        let kind = *c.src.pick(KINDS);
        for stop in [Stop::Err(k, kind), Stop::ErrOnce(k, kind), Stop::Zero(k)] {
            let f = if c.src.bool() { frag.clone() } else { Frag::default() };
            let w = Wr::with(f, stop.clone());
            c.eval();
            let r = it.write(&mut Serializer::new(w.clone()), &w);
            let want = if let Stop::Zero(_) = stop { ErrorKind::WriteZero } else { kind };
            match r {
                Ok(()) => fail!("{}: success although the writer failed after {} of {} bytes ({:?})", it.show(), k, b.len(), stop),
                Err(WrErr::Ser(e)) => check!(
                    matches!(e, SErr::Write),
                    "{}: {:?} when the writer failed after {} of {} bytes ({:?})",
                    it.show(),
                    e,
                    k,
                    b.len(),
                    stop
                ),
                Err(WrErr::Io(e)) => check!(
                    e == want,
                    "{}: error kind {:?} when the writer failed after {} of {} bytes ({:?})",
                    it.show(),
                    e,
                    k,
                    b.len(),
                    stop
                ),
            }
            let got = w.bytes();
            check!(
                b.starts_with(&got),
                "{}: the writer failed after {} bytes ({:?}) and holds {}, not a prefix of {}",
                it.show(),
                k,
                stop,
                hexs(&got),
                hexs(&b)
            );
        }
    }
    if b.len() > 1 {
        c.nontrivial(key(&it, &b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08",
    rule: "case: a history of headers, typed values and bodies (2 to 60, sometimes thousands) written to one stream by one or several interleaved serializers and read back by one or several interleaved deserializers, then read past the end. Non-trivial: distinct streams of at least 3 items",
    quick: 60_000,
    thorough: 2_000_000,
    run: c08,
    blocks: None,
    blocks_note: "",
    known: &[],
    assumptions: &["readers and writers are shared between the coders by reference"],
};

fn c08(c: &mut Case) -> R {
    let n = match c.src.below(60) {
        0 => 1000 + c.src.usize(4000),
        1..=8 => 60 + c.src.usize(200),
        _ => 2 + c.src.usize(60),
    };
    let mut items = Vec::new();
    if n > 300 {
        // long histories repeat a small cast
        let mut cast = Vec::new();
        for _ in 0..12 {
            if let Some(i) = gen_item(c, true) {
                cast.push(i);
            }
        }
        if cast.is_empty() {
            return Ok(());
        }
        let mut sub = Src::random(c.src.raw(4));
        let cast: Vec<(std::rc::Rc<Item>, usize)> =
            cast.into_iter().map(|i| (i.bytes().len(), std::rc::Rc::new(i))).map(|(n, i)| (i, n)).collect();
        let mut total = 0;
        for _ in 0..n {
            let k = sub.usize(cast.len());
            total += cast[k].1;
            if total > 500_000 && cast[k].1 > 200 {
                continue;
            }
            items.push(cast[k].0.clone());
        }
    } else {
        for _ in 0..n {
            if let Some(i) = gen_item(c, true) {
                items.push(std::rc::Rc::new(i));
            }
        }
    }
    let frag = if c.src.chance(60) { gen_frag(&mut c.src) } else { Frag::default() };
    let w = Wr::with(frag.clone(), Stop::None);
    let mut want = Vec::new();
    let mut ends = Vec::new();
    let coders = 1 + c.src.usize(3);
    let fresh = c.src.chance(64);
    let mut sers: Vec<Serializer<Wr>> = (0..coders).map(|_| Serializer::new(w.clone())).collect();
    let mut sub = Src::random(c.src.raw(4));
    let mut unstable = false;
    for (i, it) in items.iter().enumerate() {
        c.eval();
        let k = sub.usize(coders);
        let r = if fresh {
            it.write(&mut Serializer::new(w.clone()), &w)
        } else {
            it.write(&mut sers[k], &w)
        };
        if let Err(e) = r {
            fail!("item {} ({}) of a stream not written: {:?}", i, it.show(), e);
        }
        unstable |= it.unstable();
        want.extend(it.bytes());
        ends.push(want.len());
        if w.len() != want.len() {
            fail!("item {} ({}) of a stream: {} bytes written so far, {} expected", i, it.show(), w.len(), want.len());
        }
    }
    drop(sers);
    let all = w.bytes();
    c.describe(|| {
        format!(
            "{} items, {} coders{}: {} …",
            items.len(),
            coders,
            if fresh { ", a new one per item" } else { "" },
            items.iter().take(6).map(|i| i.show()).collect::<Vec<_>>().join("; ")
        )
    });
    if !unstable {
        check!(all == want, "a stream of {} items is not the concatenation of their encodings", items.len());
    }
    // reading
    let frag = if c.src.chance(60) { gen_frag(&mut c.src) } else { Frag::default() };
    let r = Rd::with(&all, frag, Stop::None);
    let mut handles: Vec<Rd> = (0..coders).map(|_| r.clone()).collect();
    let mut des: Vec<Deserializer<Rd>> = handles.iter_mut().map(Deserializer::new).collect();
    let fresh = c.src.chance(64);
    for (i, it) in items.iter().enumerate() {
        c.eval();
        let k = sub.usize(coders);
        let g = if fresh { it.read_new(&r) } else { it.read(&mut des[k], &r) };
        match g {
            Ok(o) => check!(o == it.out(), "item {} ({}) of a stream of {} reads back as {:?}", i, it.show(), items.len(), o),
            Err(e) => fail!("item {} ({}) of a stream of {} not readable: {:?}", i, it.show(), items.len(), e),
        }
        check!(r.pos() == ends[i], "item {} ({}) of a stream: at byte {} after it instead of {}", i, it.show(), r.pos(), ends[i]);
    }
    // past the end
    let mut asked = 0;
    for it in items.iter().take(40) {
        if it.bytes().is_empty() {
            continue;
        }
        let empty_ok = match &**it {
            Item::Typed(t, ..) => t.min_size() == 0,
            Item::Body(_, t, ..) => t.min_size() == 0,
            Item::Conc(k, _) => k.ty().min_size() == 0,
            Item::Header(_) | Item::Static(..) => false,
        };
        if empty_ok {
            continue;
        }
        for k in 0..coders {
            c.eval();
            asked += 1;
            match it.read(&mut des[k], &r) {
                Ok(o) => fail!("reading {} past the end of a stream gives {:?}", it.show(), o),
                Err(e) => check!(
                    it.right_error(&e, ErrorKind::UnexpectedEof),
                    "reading {} past the end of a stream: {:?}",
                    it.show(),
                    e
                ),
            }
        }
    }
    if asked > 0 {
        c.label("read past the end");
    }
    c.label(match items.len() {
        0..=9 => "streams of up to 9 items",
        10..=99 => "streams of 10..99 items",
        100..=999 => "streams of 100..999 items",
        _ => "streams of 1000 items and more",
    });
    if items.len() > 2 {
        c.nontrivial(fnv(&want));
    }
    Ok(())
}
