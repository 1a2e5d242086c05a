//! C11 body round trips, C14 conformance checking.
use super::*;
use crate::case::{hexs, Case, R};
use crate::gen::*;
use crate::under;
use dlhn::{Body, Header};

/// Enums without variants have no values: give them one.
pub fn inhabit(h: Header) -> Header {
    match h {
        Header::Optional(h) => Header::Optional(Box::new(inhabit(*h))),
        Header::Array(h) => Header::Array(Box::new(inhabit(*h))),
        Header::Map(h) => Header::Map(Box::new(inhabit(*h))),
        Header::Tuple(v) => Header::Tuple(v.into_iter().map(inhabit).collect()),
        Header::Enum(v) if v.is_empty() => Header::Enum(vec![Header::Unit]),
        Header::Enum(v) => Header::Enum(v.into_iter().map(inhabit).collect()),
        h => h,
    }
}

fn gen_conforming(s: &mut Src) -> (Header, Ty, Val, Body) {
    if s.chance(12) {
        let d = 1 + s.usize(140);
        let (h, v) = gen_deep_full(s, d);
        let ty = ty_of_header(&h);
        let b = body_of(&ty, &v);
        return (h, ty, v, b);
    }
    let h = if s.chance(20) {
        let d = 8 + s.usize(121);
        gen_deep_header(s, d)
    } else {
        let d = s.usize(7);
        let mut n = 30;
        let wide = s.chance(8);
        gen_header(s, d, &mut n, wide)
    };
    let h = inhabit(h);
    let ty = ty_of_header(&h);
    let v = body_val(s, &ty);
    let b = body_of(&ty, &v);
    (h, ty, v, b)
}

pub static C11: Prop = Prop {
    id: "C11",
    rule: "case: random header and random conforming body; encoded, compared with the independent encoder, decoded with random bytes following, compared bit for bit. Non-trivial: distinct (header, encoding) with an encoding of at least 2 bytes",
    quick: 600_000,
    thorough: 12_000_000,
    run: c11,
    blocks: Some((c11_blocks, c11_block)),
    blocks_note: "arrays, maps, strings and byte strings of every length 0..=300 and around 2^k up to 70000; enums of 70000 variants at the indices where the encoding grows",
    known: &[],
    assumptions: &["NaNs are compared by their bits"],
};

fn round(c: &mut Case, h: &Header, ty: &Ty, v: &Val, b: &Body, tail: &[u8]) -> R {
    c.eval();
    let e = enc(ty, v);
    let g = match under::ser(b) {
        Ok(g) => g,
        Err(x) => fail!("body of {} = {} cannot be encoded: {:?}", ty, show(v), x),
    };
    check!(g == e, "body of {} = {} encodes to {}, expected {}", ty, show(v), hexs(&g), hexs(&e));
    check!(b.validate(h), "body of {} = {} is not valid under its header", ty, show(v));
    let mut long = g;
    let n = long.len();
    long.extend_from_slice(tail);
    let (d, used) = under::de_body(h, &long);
    match d {
        Ok(d) => {
            let dv = val_of(h, &d).map_err(|m| format!("body of {} = {}: decoded body does not conform: {}", ty, show(v), m))?;
            let bv = val_of(h, b).map_err(|m| format!("HARNESS: {}", m))?;
            check!(dv == bv, "body of {} = {} ({}) came back as {}", ty, show(v), hexs(&e), show(&dv));
            check!(used == n, "body of {} = {}: decoding took {} of {} bytes", ty, show(v), used, n);
        }
        Err(x) => fail!("body of {} = {}: own encoding {} rejected: {:?}", ty, show(v), hexs(&e), x),
    }
    if e.len() > 1 {
        c.nontrivial(h2(ty.to_string().as_bytes(), &e));
    }
    Ok(())
}

fn c11_blocks(_: bool) -> u64 {
    6
}
fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    for k in [10u32, 11, 12, 13, 14, 15, 16] {
        for d in 0..5usize {
            v.push((1 << k) + d - 2);
        }
    }
    v.push(70_000);
    v
}
fn c11_block(i: u64, c: &mut Case) -> R {
    let text = |n: usize| -> String { "abcdefghij".chars().cycle().take(n).collect() };
    let mut go = |c: &mut Case, ty: Ty, v: Val| -> R {
        let h = header_of(&ty).ok_or("HARNESS: header")?;
        let b = body_of(&ty, &v);
        round(c, &h, &ty, &v, &b, &[0x80, 1])
    };
    match i {
        0 => {
            for n in sizes() {
                go(c, Ty::Str, Val::Str(text(n)))?;
                if n >= 3 {
                    go(c, Ty::Str, Val::Str(format!("{}€", text(n - 3))))?;
                    go(c, Ty::Str, Val::Str(format!("é{}", text(n - 2))))?;
                }
            }
        }
        1 => {
            for n in sizes() {
                go(c, Ty::Bytes, Val::Bytes((0..n).map(|x| x as u8).collect()))?;
                go(c, Ty::Tuple(vec![Ty::Bytes, Ty::U8]), Val::Tup(vec![Val::Bytes(vec![0xff; n]), Val::U(9)]))?;
            }
        }
        2 => {
            for n in sizes() {
                go(c, Ty::Seq(Box::new(Ty::U8)), Val::Seq((0..n).map(|x| Val::U(x as u64 & 255)).collect()))?;
                go(c, Ty::Seq(Box::new(Ty::Unit)), Val::Seq(vec![Val::Unit; n]))?;
                go(c, Ty::Seq(Box::new(Ty::I32)), Val::Seq((0..n).map(|x| Val::I(-(x as i64))).collect()))?;
            }
        }
        3 => {
            for n in sizes() {
                let mut m: Vec<(String, Val)> = (0..n).map(|x| (format!("{:x}", x), Val::U(x as u64))).collect();
                m.sort_by(|a, b| a.0.cmp(&b.0));
                go(c, Ty::Map(Box::new(Ty::U32)), Val::Map(m))?;
            }
        }
        4 => {
            let t = Ty::Enum(0, vec![Var::Unit; 70_000]);
            let h = header_of(&t).ok_or("HARNESS: header")?;
            for n in sizes() {
                if n < 70_000 {
                    let v = Val::Enum(n as u32, Box::new(Val::Unit));
                    let b = body_of(&t, &v);
                    // the printed type is long: compare here
                    c.eval();
                    let g = under::ser(&b).map_err(|e| format!("enum body {}: {:?}", n, e))?;
                    check!(g == enc(&t, &v), "enum body of index {} encodes to {}", n, hexs(&g));
                    let (d, used) = under::de_body(&h, &g);
                    check!(d == Ok(b) && used == g.len(), "enum body of index {} came back as {:?}", n, d);
                }
            }
        }
        _ => {
            // values that hold nothing of an uninhabited header
            let e = Header::Enum(vec![]);
            for (h, b, bytes) in [
                (Header::Optional(Box::new(e.clone())), Body::Optional(None), vec![0u8]),
                (Header::Array(Box::new(e.clone())), Body::Array(vec![]), vec![0]),
                (Header::Map(Box::new(e.clone())), Body::Map(Default::default()), vec![0]),
                (Header::Tuple(vec![]), Body::Tuple(vec![]), vec![]),
            ] {
                c.eval();
                let g = under::ser(&b).map_err(|x| format!("{:?}: {:?}", b, x))?;
                check!(g == bytes && b.validate(&h), "{:?} encodes to {}", b, hexs(&g));
                let (d, used) = under::de_body(&h, &g);
                check!(d == Ok(b.clone()) && used == g.len(), "{:?} came back as {:?}", b, d);
            }
        }
    }
    Ok(())
}

fn c11(c: &mut Case) -> R {
    let (h, ty, v, b) = gen_conforming(&mut c.src);
    let t = tail(&mut c.src);
    c.describe(|| format!("{} = {}", ty, show(&v)));
    c.label(match header_depth(&h) {
        0 => "leaf header",
        1..=2 => "header depth 1..2",
        3..=7 => "header depth 3..7",
        _ => "header depth 8 and more",
    });
    round(c, &h, &ty, &v, &b, &t)
}

// ---------------------------------------------------------------- C14

pub static C14: Prop = Prop {
    id: "C14",
    rule: "case: random header and conforming body with zero to three random deviations of the body or the header at any node, or an unrelated pair, some starting from a body decoded from loose bytes; the answer compared with the independent conformance check; conforming pairs encoded and decoded. Non-trivial: distinct (header, body) pairs that deviate at exactly the nodes changed",
    quick: 1_000_000,
    thorough: 15_000_000,
    run: c14,
    blocks: Some((c14_blocks, c14_block)),
    blocks_note: "every header of a set of 200 small shapes against every body of a set of about 500; chains of every wrapper (and of all in turn) to depth 150 with the right and five wrong bodies at the bottom and half way",
    known: &[],
    assumptions: &[],
};

fn count_bodies(b: &Body) -> usize {
    1 + match b {
        Body::Optional(Some(b)) | Body::Enum(_, b) => count_bodies(b),
        Body::Array(v) | Body::Tuple(v) => v.iter().map(count_bodies).sum(),
        Body::Map(m) => m.values().map(count_bodies).sum(),
        _ => 0,
    }
}
fn nth_body<'a>(b: &'a mut Body, k: &mut usize) -> Option<&'a mut Body> {
    if *k == 0 {
        return Some(b);
    }
    *k -= 1;
    match b {
        Body::Optional(Some(b)) | Body::Enum(_, b) => nth_body(b, k),
        Body::Array(v) | Body::Tuple(v) => {
            for x in v.iter_mut() {
                let n = count_bodies(x);
                if *k < n {
                    return nth_body(x, k);
                }
                *k -= n;
            }
            None
        }
        Body::Map(m) => {
            for x in m.values_mut() {
                let n = count_bodies(x);
                if *k < n {
                    return nth_body(x, k);
                }
                *k -= n;
            }
            None
        }
        _ => None,
    }
}
fn nth_header<'a>(h: &'a mut Header, k: &mut usize) -> Option<&'a mut Header> {
    if *k == 0 {
        return Some(h);
    }
    *k -= 1;
    match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => nth_header(h, k),
        Header::Tuple(v) | Header::Enum(v) => {
            for x in v.iter_mut() {
                let n = header_nodes(x) as usize;
                if *k < n {
                    return nth_header(x, k);
                }
                *k -= n;
            }
            None
        }
        _ => None,
    }
}

fn some_body(s: &mut Src, depth: usize) -> (Header, Body) {
    let d = s.usize(depth + 1);
    let mut n = 6;
    let h = inhabit(gen_header(s, d, &mut n, false));
    let ty = ty_of_header(&h);
    let v = gen_val(s, &ty, &mut VOpts { sorted_maps: true, budget: 12 });
    let b = body_of(&ty, &v);
    (h, b)
}

fn deviate_body(s: &mut Src, b: &mut Body) {
    let n = count_bodies(b);
    // the last nodes are as likely as the first
    let mut k = if s.chance(80) { n - 1 - s.usize(n.min(4)) } else { s.usize(n) };
    let t = match nth_body(b, &mut k) {
        Some(t) => t,
        None => return,
    };
    let new = match (&*t, s.below(3)) {
        (_, 0) => some_body(s, 2).1,
        (Body::Optional(Some(x)), _) => {
            if s.bool() {
                (**x).clone()
            } else {
                Body::Optional(Some(Box::new(Body::Optional(Some(x.clone())))))
            }
        }
        (Body::Optional(None), _) => Body::Optional(Some(Box::new(some_body(s, 1).1))),
        (Body::Array(v), k) => {
            let mut v = v.clone();
            if k == 1 {
                Body::Tuple(v)
            } else {
                v.push(some_body(s, 1).1);
                Body::Array(v)
            }
        }
        (Body::Tuple(v), k) => {
            let mut v = v.clone();
            if k == 1 {
                if v.is_empty() || s.bool() {
                    let x = v.last().cloned().unwrap_or(Body::Unit);
                    v.push(x);
                } else {
                    v.pop();
                }
                Body::Tuple(v)
            } else if s.bool() {
                Body::Array(v)
            } else {
                if v.len() > 1 {
                    let i = s.usize(v.len() - 1);
                    v.swap(i, i + 1);
                }
                Body::Tuple(v)
            }
        }
        (Body::Map(m), _) => {
            let mut m = m.clone();
            let key = format!("\u{10ffff}{}", s.below(3));
            m.insert(key, some_body(s, 1).1);
            Body::Map(m)
        }
        (Body::Enum(i, x), k) => {
            if k == 1 {
                let d = *s.pick(&[1u32, 2, 255, 256, 65535, 65536, u32::MAX]);
                Body::Enum(i.wrapping_add(d), x.clone())
            } else {
                Body::Enum(*i, Box::new(some_body(s, 1).1))
            }
        }
        (x, _) => Body::Optional(Some(Box::new(x.clone()))),
    };
    *t = new;
}

fn deviate_header(s: &mut Src, h: &mut Header) {
    let n = header_nodes(h) as usize;
    let mut k = if s.chance(80) { n - 1 - s.usize(n.min(4)) } else { s.usize(n) };
    let t = match nth_header(h, &mut k) {
        Some(t) => t,
        None => return,
    };
    let new = match (&*t, s.below(3)) {
        (_, 0) => leaf_header(s.usize(LEAF_HEADERS)),
        (Header::Tuple(v), _) | (Header::Enum(v), _) => {
            let mut v = v.clone();
            match s.below(3) {
                0 => {
                    v.pop();
                }
                1 => v.push(v.last().cloned().unwrap_or(Header::Unit)),
                _ => {
                    if v.len() > 1 {
                        let i = s.usize(v.len() - 1);
                        v.swap(i, i + 1);
                    }
                }
            }
            match (s.chance(60), &*t) {
                (false, Header::Tuple(_)) | (true, Header::Enum(_)) => Header::Tuple(v),
                _ => Header::Enum(v),
            }
        }
        (Header::Array(x), 1) => Header::Map(x.clone()),
        (Header::Map(x), 1) => Header::Array(x.clone()),
        (Header::Optional(x), 1) => (**x).clone(),
        (x, 1) => Header::Optional(Box::new(x.clone())),
        (x, _) => Header::Array(Box::new(x.clone())),
    };
    *t = new;
}

fn judge_pair(c: &mut Case, h: &Header, b: &Body) -> Result<bool, String> {
    c.eval();
    let want = conforms(h, b);
    let got = b.validate(h);
    let text = || {
        let mut t = format!("{:?} against {:?}", b, h);
        if t.len() > 800 {
            let mut k = 800;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t.push('…');
        }
        t
    };
    check!(got == want, "{}: the check says {}, the structure says {}", text(), got, want);
    if want {
        let v = val_of(h, b).map_err(|m| format!("HARNESS: conforming body without a value: {} ({})", m, text()))?;
        let e = under::ser(b).map_err(|x| format!("{}: conforming body not encoded: {:?}", text(), x))?;
        let (d, n) = under::de_body(h, &e);
        let d = d.map_err(|x| format!("{}: encoding {} of a conforming body rejected: {:?}", text(), hexs(&e), x))?;
        let dv = val_of(h, &d).map_err(|m| format!("{}: decoded body does not conform: {}", text(), m))?;
        check!(dv == v && n == e.len(), "{}: conforming body came back as {}", text(), show(&dv));
    }
    Ok(want)
}

fn shapes() -> Vec<Header> {
    use Header::*;
    let bx = |h: &Header| Box::new(h.clone());
    let mut v = Vec::new();
    let leaves: Vec<Header> = (0..LEAF_HEADERS).map(leaf_header).collect();
    v.extend(leaves.clone());
    for l in &leaves {
        v.push(Optional(bx(l)));
        v.push(Array(bx(l)));
        v.push(Map(bx(l)));
        v.push(Tuple(vec![l.clone()]));
        v.push(Tuple(vec![Boolean, l.clone()]));
        v.push(Enum(vec![l.clone()]));
        v.push(Enum(vec![Unit, l.clone()]));
    }
    v.extend([
        Tuple(vec![]),
        Enum(vec![]),
        Optional(Box::new(Optional(Box::new(UInt8)))),
        Array(Box::new(Array(Box::new(Int8)))),
        Map(Box::new(Map(Box::new(String)))),
        Array(Box::new(Tuple(vec![UInt8, UInt16]))),
        Array(Box::new(Enum(vec![UInt8, UInt16]))),
        Optional(Box::new(Enum(vec![]))),
        Array(Box::new(Enum(vec![]))),
        Map(Box::new(Enum(vec![]))),
        Map(Box::new(Optional(Box::new(Boolean)))),
        Tuple(vec![UInt8, UInt8, UInt8]),
        Tuple(vec![Optional(Box::new(Boolean)), Array(Box::new(Int64))]),
        Enum(vec![Boolean; 3]),
        Enum(vec![Unit; 300]),
        Tuple(vec![Unit; 300]),
    ]);
    v
}

fn c14_blocks(_: bool) -> u64 {
    16 + 8
}
/// Chains of one wrapper, or of all in turn, with the right and the wrong body at the bottom and in between.
fn chains(i: u64, c: &mut Case) -> R {
    let wrong = [Body::Unit, Body::UInt8(3), Body::Boolean(true), Body::Optional(None), Body::Tuple(vec![Body::UInt16(3)])];
    for depth in 1..=150usize {
        let (mut h, mut v) = (Header::UInt16, Val::U(300));
        let mut none = 0;
        for d in 0..depth {
            (h, v) = wrap_full(if i == 7 { d as u64 % 7 } else { i }, h, v, &mut none);
        }
        let b = body_of(&ty_of_header(&h), &v);
        judge_pair(c, &h, &b)?;
        let n = count_bodies(&b);
        for at in [n - 1, n.saturating_sub(2), n / 2] {
            for w in &wrong {
                let mut x = b.clone();
                let mut k = at;
                if let Some(t) = nth_body(&mut x, &mut k) {
                    *t = w.clone();
                    judge_pair(c, &h, &x)?;
                }
            }
        }
        c.nontrivial(h2(&i.to_le_bytes(), &depth.to_le_bytes()));
    }
    Ok(())
}
fn c14_block(i: u64, c: &mut Case) -> R {
    if i >= 16 {
        return chains(i - 16, c);
    }
    let hs = shapes();
    let mut bodies: Vec<Body> = Vec::new();
    for (k, h) in hs.iter().enumerate() {
        let ty = ty_of_header(h);
        if ty.has_empty_enum() {
            continue;
        }
        for j in 0..3u64 {
            let mut s = Src::random(1000 * k as u64 + j);
            let v = gen_val(&mut s, &ty, &mut VOpts { sorted_maps: true, budget: 30 });
            bodies.push(body_of(&ty, &v));
        }
    }
    bodies.extend([
        Body::Optional(None),
        Body::Array(vec![]),
        Body::Map(Default::default()),
        Body::Tuple(vec![]),
        Body::Enum(0, Box::new(Body::Unit)),
        Body::Enum(1, Box::new(Body::Unit)),
        Body::Enum(2, Box::new(Body::Boolean(true))),
        Body::Enum(3, Box::new(Body::Boolean(true))),
        Body::Enum(u32::MAX, Box::new(Body::Unit)),
        Body::Array(vec![Body::UInt8(1), Body::UInt8(2), Body::UInt16(3)]),
        Body::Array(vec![Body::UInt16(1), Body::UInt8(2)]),
        Body::Tuple(vec![Body::UInt8(1), Body::UInt8(2)]),
        Body::Tuple(vec![Body::UInt8(1); 4]),
        Body::Tuple(vec![Body::Unit; 299]),
        Body::Tuple(vec![Body::Unit; 301]),
    ]);
    for (k, h) in hs.iter().enumerate() {
        if k as u64 % 16 == i {
            for b in &bodies {
                judge_pair(c, h, b)?;
            }
            c.nontrivial(h2(format!("{:?}", h).as_bytes(), b"block"));
        }
    }
    Ok(())
}

fn c14(c: &mut Case) -> R {
    let (mut h, _, _, mut b) = if c.src.chance(50) {
        gen_conforming(&mut c.src)
    } else {
        let (h, b) = some_body(&mut c.src, 4);
        (h, Ty::Unit, Val::Unit, b)
    };
    // Bodies a peer sent rather than ones built from a value: days of the year
    // beyond 366, out-of-range seconds, padded numbers. What decodes conforms.
    if c.src.chance(40) {
        let ty = ty_of_header(&h);
        if !ty.has_zero_size_elements() {
            let (bytes, _) = gen_hostile(&mut c.src, &ty);
            if let Ok(x) = under::de_body(&h, &bytes).0 {
                check!(x.validate(&h), "{:?}: the body decoded from {} under that header does not conform: {:?}", h, hexs(&bytes), x);
                c.label("decoded from loose bytes");
                b = x;
            }
        }
    }
    let n = c.src.weighted(&[2, 8, 2, 1]);
    if n == 3 && c.src.bool() {
        b = some_body(&mut c.src, 4).1;
    } else {
        for _ in 0..n {
            if c.src.chance(100) {
                deviate_header(&mut c.src, &mut h)
            } else {
                deviate_body(&mut c.src, &mut b)
            }
        }
    }
    c.describe(|| format!("{:?} against {:?}", b, h));
    let ok = judge_pair(c, &h, &b)?;
    c.label(if ok { "conforming" } else { "deviating" });
    if n > 0 {
        c.nontrivial(fnv(format!("{:?}{:?}", h, b).as_bytes()));
    }
    Ok(())
}
