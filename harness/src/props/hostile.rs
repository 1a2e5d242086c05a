//! C04 and C13: decoding arbitrary bytes; C15: memory while decoding.
use super::*;
use crate::alloc::measure;
use crate::case::{hexs, Case, R};
use crate::conc;
use crate::gen::*;
use crate::refserde::RErr;
use crate::under;

pub const FUEL: u64 = 300_000;

pub static C04: Prop = Prop {
    id: "C04",
    rule: "case: random type (dynamic or concrete), random, mutated or defect-injected bytes; result compared with the independent decoder (value, error, bytes used). Non-trivial: distinct (type, bytes) with a composite or multi-byte type and at least 2 bytes",
    quick: 2_400_000,
    thorough: 20_000_000,
    run: c04,
    blocks: Some((c04_blocks, c04_block)),
    blocks_note: "every leaf type and every option/1-element sequence of it on every byte string of up to 2 bytes",
    known: &[("zero-size", known_zero_size_typed)],
    assumptions: &["non-canonical integers and big numbers may be accepted or rejected; if accepted, the value is the one the bytes denote"],
};

pub fn known_zero_size() -> bool {
    // three million units claimed by a few bytes
    let mut b = Vec::new();
    put_varint(&mut b, 3_000_000, 64);
    let h = dlhn::Header::Array(Box::new(dlhn::Header::Unit));
    let (r, peak, _) = measure(|| under::de_body(&h, &b).0.is_ok());
    r && peak > 1 << 26
}

fn known_zero_size_typed() -> bool {
    let mut b = Vec::new();
    put_varint(&mut b, 1 << 20, 64);
    under::de::<Vec<()>>(&b).0.is_ok()
}

fn c04_blocks(_: bool) -> u64 {
    LEAVES.len() as u64 * 4
}
fn c04_block(i: u64, c: &mut Case) -> R {
    let leaf = LEAVES[(i / 4) as usize].clone();
    let ty = match i % 4 {
        0 => leaf,
        1 => Ty::Opt(Box::new(leaf)),
        2 => Ty::Seq(Box::new(if leaf.min_size() == 0 { Ty::Opt(Box::new(leaf)) } else { leaf })),
        _ => Ty::Enum(0, vec![Var::Unit, Var::Newtype(leaf.clone()), Var::Struct(vec![leaf, Ty::Bool])]),
    };
    let mut run = |b: &[u8], c: &mut Case| -> R {
        c.eval();
        let (g, n) = under::de_val(&ty, b, Default::default());
        judge(verdict(&ty, b, FUEL), &g, n, &|| format!("{} from {}", ty, hexs(b)))?;
        Ok(())
    };
    run(&[], c)?;
    for a in 0..=255u8 {
        run(&[a], c)?;
        for b in 0..=255u8 {
            run(&[a, b], c)?;
        }
    }
    c.nontrivial(h2(ty.to_string().as_bytes(), b"block"));
    Ok(())
}

fn c04(c: &mut Case) -> R {
    if c.src.chance(70) {
        let k = conc::pick(&mut c.src);
        let (b, kind) = gen_hostile(&mut c.src, k.ty());
        c.label(kind);
        c.describe(|| format!("{} ({}) from {}", k.name, k.desc, hexs(&b)));
        let want = match k.reference(&b) {
            Err(RErr::Undefined) => {
                c.exclude("claimed count of zero-byte elements (known finding)");
                return Ok(());
            }
            w => w,
        };
        c.eval();
        let (got, n) = k.de(&b);
        match (want, got) {
            (Err(_), Err(_)) => c.label("concrete: rejected"),
            (Err(e), Ok(g)) => fail!("{} from {}: decoded to {} although the bytes encode nothing ({:?})", k.name, hexs(&b), hexs(&g), e),
            (Ok((w, m, _)), Ok(g)) => {
                check!(
                    k.same(&g, &w) && n == m,
                    "{} from {}: decoded to {} from {} bytes, expected {} from {}",
                    k.name,
                    hexs(&b),
                    hexs(&g),
                    n,
                    hexs(&w),
                    m
                );
                c.label("concrete: accepted");
            }
            (Ok((w, _, lenient)), Err(e)) => {
                check!(lenient, "{} from {}: rejected with {:?}, the bytes encode {}", k.name, hexs(&b), e, hexs(&w))
            }
        }
        if b.len() > 1 {
            c.nontrivial(h2(k.name.as_bytes(), &b));
        }
        return Ok(());
    }
    let o = TyOpts { depth: c.src.below(6) as u32, ..TyOpts::typed() };
    let ty = gen_ty(&mut c.src, o);
    let (b, kind) = gen_hostile(&mut c.src, &ty);
    c.label(kind);
    let v = verdict(&ty, &b, FUEL);
    if let Verdict::Undefined = v {
        c.exclude("claimed count of zero-byte elements (known finding)");
        return Ok(());
    }
    c.describe(|| format!("{} from {}", ty, hexs(&b)));
    c.eval();
    let st = gen_style(&mut c.src);
    let (g, n) = under::de_val(&ty, &b, st);
    let l = judge(v, &g, n, &|| format!("{} from {}", ty, hexs(&b)))?;
    c.label(l);
    if b.len() > 1 {
        c.nontrivial(h2(ty.to_string().as_bytes(), &b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub static C13: Prop = Prop {
    id: "C13",
    rule: "case: random header, random, mutated or defect-injected bytes for it; the body or error compared with the independent decoder, then validated, re-encoded and decoded again. Non-trivial: distinct (header, bytes) of a composite header with at least 2 bytes",
    quick: 2_400_000,
    thorough: 20_000_000,
    run: c13,
    blocks: Some((c13_blocks, c13_block)),
    blocks_note: "every leaf header, option, array, map, enum and tuple of it on every byte string of up to 2 bytes",
    known: &[("zero-size", known_zero_size)],
    assumptions: &["non-canonical integers and big numbers and repeated map keys may be accepted (the last entry wins) or rejected"],
};

fn has_dup_keys(v: &Val) -> bool {
    match v {
        Val::Opt(Some(v)) | Val::Enum(_, v) => has_dup_keys(v),
        Val::Seq(v) | Val::Tup(v) => v.iter().any(has_dup_keys),
        Val::Map(v) => {
            let mut s = std::collections::BTreeSet::new();
            v.iter().any(|(k, x)| !s.insert(k) || has_dup_keys(x))
        }
        _ => false,
    }
}

pub fn dynamic_once(c: &mut Case, h: &dlhn::Header, ty: &Ty, b: &[u8]) -> R {
    let mut v = verdict(ty, b, FUEL);
    if let Verdict::Undefined = v {
        c.exclude("claimed count of zero-byte elements (known finding)");
        return Ok(());
    }
    if let Verdict::Must(x, n) = &v {
        if has_dup_keys(x) {
            v = Verdict::May(x.clone(), *n);
        }
    }
    let what = || format!("body under {:?} from {}", h, hexs(b));
    c.eval();
    let (g, used) = under::de_body(h, b);
    match (v, g) {
        (Verdict::MustFail, Err(_)) => c.label("rejected"),
        (Verdict::MustFail, Ok(g)) => fail!("{}: decoded to {:?} although the bytes encode nothing", what(), g),
        (Verdict::May(..), Err(_)) => c.label("non-canonical rejected"),
        (Verdict::Must(x, _), Err(e)) => fail!("{}: rejected with {:?}, the bytes encode {}", what(), e, show(&x)),
        (Verdict::Undefined, _) => {}
        (Verdict::Must(x, n), Ok(g)) | (Verdict::May(x, n), Ok(g)) => {
            c.label("accepted");
            let gv = val_of(h, &g).map_err(|e| format!("{}: the body does not conform: {}", what(), e))?;
            check!(g.validate(h), "{}: the body is not valid under its header", what());
            let x = normalize_maps(x);
            check!(
                norm_big(gv.clone()) == norm_big(x.clone()),
                "{}: decoded to {}, the bytes encode {}",
                what(),
                show(&gv),
                show(&x)
            );
            check!(used == n, "{}: took {} bytes, the encoding has {}", what(), used, n);
            c.eval();
            let r = under::ser(&g).map_err(|e| format!("{}: the body cannot be encoded: {:?}", what(), e))?;
            let (g2, n2) = under::de_body(h, &r);
            let g2 = g2.map_err(|e| format!("{}: re-encoded to {}, which is rejected: {:?}", what(), hexs(&r), e))?;
            let g2v = val_of(h, &g2).map_err(|e| format!("{}: re-decoded body does not conform: {}", what(), e))?;
            check!(
                g2v == gv && n2 == r.len(),
                "{}: re-encoded to {}, which decodes to {} instead of {}",
                what(),
                hexs(&r),
                show(&g2v),
                show(&gv)
            );
        }
    }
    Ok(())
}

fn c13_shape(i: u64, leaf: dlhn::Header) -> dlhn::Header {
    use dlhn::Header::*;
    match i {
        0 => leaf,
        1 => Optional(Box::new(leaf)),
        2 => Array(Box::new(if matches!(leaf, Unit) { Boolean } else { leaf })),
        3 => Map(Box::new(leaf)),
        4 => Enum(vec![Unit, leaf.clone(), Tuple(vec![leaf, Boolean])]),
        _ => Tuple(vec![Boolean, leaf]),
    }
}
fn c13_blocks(_: bool) -> u64 {
    LEAF_HEADERS as u64 * 6
}
fn c13_block(i: u64, c: &mut Case) -> R {
    let h = c13_shape(i % 6, leaf_header((i / 6) as usize));
    let ty = ty_of_header(&h);
    dynamic_once(c, &h, &ty, &[])?;
    for a in 0..=255u8 {
        dynamic_once(c, &h, &ty, &[a])?;
        for b in 0..=255u8 {
            dynamic_once(c, &h, &ty, &[a, b])?;
        }
    }
    c.nontrivial(h2(format!("{:?}", h).as_bytes(), b"block"));
    Ok(())
}

fn c13(c: &mut Case) -> R {
    let depth = c.src.usize(6);
    let mut nodes = 24;
    let h = gen_header(&mut c.src, depth, &mut nodes, false);
    let ty = ty_of_header(&h);
    let (b, kind) = gen_hostile(&mut c.src, &ty);
    c.label(kind);
    c.describe(|| format!("{} from {}", ty, hexs(&b)));
    dynamic_once(c, &h, &ty, &b)?;
    if ty.is_composite() && b.len() > 1 {
        c.nontrivial(h2(ty.to_string().as_bytes(), &b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15",
    rule: "case: a header, a dynamic body or a typed value decoded from bytes with inflated lengths, counts and nesting; the peak of live allocated bytes is measured and compared with a bound linear in the input and in the header or type. Non-trivial: distinct (header or type, bytes) from the claim-inflating generators, and of the blocks those claiming more than 4096 elements",
    quick: 2_400_000,
    thorough: 15_000_000,
    run: c15,
    blocks: Some((c15_blocks, c15_block)),
    blocks_note: "every claimed count 2^k-1, 2^k, 2^k+1 (k up to 64) for every sized leaf in array, map, string and byte positions, directly and nested, typed and dynamic; every claimed header count of 16 bits",
    known: &[("zero-size", known_zero_size)],
    assumptions: &["elements that take no bytes on the wire are excluded (known finding)", "serde's own collections may reserve up to 1 MiB per sequence level"],
};

fn seq_levels(t: &Ty) -> u64 {
    let list = |v: &[Ty]| v.iter().map(seq_levels).max().unwrap_or(0);
    match t {
        Ty::Seq(t) | Ty::Map(t) => 1 + seq_levels(t),
        Ty::Opt(t) | Ty::Newtype(t) => seq_levels(t),
        Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => list(v),
        Ty::Enum(_, vs) => vs
            .iter()
            .map(|v| match v {
                Var::Unit => 0,
                Var::Newtype(t) => seq_levels(t),
                Var::Tuple(v) | Var::Struct(v) => list(v),
            })
            .max()
            .unwrap_or(0),
        _ => 0,
    }
}

fn body_bound(ty: &Ty, n: usize) -> i64 {
    (128 * 1024 * (seq_levels(ty) + 1) + 512 * ty.nodes() * (n as u64 + 1)) as i64
}

fn mem_body(c: &mut Case, h: &dlhn::Header, ty: &Ty, b: &[u8]) -> R {
    c.eval();
    let (ok, peak, req) = measure(|| under::de_body(h, b).0.is_ok());
    check!(
        peak <= body_bound(ty, b.len()),
        "body under {} from {} ({} bytes, {}): {} bytes live, largest request {}; bound {}",
        ty,
        hexs(b),
        b.len(),
        if ok { "accepted" } else { "rejected" },
        peak,
        req,
        body_bound(ty, b.len())
    );
    Ok(())
}
fn mem_typed(c: &mut Case, ty: &Ty, b: &[u8]) -> R {
    c.eval();
    let (ok, peak, req) = measure(|| under::de_val(ty, b, Default::default()).0.is_ok());
    check!(
        peak <= body_bound(ty, b.len()),
        "typed {} from {} ({} bytes, {}): {} bytes live, largest request {}; bound {}",
        ty,
        hexs(b),
        b.len(),
        if ok { "accepted" } else { "rejected" },
        peak,
        req,
        body_bound(ty, b.len())
    );
    Ok(())
}
fn mem_header(c: &mut Case, b: &[u8]) -> R {
    c.eval();
    let bound = 64 * 1024 + 512 * (b.len() as i64 + 1);
    let (ok, peak, req) = measure(|| under::de_header(b).0.is_ok());
    check!(
        peak <= bound,
        "header from {} ({} bytes, {}): {} bytes live, largest request {}; bound {}",
        hexs(b),
        b.len(),
        if ok { "accepted" } else { "rejected" },
        peak,
        req,
        bound
    );
    Ok(())
}

fn sized_leaves() -> Vec<Ty> {
    LEAVES.iter().filter(|t| t.min_size() > 0).cloned().collect()
}

fn c15_blocks(_: bool) -> u64 {
    sized_leaves().len() as u64 + 1
}
fn c15_block(i: u64, c: &mut Case) -> R {
    let ls = sized_leaves();
    if i as usize == ls.len() {
        for code in [21u8, 24] {
            for n in 0..=65535u64 {
                let mut b = vec![code];
                put_varint(&mut b, n, 16);
                mem_header(c, &b)?;
                if n % 64 == 0 {
                    // each level claims the same count
                    let one = b.clone();
                    for _ in 0..40 {
                        b.extend_from_slice(&one);
                    }
                    mem_header(c, &b)?;
                    c.nontrivial(h2(&b, b"header"));
                }
            }
        }
        return Ok(());
    }
    let leaf = ls[i as usize].clone();
    let bx = |t: &Ty| Box::new(t.clone());
    let q = Ty::Seq(bx(&leaf));
    let m = Ty::Map(bx(&leaf));
    let shapes = vec![
        leaf.clone(),
        q.clone(),
        m.clone(),
        Ty::Seq(bx(&q)),
        Ty::Map(bx(&m)),
        Ty::Opt(bx(&q)),
        Ty::Tuple(vec![Ty::U8, q.clone(), leaf.clone()]),
        Ty::Struct(vec![m.clone(), q.clone()]),
        Ty::Enum(0, vec![Var::Newtype(q.clone()), Var::Struct(vec![Ty::U8, m])]),
        Ty::Seq(Box::new(Ty::Seq(Box::new(Ty::Seq(bx(&q)))))),
    ];
    for t in shapes {
        let h = header_of(&t);
        for k in 0..=64u32 {
            for d in [-1i64, 0, 1] {
                let n = (if k == 64 { 0u64 } else { 1u64 << k }).wrapping_add(d as u64);
                let mut claim = Vec::new();
                put_varint(&mut claim, n, 64);
                for (pre, reps, fill) in [(0u8, 1usize, 0usize), (0, 1, 5), (1, 1, 3), (0, 4, 0), (1, 4, 9), (7, 2, 20)] {
                    let mut b = Vec::new();
                    match &t {
                        Ty::Opt(_) => b.push(1),
                        Ty::Tuple(_) => b.push(pre),
                        Ty::Enum(..) => b.push(pre & 1),
                        _ => {}
                    }
                    for _ in 0..reps {
                        b.extend_from_slice(&claim);
                    }
                    b.resize(b.len() + fill, 1);
                    mem_typed(c, &t, &b)?;
                    if let Some(h) = &h {
                        mem_body(c, h, &ty_of_header(h), &b)?;
                    }
                    if k > 12 {
                        c.nontrivial(h2(t.to_string().as_bytes(), &b));
                    }
                }
            }
        }
    }
    Ok(())
}

fn gen_header_claims(s: &mut Src) -> Vec<u8> {
    let top = if s.chance(40) { 400 } else { 30 };
    let n = 1 + s.usize(top);
    let mut b = Vec::new();
    for _ in 0..n {
        match s.below(6) {
            0 => b.push(*s.pick(&[1u8, 20, 23])),
            1 => b.push(s.below(28) as u8),
            _ => {
                b.push(if s.bool() { 21 } else { 24 });
                let v = match s.below(4) {
                    0 => s.below(4),
                    1 => 65535 - s.below(3),
                    _ => s.uint(16),
                };
                put_varint(&mut b, v, 16)
            }
        }
    }
    b
}

fn inflate(s: &mut Src, b: &mut Vec<u8>) {
    // put huge counts where lengths are likely to stand
    let k = 1 + s.usize(3);
    for _ in 0..k {
        let at = s.usize(b.len().min(6) + 1);
        let v = match s.below(3) {
            0 => s.uint(64),
            1 => s.below(1 << 34),
            _ => 4000 + s.below(1 << 22),
        };
        let mut c = Vec::new();
        put_varint(&mut c, v, 64);
        let rest = b.split_off(at);
        b.extend(c);
        b.extend(rest);
    }
}

fn c15(c: &mut Case) -> R {
    match c.src.below(4) {
        0 => {
            let b = if c.src.chance(60) {
                let mut n = 20;
                let h = gen_header(&mut c.src, 4, &mut n, false);
                let mut b = Vec::new();
                put_header(&h, &mut b);
                mutate(&mut c.src, &mut b);
                b
            } else {
                gen_header_claims(&mut c.src)
            };
            c.describe(|| format!("header from {}", hexs(&b)));
            mem_header(c, &b)?;
            c.label("header");
            c.nontrivial(h2(&b, b"header"));
        }
        1 => {
            let depth = 1 + c.src.usize(4);
            let mut nodes = 6 + c.src.below(10) as i64;
            let h = gen_header(&mut c.src, depth, &mut nodes, false);
            let ty = ty_of_header(&h);
            if ty.has_zero_size_elements() {
                c.exclude("sequence of zero-byte elements (known finding)");
                return Ok(());
            }
            let (mut b, _) = gen_hostile(&mut c.src, &ty);
            if c.src.bool() {
                inflate(&mut c.src, &mut b);
            }
            c.describe(|| format!("body under {} from {}", ty, hexs(&b)));
            mem_body(c, &h, &ty, &b)?;
            c.label("body");
            c.nontrivial(h2(ty.to_string().as_bytes(), &b));
        }
        2 => {
            let o = TyOpts { depth: 1 + c.src.below(4) as u32, nodes: 10, zero_elems: false, wide: c.src.chance(30), ..TyOpts::typed() };
            let ty = gen_ty(&mut c.src, o);
            if ty.has_zero_size_elements() {
                c.exclude("sequence of zero-byte elements (known finding)");
                return Ok(());
            }
            let (mut b, _) = gen_hostile(&mut c.src, &ty);
            if c.src.bool() {
                inflate(&mut c.src, &mut b);
            }
            c.describe(|| format!("typed {} from {}", ty, hexs(&b)));
            mem_typed(c, &ty, &b)?;
            c.label("dynamic type");
            c.nontrivial(h2(ty.to_string().as_bytes(), &b));
        }
        _ => {
            let k = conc::pick_sized(&mut c.src);
            let (mut b, _) = gen_hostile(&mut c.src, k.ty());
            if c.src.bool() {
                inflate(&mut c.src, &mut b);
            }
            c.describe(|| format!("{} from {}", k.name, hexs(&b)));
            c.eval();
            let bound = body_bound(k.ty(), b.len()) + 3 * (seq_levels(k.ty()) as i64) * (1 << 20);
            let (ok, peak, req) = k.de_mem(&b);
            check!(
                peak <= bound,
                "{} from {} ({} bytes, {}): {} bytes live, largest request {}; bound {}",
                k.name,
                hexs(&b),
                b.len(),
                if ok { "accepted" } else { "rejected" },
                peak,
                req,
                bound
            );
            c.label("concrete type");
            c.nontrivial(h2(k.name.as_bytes(), &b));
        }
    }
    Ok(())
}
