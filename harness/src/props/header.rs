//! C09 header round trips, C10 decoding of arbitrary header bytes.
use super::*;
use crate::case::{hexs, Case, R};
use crate::gen::*;
use crate::under;
use dlhn::Header;
use std::io::ErrorKind;

pub const LIMIT: usize = 128;

pub static C09: Prop = Prop {
    id: "C09",
    rule: "case: random header (wide or up to 128 levels deep), encoded, compared with the independent encoder, decoded with random bytes following. Non-trivial: distinct encodings of composite headers",
    quick: 2_000_000,
    thorough: 10_000_000,
    run: c09,
    blocks: Some((c09_blocks, c09_block)),
    blocks_note: "every leaf; every wrapper of every leaf and of every wrapper; all pairs of leaves in tuples and enums; tuples and enums of every entry count 0..=1100, 16370..16400 and 65520..65540; every nesting 1..=128 of each wrapper",
    known: &[],
    assumptions: &[],
};

fn short(h: &Header) -> String {
    let mut t = format!("{:?}", h);
    if t.len() > 200 {
        t.truncate(200);
        t.push('…');
    }
    t
}

fn round(c: &mut Case, h: &Header, tail: &[u8]) -> R {
    c.eval();
    let wide = header_max_list(h) > 65535;
    let b = match under::ser_header(h) {
        Err(e) => {
            check!(wide, "header {} cannot be encoded: {}", short(h), e);
            c.label("too many entries: refused");
            return Ok(());
        }
        Ok(b) => b,
    };
    check!(!wide, "header {} with {} entries was encoded", short(h), header_max_list(h));
    let mut e = Vec::new();
    put_header(h, &mut e);
    check!(b == e, "header {} encodes to {}, expected {}", short(h), hexs(&b), hexs(&e));
    let mut long = b;
    let n = long.len();
    long.extend_from_slice(tail);
    let (d, used) = under::de_header(&long);
    match d {
        Ok(d) => check!(
            d == *h && used == n,
            "header {} ({}) decodes to {} from {} bytes",
            short(h),
            hexs(&e),
            short(&d),
            used
        ),
        Err(x) => fail!("header {} ({}, depth {}) cannot be decoded: {}", short(h), hexs(&e), header_depth(h), x),
    }
    if e.len() > 1 {
        c.nontrivial(fnv(&e));
    }
    Ok(())
}

fn wrap(k: u64, h: Header) -> Header {
    match k {
        0 => Header::Optional(Box::new(h)),
        1 => Header::Array(Box::new(h)),
        2 => Header::Map(Box::new(h)),
        3 => Header::Tuple(vec![h]),
        4 => Header::Enum(vec![h]),
        5 => Header::Tuple(vec![h, Header::UInt8]),
        _ => Header::Enum(vec![Header::Unit, h]),
    }
}

fn c09_blocks(_: bool) -> u64 {
    5
}
fn c09_block(i: u64, c: &mut Case) -> R {
    let n = LEAF_HEADERS;
    match i {
        0 => {
            for a in 0..n {
                round(c, &leaf_header(a), &[0xff])?;
                for k in 0..7 {
                    round(c, &wrap(k, leaf_header(a)), &[1, 2])?;
                    for j in 0..7 {
                        round(c, &wrap(j, wrap(k, leaf_header(a))), &[])?;
                    }
                }
                for b in 0..n {
                    round(c, &Header::Tuple(vec![leaf_header(a), leaf_header(b)]), &[0])?;
                    round(c, &Header::Enum(vec![leaf_header(a), leaf_header(b)]), &[0])?;
                }
            }
        }
        1 => {
            for k in 0..7 {
                let mut h = Header::Int16;
                for _ in 1..=LIMIT {
                    h = wrap(k, h);
                    round(c, &h, &[24])?;
                }
            }
        }
        i => {
            let sizes: Vec<usize> = match i {
                2 => (0..=1100).collect(),
                3 => (16370..16400).collect(),
                _ => (65520..65541).collect(),
            };
            for s in sizes {
                let mut v = vec![Header::UInt8; s];
                if s > 1 {
                    v[s / 2] = Header::Optional(Box::new(Header::Unit));
                    v[s - 1] = Header::Date;
                }
                round(c, &Header::Tuple(v.clone()), &[3, 3])?;
                round(c, &Header::Array(Box::new(Header::Enum(v))), &[3, 3])?;
            }
        }
    }
    Ok(())
}

fn c09(c: &mut Case) -> R {
    let h = if c.src.chance(40) {
        let d = c.src.usize(LIMIT) + 1;
        gen_deep_header(&mut c.src, d)
    } else {
        let d = c.src.usize(9);
        let mut n = 60;
        let wide = c.src.chance(20);
        gen_header(&mut c.src, d, &mut n, wide)
    };
    let t = tail(&mut c.src);
    c.describe(|| short(&h));
    let d = header_depth(&h);
    c.label(match d {
        0 => "depth 0",
        1..=4 => "depth 1..4",
        5..=32 => "depth 5..32",
        _ => "depth 33..128",
    });
    round(c, &h, &t)
}

// ---------------------------------------------------------------- C10

pub static C10: Prop = Prop {
    id: "C10",
    rule: "case: random bytes, mutated header encodings, or deep chains (up to a million levels); compared with the independent, non-recursive decoder and the nesting limit. Non-trivial: distinct inputs of at least 2 bytes",
    quick: 1_500_000,
    thorough: 40_000_000,
    run: c10,
    blocks: Some((c10_blocks, c10_block)),
    blocks_note: "all byte strings of up to 3 bytes (thorough: those of 4 bytes with type codes or small counts); chains of every wrapper code of every depth 0..=400",
    known: &[],
    assumptions: &["the stack is the 2 MiB a spawned thread has by default"],
};

fn judge_header(c: &mut Case, b: &[u8]) -> R {
    c.evals += 1;
    let mut d = Dec::new(b);
    let mut seen = 0;
    let want = get_header(&mut d, &mut seen);
    let (got, used) = under::de_header(b);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            check!(w.depth <= LIMIT, "header from {}: accepted although nested {} levels deep", hexs(b), w.depth);
            check!(w.header == g, "header from {}: decoded to {}, expected {}", hexs(b), short(&g), short(&w.header));
            check!(used == d.pos, "header from {}: {} bytes used, expected {}", hexs(b), used, d.pos);
        }
        (Ok(w), Err(e)) => check!(
            w.depth > LIMIT || d.lenient,
            "header from {}: rejected ({}), the bytes encode {} (depth {})",
            hexs(b),
            e,
            short(&w.header),
            w.depth
        ),
        (Err(x), Ok(g)) => fail!("header from {}: decoded to {} although the bytes are malformed ({:?})", hexs(b), short(&g), x),
        (Err(x), Err(e)) => {
            if seen <= LIMIT {
                let k = match x {
                    Bad::Eof => ErrorKind::UnexpectedEof,
                    _ => ErrorKind::InvalidData,
                };
                check!(e.kind() == k, "header from {}: {:?} reported as {:?}", hexs(b), x, e.kind());
            }
        }
    }
    Ok(())
}

const WRAPS: &[&[u8]] = &[&[1], &[20], &[23], &[21, 1], &[24, 1], &[21, 2, 0], &[24, 3, 2, 4], &[1, 20], &[23, 24, 2, 1]];

fn c10_blocks(thorough: bool) -> u64 {
    257 + if thorough { 28 } else { 0 }
}
fn c10_block(i: u64, c: &mut Case) -> R {
    if i < 256 {
        if i == 0 {
            judge_header(c, &[])?;
            for a in 0..=255u8 {
                judge_header(c, &[a])?;
                for b in 0..=255u8 {
                    judge_header(c, &[a, b])?;
                }
            }
        }
        for x in 0..65536u32 {
            judge_header(c, &[i as u8, (x >> 8) as u8, x as u8])?;
        }
    } else if i == 256 {
        for w in WRAPS {
            let mut b = Vec::new();
            for _ in 0..=400 {
                for end in [0u8, 2, 7, 14, 26, 27, 255] {
                    b.push(end);
                    judge_header(c, &b)?;
                    // enough entries to complete every open list
                    let n = b.len();
                    b.resize(n + 1200, 3);
                    judge_header(c, &b)?;
                    b.truncate(n - 1);
                }
                judge_header(c, &b)?;
                b.extend_from_slice(w);
            }
            c.nontrivial(fnv(&b));
        }
    } else {
        let a = (i - 257) as u8;
        for b in 0..28u8 {
            for x in 0..65536u32 {
                judge_header(c, &[a, b, (x >> 8) as u8, x as u8])?;
            }
        }
    }
    c.nontrivial(h2(&i.to_le_bytes(), b"block"));
    Ok(())
}

fn c10(c: &mut Case) -> R {
    let b = match c.src.weighted(&[5, 5, 3, 2]) {
        0 => {
            // type codes and small counts
            let n = c.src.usize(60);
            (0..n)
                .map(|_| match c.src.below(8) {
                    0 => c.src.byte(),
                    1 => c.src.below(5) as u8,
                    2 | 3 => *c.src.pick(&[1u8, 20, 21, 23, 24]),
                    _ => c.src.below(28) as u8,
                })
                .collect::<Vec<u8>>()
        }
        1 => {
            let d = c.src.usize(7);
            let mut n = 30;
            let h = gen_header(&mut c.src, d, &mut n, false);
            let mut b = Vec::new();
            put_header(&h, &mut b);
            for _ in 0..c.src.usize(4) {
                mutate(&mut c.src, &mut b)
            }
            b
        }
        2 => {
            // near the limit
            let d = 100 + c.src.usize(60);
            let h = gen_deep_header(&mut c.src, d);
            let mut b = Vec::new();
            put_header(&h, &mut b);
            if c.src.bool() {
                mutate(&mut c.src, &mut b)
            }
            b
        }
        _ => {
            let n = if c.src.chance(16) { c.src.usize(1_000_000) } else { c.src.usize(3000) };
            let w = *c.src.pick(WRAPS);
            let mut b = Vec::with_capacity(n + 64);
            while b.len() < n {
                b.extend_from_slice(w);
            }
            let k = c.src.usize(4);
            for _ in 0..k {
                b.push(c.src.below(28) as u8);
            }
            b
        }
    };
    c.describe(|| format!("header bytes {}", hexs(&b)));
    judge_header(c, &b)?;
    let t = tail(&mut c.src);
    let mut b2 = b.clone();
    b2.extend(t);
    judge_header(c, &b2)?;
    if b.len() > 1 {
        c.nontrivial(fnv(&b));
    }
    Ok(())
}
