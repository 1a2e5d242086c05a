//! Choice tape: every random decision of a case is drawn from here, so a case is a pure function of
//! the recorded bytes and shrinking the bytes shrinks the case. All-zero draws mean "simplest".

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    // final avalanche
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^ (h >> 32)
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut b = prop.as_bytes().to_vec();
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(&index.to_le_bytes());
    fnv(&b)
}

/// Literals of the code under test (tools/literals.py), a bias for the generators: DLHN_DICT holds
/// `i<number>`, `f<float>` and `t<hex text>` separated by commas. A replay file carries its own.
pub struct Dict {
    pub small: Vec<u64>,
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub texts: Vec<String>,
}
pub fn dict_text() -> String {
    std::env::var("DLHN_DICT").unwrap_or_default()
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { small: vec![7], ints: vec![1000], floats: vec![1.5], texts: vec!["dlhn".into()] };
        for w in dict_text().split(',') {
            match w.get(..1) {
                Some("i") => match w[1..].parse::<u64>() {
                    Ok(v) if v <= 60 => d.small.push(v),
                    Ok(v) => d.ints.push(v),
                    _ => {}
                },
                Some("f") => d.floats.extend(w[1..].parse::<f64>().ok()),
                Some("t") => {
                    let h = &w[1..];
                    let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| h.get(2 * i..2 * i + 2).and_then(|x| u8::from_str_radix(x, 16).ok())).collect();
                    d.texts.extend(b.and_then(|b| String::from_utf8(b).ok()));
                }
                _ => {}
            }
        }
        d
    })
}

pub struct Src {
    rng: Option<Rng>,
    buf: u64,
    left: u32,
    pub tape: Vec<u8>,
    pub pos: usize,
    /// longest text or number (bytes) the generators may pick at present
    pub cap: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), buf: 0, left: 0, tape: Vec::new(), pos: 0, cap: usize::MAX }
    }
    pub fn replay(tape: Vec<u8>) -> Self {
        Src { rng: None, buf: 0, left: 0, tape, pos: 0, cap: usize::MAX }
    }
    pub fn byte(&mut self) -> u8 {
        let b = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else {
            match &mut self.rng {
                Some(r) => {
                    if self.left == 0 {
                        self.buf = r.next();
                        self.left = 8;
                    }
                    let b = self.buf as u8;
                    self.buf >>= 8;
                    self.left -= 1;
                    self.tape.push(b);
                    b
                }
                None => 0,
            }
        };
        self.pos += 1;
        b
    }
    pub fn raw(&mut self, n: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.byte() as u64) << (8 * i);
        }
        v
    }
    /// Uniform in 0..n (n > 0); zero tape gives 0.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let m = n - 1;
        let k = if m < 256 {
            1
        } else if m < 65536 {
            2
        } else if m < 1 << 32 {
            4
        } else {
            8
        };
        self.raw(k) % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability about p/256; false on an exhausted tape.
    pub fn chance(&mut self, p: u32) -> bool {
        (self.byte() as u32) >= 256 - p.min(256)
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut r = self.below(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        w.len() - 1
    }
    /// A number the code mentions, or one next to it.
    pub fn literal(&mut self) -> u64 {
        let d = dict();
        let v = if self.chance(64) { *self.pick(&d.small) } else { *self.pick(&d.ints) };
        match self.below(8) {
            1 => v.wrapping_add(1),
            2 => v.wrapping_sub(1),
            3 => v.wrapping_mul(1 + self.below(4)),
            _ => v,
        }
    }
    /// The same as a length, at most max.
    pub fn literal_len(&mut self, max: usize) -> usize {
        let v = self.literal();
        if v <= max as u64 {
            v as usize
        } else {
            self.usize(max.min(8) + 1)
        }
    }
    /// Unsigned integer of the given bit width, biased to the edges of every encoding length.
    pub fn uint(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.weighted(&[3, 3, 4, 2, 1, 1]) {
            0 => self.below(4),
            5 => self.literal(),
            1 => {
                // around 2^k
                let k = self.below(bits as u64 + 1);
                let p = if k >= 64 { 0u64 } else { 1u64 << k };
                let d = self.below(5);
                p.wrapping_add(d).wrapping_sub(2)
            }
            2 => {
                // random of random bit length
                let k = self.below(bits as u64 + 1);
                let r = self.raw((bits as usize + 7) / 8);
                if k == 0 {
                    0
                } else {
                    r & (u64::MAX >> (64 - k))
                }
            }
            3 => self.raw((bits as usize + 7) / 8),
            _ => mask.wrapping_sub(self.below(3)),
        };
        v & mask
    }
    pub fn int(&mut self, bits: u32) -> i64 {
        // the view comes first, so that a value put into the tape as it is stays one
        let view = self.below(4);
        let u = self.uint(bits);
        match view {
            3 if u < 1 << (bits - 1) => (u as i64).wrapping_neg(),
            // zigzag view of the unsigned distribution: every encoded length equally likely
            0 | 1 | 3 => ((u >> 1) as i64) ^ -((u & 1) as i64),
            // two's complement view
            _ => {
                let sh = 64 - bits;
                ((u << sh) as i64) >> sh
            }
        }
    }
}
