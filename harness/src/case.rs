use crate::tape::Src;
use std::collections::BTreeMap;

pub type R = Result<(), String>;

pub struct Case {
    pub src: Src,
    /// Executions of the code under test judged by the oracle in this case.
    pub evals: u64,
    /// Hashes of the distinct non-trivial situations of this case.
    pub nt: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub excluded: BTreeMap<&'static str, u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub thorough: bool,
}

impl Case {
    pub fn new(src: Src, want_desc: bool, thorough: bool) -> Self {
        Case {
            src,
            evals: 0,
            nt: Vec::new(),
            labels: BTreeMap::new(),
            excluded: BTreeMap::new(),
            desc: None,
            want_desc,
            thorough,
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn exclude(&mut self, l: &'static str) {
        *self.excluded.entry(l).or_insert(0) += 1;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.nt.push(h);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 3000 {
                let mut k = 3000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("…");
            }
            match &mut self.desc {
                Some(d) => {
                    d.push_str(" | ");
                    d.push_str(&s)
                }
                None => self.desc = Some(s),
            }
        }
    }
}

/// Raised (as a panic payload) where the code under test breaks something the harness stands on,
/// such as a wrapper type that cannot be built from its own encoding.
pub struct Broken(pub String);
pub fn broken(m: String) -> ! {
    std::panic::panic_any(Broken(m))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!("{}..({} bytes)..{}", hex(&b[..48]), b.len(), hex(&b[b.len() - 16..]))
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim().as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0,
    };
    s.chunks(2).filter(|c| c.len() == 2).map(|c| d(c[0]) * 16 + d(c[1])).collect()
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
