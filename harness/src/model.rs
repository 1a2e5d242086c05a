//! Independent reference model of the DLHN format: types, values, encoder, decoder, headers and bodies.
//! Written from the format description; shares no code with the crate under test.
use dlhn::{Body, Header};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unit,
    UnitStruct,
    Bool,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Map(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Struct(Vec<Ty>),
    /// Variant k of the list has wire index base + k.
    Enum(u32, Vec<Var>),
    BigUint,
    BigInt,
    BigDec,
    Date,
    DateTime,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Map(Vec<(String, Val)>),
    Tup(Vec<Val>),
    /// wire index, payload (Unit, the newtype's value, or Tup)
    Enum(u32, Box<Val>),
    /// little-endian magnitude / two's complement bytes, empty for zero
    BigUint(Vec<u8>),
    BigInt(Vec<u8>),
    BigDec(Vec<u8>, i64),
    /// year, ordinal (1-based) as the wrapper holds them
    Date(i64, u32),
    DateTime(i64, u32),
}

// ---------------------------------------------------------------- integers

pub fn zigzag(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) * 2
    } else {
        ((-(v + 1)) as u64) * 2 + 1
    }
}
pub fn unzigzag(u: u64) -> i64 {
    if u % 2 == 0 {
        (u / 2) as i64
    } else {
        -((u / 2) as i64) - 1
    }
}

/// Prefix varint of an unsigned integer of `width` bits (16, 32 or 64).
pub fn put_varint(out: &mut Vec<u8>, v: u64, width: u32) {
    let long = width / 8; // most bytes of the prefixed form
    for n in 1..=long {
        if 7 * n >= 64 || v < 1u64 << (7 * n) {
            put_varint_len(out, v, n);
            return;
        }
    }
    out.push(match width {
        16 => 0b1100_0000,
        32 => 0b1111_0000,
        _ => 0xff,
    });
    out.extend_from_slice(&v.to_le_bytes()[..long as usize]);
}

/// The n-byte prefixed form (v must fit in 7n bits).
pub fn put_varint_len(out: &mut Vec<u8>, v: u64, n: u32) {
    // n-1 ones, a zero, then the low 8-n bits of the value; the rest little-endian
    let ones = !(0xffu32 >> (n - 1)) as u8;
    let low_bits = 8 - n;
    out.push(ones | (v & ((1u64 << low_bits) - 1)) as u8);
    let mut rest = v >> low_bits;
    for _ in 1..n {
        out.push(rest as u8);
        rest >>= 8;
    }
}

pub fn put_varint_last(out: &mut Vec<u8>, v: u64, width: u32, noise: u8) {
    let (p, free) = match width {
        16 => (0b1100_0000u8, 0x3f),
        32 => (0b1111_0000, 0x0f),
        _ => (0xff, 0),
    };
    out.push(p | (noise & free));
    out.extend_from_slice(&v.to_le_bytes()[..(width / 8) as usize]);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// the bytes end early
    Eof,
    /// malformed content
    Malformed,
    /// the model does not define an answer (claimed count of zero-sized elements)
    Undefined,
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// Accepting is permitted but not required: non-canonical integers, multi-char chars and the like.
    pub lenient: bool,
    pub fuel: u64,
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, pos: 0, lenient: false, fuel: 5_000_000 }
    }
    pub fn u8(&mut self) -> Result<u8, Bad> {
        let v = *self.b.get(self.pos).ok_or(Bad::Eof)?;
        self.pos += 1;
        Ok(v)
    }
    pub fn take(&mut self, n: u64) -> Result<&'a [u8], Bad> {
        let left = self.b.len() - self.pos;
        if n > left as u64 {
            self.pos = self.b.len();
            return Err(Bad::Eof);
        }
        let s = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(s)
    }
    pub fn varint(&mut self, width: u32) -> Result<u64, Bad> {
        let first = self.u8()?;
        let ones = first.leading_ones();
        let n = ones + 1;
        let start = self.pos - 1;
        let v = if n <= width / 8 {
            let low_bits = 8 - n;
            let mut v = (first as u64) & ((1u64 << low_bits) - 1);
            for (i, x) in self.take(n as u64 - 1)?.iter().enumerate() {
                v |= (*x as u64) << (low_bits as usize + 8 * i);
            }
            v
        } else {
            let mut v = 0u64;
            for (i, x) in self.take((width / 8) as u64)?.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            v
        };
        let mut canon = Vec::new();
        put_varint(&mut canon, v, width);
        if canon != self.b[start..self.pos] {
            self.lenient = true;
        }
        Ok(v)
    }
    pub fn bool(&mut self) -> Result<bool, Bad> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Bad::Malformed),
        }
    }
    pub fn string(&mut self) -> Result<String, Bad> {
        let n = self.varint(64)?;
        let s = self.take(n)?;
        String::from_utf8(s.to_vec()).map_err(|_| Bad::Malformed)
    }
    pub fn bytes(&mut self) -> Result<Vec<u8>, Bad> {
        let n = self.varint(64)?;
        Ok(self.take(n)?.to_vec())
    }
}

// ---------------------------------------------------------------- types

impl Ty {
    pub fn min_size(&self) -> u64 {
        match self {
            Ty::Unit | Ty::UnitStruct => 0,
            Ty::Newtype(t) => t.min_size(),
            Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().map(|t| t.min_size()).sum(),
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Date | Ty::DateTime => 2,
            Ty::Enum(_, vs) => {
                1 + vs
                    .iter()
                    .map(|v| match v {
                        Var::Unit => 0,
                        Var::Newtype(t) => t.min_size(),
                        Var::Tuple(v) | Var::Struct(v) => v.iter().map(|t| t.min_size()).sum(),
                    })
                    .min()
                    .unwrap_or(0)
            }
            _ => 1,
        }
    }
    pub fn nodes(&self) -> u64 {
        1 + match self {
            Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) | Ty::Map(t) => t.nodes(),
            Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().map(|t| t.nodes()).sum(),
            Ty::Enum(_, vs) => vs
                .iter()
                .map(|v| match v {
                    Var::Unit => 1,
                    Var::Newtype(t) => t.nodes(),
                    Var::Tuple(v) | Var::Struct(v) => 1 + v.iter().map(|t| t.nodes()).sum::<u64>(),
                })
                .sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> u64 {
        1 + match self {
            Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) | Ty::Map(t) => t.depth(),
            Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().map(|t| t.depth()).max().unwrap_or(0),
            Ty::Enum(_, vs) => vs
                .iter()
                .map(|v| match v {
                    Var::Unit => 0,
                    Var::Newtype(t) => t.depth(),
                    Var::Tuple(v) | Var::Struct(v) => 1 + v.iter().map(|t| t.depth()).max().unwrap_or(0),
                })
                .max()
                .unwrap_or(0),
            _ => 0,
        }
    }
    /// Has a sequence or map whose elements may occupy no bytes (maps never: keys take a byte).
    pub fn has_zero_size_elements(&self) -> bool {
        match self {
            Ty::Seq(t) => t.min_size() == 0 || t.has_zero_size_elements(),
            Ty::Opt(t) | Ty::Newtype(t) | Ty::Map(t) => t.has_zero_size_elements(),
            Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().any(|t| t.has_zero_size_elements()),
            Ty::Enum(_, vs) => vs.iter().any(|v| match v {
                Var::Unit => false,
                Var::Newtype(t) => t.has_zero_size_elements(),
                Var::Tuple(v) | Var::Struct(v) => v.iter().any(|t| t.has_zero_size_elements()),
            }),
            _ => false,
        }
    }
    /// Contains an enum without variants (no value exists at that node).
    pub fn has_empty_enum(&self) -> bool {
        match self {
            Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) | Ty::Map(t) => t.has_empty_enum(),
            Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().any(|t| t.has_empty_enum()),
            Ty::Enum(_, vs) => {
                vs.is_empty()
                    || vs.iter().any(|v| match v {
                        Var::Unit => false,
                        Var::Newtype(t) => t.has_empty_enum(),
                        Var::Tuple(v) | Var::Struct(v) => v.iter().any(|t| t.has_empty_enum()),
                    })
            }
            _ => false,
        }
    }
    pub fn is_composite(&self) -> bool {
        matches!(
            self,
            Ty::Opt(_)
                | Ty::Newtype(_)
                | Ty::Seq(_)
                | Ty::Map(_)
                | Ty::Tuple(_)
                | Ty::TupleStruct(_)
                | Ty::Struct(_)
                | Ty::Enum(..)
        )
    }
}

impl std::fmt::Display for Ty {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fn list(f: &mut std::fmt::Formatter, p: &str, v: &[Ty]) -> std::fmt::Result {
            write!(f, "{}(", p)?;
            let mut i = 0;
            let mut first = true;
            while i < v.len() {
                let mut j = i + 1;
                while j < v.len() && v[j] == v[i] {
                    j += 1;
                }
                if !first {
                    write!(f, ",")?;
                }
                first = false;
                if j - i > 3 {
                    write!(f, "{}*{}", j - i, v[i])?;
                } else {
                    for k in i..j {
                        if k > i {
                            write!(f, ",")?;
                        }
                        write!(f, "{}", v[k])?;
                    }
                }
                i = j;
            }
            write!(f, ")")
        }
        match self {
            Ty::Unit => write!(f, "unit"),
            Ty::UnitStruct => write!(f, "ustruct"),
            Ty::Bool => write!(f, "bool"),
            Ty::U8 => write!(f, "u8"),
            Ty::U16 => write!(f, "u16"),
            Ty::U32 => write!(f, "u32"),
            Ty::U64 => write!(f, "u64"),
            Ty::I8 => write!(f, "i8"),
            Ty::I16 => write!(f, "i16"),
            Ty::I32 => write!(f, "i32"),
            Ty::I64 => write!(f, "i64"),
            Ty::F32 => write!(f, "f32"),
            Ty::F64 => write!(f, "f64"),
            Ty::Char => write!(f, "char"),
            Ty::Str => write!(f, "str"),
            Ty::Bytes => write!(f, "bytes"),
            Ty::Opt(t) => write!(f, "O({})", t),
            Ty::Newtype(t) => write!(f, "N({})", t),
            Ty::Seq(t) => write!(f, "Q({})", t),
            Ty::Map(t) => write!(f, "M({})", t),
            Ty::Tuple(v) => list(f, "T", v),
            Ty::TupleStruct(v) => list(f, "TS", v),
            Ty::Struct(v) => list(f, "S", v),
            Ty::Enum(b, vs) => {
                write!(f, "E{}(", b)?;
                let mut i = 0;
                while i < vs.len() {
                    let mut j = i + 1;
                    while j < vs.len() && vs[j] == vs[i] {
                        j += 1;
                    }
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    if j - i > 1 {
                        write!(f, "{}*", j - i)?;
                    }
                    match &vs[i] {
                        Var::Unit => write!(f, "VU")?,
                        Var::Newtype(t) => write!(f, "VN({})", t)?,
                        Var::Tuple(v) => list(f, "VT", v)?,
                        Var::Struct(v) => list(f, "VS", v)?,
                    }
                    i = j;
                }
                write!(f, ")")
            }
            Ty::BigUint => write!(f, "biguint"),
            Ty::BigInt => write!(f, "bigint"),
            Ty::BigDec => write!(f, "bigdec"),
            Ty::Date => write!(f, "date"),
            Ty::DateTime => write!(f, "datetime"),
        }
    }
}

/// Parser of the notation above (used by generated programs).
pub fn parse_ty(s: &str) -> Ty {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let t = p.ty();
    assert_eq!(p.i, p.s.len(), "trailing text in type {}", s);
    t
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.peek().is_ascii_alphanumeric() {
            self.i += 1;
        }
        String::from_utf8(self.s[st..self.i].to_vec()).unwrap()
    }
    fn reps(&mut self) -> usize {
        let st = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i > st {
            let n = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap();
            self.eat(b'*');
            n
        } else {
            1
        }
    }
    fn eat(&mut self, c: u8) {
        assert_eq!(self.peek(), c, "at {} of {:?}", self.i, String::from_utf8_lossy(self.s));
        self.i += 1;
    }
    fn list(&mut self) -> Vec<Ty> {
        let mut v = Vec::new();
        self.eat(b'(');
        while self.peek() != b')' {
            let n = self.reps();
            let t = self.ty();
            for _ in 0..n {
                v.push(t.clone());
            }
            if self.peek() == b',' {
                self.i += 1;
            }
        }
        self.eat(b')');
        v
    }
    fn one(&mut self) -> Box<Ty> {
        self.eat(b'(');
        let t = self.ty();
        self.eat(b')');
        Box::new(t)
    }
    fn ty(&mut self) -> Ty {
        let w = self.word();
        match w.as_str() {
            "unit" => Ty::Unit,
            "ustruct" => Ty::UnitStruct,
            "bool" => Ty::Bool,
            "u8" => Ty::U8,
            "u16" => Ty::U16,
            "u32" => Ty::U32,
            "u64" => Ty::U64,
            "i8" => Ty::I8,
            "i16" => Ty::I16,
            "i32" => Ty::I32,
            "i64" => Ty::I64,
            "f32" => Ty::F32,
            "f64" => Ty::F64,
            "char" => Ty::Char,
            "str" => Ty::Str,
            "bytes" => Ty::Bytes,
            "biguint" => Ty::BigUint,
            "bigint" => Ty::BigInt,
            "bigdec" => Ty::BigDec,
            "date" => Ty::Date,
            "datetime" => Ty::DateTime,
            "O" => Ty::Opt(self.one()),
            "N" => Ty::Newtype(self.one()),
            "Q" => Ty::Seq(self.one()),
            "M" => Ty::Map(self.one()),
            "T" => Ty::Tuple(self.list()),
            "TS" => Ty::TupleStruct(self.list()),
            "S" => Ty::Struct(self.list()),
            w if w.starts_with('E') => {
                let base: u32 = w[1..].parse().unwrap();
                let mut vs = Vec::new();
                self.eat(b'(');
                while self.peek() != b')' {
                    let n = self.reps();
                    let w = self.word();
                    let v = match w.as_str() {
                        "VU" => Var::Unit,
                        "VN" => Var::Newtype(*self.one()),
                        "VT" => Var::Tuple(self.list()),
                        "VS" => Var::Struct(self.list()),
                        _ => panic!("variant {}", w),
                    };
                    for _ in 0..n {
                        vs.push(v.clone());
                    }
                    if self.peek() == b',' {
                        self.i += 1;
                    }
                }
                self.eat(b')');
                Ty::Enum(base, vs)
            }
            _ => panic!("type {:?} at {} of {:?}", w, self.i, String::from_utf8_lossy(self.s)),
        }
    }
}

// ---------------------------------------------------------------- encoding

pub fn encode(ty: &Ty, v: &Val, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Unit, Val::Unit) | (Ty::UnitStruct, Val::Unit) => {}
        (Ty::Bool, Val::Bool(b)) => out.push(*b as u8),
        (Ty::U8, Val::U(u)) => out.push(*u as u8),
        (Ty::U16, Val::U(u)) => put_varint(out, *u, 16),
        (Ty::U32, Val::U(u)) => put_varint(out, *u, 32),
        (Ty::U64, Val::U(u)) => put_varint(out, *u, 64),
        (Ty::I8, Val::I(i)) => out.push(*i as i8 as u8),
        (Ty::I16, Val::I(i)) => put_varint(out, zigzag(*i), 16),
        (Ty::I32, Val::I(i)) => put_varint(out, zigzag(*i), 32),
        (Ty::I64, Val::I(i)) => put_varint(out, zigzag(*i), 64),
        (Ty::F32, Val::F32(b)) => {
            for k in 0..4 {
                out.push((b >> (8 * k)) as u8)
            }
        }
        (Ty::F64, Val::F64(b)) => {
            for k in 0..8 {
                out.push((b >> (8 * k)) as u8)
            }
        }
        (Ty::Char, Val::Char(c)) => {
            let mut s = [0u8; 4];
            let s = c.encode_utf8(&mut s);
            put_varint(out, s.len() as u64, 64);
            out.extend_from_slice(s.as_bytes());
        }
        (Ty::Str, Val::Str(s)) => {
            put_varint(out, s.len() as u64, 64);
            out.extend_from_slice(s.as_bytes());
        }
        (Ty::Bytes, Val::Bytes(b)) => {
            put_varint(out, b.len() as u64, 64);
            out.extend_from_slice(b);
        }
        (Ty::Opt(_), Val::Opt(None)) => out.push(0),
        (Ty::Opt(t), Val::Opt(Some(v))) => {
            out.push(1);
            encode(t, v, out)
        }
        (Ty::Newtype(t), v) => encode(t, v, out),
        (Ty::Seq(t), Val::Seq(vs)) => {
            put_varint(out, vs.len() as u64, 64);
            for v in vs {
                encode(t, v, out)
            }
        }
        (Ty::Map(t), Val::Map(vs)) => {
            put_varint(out, vs.len() as u64, 64);
            for (k, v) in vs {
                put_varint(out, k.len() as u64, 64);
                out.extend_from_slice(k.as_bytes());
                encode(t, v, out)
            }
        }
        (Ty::Tuple(ts), Val::Tup(vs)) | (Ty::TupleStruct(ts), Val::Tup(vs)) | (Ty::Struct(ts), Val::Tup(vs)) => {
            assert_eq!(ts.len(), vs.len());
            for (t, v) in ts.iter().zip(vs) {
                encode(t, v, out)
            }
        }
        (Ty::Enum(base, vars), Val::Enum(i, p)) => {
            put_varint(out, *i as u64, 32);
            match (&vars[(*i - *base) as usize], &**p) {
                (Var::Unit, Val::Unit) => {}
                (Var::Newtype(t), v) => encode(t, v, out),
                (Var::Tuple(ts), Val::Tup(vs)) | (Var::Struct(ts), Val::Tup(vs)) => {
                    for (t, v) in ts.iter().zip(vs) {
                        encode(t, v, out)
                    }
                }
                (a, b) => panic!("model: variant {:?} with {:?}", a, b),
            }
        }
        (Ty::BigUint, Val::BigUint(b)) | (Ty::BigInt, Val::BigInt(b)) => {
            put_varint(out, b.len() as u64, 64);
            out.extend_from_slice(b);
        }
        (Ty::BigDec, Val::BigDec(b, scale)) => {
            put_varint(out, b.len() as u64, 64);
            if !b.is_empty() {
                out.extend_from_slice(b);
                put_varint(out, zigzag(*scale), 64);
            }
        }
        (Ty::Date, Val::Date(y, o)) => {
            put_varint(out, zigzag(*y - 2000), 32);
            put_varint(out, (*o - 1) as u64, 16);
        }
        (Ty::DateTime, Val::DateTime(s, n)) => {
            put_varint(out, zigzag(*s), 64);
            put_varint(out, *n as u64, 32);
        }
        (t, v) => panic!("model: {} with {:?}", t, v),
    }
}

pub fn enc(ty: &Ty, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    encode(ty, v, &mut o);
    o
}

// ---------------------------------------------------------------- decoding

pub fn decode(ty: &Ty, d: &mut Dec) -> Result<Val, Bad> {
    if d.fuel == 0 {
        return Err(Bad::Undefined);
    }
    d.fuel -= 1;
    Ok(match ty {
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Bool => Val::Bool(d.bool()?),
        Ty::U8 => Val::U(d.u8()? as u64),
        Ty::U16 => Val::U(d.varint(16)?),
        Ty::U32 => Val::U(d.varint(32)?),
        Ty::U64 => Val::U(d.varint(64)?),
        Ty::I8 => Val::I(d.u8()? as i8 as i64),
        Ty::I16 => Val::I(unzigzag(d.varint(16)?)),
        Ty::I32 => Val::I(unzigzag(d.varint(32)?)),
        Ty::I64 => Val::I(unzigzag(d.varint(64)?)),
        Ty::F32 => {
            let b = d.take(4)?;
            Val::F32(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24)
        }
        Ty::F64 => {
            let b = d.take(8)?;
            let mut v = 0u64;
            for k in 0..8 {
                v |= (b[k] as u64) << (8 * k)
            }
            Val::F64(v)
        }
        Ty::Char => {
            let s = d.string()?;
            let mut cs = s.chars();
            let c = cs.next().ok_or(Bad::Malformed)?;
            if cs.next().is_some() {
                return Err(Bad::Malformed);
            }
            Val::Char(c)
        }
        Ty::Str => Val::Str(d.string()?),
        Ty::Bytes => Val::Bytes(d.bytes()?),
        Ty::Opt(t) => {
            if d.bool()? {
                Val::Opt(Some(Box::new(decode(t, d)?)))
            } else {
                Val::Opt(None)
            }
        }
        Ty::Newtype(t) => decode(t, d)?,
        Ty::Seq(t) => {
            let n = d.varint(64)?;
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(decode(t, d)?);
            }
            Val::Seq(v)
        }
        Ty::Map(t) => {
            let n = d.varint(64)?;
            let mut v: Vec<(String, Val)> = Vec::new();
            for _ in 0..n {
                let k = d.string()?;
                let x = decode(t, d)?;
                v.push((k, x));
            }
            Val::Map(v)
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => decode_fields(ts, d)?,
        Ty::Enum(base, vars) => {
            let i = d.varint(32)?;
            let k = i.checked_sub(*base as u64).ok_or(Bad::Malformed)?;
            let var = vars.get(k as usize).ok_or(Bad::Malformed)?;
            let p = match var {
                Var::Unit => Val::Unit,
                Var::Newtype(t) => decode(t, d)?,
                Var::Tuple(ts) | Var::Struct(ts) => decode_fields(ts, d)?,
            };
            Val::Enum(i as u32, Box::new(p))
        }
        Ty::BigUint => {
            let b = d.bytes()?;
            if b.last() == Some(&0) {
                d.lenient = true; // not the shortest form
            }
            Val::BigUint(b)
        }
        Ty::BigInt => {
            let b = d.bytes()?;
            if !minimal_signed(&b) {
                d.lenient = true;
            }
            Val::BigInt(b)
        }
        Ty::BigDec => {
            let b = d.bytes()?;
            if !minimal_signed(&b) {
                d.lenient = true;
            }
            let s = if b.is_empty() { 0 } else { unzigzag(d.varint(64)?) };
            Val::BigDec(b, s)
        }
        Ty::Date => {
            let y = unzigzag(d.varint(32)?) + 2000;
            let o = d.varint(16)? as u32 + 1;
            if y > i32::MAX as i64 || o > u16::MAX as u32 {
                return Err(Bad::Malformed);
            }
            if !is_date(y, o) {
                d.lenient = true;
            }
            Val::Date(y, o)
        }
        Ty::DateTime => {
            let s = unzigzag(d.varint(64)?);
            let n = d.varint(32)? as u32;
            if n >= 1_000_000_000 || !(MIN_TS..=MAX_TS).contains(&s) {
                d.lenient = true;
            }
            Val::DateTime(s, n)
        }
    })
}

fn decode_fields(ts: &[Ty], d: &mut Dec) -> Result<Val, Bad> {
    let mut v = Vec::with_capacity(ts.len());
    for t in ts {
        v.push(decode(t, d)?);
    }
    Ok(Val::Tup(v))
}

/// -9999-01-01T00:00:00Z and 9999-12-31T23:59:59Z
pub const MIN_TS: i64 = -377705116800;
pub const MAX_TS: i64 = 253402300799;

pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn is_date(y: i64, ord: u32) -> bool {
    (-9999..=9999).contains(&y) && ord >= 1 && ord <= if is_leap(y) { 366 } else { 365 }
}

/// Two's complement little-endian bytes with no redundant sign byte; empty for zero.
pub fn minimal_signed(b: &[u8]) -> bool {
    match b.len() {
        0 => true,
        1 => b[0] != 0,
        n => {
            let (top, next) = (b[n - 1], b[n - 2]);
            !((top == 0 && next < 0x80) || (top == 0xff && next >= 0x80))
        }
    }
}
pub fn minimize_signed(mut b: Vec<u8>) -> Vec<u8> {
    while !minimal_signed(&b) {
        b.pop();
    }
    b
}
pub fn minimize_unsigned(mut b: Vec<u8>) -> Vec<u8> {
    while b.last() == Some(&0) {
        b.pop();
    }
    b
}

// ---------------------------------------------------------------- headers

pub fn header_of(ty: &Ty) -> Option<Header> {
    let list = |ts: &Vec<Ty>| -> Option<Vec<Header>> { ts.iter().map(header_of).collect() };
    Some(match ty {
        Ty::Unit => Header::Unit,
        Ty::UnitStruct => Header::Tuple(vec![]),
        Ty::Bool => Header::Boolean,
        Ty::U8 => Header::UInt8,
        Ty::U16 => Header::UInt16,
        Ty::U32 => Header::UInt32,
        Ty::U64 => Header::UInt64,
        Ty::I8 => Header::Int8,
        Ty::I16 => Header::Int16,
        Ty::I32 => Header::Int32,
        Ty::I64 => Header::Int64,
        Ty::F32 => Header::Float32,
        Ty::F64 => Header::Float64,
        Ty::Char => return None,
        Ty::Str => Header::String,
        Ty::Bytes => Header::Binary,
        Ty::Opt(t) => Header::Optional(Box::new(header_of(t)?)),
        Ty::Newtype(t) => Header::Tuple(vec![header_of(t)?]),
        Ty::Seq(t) => Header::Array(Box::new(header_of(t)?)),
        Ty::Map(t) => Header::Map(Box::new(header_of(t)?)),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Header::Tuple(list(ts)?),
        Ty::Enum(base, vars) => {
            if *base != 0 {
                return None;
            }
            let mut hs = Vec::new();
            for v in vars {
                hs.push(match v {
                    Var::Unit => Header::Unit,
                    Var::Newtype(t) => header_of(t)?,
                    Var::Tuple(ts) | Var::Struct(ts) => match ts.len() {
                        0 => Header::Unit,
                        1 => header_of(&ts[0])?,
                        _ => Header::Tuple(list(ts)?),
                    },
                });
            }
            Header::Enum(hs)
        }
        Ty::BigUint => Header::BigUInt,
        Ty::BigInt => Header::BigInt,
        Ty::BigDec => Header::BigDecimal,
        Ty::Date => Header::Date,
        Ty::DateTime => Header::DateTime,
    })
}

/// The plain type a header describes (tuples for every product).
pub fn ty_of_header(h: &Header) -> Ty {
    match h {
        Header::Unit => Ty::Unit,
        Header::Optional(h) => Ty::Opt(Box::new(ty_of_header(h))),
        Header::Boolean => Ty::Bool,
        Header::UInt8 => Ty::U8,
        Header::UInt16 => Ty::U16,
        Header::UInt32 => Ty::U32,
        Header::UInt64 => Ty::U64,
        Header::Int8 => Ty::I8,
        Header::Int16 => Ty::I16,
        Header::Int32 => Ty::I32,
        Header::Int64 => Ty::I64,
        Header::Float32 => Ty::F32,
        Header::Float64 => Ty::F64,
        Header::BigUInt => Ty::BigUint,
        Header::BigInt => Ty::BigInt,
        Header::BigDecimal => Ty::BigDec,
        Header::String => Ty::Str,
        Header::Binary => Ty::Bytes,
        Header::Array(h) => Ty::Seq(Box::new(ty_of_header(h))),
        Header::Tuple(hs) => Ty::Tuple(hs.iter().map(ty_of_header).collect()),
        Header::Map(h) => Ty::Map(Box::new(ty_of_header(h))),
        Header::Enum(hs) => Ty::Enum(0, hs.iter().map(|h| Var::Newtype(ty_of_header(h))).collect()),
        Header::Date => Ty::Date,
        Header::DateTime => Ty::DateTime,
    }
}

pub fn put_header(h: &Header, out: &mut Vec<u8>) {
    match h {
        Header::Unit => out.push(0),
        Header::Optional(h) => {
            out.push(1);
            put_header(h, out)
        }
        Header::Boolean => out.push(2),
        Header::UInt8 => out.push(3),
        Header::UInt16 => out.push(4),
        Header::UInt32 => out.push(5),
        Header::UInt64 => out.push(6),
        Header::Int8 => out.push(8),
        Header::Int16 => out.push(9),
        Header::Int32 => out.push(10),
        Header::Int64 => out.push(11),
        Header::Float32 => out.push(13),
        Header::Float64 => out.push(14),
        Header::BigUInt => out.push(15),
        Header::BigInt => out.push(16),
        Header::BigDecimal => out.push(17),
        Header::String => out.push(18),
        Header::Binary => out.push(19),
        Header::Array(h) => {
            out.push(20);
            put_header(h, out)
        }
        Header::Tuple(hs) => {
            out.push(21);
            put_varint(out, hs.len() as u64, 16);
            for h in hs {
                put_header(h, out)
            }
        }
        Header::Map(h) => {
            out.push(23);
            put_header(h, out)
        }
        Header::Enum(hs) => {
            out.push(24);
            put_varint(out, hs.len() as u64, 16);
            for h in hs {
                put_header(h, out)
            }
        }
        Header::Date => out.push(25),
        Header::DateTime => out.push(26),
    }
}

pub struct HeaderDec {
    pub header: Header,
    pub depth: usize,
}

/// Decodes a header without recursion limits (explicit stack); reports its nesting depth
/// (0 for a leaf). `max_seen` is the deepest position whose type code was read.
pub fn get_header(d: &mut Dec, max_seen: &mut usize) -> Result<HeaderDec, Bad> {
    enum F {
        Opt,
        Arr,
        Map,
        Tup(u64, Vec<Header>),
        Enm(u64, Vec<Header>),
    }
    let mut st: Vec<F> = Vec::new();
    loop {
        *max_seen = (*max_seen).max(st.len());
        if st.len() > 2000 {
            return Err(Bad::Undefined); // far beyond any supported nesting
        }
        let mut done = match d.u8()? {
            0 => Header::Unit,
            1 => {
                st.push(F::Opt);
                continue;
            }
            2 => Header::Boolean,
            3 => Header::UInt8,
            4 => Header::UInt16,
            5 => Header::UInt32,
            6 => Header::UInt64,
            8 => Header::Int8,
            9 => Header::Int16,
            10 => Header::Int32,
            11 => Header::Int64,
            13 => Header::Float32,
            14 => Header::Float64,
            15 => Header::BigUInt,
            16 => Header::BigInt,
            17 => Header::BigDecimal,
            18 => Header::String,
            19 => Header::Binary,
            20 => {
                st.push(F::Arr);
                continue;
            }
            23 => {
                st.push(F::Map);
                continue;
            }
            c @ (21 | 24) => {
                let n = d.varint(16)?;
                if n > 0 {
                    st.push(if c == 21 { F::Tup(n, vec![]) } else { F::Enm(n, vec![]) });
                    continue;
                }
                if c == 21 {
                    Header::Tuple(vec![])
                } else {
                    Header::Enum(vec![])
                }
            }
            25 => Header::Date,
            26 => Header::DateTime,
            _ => return Err(Bad::Malformed),
        };
        loop {
            match st.pop() {
                None => return Ok(HeaderDec { header: done, depth: *max_seen }),
                Some(F::Opt) => done = Header::Optional(Box::new(done)),
                Some(F::Arr) => done = Header::Array(Box::new(done)),
                Some(F::Map) => done = Header::Map(Box::new(done)),
                Some(F::Tup(n, mut v)) => {
                    v.push(done);
                    if v.len() as u64 == n {
                        done = Header::Tuple(v)
                    } else {
                        st.push(F::Tup(n, v));
                        break;
                    }
                }
                Some(F::Enm(n, mut v)) => {
                    v.push(done);
                    if v.len() as u64 == n {
                        done = Header::Enum(v)
                    } else {
                        st.push(F::Enm(n, v));
                        break;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- bodies

fn wrapper<T: serde::de::DeserializeOwned>(ty: &Ty, v: &Val) -> T {
    crate::dynserde::wrapper(ty, v)
}

/// The dynamic body of a value. Maps collapse to key order, last entry wins.
pub fn body_of(ty: &Ty, v: &Val) -> Body {
    match (ty, v) {
        (Ty::Unit, _) => Body::Unit,
        (Ty::UnitStruct, _) => Body::Tuple(vec![]),
        (Ty::Bool, Val::Bool(b)) => Body::Boolean(*b),
        (Ty::U8, Val::U(u)) => Body::UInt8(*u as u8),
        (Ty::U16, Val::U(u)) => Body::UInt16(*u as u16),
        (Ty::U32, Val::U(u)) => Body::UInt32(*u as u32),
        (Ty::U64, Val::U(u)) => Body::UInt64(*u),
        (Ty::I8, Val::I(i)) => Body::Int8(*i as i8),
        (Ty::I16, Val::I(i)) => Body::Int16(*i as i16),
        (Ty::I32, Val::I(i)) => Body::Int32(*i as i32),
        (Ty::I64, Val::I(i)) => Body::Int64(*i),
        (Ty::F32, Val::F32(b)) => Body::Float32(f32::from_bits(*b)),
        (Ty::F64, Val::F64(b)) => Body::Float64(f64::from_bits(*b)),
        (Ty::Str, Val::Str(s)) => Body::String(s.clone()),
        (Ty::Bytes, Val::Bytes(b)) => Body::Binary(serde_bytes::ByteBuf::from(b.clone())),
        (Ty::Opt(_), Val::Opt(None)) => Body::Optional(None),
        (Ty::Opt(t), Val::Opt(Some(v))) => Body::Optional(Some(Box::new(body_of(t, v)))),
        (Ty::Newtype(t), v) => Body::Tuple(vec![body_of(t, v)]),
        (Ty::Seq(t), Val::Seq(vs)) => Body::Array(vs.iter().map(|v| body_of(t, v)).collect()),
        (Ty::Map(t), Val::Map(vs)) => Body::Map(vs.iter().map(|(k, v)| (k.clone(), body_of(t, v))).collect()),
        (Ty::Tuple(ts), Val::Tup(vs)) | (Ty::TupleStruct(ts), Val::Tup(vs)) | (Ty::Struct(ts), Val::Tup(vs)) => {
            Body::Tuple(ts.iter().zip(vs).map(|(t, v)| body_of(t, v)).collect())
        }
        (Ty::Enum(base, vars), Val::Enum(i, p)) => {
            let b = match (&vars[(*i - *base) as usize], &**p) {
                (Var::Unit, _) => Body::Unit,
                (Var::Newtype(t), v) => body_of(t, v),
                (Var::Tuple(ts), Val::Tup(vs)) | (Var::Struct(ts), Val::Tup(vs)) => match ts.len() {
                    0 => Body::Unit,
                    1 => body_of(&ts[0], &vs[0]),
                    _ => Body::Tuple(ts.iter().zip(vs).map(|(t, v)| body_of(t, v)).collect()),
                },
                _ => panic!("model: enum body"),
            };
            Body::Enum(*i, Box::new(b))
        }
        (Ty::BigUint, v) => Body::BigUInt(wrapper(ty, v)),
        (Ty::BigInt, v) => Body::BigInt(wrapper(ty, v)),
        (Ty::BigDec, v) => Body::BigDecimal(wrapper(ty, v)),
        (Ty::Date, v) => Body::Date(wrapper(ty, v)),
        (Ty::DateTime, v) => Body::DateTime(wrapper(ty, v)),
        (t, v) => panic!("model: body of {} with {:?}", t, v),
    }
}

fn unwrap_val(ty: &Ty, w: &impl serde::Serialize) -> Result<Val, String> {
    let b = crate::refserde::to_bytes(w).map_err(|e| format!("wrapper not serializable: {}", e))?;
    let mut d = Dec::new(&b);
    let v = decode(ty, &mut d).map_err(|e| format!("wrapper of {} serializes to {} ({:?})", ty, crate::case::hex(&b), e))?;
    if d.pos != b.len() {
        return Err(format!("wrapper of {} serializes to {} (extra bytes)", ty, crate::case::hex(&b)));
    }
    Ok(v)
}

/// The value of the plain type of `h` that a body holds; Err if it does not conform.
pub fn val_of(h: &Header, b: &Body) -> Result<Val, String> {
    Ok(match (h, b) {
        (Header::Unit, Body::Unit) => Val::Unit,
        (Header::Optional(_), Body::Optional(None)) => Val::Opt(None),
        (Header::Optional(h), Body::Optional(Some(b))) => Val::Opt(Some(Box::new(val_of(h, b)?))),
        (Header::Boolean, Body::Boolean(b)) => Val::Bool(*b),
        (Header::UInt8, Body::UInt8(u)) => Val::U(*u as u64),
        (Header::UInt16, Body::UInt16(u)) => Val::U(*u as u64),
        (Header::UInt32, Body::UInt32(u)) => Val::U(*u as u64),
        (Header::UInt64, Body::UInt64(u)) => Val::U(*u),
        (Header::Int8, Body::Int8(u)) => Val::I(*u as i64),
        (Header::Int16, Body::Int16(u)) => Val::I(*u as i64),
        (Header::Int32, Body::Int32(u)) => Val::I(*u as i64),
        (Header::Int64, Body::Int64(u)) => Val::I(*u),
        (Header::Float32, Body::Float32(f)) => Val::F32(f.to_bits()),
        (Header::Float64, Body::Float64(f)) => Val::F64(f.to_bits()),
        (Header::BigUInt, Body::BigUInt(w)) => unwrap_val(&Ty::BigUint, w)?,
        (Header::BigInt, Body::BigInt(w)) => unwrap_val(&Ty::BigInt, w)?,
        (Header::BigDecimal, Body::BigDecimal(w)) => unwrap_val(&Ty::BigDec, w)?,
        (Header::String, Body::String(s)) => Val::Str(s.clone()),
        (Header::Binary, Body::Binary(b)) => Val::Bytes(b.to_vec()),
        (Header::Array(h), Body::Array(bs)) => Val::Seq(bs.iter().map(|b| val_of(h, b)).collect::<Result<_, _>>()?),
        (Header::Tuple(hs), Body::Tuple(bs)) => {
            if hs.len() != bs.len() {
                return Err(format!("tuple of {} entries under a header of {}", bs.len(), hs.len()));
            }
            Val::Tup(hs.iter().zip(bs).map(|(h, b)| val_of(h, b)).collect::<Result<_, _>>()?)
        }
        (Header::Map(h), Body::Map(m)) => {
            let mut v = Vec::new();
            for (k, b) in m {
                v.push((k.clone(), val_of(h, b)?));
            }
            Val::Map(v)
        }
        (Header::Enum(hs), Body::Enum(i, b)) => match hs.get(*i as usize) {
            Some(h) => Val::Enum(*i, Box::new(val_of(h, b)?)),
            None => return Err(format!("enum index {} out of range", i)),
        },
        (Header::Date, Body::Date(w)) => unwrap_val(&Ty::Date, w)?,
        (Header::DateTime, Body::DateTime(w)) => unwrap_val(&Ty::DateTime, w)?,
        _ => return Err("kind of node differs from the header".to_string()),
    })
}

/// Does the body have the structure the header describes? (reference for `validate`)
pub fn conforms(h: &Header, b: &Body) -> bool {
    match h {
        Header::Unit => matches!(b, Body::Unit),
        Header::Optional(h) => match b {
            Body::Optional(None) => true,
            Body::Optional(Some(b)) => conforms(h, b),
            _ => false,
        },
        Header::Boolean => matches!(b, Body::Boolean(_)),
        Header::UInt8 => matches!(b, Body::UInt8(_)),
        Header::UInt16 => matches!(b, Body::UInt16(_)),
        Header::UInt32 => matches!(b, Body::UInt32(_)),
        Header::UInt64 => matches!(b, Body::UInt64(_)),
        Header::Int8 => matches!(b, Body::Int8(_)),
        Header::Int16 => matches!(b, Body::Int16(_)),
        Header::Int32 => matches!(b, Body::Int32(_)),
        Header::Int64 => matches!(b, Body::Int64(_)),
        Header::Float32 => matches!(b, Body::Float32(_)),
        Header::Float64 => matches!(b, Body::Float64(_)),
        Header::BigUInt => matches!(b, Body::BigUInt(_)),
        Header::BigInt => matches!(b, Body::BigInt(_)),
        Header::BigDecimal => matches!(b, Body::BigDecimal(_)),
        Header::String => matches!(b, Body::String(_)),
        Header::Binary => matches!(b, Body::Binary(_)),
        Header::Array(h) => match b {
            Body::Array(bs) => bs.iter().all(|b| conforms(h, b)),
            _ => false,
        },
        Header::Tuple(hs) => match b {
            Body::Tuple(bs) => {
                if hs.len() != bs.len() {
                    return false;
                }
                for i in 0..hs.len() {
                    if !conforms(&hs[i], &bs[i]) {
                        return false;
                    }
                }
                true
            }
            _ => false,
        },
        Header::Map(h) => match b {
            Body::Map(m) => m.iter().all(|(_, b)| conforms(h, b)),
            _ => false,
        },
        Header::Enum(hs) => match b {
            Body::Enum(i, b) => (*i as usize) < hs.len() && conforms(&hs[*i as usize], b),
            _ => false,
        },
        Header::Date => matches!(b, Body::Date(_)),
        Header::DateTime => matches!(b, Body::DateTime(_)),
    }
}

/// Dynamic maps hold each key once, in key order; the last entry of a key stays.
pub fn normalize_maps(v: Val) -> Val {
    match v {
        Val::Opt(Some(b)) => Val::Opt(Some(Box::new(normalize_maps(*b)))),
        Val::Seq(v) => Val::Seq(v.into_iter().map(normalize_maps).collect()),
        Val::Tup(v) => Val::Tup(v.into_iter().map(normalize_maps).collect()),
        Val::Enum(i, b) => Val::Enum(i, Box::new(normalize_maps(*b))),
        Val::Map(v) => {
            let mut m = std::collections::BTreeMap::new();
            for (k, x) in v {
                m.insert(k, normalize_maps(x));
            }
            Val::Map(m.into_iter().collect())
        }
        v => v,
    }
}

/// The value of the plain type of `header_of(ty)` for a value of `ty`
/// (newtypes become 1-tuples, small variant payloads are flattened).
pub fn plain_val(ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::UnitStruct, _) => Val::Tup(vec![]),
        (Ty::Newtype(t), v) => Val::Tup(vec![plain_val(t, v)]),
        (Ty::Opt(t), Val::Opt(Some(v))) => Val::Opt(Some(Box::new(plain_val(t, v)))),
        (Ty::Seq(t), Val::Seq(vs)) => Val::Seq(vs.iter().map(|v| plain_val(t, v)).collect()),
        (Ty::Map(t), Val::Map(vs)) => Val::Map(vs.iter().map(|(k, v)| (k.clone(), plain_val(t, v))).collect()),
        (Ty::Tuple(ts), Val::Tup(vs)) | (Ty::TupleStruct(ts), Val::Tup(vs)) | (Ty::Struct(ts), Val::Tup(vs)) => {
            Val::Tup(ts.iter().zip(vs).map(|(t, v)| plain_val(t, v)).collect())
        }
        (Ty::Enum(base, vars), Val::Enum(i, p)) => {
            let b = match (&vars[(*i - *base) as usize], &**p) {
                (Var::Unit, _) => Val::Unit,
                (Var::Newtype(t), v) => plain_val(t, v),
                (Var::Tuple(ts), Val::Tup(vs)) | (Var::Struct(ts), Val::Tup(vs)) => match ts.len() {
                    0 => Val::Unit,
                    1 => plain_val(&ts[0], &vs[0]),
                    _ => Val::Tup(ts.iter().zip(vs).map(|(t, v)| plain_val(t, v)).collect()),
                },
                _ => panic!("model: enum"),
            };
            Val::Enum(*i, Box::new(b))
        }
        (_, v) => v.clone(),
    }
}

pub fn header_depth(h: &Header) -> usize {
    match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => 1 + header_depth(h),
        Header::Tuple(hs) | Header::Enum(hs) => hs.iter().map(|h| 1 + header_depth(h)).max().unwrap_or(0),
        _ => 0,
    }
}
pub fn header_nodes(h: &Header) -> u64 {
    1 + match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => header_nodes(h),
        Header::Tuple(hs) | Header::Enum(hs) => hs.iter().map(header_nodes).sum(),
        _ => 0,
    }
}
pub fn header_max_list(h: &Header) -> usize {
    match h {
        Header::Optional(h) | Header::Array(h) | Header::Map(h) => header_max_list(h),
        Header::Tuple(hs) | Header::Enum(hs) => hs.iter().map(header_max_list).max().unwrap_or(0).max(hs.len()),
        _ => 0,
    }
}

/// Short text for values in reports.
pub fn show(v: &Val) -> String {
    match v {
        Val::Str(s) if s.len() > 60 => format!("str[{} bytes]", s.len()),
        Val::Bytes(s) if s.len() > 40 => format!("bytes[{}]", s.len()),
        Val::Seq(v) if v.len() > 12 => {
            format!("seq[{}]({},…)", v.len(), v.iter().take(3).map(show).collect::<Vec<_>>().join(","))
        }
        Val::Tup(v) if v.len() > 24 => {
            format!("tup[{}]({},…)", v.len(), v.iter().take(3).map(show).collect::<Vec<_>>().join(","))
        }
        Val::Map(v) if v.len() > 12 => format!("map[{}]", v.len()),
        Val::Seq(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(",")),
        Val::Tup(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(",")),
        Val::Map(v) => format!(
            "{{{}}}",
            v.iter().map(|(k, v)| format!("{:?}:{}", k, show(v))).collect::<Vec<_>>().join(",")
        ),
        Val::Opt(None) => "None".into(),
        Val::Opt(Some(v)) => format!("Some({})", show(v)),
        Val::Enum(i, v) => format!("#{}:{}", i, show(v)),
        Val::U(u) => format!("{}", u),
        Val::I(u) => format!("{}", u),
        Val::BigUint(b) | Val::BigInt(b) if b.len() > 40 => format!("big[{} bytes]", b.len()),
        v => format!("{:?}", v),
    }
}
