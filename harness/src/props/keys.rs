//! C19: maps take string keys only.
use super::*;
use crate::case::{hexs, Case, R};
use crate::dynserde::{SerVal, Style};
use crate::gen::*;
use crate::iox::Wr;
use crate::under::{self, SErr};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Serialize, Serializer};
use std::collections::{BTreeMap, HashMap};

pub static C19: Prop = Prop {
    id: "C19",
    rule: "case: a map with random string keys and values, one key replaced by a key of a random other kind (or none), placed at a random depth inside random wrappers, through both ways serde writes entries. Non-trivial: distinct (key kind, position, number of entries, wrapper path)",
    quick: 1_600_000,
    thorough: 12_000_000,
    run: c19,
    blocks: Some((c19_blocks, c19_block)),
    blocks_note: "every key kind at every position of maps of 1..=6 entries, in every wrapper alone and in every pair of wrappers",
    known: &[],
    assumptions: &[],
};

/// Keys of every serde kind.
#[derive(Clone, Debug)]
enum Key {
    Str(String, u8),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Bytes(Vec<u8>),
    None,
    Some(String),
    Unit,
    UnitStruct,
    UnitVariant(u32),
    Newtype(String),
    NewtypeVariant(String),
    Seq(Vec<String>),
    SeqUnknown,
    Tuple(Vec<String>),
    TupleStruct(Vec<String>),
    TupleVariant(Vec<String>),
    Map(Vec<String>),
    MapUnknown,
    Struct(Vec<String>),
    StructVariant(Vec<String>),
    I128(i128),
    U128(u128),
}
const KINDS: usize = 31;

fn gen_bad(s: &mut Src, kind: usize) -> Key {
    let short = |s: &mut Src| -> String {
        let n = s.usize(6);
        gen_string_of(s, n)
    };
    let list = |s: &mut Src| -> Vec<String> {
        let n = s.usize(3);
        (0..n).map(|_| gen_string_of(s, 2)).collect()
    };
    match kind {
        0 => Key::Bool(s.bool()),
        1 => Key::I8(s.int(8) as i8),
        2 => Key::I16(s.int(16) as i16),
        3 => Key::I32(s.int(32) as i32),
        4 => Key::I64(s.int(64)),
        5 => Key::U8(s.uint(8) as u8),
        6 => Key::U16(s.uint(16) as u16),
        7 => Key::U32(s.uint(32) as u32),
        8 => Key::U64(s.uint(64)),
        9 => Key::F32(gen_f32(s)),
        10 => Key::F64(gen_f64(s)),
        11 => Key::Char(gen_char(s)),
        12 => {
            let t = short(s);
            Key::Bytes(t.into_bytes())
        }
        13 => Key::None,
        14 => Key::Some(short(s)),
        15 => Key::Unit,
        16 => Key::UnitStruct,
        17 => Key::UnitVariant(s.uint(32) as u32),
        18 => Key::Newtype(short(s)),
        19 => Key::NewtypeVariant(short(s)),
        20 => Key::Seq(list(s)),
        21 => Key::SeqUnknown,
        22 => Key::Tuple(list(s)),
        23 => Key::TupleStruct(list(s)),
        24 => Key::TupleVariant(list(s)),
        25 => Key::Map(list(s)),
        26 => Key::MapUnknown,
        27 => Key::Struct(list(s)),
        28 => Key::StructVariant(list(s)),
        29 => Key::I128(s.int(64) as i128),
        _ => Key::U128(s.uint(64) as u128),
    }
}

impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Key::Str(t, 0) => s.serialize_str(t),
            Key::Str(t, 1) => s.collect_str(t),
            Key::Str(t, 2) => std::borrow::Cow::<str>::Borrowed(t).serialize(s),
            Key::Str(t, 3) => t.clone().into_boxed_str().serialize(s),
            Key::Str(t, 4) => std::path::Path::new(t).serialize(s),
            Key::Str(t, 5) => format_args!("{}", t).serialize(s),
            Key::Str(t, _) => t.serialize(s),
            Key::Bool(v) => s.serialize_bool(*v),
            Key::I8(v) => s.serialize_i8(*v),
            Key::I16(v) => s.serialize_i16(*v),
            Key::I32(v) => s.serialize_i32(*v),
            Key::I64(v) => s.serialize_i64(*v),
            Key::U8(v) => s.serialize_u8(*v),
            Key::U16(v) => s.serialize_u16(*v),
            Key::U32(v) => s.serialize_u32(*v),
            Key::U64(v) => s.serialize_u64(*v),
            Key::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            Key::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            Key::Char(v) => s.serialize_char(*v),
            Key::Bytes(v) => s.serialize_bytes(v),
            Key::None => s.serialize_none(),
            Key::Some(v) => s.serialize_some(v),
            Key::Unit => s.serialize_unit(),
            Key::UnitStruct => s.serialize_unit_struct("K"),
            Key::UnitVariant(i) => s.serialize_unit_variant("K", *i, "key"),
            Key::Newtype(v) => s.serialize_newtype_struct("K", v),
            Key::NewtypeVariant(v) => s.serialize_newtype_variant("K", 0, "key", v),
            Key::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Key::SeqUnknown => s.serialize_seq(None)?.end(),
            Key::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Key::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("K", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Key::TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("K", 1, "key", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Key::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for x in v {
                    q.serialize_entry(x, x)?;
                }
                q.end()
            }
            Key::MapUnknown => s.serialize_map(None)?.end(),
            Key::Struct(v) => {
                let mut q = s.serialize_struct("K", v.len())?;
                for x in v {
                    q.serialize_field("f", x)?;
                }
                q.end()
            }
            Key::StructVariant(v) => {
                let mut q = s.serialize_struct_variant("K", 1, "key", v.len())?;
                for x in v {
                    q.serialize_field("f", x)?;
                }
                q.end()
            }
            Key::I128(v) => s.serialize_i128(*v),
            Key::U128(v) => s.serialize_u128(*v),
        }
    }
}

struct Map {
    keys: Vec<Key>,
    /// every value of the map, in order
    ty: Ty,
    vals: Vec<Val>,
    split: bool,
    st: Style,
}
impl Serialize for Map {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(Some(self.keys.len()))?;
        for (k, v) in self.keys.iter().zip(&self.vals) {
            let v = SerVal(&self.ty, v, self.st);
            if self.split {
                q.serialize_key(k)?;
                q.serialize_value(&v)?;
            } else {
                q.serialize_entry(k, &v)?;
            }
        }
        q.end()
    }
}

#[derive(Clone, Copy, Debug)]
enum Wrap {
    Some,
    Newtype,
    SeqOf(u8, u8),
    Tuple(u8, u8),
    TupleStruct(u8, u8),
    Struct(u8, u8),
    NewtypeVariant(u8),
    TupleVariant(u8, u8, u8),
    StructVariant(u8, u8, u8),
    MapValue(u8, u8),
}
const WRAPS: usize = 10;
fn gen_wrap(s: &mut Src, k: usize) -> Wrap {
    let a = s.below(3) as u8;
    let b = s.below(3) as u8;
    let i = s.byte();
    match k {
        0 => Wrap::Some,
        1 => Wrap::Newtype,
        2 => Wrap::SeqOf(a, b),
        3 => Wrap::Tuple(a, b),
        4 => Wrap::TupleStruct(a, b),
        5 => Wrap::Struct(a, b),
        6 => Wrap::NewtypeVariant(i),
        7 => Wrap::TupleVariant(i, a, b),
        8 => Wrap::StructVariant(i, a, b),
        _ => Wrap::MapValue(a, b),
    }
}

/// The map inside the wrappers; `u8` siblings hold 7 before and 9 after it (in sequences and maps the
/// siblings are copies of the unit, which has no bytes).
struct In<'a>(&'a [Wrap], &'a Map);
struct Void;
impl Serialize for Void {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl<'a> Serialize for In<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (w, rest) = match self.0.split_first() {
            None => return self.1.serialize(s),
            Some((w, rest)) => (*w, In(rest, self.1)),
        };
        macro_rules! fields {
            ($q:expr, $m:ident, $a:expr, $b:expr $(, $n:expr)?) => {{
                let mut q = $q;
                for _ in 0..$a {
                    q.$m($($n,)? &7u8)?;
                }
                q.$m($($n,)? &rest)?;
                for _ in 0..$b {
                    q.$m($($n,)? &9u8)?;
                }
                q.end()
            }};
        }
        match w {
            Wrap::Some => s.serialize_some(&rest),
            Wrap::Newtype => s.serialize_newtype_struct("W", &rest),
            Wrap::SeqOf(a, b) => {
                let mut q = s.serialize_seq(Some(a as usize + b as usize + 1))?;
                for _ in 0..a {
                    q.serialize_element(&Void)?;
                }
                q.serialize_element(&rest)?;
                for _ in 0..b {
                    q.serialize_element(&Void)?;
                }
                q.end()
            }
            Wrap::Tuple(a, b) => fields!(s.serialize_tuple((a + b + 1) as usize)?, serialize_element, a, b),
            Wrap::TupleStruct(a, b) => fields!(s.serialize_tuple_struct("W", (a + b + 1) as usize)?, serialize_field, a, b),
            Wrap::Struct(a, b) => fields!(s.serialize_struct("W", (a + b + 1) as usize)?, serialize_field, a, b, "f"),
            Wrap::NewtypeVariant(i) => s.serialize_newtype_variant("W", i as u32, "v", &rest),
            Wrap::TupleVariant(i, a, b) => {
                fields!(s.serialize_tuple_variant("W", i as u32, "v", (a + b + 1) as usize)?, serialize_field, a, b)
            }
            Wrap::StructVariant(i, a, b) => {
                fields!(s.serialize_struct_variant("W", i as u32, "v", (a + b + 1) as usize)?, serialize_field, a, b, "f")
            }
            Wrap::MapValue(a, b) => {
                let mut q = s.serialize_map(Some(a as usize + b as usize + 1))?;
                for _ in 0..a {
                    q.serialize_entry("before", &Void)?;
                }
                q.serialize_entry("k", &rest)?;
                for _ in 0..b {
                    q.serialize_entry("after", &Void)?;
                }
                q.end()
            }
        }
    }
}

/// Bytes around the map, written down here.
fn around(ws: &[Wrap]) -> (Vec<u8>, Vec<u8>) {
    let mut pre = Vec::new();
    let mut post: Vec<Vec<u8>> = Vec::new();
    for w in ws {
        let mut after = Vec::new();
        match *w {
            Wrap::Some => pre.push(1),
            Wrap::Newtype => {}
            Wrap::SeqOf(a, b) => pre.push(a + b + 1),
            Wrap::Tuple(a, b) | Wrap::TupleStruct(a, b) | Wrap::Struct(a, b) => {
                pre.extend(vec![7; a as usize]);
                after = vec![9; b as usize];
            }
            Wrap::NewtypeVariant(i) => put_varint(&mut pre, i as u64, 32),
            Wrap::TupleVariant(i, a, b) | Wrap::StructVariant(i, a, b) => {
                put_varint(&mut pre, i as u64, 32);
                pre.extend(vec![7; a as usize]);
                after = vec![9; b as usize];
            }
            Wrap::MapValue(a, b) => {
                pre.push(a + b + 1);
                for _ in 0..a {
                    pre.extend_from_slice(b"\x06before");
                }
                pre.extend_from_slice(b"\x01k");
                for _ in 0..b {
                    after.extend_from_slice(b"\x05after");
                }
            }
        }
        post.push(after);
    }
    let mut p = Vec::new();
    for a in post.into_iter().rev() {
        p.extend(a);
    }
    (pre, p)
}

fn judge_map(c: &mut Case, m: &Map, ws: &[Wrap], bad: Option<(usize, usize)>) -> R {
    c.eval();
    let w = Wr::new();
    let r = under::ser_to(&In(ws, m), &w);
    match bad {
        Some((kind, at)) => {
            c.nontrivial(h2(&[kind as u8, at as u8, m.keys.len() as u8, m.split as u8], format!("{:?}", ws).as_bytes()));
            match r {
                Err(SErr::UnsupportedKeyType) => Ok(()),
                // no serde kind of its own
                Err(_) if kind >= 29 => Ok(()),
                Err(e) => Err(format!("key {:?} at position {} of {} in {:?}: error {:?} instead of the unsupported-key error", m.keys[at], at, m.keys.len(), ws, e)),
                Ok(()) => Err(format!("key {:?} at position {} of {} in {:?} accepted: {}", m.keys[at], at, m.keys.len(), ws, hexs(&w.bytes()))),
            }
        }
        None => {
            if let Err(e) = r {
                fail!("map with keys {:?} in {:?} rejected: {:?}", m.keys, ws, e);
            }
            let (mut want, post) = around(ws);
            put_varint(&mut want, m.keys.len() as u64, 64);
            for (k, v) in m.keys.iter().zip(&m.vals) {
                if let Key::Str(t, _) = k {
                    put_varint(&mut want, t.len() as u64, 64);
                    want.extend_from_slice(t.as_bytes());
                }
                encode(&m.ty, v, &mut want);
            }
            want.extend(post);
            check!(
                w.bytes() == want,
                "map with keys {:?} in {:?} encodes to {}, expected {}",
                m.keys,
                ws,
                hexs(&w.bytes()),
                hexs(&want)
            );
            if m.keys.len() > 1 {
                c.nontrivial(h2(&want, &[m.split as u8]));
            }
            Ok(())
        }
    }
}

fn gen_map(s: &mut Src) -> Map {
    let n = match s.below(8) {
        0..=5 => s.usize(7),
        6 => s.usize(40),
        _ => 120 + s.usize(16),
    };
    let ty = if n > 20 {
        Ty::U8
    } else {
        let depth = s.below(3) as u32;
        gen_ty(s, TyOpts { depth, nodes: 5, wide: false, ..TyOpts::typed() })
    };
    let mut o = VOpts { sorted_maps: false, budget: 30 };
    let mut keys = Vec::new();
    let mut vals = Vec::new();
    for i in 0..n {
        // duplicates allowed: the serializer is told entries, not a map
        let t = if n > 20 { format!("k{}", i) } else { gen_key(s, i) };
        keys.push(Key::Str(t, s.below(8) as u8));
        vals.push(gen_val(s, &ty, &mut o));
    }
    Map { keys, ty, vals, split: s.bool(), st: gen_style(s) }
}

fn c19(c: &mut Case) -> R {
    if c.src.chance(20) {
        return real_types(c);
    }
    let mut m = gen_map(&mut c.src);
    let depth = c.src.usize(6);
    let ws: Vec<Wrap> = (0..depth)
        .map(|_| {
            let k = c.src.usize(WRAPS);
            gen_wrap(&mut c.src, k)
        })
        .collect();
    let mut bad = None;
    if !m.keys.is_empty() && c.src.chance(176) {
        let at = c.src.usize(m.keys.len());
        let kind = c.src.usize(KINDS);
        m.keys[at] = gen_bad(&mut c.src, kind);
        bad = Some((kind, at));
    }
    c.describe(|| {
        let mut k = format!("{:?}", m.keys);
        if k.len() > 300 {
            let mut i = 300;
            while !k.is_char_boundary(i) {
                i -= 1
            }
            k.truncate(i);
        }
        format!("map of {} to {} in {:?}, keys {}", m.keys.len(), m.ty, ws, k)
    });
    c.label(match bad {
        None => "string keys only",
        Some(_) => "one key of another kind",
    });
    judge_map(c, &m, &ws, bad)
}

/// Standard map types with keys of other types.
fn real_types(c: &mut Case) -> R {
    #[derive(Serialize, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
    struct Nt(String);
    #[derive(Serialize, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
    enum Ev {
        A,
        B(u8),
        C { x: String },
    }
    let n = c.src.usize(4);
    macro_rules! run {
        ($name:literal, $v:expr) => {{
            for (form, r, len) in {
                let mut b = BTreeMap::new();
                let mut h = HashMap::new();
                for _ in 0..n {
                    let k = $v;
                    b.insert(k.clone(), 1u8);
                    h.insert(k, 1u8);
                }
                [("BTreeMap", under::ser(&b), b.len()), ("HashMap", under::ser(&h), h.len())]
            } {
                c.eval();
                match (len, r) {
                    (0, Ok(b)) => check!(b == [0], "empty {}<{},_> encodes to {}", form, $name, hexs(&b)),
                    (0, Err(e)) => fail!("empty {}<{},_> rejected: {:?}", form, $name, e),
                    (_, Err(SErr::UnsupportedKeyType)) => {}
                    (_, Err(e)) => fail!("{}<{},_>: error {:?} instead of the unsupported-key error", form, $name, e),
                    (_, Ok(b)) => fail!("{}<{},_> accepted: {}", form, $name, hexs(&b)),
                }
            }
            c.describe(|| format!("map with {} keys of type {}", n, $name));
            c.nontrivial(h2($name.as_bytes(), &[n as u8]));
        }};
    }
    c.label("standard map types");
    let s = &mut c.src;
    match s.below(14) {
        0 => run!("bool", c.src.bool()),
        1 => run!("u8", c.src.uint(8) as u8),
        2 => run!("i64", c.src.int(64)),
        3 => run!("char", gen_char(&mut c.src)),
        4 => run!("Option<String>", if c.src.bool() { Some(gen_string_of(&mut c.src, 3)) } else { None }),
        5 => run!("()", ()),
        6 => run!("Nt", Nt(gen_string_of(&mut c.src, 3))),
        7 => run!(
            "Ev",
            match c.src.below(3) {
                0 => Ev::A,
                1 => Ev::B(c.src.byte()),
                _ => Ev::C { x: gen_string_of(&mut c.src, 2) },
            }
        ),
        8 => run!("Vec<u8>", vec![c.src.byte(); 3]),
        9 => run!("(String,)", (gen_string_of(&mut c.src, 3),)),
        10 => run!("(String, u8)", (gen_string_of(&mut c.src, 3), c.src.byte())),
        11 => run!("serde_bytes::ByteBuf", serde_bytes::ByteBuf::from(vec![c.src.byte(); 2])),
        12 => run!("Vec<String>", vec![gen_string_of(&mut c.src, 1); 2]),
        _ => run!("[u8; 2]", [c.src.byte(); 2]),
    }
    Ok(())
}

fn c19_blocks(_: bool) -> u64 {
    KINDS as u64 + 1
}
fn c19_block(i: u64, c: &mut Case) -> R {
    let mut paths: Vec<Vec<Wrap>> = vec![vec![]];
    for a in 0..WRAPS {
        let x = gen_wrap(&mut c.src, a);
        paths.push(vec![x]);
        for b in 0..WRAPS {
            let y = gen_wrap(&mut c.src, b);
            paths.push(vec![x, y]);
        }
    }
    for ws in &paths {
        for n in 1..=6usize {
            for at in 0..n {
                for split in [false, true] {
                    let mut m = Map {
                        keys: (0..n).map(|k| Key::Str(format!("k{}", k), (k % 8) as u8)).collect(),
                        ty: Ty::U8,
                        vals: (0..n).map(|k| Val::U(k as u64)).collect(),
                        split,
                        st: Style::default(),
                    };
                    if (i as usize) < KINDS {
                        m.keys[at] = gen_bad(&mut c.src, i as usize);
                        judge_map(c, &m, ws, Some((i as usize, at)))?;
                    } else {
                        judge_map(c, &m, ws, None)?;
                    }
                }
            }
        }
    }
    Ok(())
}
