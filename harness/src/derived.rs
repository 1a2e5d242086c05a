//! Checks of one concrete type with a header implementation (used for the built-in types and by generated programs).
use crate::case::{hexs, Case, R};
use crate::iox::{Frag, Stop, Wr};
use crate::model::{self, Dec};
use crate::refserde;
use crate::tape::fnv;
use crate::under::{self, SErr};
use dlhn::Header;
#[cfg(feature = "described")]
pub use dlhn::SerializeHeader;
/// In the control build of a generated program: every type has it.
#[cfg(not(feature = "described"))]
pub trait SerializeHeader {
    fn serialize_header<W: std::io::Write>(_: &mut W) -> std::io::Result<()> {
        Ok(())
    }
}
#[cfg(not(feature = "described"))]
impl<T: ?Sized> SerializeHeader for T {}
use serde::de::DeserializeOwned;
use serde::Serialize;

/// The parts of the checks that depend on the type; everything else is compiled once.
#[derive(Clone, Copy)]
pub struct Ops {
    pub name: &'static str,
    header: fn(&mut Wr) -> std::io::Result<()>,
    /// value from reference bytes: bytes taken, reference encoding, encoding of the code under test
    ser: Option<fn(&[u8]) -> Result<(usize, Vec<u8>, Result<Vec<u8>, SErr>), String>>,
}

fn f_header<T: SerializeHeader + ?Sized>(w: &mut Wr) -> std::io::Result<()> {
    T::serialize_header(w)
}
fn f_ser<T: Serialize + DeserializeOwned>(b: &[u8]) -> Result<(usize, Vec<u8>, Result<Vec<u8>, SErr>), String> {
    let (t, n, _) = refserde::from_bytes::<T>(b).map_err(|e| format!("not constructible: {}", e))?;
    let e = refserde::to_bytes(&t).map_err(|e| format!("not serializable: {}", e))?;
    Ok((n, e, under::ser(&t)))
}
impl Ops {
    pub const fn header_only<T: SerializeHeader + ?Sized>(name: &'static str) -> Ops {
        Ops { name, header: f_header::<T>, ser: None }
    }
    pub const fn of<T: SerializeHeader + Serialize + DeserializeOwned>(name: &'static str) -> Ops {
        Ops { name, header: f_header::<T>, ser: Some(f_ser::<T>) }
    }
}

pub fn header_bytes(o: &Ops) -> std::io::Result<Vec<u8>> {
    let mut w = Wr::with(Frag { plan: vec![] }, Stop::None);
    (o.header)(&mut w)?;
    Ok(w.bytes())
}

/// The header of the type must be the one of `desc`; returns it.
pub fn check_header(c: &mut Case, o: &Ops, desc: &str) -> Result<Header, String> {
    let name = o.name;
    let ty = model::parse_ty(desc);
    let h = model::header_of(&ty).ok_or("HARNESS: type without a header")?;
    let mut e = Vec::new();
    model::put_header(&h, &mut e);
    c.eval();
    let b = header_bytes(o).map_err(|e| format!("header of {}: {}", name, e))?;
    check!(b == e, "header of {} ({}) is {}, expected {}", name, desc, hexs(&b), hexs(&e));
    let (d, n) = under::de_header(&b);
    match d {
        Ok(d) => check!(d == h && n == b.len(), "header of {} decodes to another header", name),
        Err(x) => fail!("header of {} cannot be decoded: {}", name, x),
    }
    // the writer may fail anywhere
    let k = c.src.usize(e.len());
    let mut w = Wr::with(Frag { plan: vec![] }, Stop::Err(k, std::io::ErrorKind::TimedOut));
    match (o.header)(&mut w) {
        Ok(()) => fail!("header of {} reports success on a writer that failed after {} bytes", name, k),
        Err(x) => check!(
            x.kind() == std::io::ErrorKind::TimedOut && e.starts_with(&w.bytes()),
            "header of {} on a failing writer: {:?}, {} written",
            name,
            x.kind(),
            hexs(&w.bytes())
        ),
    }
    Ok(h)
}

/// One value of the type: `input` describes what is deserialized to build it, `desc` what is serialized.
pub fn check_value(c: &mut Case, o: &Ops, input: &str, desc: &str, h: &Header) -> R {
    let name = o.name;
    let fser = match o.ser {
        Some(s) => s,
        None => return Ok(()),
    };
    let tin = model::parse_ty(input);
    let tout = model::parse_ty(desc);
    let v = crate::gen::val(&mut c.src, &tin);
    let b = model::enc(&tin, &v);
    let (n, e, got) = fser(&b).map_err(|m| format!("a value of {} ({}) from {}: {}", name, input, hexs(&b), m))?;
    if n != b.len() {
        fail!("{} takes {} of the {} bytes of a value", name, n, b.len());
    }
    let mut d = Dec::new(&e);
    let out = model::decode(&tout, &mut d).map_err(|x| format!("{} is not serialized as {}: {:?}", name, desc, x))?;
    if input == desc && !desc.contains('M') && e != b {
        fail!("{} ({}): value {} serializes to {}", name, desc, hexs(&b), hexs(&e));
    }
    if d.pos != e.len() {
        fail!("{} serializes to more than {}", name, desc);
    }
    c.eval();
    let got = got.map_err(|x| format!("{}: serialization failed: {:?}", name, x))?;
    check!(got == e, "{} ({}) value {} encodes to {}, expected {}", name, desc, model::show(&out), hexs(&got), hexs(&e));
    let tail = c.src.usize(4);
    let mut long = got.clone();
    long.extend_from_slice(&[0xEE, 1, 0][..tail.min(3)]);
    let (body, n) = under::de_body(h, &long);
    let body = match body {
        Ok(b) => b,
        Err(x) => fail!("{} ({}): bytes {} of {} do not decode under the header: {:?}", name, desc, hexs(&got), model::show(&out), x),
    };
    check!(n == got.len(), "{} ({}): the body takes {} of the {} bytes of a value", name, desc, n, got.len());
    let want = model::normalize_maps(model::plain_val(&tout, &out));
    let have = model::val_of(h, &body).map_err(|m| format!("{} ({}): body does not conform to the header: {}", name, desc, m))?;
    check!(have == want, "{} ({}): body is {}, expected {}", name, desc, model::show(&have), model::show(&want));
    check!(body.validate(h).is_ok_and_true(), "{} ({}): validate rejects the body of a value", name, desc);
    if e.len() > 1 {
        // the reference bytes: a hash map's own order is not reproducible
        let mut k = name.as_bytes().to_vec();
        k.extend_from_slice(&b);
        c.nontrivial(fnv(&k));
    }
    c.describe(|| format!("{} = {}: {} -> {}", name, desc, model::show(&out), hexs(&e)));
    Ok(())
}

pub trait OkTrue {
    fn is_ok_and_true(self) -> bool;
}
impl OkTrue for bool {
    fn is_ok_and_true(self) -> bool {
        self
    }
}
impl<E> OkTrue for Result<(), E> {
    fn is_ok_and_true(self) -> bool {
        self.is_ok()
    }
}
