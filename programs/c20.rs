//! C20: derived headers. The types are generated by tools/progen.py into types.rs.
#![allow(dead_code, non_camel_case_types, non_snake_case, unused_parens, unused_imports)]
use dlhn_verif::case::{Case, R};
use dlhn_verif::derived::{check_header, check_value, Ops};
use dlhn_verif::runner::Prop;
use serde::{Deserialize, Serialize};

pub static C20: Prop = Prop {
    id: "C20",
    rule: "case: one struct or enum of a program generated from the seed (field and variant kinds, widths, nesting, serde attributes), its derived header against the one the format prescribes, a random value serialized and decoded under the header. Non-trivial: distinct (type, encoding) with an encoding of at least 2 bytes",
    quick: 120_000,
    thorough: 1_500_000,
    run: c20,
    blocks: Some((c20_blocks, c20_block)),
    blocks_note: "every type of the generated program: its header, 100 values",
    known: &[("skipped-variant", skipped_variant)],
    assumptions: &["values are built by the independent reference decoder", "serde attributes that change the representation (tag, untagged, flatten, into, with other than dlhn::format) are outside the property"],
};

/// (operations, deserialized form, serialized form, kind)
type Entry = (Ops, &'static str, &'static str, &'static str);
include!("types.rs");

fn one(c: &mut Case, i: usize) -> R {
    let (o, a, b, kind) = &TYPES[i];
    c.label(kind);
    let h = check_header(c, o, b)?;
    check_value(c, o, a, b, &h)
}
fn c20(c: &mut Case) -> R {
    let i = c.src.usize(TYPES.len());
    one(c, i)
}
fn c20_blocks(_: bool) -> u64 {
    TYPES.len() as u64
}
fn c20_block(i: u64, c: &mut Case) -> R {
    for _ in 0..100 {
        one(c, i as usize)?;
    }
    Ok(())
}

#[derive(Serialize, dlhn::SerializeHeader)]
enum AfterSkipped {
    First(u8),
    #[serde(skip)]
    Gone,
    Last(bool),
}

/// The recorded finding: a variant after a skipped one is written with an index its header does not have.
fn skipped_variant() -> bool {
    let b = dlhn_verif::under::ser(&AfterSkipped::Last(true)).unwrap_or_default();
    let mut hb = Vec::new();
    let _ = <AfterSkipped as dlhn::SerializeHeader>::serialize_header(&mut hb);
    match dlhn_verif::under::de_header(&hb).0 {
        Ok(h) => dlhn_verif::under::de_body(&h, &b).0.is_err(),
        Err(_) => true,
    }
}

fn main() {
    dlhn_verif::cli::run(&[&C20])
}
