#!/usr/bin/env python3
"""Generates the programs of C20 (derived headers) and C21 (headers of built-in types) from a seed."""
import os, random, re, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LEAF = [("()", "unit"), ("bool", "bool"), ("u8", "u8"), ("u16", "u16"), ("u32", "u32"), ("u64", "u64"), ("i8", "i8"),
        ("i16", "i16"), ("i32", "i32"), ("i64", "i64"), ("f32", "f32"), ("f64", "f64"), ("String", "str"),
        ("ByteBuf", "bytes"), ("dlhn::BigUint", "biguint"), ("dlhn::BigInt", "bigint"), ("dlhn::BigDecimal", "bigdec"),
        ("dlhn::Date", "date"), ("dlhn::DateTime", "datetime")]


def tup(fs):
    return "(" + "".join(a + ", " for a, _ in fs) + ")", "T(" + ",".join(d for _, d in fs) + ")"


# ------------------------------------------------------------------ C21

MAPS = ["BTreeMap<String", "HashMap<String", "BTreeMap<Box<str>", "HashMap<Box<str>", "BTreeMap<Cow<'static, str>", "HashMap<Cow<'static, str>"]


def builtin_types(seed, total):
    R = random.Random(f"C21 {seed}")

    def ty(depth):
        k = R.randrange(9) if depth else 0
        if k <= 1:
            return R.choice(LEAF)
        if k <= 3:
            a, d = ty(depth - 1)
            return f"Option<{a}>", f"O({d})"
        if k <= 5:
            a, d = ty(depth - 1)
            return f"Vec<{a}>", f"Q({d})"
        if k == 6:
            a, d = ty(depth - 1)
            return f"{R.choice(MAPS)}, {a}>", f"M({d})"
        return tup([ty(depth - 1) for _ in range(R.randrange(1, 5))])

    out, seen = [], set()

    def add(t):
        if t[0] not in seen:
            seen.add(t[0])
            out.append(t)

    for l in LEAF:
        add(l)
    for l in LEAF:
        add((f"Option<{l[0]}>", f"O({l[1]})"))
        add((f"Vec<{l[0]}>", f"Q({l[1]})"))
        for m in MAPS[:2]:
            add((f"{m}, {l[0]}>", f"M({l[1]})"))
    for m in MAPS:
        add((f"{m}, u16>", "M(u16)"))
        add((f"Vec<{m}, Option<String>>>", "Q(M(O(str)))"))
    # headers of a few hundred bytes, in every wrapper
    long = tup([tup([LEAF[(i * 5 + j * 3 + seed) % len(LEAF)] for j in range(16)]) for i in range(16)])
    add(long)
    for w, d in [("Option<", "O"), ("Vec<", "Q")] + [(m + ", ", "M") for m in MAPS]:
        add((f"{w}{long[0]}>", f"{d}({long[1]})"))
    add(tup([LEAF[2], long, LEAF[3]]))
    for n in range(1, 17):
        fs = [LEAF[(i * 7 + n + seed) % len(LEAF)] for i in range(n)]
        add(tup(fs))
        add(tup([ty(1) for _ in range(n)]))
        add((f"Vec<{tup(fs)[0]}>", f"Q({tup(fs)[1]})"))
    for n in (10, 40):
        t = R.choice(LEAF)
        for _ in range(n):
            k = R.randrange(4)
            if k == 0:
                t = f"Option<{t[0]}>", f"O({t[1]})"
            elif k == 1:
                t = f"Vec<{t[0]}>", f"Q({t[1]})"
            elif k == 2:
                t = f"{R.choice(MAPS[:2])}, {t[0]}>", f"M({t[1]})"
            else:
                t = tup([t])
        add(t)
    while len(out) < total:
        add(ty(R.randrange(2, 7)))
    s = "builtin_types! {\n"
    for a, d in out:
        s += f'    {a} => "{d}";\n'
    return {"builtin_types.rs": s + "}\n"}


# ------------------------------------------------------------------ C20

# types with an adapter of dlhn::format
ADAPT = [("num_bigint::BigUint", "biguint", "big_uint"), ("num_bigint::BigInt", "bigint", "big_int"),
         ("bigdecimal::BigDecimal", "bigdec", "big_decimal"), ("time::Date", "date", "date"),
         ("time::OffsetDateTime", "datetime", "date_time")]
# skipped fields need a default, no header, no serde
NOHEADER = ["u8", "String", "Vec<u16>", "std::time::Duration", "Opaque", "Option<Box<Opaque>>", "[u8; 3]", "Option<std::rc::Rc<str>>", "std::marker::PhantomData<Opaque>"]
# types with a default and a header
DEFAULTED = [("u8", "u8"), ("String", "str"), ("Option<u16>", "O(u16)"), ("Vec<bool>", "Q(bool)"), ("(i8, String)", "T(i8,str)"), ("BTreeMap<String, i64>", "M(i64)")]
FIELD_NAMES = ["a", "b", "c", "skip", "skip_serializing", "skip_serializing_if", "r#type", "r#fn", "serde", "data", "writer", "w", "self_", "len", "W", "buf", "types", "x1", "long_name_for_a_field"]


class Prog:
    def __init__(self, seed, size):
        self.R = random.Random(f"C20 {seed}")
        self.size = size
        self.items = []          # source text
        self.entries = []        # (type, in, out, kind, values?)
        self.pool = []           # (type, in, out) usable as fields
        self.n = 0

    def chance(self, p):
        return self.R.random() < p

    def field_type(self, depth=3):
        """(rust type, input description, output description)"""
        R = self.R
        k = R.randrange(12) if depth else R.randrange(3)
        if k <= 2 or (k == 3 and not self.pool):
            t, d = R.choice(LEAF)
            t = {"String": R.choice(["String", "std::string::String", "Text"]), "u8": R.choice(["u8", "(u8)", "Octet", "<u16 as Half>::Out"]), "()": R.choice(["()", "Nothing"])}.get(t, t)
            return t, d, d
        if k <= 5:
            return R.choice(self.pool) if self.pool else ("u8", "u8", "u8")
        t, a, b = self.field_type(depth - 1)
        if k <= 7:
            return R.choice(["Option<{}>", "std::option::Option<{}>"]).format(t), f"O({a})", f"O({b})"
        if k <= 9:
            return f"Vec<{t}>", f"Q({a})", f"Q({b})"
        if k == 10:
            return R.choice(["BTreeMap<String, {}>", "std::collections::BTreeMap<String, {}>"]).format(t), f"M({a})", f"M({b})"
        fs = [(t, a, b)] + [self.field_type(depth - 1) for _ in range(R.choice([0, 1, 2, 15]) if depth > 1 else R.randrange(2))]
        return ("(" + "".join(f[0] + "," for f in fs) + ")", "T(" + ",".join(f[1] for f in fs) + ")", "T(" + ",".join(f[2] for f in fs) + ")")

    def wrap_attr(self, parts):
        """The same serde arguments, written in different ways."""
        R = self.R
        parts = list(parts)
        if not parts:
            return ""
        R.shuffle(parts)
        k = R.randrange(5)
        if k == 0 and len(parts) > 1:
            cut = R.randrange(1, len(parts))
            return f"#[serde({', '.join(parts[:cut])})] #[serde({', '.join(parts[cut:])})] "
        if k == 1:
            return f"#[serde({', '.join(parts)},)] "
        if k == 2:
            return f"#[cfg_attr(all(), serde({', '.join(parts)}))] "
        return f"#[serde({', '.join(parts)})] "

    def noise(self):
        R = self.R
        s = ""
        if self.chance(0.1):
            s += R.choice(["/// skip\n", "#[doc = \"skip_serializing_if\"] ", "#[allow(unused)] ", "#[cfg_attr(any(), serde(skip))] "])
        return s

    def fields(self, n, named, wide=False):
        """Returns (text, input types, output types)."""
        R = self.R
        if n == 1 and not named and not self.variant and self.chance(0.3):
            # serde ignores the skip marks of the field of a newtype struct
            t, a, b = self.field_type()
            args = [R.choice(["skip", "skip_serializing", "skip_deserializing"])]
            if args != ["skip_serializing"]:
                # these need a default all the same
                t, a = R.choice(DEFAULTED)
                b = a
            return f"{self.noise()}{self.wrap_attr(args)}{R.choice(['pub ', ''])}{t}", [a], [b]
        text, ins, outs = [], [], []
        names = []
        # fields of a tuple may only be left out of deserialization at the end of the wire order, which serde handles itself
        for i in range(n):
            if named:
                nm = R.choice(FIELD_NAMES) if self.chance(0.5) and not wide else f"f{i}"
                if nm in names:
                    nm = f"f{i}"
                names.append(nm)
                pre = R.choice(["pub ", "", "pub(crate) "]) if not self.variant else ""
                nm = f"{pre}{nm}: "
            else:
                nm = R.choice(["pub ", ""]) if not self.variant else ""
            k = R.random()
            args = []
            if self.chance(0.12):
                args.append(R.choice(['rename = "skip"', 'rename = "%d"' % i, 'alias = "skip"', 'rename(serialize = "a%d", deserialize = "b%d")' % (i, i)]) if named else "default")
            with_default = "default" in args
            if n == 1 and not named and not self.variant:
                k = max(k, 0.25)
            if k < (0.03 if wide else 0.1):
                t = R.choice(NOHEADER)
                args.append("skip")
                if self.chance(0.3) and not with_default:
                    args.append("default")
                text.append(f"{self.noise()}{self.wrap_attr(args)}{nm}{t}")
                continue
            if k < (0.04 if wide else 0.16):
                t, a, b = self.field_type(1)
                args = [x for x in args if x != "default"] + ["skip_serializing"]
                text.append(f"{self.noise()}{self.wrap_attr(args)}{nm}{t}")
                ins.append(a)
                continue
            if k < (0.05 if wide else 0.22):
                t, a = R.choice(DEFAULTED)
                args.append("skip_deserializing")
                text.append(f"{self.noise()}{self.wrap_attr(args)}{nm}{t}")
                outs.append(a)
                continue
            if k < 0.3:
                t, d, m = R.choice(ADAPT)
                args.append(f'with = "dlhn::format::{m}"')
                text.append(f"{self.noise()}{self.wrap_attr([x for x in args if x != 'default'])}{nm}{t}")
                ins.append(d)
                outs.append(d)
                continue
            if wide:
                t, d = R.choice(LEAF)
                a = b = d
            else:
                t, a, b = self.field_type()
            args = [x for x in args if x != "default"]
            text.append(f"{self.noise()}{self.wrap_attr(args)}{nm}{t}")
            ins.append(a)
            outs.append(b)
        body = ", ".join(text) + ("," if text and self.chance(0.5) else "")
        return body, ins, outs

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def container(self):
        a = []
        if self.chance(0.1):
            a.append(self.R.choice(['rename_all = "SCREAMING_SNAKE_CASE"', 'rename = "skip"', "deny_unknown_fields"]))
        return self.wrap_attr(a)

    def derives(self, what=None):
        what = what or ["Serialize", "Deserialize", "dlhn::SerializeHeader"]
        what = list(what)
        self.R.shuffle(what)
        return "#[derive(" + ", ".join(what) + ")] "

    def width(self):
        return self.R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])

    def struct(self, n=None, wide=False):
        R = self.R
        self.variant = False
        nm = self.name("S")
        kind = R.randrange(5)
        if kind == 0 and n is None:
            form = R.choice([";", " {}", "();"])
            out = {";": "ustruct", " {}": "S()", "();": "TS()"}[form]
            self.items.append(f"{self.derives()}{self.container()}pub struct {nm}{form}")
            ins = out
        else:
            n = self.width() if n is None else n
            named = R.random() < 0.6
            body, i, o = self.fields(n, named, wide)
            if named:
                self.items.append(f"{self.derives()}{self.container()}pub struct {nm} {{ {body} }}")
                ins, out = f"S({','.join(i)})", f"S({','.join(o)})"
            else:
                self.items.append(f"{self.derives()}{self.container()}pub struct {nm}({body});")
                ins, out = f"TS({','.join(i)})", f"TS({','.join(o)})"
        self.add(nm, ins, out, "struct" if not wide else "wide struct")

    def discriminants(self, text, plain):
        """Gives some variants explicit discriminants; returns the attribute that allows them."""
        R = self.R
        if not self.chance(0.35):
            return R.choice(["", "", "", "#[non_exhaustive] ", "#[repr(C)] ", "#[allow(dead_code)] "]) if text else ""
        if not text:
            return ""
        d = R.choice([0, 0, 1, 7, 100, 20000])
        step = R.choice([1, 2, 5, 100])
        down = self.chance(0.3)
        marks = []
        for i in range(len(text)):
            marks.append(d + step * (len(text) - 1 - i if down else i))
        p = R.choice([1.0, 1.0, 0.5]) if not down else 1.0
        for i in range(len(text)):
            if R.random() < p:
                v = marks[i]
                text[i] += R.choice([f" = {v}", f" = {v}", f" = {v} + 0", f" = -(-{v})"])
        return R.choice(["#[repr(i32)] ", "#[repr(i64)] "])

    def enum(self, n=None, wide=False):
        R = self.R
        self.variant = True
        nm = self.name("E")
        n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 10]) if n is None else n
        text, ins, outs = [], [], []
        for i in range(n):
            v = f"{self.noise()}V{i}"
            if self.chance(0.08):
                v = f'{self.wrap_attr([R.choice(["rename = %s" % chr(34) + "skip" + chr(34), "alias = %s" % chr(34) + "z" + str(i) + chr(34)])])}{v}'
            k = R.randrange(4 if not wide else 8)
            if k == 0 or k > 3:
                text.append(v)
                ins.append("VU")
                outs.append("VU")
                continue
            w = R.choice([0, 1, 1, 2, 2, 3, 5, 9]) if not wide else R.choice([0, 1, 2])
            body, a, b = self.fields(w, k == 1, wide)
            if k == 1:
                text.append(f"{v} {{ {body} }}")
                ins.append(f"VS({','.join(a)})")
                outs.append(f"VS({','.join(b)})")
            else:
                text.append(f"{v}({body})")
                ins.append(f"VT({','.join(a)})")
                outs.append(f"VT({','.join(b)})")
        # variants skipped at the end, where the order of the others is not disturbed
        if self.chance(0.25):
            for j in range(R.randrange(1, 4)):
                t = R.choice(NOHEADER)
                form = R.choice(["", f"({t})", f"{{ a: {t} }}", f"({t}, {t})"])
                text.append(f"{self.wrap_attr([R.choice(['skip', 'skip'])])}Gone{j}{form}")
        self.items.append(f"{self.derives()}{self.container()}{self.discriminants(text, plain=all(t == 'VU' for t in ins))}pub enum {nm} {{ {', '.join(text)} }}")
        self.add(nm, f"E0({','.join(ins)})", f"E0({','.join(outs)})", "enum" if not wide else "wide enum")

    def enum_skipped(self):
        """Skipped variants anywhere: the header leaves them out (the values are a known finding)."""
        R = self.R
        self.variant = True
        nm = self.name("K")
        text, outs = [], []
        for i in range(R.randrange(2, 9)):
            if self.chance(0.4):
                t = R.choice(NOHEADER)
                form = R.choice(["", f"({t})", f"{{ a: {t} }}", f"({t}, {t})"])
                text.append(f"{self.wrap_attr([R.choice(['skip', 'skip_serializing'])])}V{i}{form}")
                continue
            k = R.randrange(3)
            if k == 0:
                text.append(f"V{i}")
                outs.append("VU")
            else:
                body, a, b = self.fields(R.randrange(4), k == 1, True)
                text.append(f"V{i} {{ {body} }}" if k == 1 else f"V{i}({body})")
                outs.append(f"V{'S' if k == 1 else 'T'}({','.join(b)})")
        self.items.append(f"{self.derives(['dlhn::SerializeHeader', 'Serialize'])}{self.discriminants(text, plain=False)}pub enum {nm} {{ {', '.join(text)} }}")
        d = f"E0({','.join(outs)})"
        self.entries.append((nm, d, d, "enum with skipped variants (header)", False))

    def header_only(self, n, kind):
        nm = self.name("H")
        if kind == "struct":
            self.items.append(f"#[derive(dlhn::SerializeHeader)] pub struct {nm} {{ {', '.join(f'f{i}: ()' for i in range(n))} }}")
            d = f"S({n}*unit)"
        elif kind == "tuple":
            self.items.append(f"#[derive(dlhn::SerializeHeader)] pub struct {nm}({', '.join('()' for i in range(n))});")
            d = f"TS({n}*unit)"
        else:
            self.items.append(f"#[derive(dlhn::SerializeHeader)] pub enum {nm} {{ {', '.join(f'V{i}' for i in range(n))} }}")
            d = f"E0({n}*VU)"
        self.entries.append((nm, d, d, "widest types (header)", False))

    def macro_struct(self):
        """Types that reach the derive through a macro."""
        self.variant = False
        nm = self.name("M")
        fs = [self.field_type(2) for _ in range(self.R.randrange(1, 5))]
        if self.chance(0.5):
            self.items.append(f"made_struct!({nm}, {', '.join(f[0] for f in fs)});")
        else:
            self.items.append(f"made_enum!({nm}, {', '.join(f[0] for f in fs)});")
            self.add(nm, "E0(" + ",".join(f"VN({f[1]})" for f in fs) + ")", "E0(" + ",".join(f"VN({f[2]})" for f in fs) + ")", "type from a macro", letters=True)
            return
        self.add(nm, "TS(" + ",".join(f[1] for f in fs) + ")", "TS(" + ",".join(f[2] for f in fs) + ")", "type from a macro")

    def add(self, nm, ins, out, kind, letters=False):
        self.entries.append((nm, ins, out, kind, True))
        # keep descriptions (and values) from exploding
        if len(ins) < 400 and len(out) < 400:
            self.pool.append((nm, ins, out))
            if len(self.pool) > 14:
                self.pool.pop(self.R.randrange(len(self.pool)))

    def build(self):
        R = self.R
        while len(self.entries) < self.size:
            k = R.randrange(20)
            if k < 9:
                self.struct()
            elif k < 16:
                self.enum()
            elif k < 18:
                self.enum_skipped()
            else:
                self.macro_struct()
        for n in (127, 128, 129, R.randrange(130, 300)):
            self.struct(n, True)
            self.enum(n, True)
            self.header_only(n, R.choice(["struct", "tuple", "enum"]))
        for kind in ("struct", "tuple", "enum"):
            self.header_only(R.choice([255, 256, 257, 1000]), kind)
        self.header_only(R.choice([4000, 8191, 4097]), "enum")
        s = PRELUDE
        s += "\n".join(self.items) + "\n"
        s += "static TYPES: &[Entry] = &[\n"
        for nm, i, o, kind, values in self.entries:
            op = "of" if values else "header_only"
            s += f'    (Ops::{op}::<{nm}>("{nm}"), "{i}", "{o}", "{kind}"),\n'
        s += "];\n"
        return {"types.rs": s}

    def __call__(self):
        return self.build()


PRELUDE = '''use dlhn::SerializeHeader;
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;
pub type Text = String;
pub type Octet = u8;
pub type Nothing = ();
pub trait Half { type Out; }
impl Half for u16 { type Out = u8; }
#[derive(Default)]
pub struct Opaque(u8);
macro_rules! made_struct {
    ($n:ident, $($t:ty),*) => { #[derive(Serialize, Deserialize, dlhn::SerializeHeader)] pub struct $n($($t),*); };
}
macro_rules! made_enum {
    ($n:ident, $($t:ty),*) => { made_enum!(@ $n [A B C D] [] $($t),*); };
    (@ $n:ident [$v:ident $($vs:ident)*] [$($d:tt)*] $t:ty $(, $r:ty)*) => { made_enum!(@ $n [$($vs)*] [$($d)* $v($t),] $($r),*); };
    (@ $n:ident [$($vs:ident)*] [$($d:tt)*]) => { #[derive(Serialize, Deserialize, dlhn::SerializeHeader)] pub enum $n { $($d)* } };
}
'''


# ------------------------------------------------------------------ programs the derive must refuse

def refused(seed, n):
    """(name, program that must not compile, the same without the offending attribute)"""
    R = random.Random(f"C20 refused {seed}")
    out = []
    head = "#![allow(dead_code)]\nuse dlhn::SerializeHeader;\n#[derive(SerializeHeader)]\n"
    cond = 'skip_serializing_if = "Option::is_none"'

    def attr(bad):
        good = R.choice([[], ["default"], ['rename = "x"'], ["default", 'rename = "x"']])
        if not bad:
            return f"#[serde({', '.join(good)})] " if good else ""
        k = R.randrange(4)
        if k == 0 and good:
            a = [f"#[serde({', '.join(good)})]", f"#[serde({cond})]"]
            R.shuffle(a)
            return " ".join(a) + " "
        args = good + [cond]
        R.shuffle(args)
        if k == 1:
            return f"#[cfg_attr(all(), serde({', '.join(args)}))] "
        return f"#[serde({', '.join(args)})] "

    for i in range(n):
        k = i % 7
        w = R.randrange(1, 5)
        at = R.randrange(w)
        rest = [R.choice(["u8", "String", "Vec<bool>"]) for _ in range(w)]

        def fields(named, bad, variant):
            st = R.getstate()
            fs = []
            for j in range(w):
                t = "Option<u8>" if j == at else rest[j]
                a = attr(bad) if j == at else ""
                fs.append(f"{a}{'f%d: ' % j if named else ''}{t}")
            R.setstate(st)
            return "{ " + ", ".join(fs) + " }" if named else "(" + ", ".join(fs) + ")"

        if k == 0 and i < 7:
            out.append(("union", head + "#[derive(Clone, Copy)] pub union U { a: u8, b: u16 }\nfn main() {}\n",
                        head + "#[derive(Clone, Copy)] pub struct U { a: u8, b: u16 }\nfn main() {}\n"))
            continue
        pair = []
        for bad in (True, False):
            if k in (0, 1):
                src = f"pub struct S {fields(True, bad, False)}"
                nm = "named field"
            elif k == 2:
                src = f"pub struct S{fields(False, bad, False)};"
                nm = "tuple field"
            else:
                named = k in (3, 4)
                v = fields(named, bad, True)
                vs = ["A", "B(u8)", "C { x: u8, y: bool }"]
                pos = (i // 7) % 4
                vs.insert(pos, f"V {v}" if named else f"V{v}")
                src = f"pub enum E {{ {', '.join(vs)} }}"
                nm = "field of a struct variant" if named else "field of a tuple variant"
            pair.append(head + src + "\nfn main() {}\n")
        # keep the random stream moving
        R.random()
        out.append((nm, pair[0], pair[1]))
    return out


# ------------------------------------------------------------------ crates

CARGO = '''[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
dlhn_verif = {{ path = "{root}/harness"{features} }}
{control}dlhn = {{ path = "/repo/dlhn" }}
serde = {{ version = "1", features = ["derive"] }}
serde_bytes = "0.11"
time = "0.3"
num-bigint = "0.4"
bigdecimal = "0.3"

[profile.release]
opt-level = 2
debug = 1
debug-assertions = true
overflow-checks = true
incremental = false

[profile.release.package.{name}]
opt-level = 0
debug = 0
'''


def write_crate(which, seed, size, dest, mode="full"):
    """mode: "full"; "apart": without the derived headers of the harness's own types;
    "control": no derive and no header trait of the code under test"""
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest + "/src")
    name = f"dlhn_{which.lower()}" + ("" if mode == "full" else f"_{mode}")
    files = builtin_types(seed, size) if which == "C21" else Prog(seed, size)()
    with open(f"{ROOT}/programs/{which.lower()}.rs") as fh:
        files["main.rs"] = fh.read()
    for f, text in files.items():
        if mode == "control":
            text = re.sub(r"(?<=[(, ])dlhn::SerializeHeader(?=[,)])", "dlhn_control::SerializeHeader", text)
            text = text.replace("dlhn::SerializeHeader", "dlhn_verif::derived::SerializeHeader")
        with open(f"{dest}/src/{f}", "w") as fh:
            fh.write(text)
    features = {"full": "", "apart": ', default-features = false, features = ["described"]', "control": ", default-features = false"}[mode]
    control = f'dlhn_control = {{ path = "{ROOT}/programs/control" }}\n' if mode == "control" else ""
    with open(f"{dest}/Cargo.toml", "w") as fh:
        fh.write(CARGO.format(name=name, root=ROOT, features=features, control=control))
    shutil.copy(f"{ROOT}/harness/Cargo.lock", f"{dest}/Cargo.lock")
    return name


if __name__ == "__main__":
    import sys
    write_crate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
