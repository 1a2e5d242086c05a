#!/usr/bin/env python3
"""The literals of the code under test (numbers, simple constant expressions, texts), offered to the generators as values,
lengths, counts and keys. It only biases generation: what is checked does not depend on it."""
import glob, re

TYPE = r"(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64)"


def source(path):
    s = open(path, encoding="utf-8", errors="replace").read()
    m = re.search(r"^#\[cfg\(test\)\]\s*\nmod \w+ \{", s, re.M)
    return s[:m.start()] if m else s


def literals(root):
    ints, floats, texts = set(), set(), set()
    for f in sorted(glob.glob(f"{root}/dlhn/src/**/*.rs", recursive=True) + glob.glob(f"{root}/dlhn_derive/src/**/*.rs", recursive=True)):
        s = re.sub(r"/\*.*?\*/", " ", re.sub(r"(?m)//.*$", "", source(f)), flags=re.S)
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', s):
            t = re.sub(r"\\(.)", lambda k: {"n": "\n", "t": "\t", "0": "\0", "r": "\r"}.get(k[1], k[1]), m[1])
            if 0 < len(t) <= 64 and "{" not in t and not t.startswith(("num-", "dlhn")):
                texts.add(t)
        s = re.sub(r'b?"(?:[^"\\\n]|\\.)*"', ' "" ', s)
        for m in re.finditer(r"b?'([^'\\])'", s):
            texts.add(m[1])
        s = re.sub(r"b'([^'\\])'", lambda m: str(ord(m[1])), s)
        for a in (8, 16, 32, 64):
            s = re.sub(rf"\bu{a}::(MAX|BITS|MIN)\b", lambda m: str({"MAX": 2**a - 1, "BITS": a, "MIN": 0}[m[1]]), s)
            s = re.sub(rf"\bi{a}::(MAX|BITS|MIN)\b", lambda m: str({"MAX": 2**(a - 1) - 1, "BITS": a, "MIN": 2**(a - 1)}[m[1]]), s)
        s = re.sub(rf"\s+as\s+{TYPE}\b", " ", s)
        for m in re.finditer(r"\b\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?", s):
            floats.add(float(m[0].replace("_", "")))

        def num(m):
            t = re.sub(rf"_?{TYPE}$", "", m[0]) if not m[0].startswith("0x") else re.sub(r"_?(?:u|i)(?:8|16|32|64|128|size)$", "", m[0])
            try:
                v = int(t.replace("_", ""), 0 if t[:1] == "0" and t[1:2] in "xbo" and len(t) > 1 else 10)
            except ValueError:
                return m[0]
            return f" {v} "

        s = re.sub(r"(?<![\w.])(?:0x[0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|0b[01_]+\w*|0o[0-7_]+\w*|\d[\d_]*\w*)", num, s)
        s = re.sub(r"\(\s*(\d+)\s*\)", r" \1 ", s)
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", s):
            ints.add(int(m[0]))
        for m in re.finditer(r"\d+(?:\s*(?:<<|>>|\*|\+|-)\s*\d+)+", s):
            if len(m[0]) < 80 and all(int(x) < 128 for x in re.findall(r"<<\s*(\d+)", m[0])):
                # Rust binds << weaker than + and *, as Python does
                ints.add(abs(eval(m[0], {"__builtins__": {}})))
    return (sorted(v for v in ints if 3 < v < 2**64), sorted(floats), sorted(texts))


def env(root):
    i, f, t = literals(root)
    out = [f"i{v}" for v in i[:400]] + [f"f{v!r}" for v in f[:40]] + ["t" + x.encode().hex() for x in t[:60]]
    return ",".join(out)


if __name__ == "__main__":
    import sys
    print(literals(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
