#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py <id> [--tier quick|thorough] [--seed N] [--cases N]
  check.py replay <file>
  check.py setup

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict.
"""
import concurrent.futures, fcntl, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + "/tools")
sys.dont_write_bytecode = True
import features, literals, progen

TARGET = f"{ROOT}/harness/target"
WORK = f"{ROOT}/work"
ENV = dict(os.environ, VERIF_DIR=ROOT, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
    ENV.pop(k, None)
C20_SIZE, C21_SIZE = 110, 190


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def cargo(args, cwd, what):
    """Output of the build if it failed, else None."""
    p = subprocess.run(["cargo"] + args + ["--offline"], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return None if p.returncode == 0 else p.stdout


def errors_of(out):
    e = [b for b in re.split(r"\n(?=error|warning)", out) if b.startswith("error")]
    return "\n".join(e)[:3000] or out[-3000:]


def build_harness():
    out = cargo(["build", "-q", "--release"], f"{ROOT}/harness", "harness")
    if out is not None and cargo(["build", "-q", "--release", "--no-default-features", "--features", "described"], f"{ROOT}/harness", "harness") is None:
        # a derived or implemented header does not compile: that is for C20 and C21
        say("the harness is built without the headers of its own types")
        out = None
    if out is not None:
        raise NoVerdict("the harness does not build against /repo:\n" + errors_of(out))
    return f"{TARGET}/release/dlhn_verif"


def build_program(which, seed, size, dest):
    """The program and the errors of its build, which are those of the code under test"""
    name = progen.write_crate(which, seed, size, dest)
    out = cargo(["build", "-q", "--release"], dest, which)
    if out is not None:
        # the harness's own types are not the program's
        apart = progen.write_crate(which, seed, size, dest + "-apart", "apart")
        if cargo(["build", "-q", "--release"], dest + "-apart", which) is None:
            return f"{TARGET}/release/{apart}", None
        progen.write_crate(which, seed, size, dest + "-control", "control")
        control = cargo(["build", "-q", "--release"], dest + "-control", which)
        if control is not None:
            raise NoVerdict(f"the program of {which} does not build, with or without headers:\n" + errors_of(control))
    return f"{TARGET}/release/{name}", out


# ---------------------------------------------------------------- evidence

def evidence(pid):
    return f"{ROOT}/evidence/{pid}.json"


def read_evidence(pid):
    with open(evidence(pid)) as f:
        return json.load(f)


def write_evidence(pid, e):
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    with open(evidence(pid), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def write_replay(pid, name, d):
    os.makedirs(f"{ROOT}/replays", exist_ok=True)
    path = f"{ROOT}/replays/{pid}-{name}.json"
    d = dict(property=pid, **d)
    d["literals"] = os.environ.get("DLHN_DICT", "")
    d["replay_cmd"] = f"python3 {ROOT}/check.py replay {path}"
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    return path


def run_check(exe, pid, tier, seed, cases):
    a = [exe, "check", pid, "--tier", tier, "--seed", str(seed)]
    if cases:
        a += ["--cases", str(cases)]
    p = subprocess.run(a, env=ENV, stdout=subprocess.PIPE, text=True, errors="replace")
    return p.returncode, p.stdout


def offer_literals(known=None):
    """The numbers and texts the code mentions bias the generators; a replay brings those of its run."""
    os.environ["DLHN_DICT"] = ENV["DLHN_DICT"] = literals.env("/repo") if known is None else known


# ---------------------------------------------------------------- coverage-guided search (thorough)

def build_fuzzer():
    """The harness as a libFuzzer program, the code under test and the harness instrumented; None if that is not possible."""
    rt = subprocess.run(["clang", "-print-resource-dir"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    rt = f"{rt}/lib/linux/libclang_rt.fuzzer-x86_64.a"
    if not os.path.exists(rt):
        return None
    env = dict(ENV, CARGO_TARGET_DIR=f"{ROOT}/fuzz/target", RUSTC_WRAPPER=f"{ROOT}/fuzz/rustc-wrapper.sh", FUZZ_RUNTIME=rt)
    p = subprocess.run(["cargo", "build", "-q", "--release", "--offline"], cwd=f"{ROOT}/fuzz", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return f"{ROOT}/fuzz/target/release/dlhn_fuzz" if p.returncode == 0 else None


def guided(exe, pid, seed, seconds):
    """libFuzzer over the choice tapes of the property. What it finds counts once the ordinary build fails on it."""
    fuzzer = build_fuzzer()
    if fuzzer is None:
        return 0, dict(note="not available")
    d = f"{WORK}/guided-{pid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/corpus")
    jobs = int(os.environ.get("VERIF_JOBS") or 8)
    n = 400
    subprocess.run([exe, "tapes", pid, "thorough", str(seed), str(n), f"{d}/start"], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    env = dict(ENV, FUZZ_PROP=pid, VERIF_TIER="thorough")
    end = time.time() + seconds
    total = dict(seconds=seconds, executions=0, corpus=0, features=0, set_aside=0)
    running, started, code = {}, 0, 0

    def start(k):
        nonlocal started
        started += 1
        art = f"{d}/art{started}/"
        os.makedirs(art)
        log = open(f"{d}/log{started}", "w")
        p = subprocess.Popen([fuzzer, f"-seed={seed * 1000 + started}", f"-max_total_time={max(1, int(end - time.time()))}", "-max_len=4096", "-len_control=20", "-timeout=100",
                              "-rss_limit_mb=3500", "-report_slow_units=100000", "-use_value_profile=%d" % (started % 2), "-print_final_stats=1", f"-artifact_prefix={art}", f"{d}/corpus", f"{d}/start"],
                             env=env, stdout=subprocess.DEVNULL, stderr=log, cwd=d)
        running[k] = (p, art, f"{d}/log{started}")

    try:
        for k in range(jobs):
            start(k)
        while running and code == 0:
            time.sleep(0.5)
            for k, (p, art, log) in list(running.items()):
                if p.poll() is None:
                    if time.time() > end + 150:
                        p.kill()
                    continue
                del running[k]
                text = open(log, errors="replace").read()
                m = re.findall(r"number_of_executed_units: (\d+)", text) or re.findall(r"^#(\d+)", text, re.M)
                total["executions"] += int(m[-1]) if m else 0
                m = re.findall(r"\bft: (\d+)", text)
                total["features"] = max(total["features"], int(m[-1]) if m else 0)
                for a in sorted(glob.glob(art + "*")):
                    r = subprocess.run([exe, "fuzzed", pid, "thorough", str(seed), a], env=ENV, stdout=subprocess.PIPE, text=True, errors="replace")
                    if r.returncode == 1:
                        sys.stdout.write(r.stdout)
                        sys.stdout.flush()
                        code = 1
                        break
                    total["set_aside"] += 1
                if code:
                    break
                if end - time.time() > 5 and started < 200:
                    start(k)
    finally:
        for p, _, _ in running.values():
            p.kill()
            p.wait()
    total["corpus"] = len(os.listdir(f"{d}/corpus"))
    shutil.rmtree(d, ignore_errors=True)
    return code, total


# ---------------------------------------------------------------- C20, C21: generated programs

def mark(out, program):
    """Notes in the replay file which program the case belongs to."""
    m = re.search(r"^VIOLATION property=\S+ replay=(\S+)", out, re.M)
    if m:
        with open(m.group(1)) as f:
            d = json.load(f)
        d["program"] = program
        with open(m.group(1), "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")


def merge(total, e):
    if total is None:
        return e
    for k in ("evaluations", "distinct_nontrivial", "cases", "exhaustive_blocks"):
        if k in e["coverage"]:
            total["coverage"][k] = total["coverage"].get(k, 0) + e["coverage"][k]
    for m in ("distribution", "excluded_by_construction"):
        for k, v in e["coverage"].get(m, {}).items():
            total["coverage"].setdefault(m, {})[k] = total["coverage"].get(m, {}).get(k, 0) + v
    total["coverage"]["samples"] = (total["coverage"]["samples"] + e["coverage"]["samples"])[:16]
    total["violations"] += e["violations"]
    return total


def program_check(pid, tier, seed, cases):
    t0 = time.time()
    size = C20_SIZE if pid == "C20" else C21_SIZE
    total, code, programs = None, 0, 0
    n = 1 if tier == "quick" else 8
    extra = {}
    if pid == "C20":
        code = wide_check(tier, seed, extra) or refused_check(tier, seed, extra)
    lines = set()
    for k in range(n):
        if code:
            break
        s = seed if k == 0 else seed * 1000 + k
        dest = f"{WORK}/p/{pid.lower()}"
        exe, out = build_program(pid, s, size, dest)
        if out is not None:
            # the derive or the header types refuse (or produce code that does not compile for) a supported type
            path = write_replay(pid, f"{seed}-build-{k}", dict(kind="program", seed=s, size=size, message="a program of supported types does not compile", errors=errors_of(out)))
            say(f"{pid}: a program of supported types does not compile:\n{errors_of(out)[:1500]}")
            say(f"VIOLATION property={pid} replay={path}")
            code = 1
            break
        code, out = run_check(exe, pid, tier, s, cases)
        mark(out, dict(seed=s, size=size))
        for l in out.splitlines():
            if l not in lines:
                say(l)
            if l.startswith("KNOWN-FINDING"):
                lines.add(l)
        if code not in (0, 1):
            raise NoVerdict(f"{pid}: the generated program ended with {code}")
        programs += 1
        total = merge(total, read_evidence(pid))
    if total is None:
        total = dict(property=pid, tier=tier, seed=seed, level="exploration",
                     coverage=dict(evaluations=extra.get("evaluations", 1), distinct_nontrivial=0, rule="stopped at the first violation", samples=[]), violations=1)
    total["coverage"]["generated_programs"] = programs
    total["coverage"].update({k: v for k, v in extra.items() if k != "evaluations"})
    total["seed"] = seed
    total["wall_s"] = round(time.time() - t0, 2)
    total["violations"] = code
    write_evidence(pid, total)
    return code


WIDE = '''use dlhn::{DeserializeHeader, Header, SerializeHeader};
#[derive(dlhn::SerializeHeader)]
pub struct Wide(%s);
fn main() {
    let mut b = Vec::new();
    if let Err(e) = Wide::serialize_header(&mut b) {
        println!("serializing the header fails: {}", e);
        std::process::exit(1);
    }
    let mut r = b.as_slice();
    let h: std::io::Result<Header> = r.deserialize_header();
    match h {
        Ok(_) if !r.is_empty() => { println!("{} bytes left behind the header", r.len()); std::process::exit(1) }
        Ok(Header::Tuple(v)) if v.len() == %d && v.iter().all(|h| *h == Header::%s) => println!("ok"),
        Ok(Header::Tuple(v)) => { println!("the header is a tuple of {} entries, expected %d", v.len()); std::process::exit(1) }
        r => { println!("the header decodes as {:?}", r.map(|_| "another header")); std::process::exit(1) }
    }
}
'''


def wide_check(tier, seed, extra):
    """Field counts whose encoding takes three bytes: header-only programs, built apart (they take seconds to compile)."""
    counts = [16384 + seed % 3] if tier == "quick" else [16383, 16384, 16385 + seed % 500]
    for n in counts:
        dest = f"{WORK}/p/wide"
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest + "/src")
        t, h = [("()", "Unit"), ("bool", "Boolean"), ("u8", "UInt8")][(seed + n) % 3]
        with open(dest + "/src/main.rs", "w") as f:
            f.write(WIDE % (", ".join([t] * n), n, h, n))
        with open(dest + "/Cargo.toml", "w") as f:
            f.write('[package]\nname = "dlhn_wide"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\ndlhn = { path = "/repo/dlhn" }\n'
                    '\n[profile.release]\nopt-level = 2\ndebug = 1\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n\n[profile.release.package.dlhn_wide]\nopt-level = 0\ndebug = 0\ncodegen-units = 16\n')
        shutil.copy(f"{ROOT}/harness/Cargo.lock", dest + "/Cargo.lock")
        out = cargo(["build", "-q", "--release"], dest, "wide")
        if out is not None:
            with open(dest + "/src/main.rs", "w") as f:
                f.write(WIDE % (", ".join([t] * 3), 3, h, 3))
            small = cargo(["build", "-q", "--release"], dest, "wide")
            if small is None and "could not compile `dlhn_wide`" in out and "signal" not in out:
                say(f"C20: a struct with {n} fields does not compile:\n{errors_of(out)[:1500]}")
                path = write_replay("C20", f"{seed}-wide", dict(kind="wide", count=n, seed=seed, message="does not compile"))
                say(f"VIOLATION property=C20 replay={path}")
                return 1
            raise NoVerdict("the wide program does not build:\n" + errors_of(out))
        p = subprocess.run([f"{TARGET}/release/dlhn_wide"], stdout=subprocess.PIPE, text=True)
        extra["evaluations"] = extra.get("evaluations", 0) + 1
        extra.setdefault("widest_struct_checked", 0)
        extra["widest_struct_checked"] = max(extra["widest_struct_checked"], n)
        if p.returncode != 0:
            say(f"C20: derived header of a tuple struct with {n} fields: {p.stdout.strip()}")
            path = write_replay("C20", f"{seed}-wide", dict(kind="wide", count=n, seed=seed, message=p.stdout.strip()))
            say(f"VIOLATION property=C20 replay={path}")
            return 1
    return 0


SNIPPET_TOML = '''[package]
name = "dlhn_refused"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
dlhn = { path = "/repo/dlhn" }

[profile.release]
opt-level = 2
debug = 1
debug-assertions = true
overflow-checks = true
incremental = false
'''


def refused_check(tier, seed, extra):
    """Programs the derive must not accept, each next to the same program without what makes it unacceptable."""
    dest = f"{WORK}/p/refused"
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest + "/src")
    pairs = progen.refused(seed, 42 if tier == "quick" else 400)
    with open(dest + "/Cargo.toml", "w") as f:
        f.write(SNIPPET_TOML)
    with open(dest + "/src/main.rs", "w") as f:
        f.write("use dlhn::SerializeHeader;\n#[derive(SerializeHeader)] pub struct S;\nfn main() { let _ = S::serialize_header(&mut Vec::new()); }\n")
    shutil.copy(f"{ROOT}/harness/Cargo.lock", dest + "/Cargo.lock")
    p = subprocess.run(["cargo", "rustc", "--offline", "--release", "--message-format=json", "-q"], cwd=dest, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise NoVerdict("the derive does not build:\n" + p.stderr[-2000:])
    lib = None
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "dlhn":
            lib = [x for x in d["filenames"] if x.endswith(".rlib")][0]
    if not lib:
        raise NoVerdict("the build reports no dlhn library")

    def compiles(job):
        i, which, src = job
        path = f"{dest}/{i}{which}.rs"
        with open(path, "w") as f:
            f.write(src)
        p = subprocess.run(["rustc", "--edition", "2021", "--emit=metadata", "--crate-type", "bin", "-A", "warnings", "--extern", f"dlhn={lib}", "-L", f"dependency={TARGET}/release/deps", "-o", f"{dest}/{i}{which}.rmeta", path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout
    jobs = []
    for i, (nm, bad, good) in enumerate(pairs):
        jobs += [(i, "bad", bad), (i, "good", good)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compiles, jobs))
    extra["refused_programs"] = len(pairs)
    extra["evaluations"] = extra.get("evaluations", 0) + 2 * len(pairs)
    kinds = {}
    for nm, _, _ in pairs:
        kinds[nm] = kinds.get(nm, 0) + 1
    extra["refused_kinds"] = kinds
    for (i, which, src), (ok, out) in zip(jobs, res):
        if ok == (which == "good"):
            continue
        if which == "good":
            msg = f"a supported type is refused ({pairs[i][0]})"
        else:
            msg = f"the derive accepts what no header can describe ({pairs[i][0]})"
        path = write_replay("C20", f"{seed}-refused-{i}", dict(kind="refused", which=which, message=msg, source=src, output=out[:2000]))
        say(f"C20: {msg}:\n{src}{out[:800]}")
        say(f"VIOLATION property=C20 replay={path}")
        return 1
    return 0


# ---------------------------------------------------------------- C22: selections of features

def build_selections(only=None):
    dest = f"{WORK}/p/c22"
    names = features.write_workspace(dest)
    out = cargo(["build", "-q", "--release"], dest, "selections")
    if out is not None:
        out = cargo(["build", "-q", "--release", "--keep-going"], dest, "selections") or ""
    return dest, names, out


def selection(c):
    return "+".join(c) or "none"


def blocks(k, seed, a, b, size):
    p = subprocess.run([f"{TARGET}/release/p{k}", "blocks", str(seed), str(a), str(b), str(size)], stdout=subprocess.PIPE, text=True)
    r = {}
    for l in p.stdout.splitlines():
        f = l.split()
        r[int(f[0])] = (int(f[1]), dict(x.split("=") for x in f[2:]))
    return p.returncode, r


def tape_lanes(k, tape, tmp):
    with open(tmp, "w") as f:
        f.write(tape.hex())
    try:
        p = subprocess.run([f"{TARGET}/release/p{k}", "tape", tmp], stdout=subprocess.PIPE, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return "hang", {}
    r = {}
    for l in p.stdout.splitlines():
        n, h, t = (l.split(" ", 2) + [""])[:3]
        r[n] = (h, t)
    return p.returncode, r


def differs(k, tape, tmp):
    ca, a = tape_lanes(0, tape, tmp)
    cb, b = tape_lanes(k, tape, tmp)
    if ca != cb:
        return "process", f"ends with {ca}", f"ends with {cb}"
    for n in b:
        if n in a and a[n][0] != b[n][0]:
            return n, a[n][1], b[n][1]
    return None


def shrink_tape(tape, fails, limit):
    t0 = time.time()
    size = max(1, len(tape) // 2)
    while size and time.time() - t0 < limit:
        i, changed = 0, False
        while i < len(tape) and time.time() - t0 < limit:
            c = tape[:i] + tape[i + size:]
            if fails(c):
                tape, changed = c, True
                continue
            z = tape[:i] + bytes(min(size, len(tape) - i)) + tape[i + size:]
            if z != tape and fails(z):
                tape = z
                changed = True
            i += size
        if not changed or size > 1:
            size //= 2
    return tape


def c22(tier, seed, cases):
    t0 = time.time()
    dest, names, out = build_selections()
    ev = dict(property="C22", tier=tier, seed=seed, level="exploration",
              assumptions=["cases are compared between builds of the same sources with the same dependency versions"], violations=0)
    combos = features.combos()
    rule = ("case: a generated value, body, header or hostile input (typed, dynamic, wrapper, adapter, conversion, derived header) put through a build of each of the 32 selections of the five optional features and compared with the full build, "
            "per lane of types the selection has; also every selection compiles on its own. Non-trivial: composite types and inputs of more than one byte; distinct by block position")
    if out is not None:
        bad = sorted(set(int(x) for x in re.findall(r"could not compile `(?:dlhn_l|p)(\d+)`", out)))
        if not bad or 0 in bad:
            raise NoVerdict("the full selection does not build:\n" + errors_of(out))
        msg = "selections that do not compile: " + ", ".join(selection(combos[k]) for k in bad)
        ev["coverage"] = dict(evaluations=32, distinct_nontrivial=32 - len(bad), rule=rule, samples=[msg])
        ev["violations"], ev["wall_s"] = 1, round(time.time() - t0, 2)
        write_evidence("C22", ev)
        path = write_replay("C22", f"{seed}-build", dict(kind="build", selections=[selection(combos[k]) for k in bad], message=msg, errors=errors_of(out)))
        say(f"C22: {msg}\n{errors_of(out)[:1500]}")
        say(f"VIOLATION property=C22 replay={path}")
        return 1
    # alone, so that no other selection's dependencies are switched on for it
    alone = 0
    for k in (range(32) if tier == "thorough" else [1 + (seed * 7 + j * 4) % 31 for j in range(8)] + [31]):
        o = cargo(["check", "-q", "-p", f"dlhn_l{k}"], dest, "alone")
        alone += 1
        if o is not None:
            msg = f"the selection {selection(combos[k])} does not compile on its own"
            ev["coverage"] = dict(evaluations=32 + alone, distinct_nontrivial=32 + alone - 1, rule=rule, samples=[msg])
            ev["violations"], ev["wall_s"] = 1, round(time.time() - t0, 2)
            write_evidence("C22", ev)
            path = write_replay("C22", f"{seed}-alone", dict(kind="build", selections=[selection(combos[k])], message=msg, errors=errors_of(o)))
            say(f"C22: {msg}\n{errors_of(o)[:1500]}")
            say(f"VIOLATION property=C22 replay={path}")
            return 1
    n = cases or (100_000 if tier == "quick" else 1_500_000)
    size = 250
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # the cases in four stretches, so that eight processes are busy to the end
        step = (n // 4 + size - 1) // size * size
        jobs = [(k, a, min(a + step, n)) for a in range(0, n, step) for k in range(32)]
        res = list(ex.map(lambda j: (j, blocks(j[0], seed, j[1], j[2], size)), jobs))
    got, ended = {k: {} for k in range(32)}, {}
    for (k, a, b), (rc, r) in res:
        got[k].update(r)
        if rc:
            at = max(r) + size if r else a
            ended[k] = min(ended.get(k, at), at)
            if rc in (-9, -15):
                raise NoVerdict(f"a build of {selection(combos[k])} was killed by the system")
    suspects = []
    for k in range(1, 32):
        for at in sorted(got[0]):
            if at not in got[k]:
                continue
            full, mine = got[0][at][1], got[k][at][1]
            if any(l in full and full[l] != mine[l] for l in mine):
                suspects.append((at, k))
                break
    if set(ended) == set(range(32)) and len(set(ended.values())) == 1:
        raise NoVerdict(f"every build dies on the cases from {ended[0]}")
    for k, at in ended.items():
        suspects.append((at, k if k else 1))
    lanes = {}
    for k in range(1, 32):
        for at in got[k]:
            for l in got[k][at][1]:
                lanes[l] = lanes.get(l, 0) + 1
    nt = sum(x[0] for x in got[0].values())
    ran = sum(min(size, n - at) for k in range(32) for at in got[k])
    samples = []
    for i in (0, n // 3, n // 2, n - 1):
        p = subprocess.run([f"{TARGET}/release/p0", "show", str(seed), str(i)], stdout=subprocess.PIPE, text=True, errors="replace")
        samples.append(f"case {i}: {p.stdout.strip()[:1200]}")
    ev["coverage"] = dict(evaluations=ran, distinct_nontrivial=nt, rule=rule, cases=n, selections=32, selections_compiled=32, compiled_alone=alone,
                          blocks_compared_per_lane=lanes, samples=samples)
    code = 0
    if suspects:
        at, k = min(suspects)
        tmp = f"{WORK}/c22-tape"
        found = None
        for i in range(at, min(at + size, n)):
            p = subprocess.run([f"{TARGET}/release/p0", "draw", str(seed), str(i)], stdout=subprocess.PIPE, text=True)
            if p.returncode:
                p = subprocess.run([f"{TARGET}/release/p{k}", "draw", str(seed), str(i)], stdout=subprocess.PIPE, text=True)
            if p.returncode:
                continue
            tape = bytes.fromhex(p.stdout.strip())
            if differs(k, tape, tmp):
                found = (i, tape)
                break
        if not found:
            raise NoVerdict(f"block {at} of {selection(combos[k])} differs from the full build, but no case of it does")
        i, tape = found
        tape = shrink_tape(tape, lambda c: differs(k, c, tmp) is not None, 60)
        lane, full, mine = differs(k, tape, tmp)
        msg = f"built with {selection(combos[k])}: {mine[:700]}\nbuilt with everything: {full[:700]}"
        path = write_replay("C22", f"{seed}-{i}", dict(kind="selection", selection=k, features=combos[k], lane=lane, seed=seed, index=i, tape=tape.hex(), message=msg))
        say(f"C22: case {i} ({lane}): {msg}")
        say(f"VIOLATION property=C22 replay={path}")
        code = 1
    ev["violations"], ev["wall_s"] = code, round(time.time() - t0, 2)
    write_evidence("C22", ev)
    if not code:
        say(f"C22: held on {ran} evaluations ({n} cases in 32 builds, {nt} non-trivial), {ev['wall_s']} s")
    return code


# ---------------------------------------------------------------- replay

def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid, kind = d["property"], d.get("kind")
    offer_literals(d.get("literals"))
    if pid == "C22":
        dest, names, out = build_selections()
        if kind == "build" or out is not None:
            say("does not compile:\n" + errors_of(out) if out else "every selection compiles")
            bad = out is not None
        else:
            x = differs(d["selection"], bytes.fromhex(d["tape"]), f"{WORK}/c22-tape")
            bad = x is not None
            say(f"{x[0]}\nfull build: {x[1]}\n{selection(d['features'])}: {x[2]}" if x else "no difference")
    elif kind == "wide":
        return wide_check("quick", d["seed"], {})
    elif kind == "refused":
        return refused_replay(d)
    elif kind == "program":
        exe, out = build_program(pid, d["seed"], d["size"], f"{WORK}/p/{pid.lower()}")
        bad = out is not None
        say(errors_of(out) if out else "the program compiles")
    else:
        if "program" in d:
            exe, out = build_program(pid, d["program"]["seed"], d["program"]["size"], f"{WORK}/p/{pid.lower()}")
            if out is not None:
                raise NoVerdict(errors_of(out))
        else:
            exe = build_harness()
        try:
            p = subprocess.run([exe, "replay", path], env=ENV, timeout=300)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            say("the operation does not finish")
            rc = 1
        if rc in (0, 2):
            return rc
        bad = True
    if bad:
        say(f"VIOLATION property={pid} replay={path}")
    return 1 if bad else 0


def refused_replay(d):
    keep = progen.refused
    progen.refused = lambda seed, n: [("replayed", d["source"] if d["which"] == "bad" else "compile_error!();", d["source"] if d["which"] == "good" else "fn main() {}")]
    try:
        return refused_check("quick", 0, {})
    finally:
        progen.refused = keep


# ---------------------------------------------------------------- command line

def main(a):
    if not a:
        print(__doc__)
        return 2
    os.makedirs(WORK + "/p", exist_ok=True)
    # one at a time: the generated crates and the build directory are shared
    lock = open(WORK + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a[0] == "setup":
        build_harness()
        return 0
    if a[0] == "replay":
        return replay(os.path.abspath(a[1]))
    pid = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cases = None
    i = 1
    while i + 1 < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--cases":
            cases = int(a[i + 1])
        else:
            raise NoVerdict("unknown option " + a[i])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if os.path.exists(evidence(pid)):
        os.remove(evidence(pid))
    offer_literals()
    if pid in ("C20", "C21"):
        return program_check(pid, tier, seed, cases)
    if pid == "C22":
        return c22(tier, seed, cases)
    exe = build_harness()
    code, out = run_check(exe, pid, tier, seed, cases)
    sys.stdout.write(out)
    sys.stdout.flush()
    if code == 0 and tier == "thorough" and cases is None:
        code, g = guided(exe, pid, seed, int(os.environ.get("VERIF_GUIDED") or 240))
        e = read_evidence(pid)
        e["coverage"]["coverage_guided"] = g
        e["violations"] = code
        e["wall_s"] = round(e.get("wall_s", 0) + g.get("seconds", 0), 2)
        write_evidence(pid, e)
        if code == 0:
            say(f"{pid}: coverage-guided: {g}")
    return code if code in (0, 1) else 2


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except NoVerdict as e:
        print(f"no verdict: {e}", file=sys.stderr, flush=True)
        code = 2
    sys.exit(code)
