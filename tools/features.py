"""C22: builds of dlhn with every selection of features, side by side in one workspace."""
import itertools, os, re, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FEATURES = ["time", "num-traits", "num-bigint", "bigdecimal", "dlhn_derive"]
REPO = "/repo"


def combos():
    out = []
    for n in range(len(FEATURES), -1, -1):
        out += [list(c) for c in itertools.combinations(FEATURES, n)]
    return out


def section(toml, name):
    m = re.search(r"^\[%s\]\n(.*?)(?=^\[|\Z)" % re.escape(name), toml, re.S | re.M)
    return m.group(1) if m else ""


def write_workspace(dest):
    """One copy of the package per selection (same sources, other default features), one program on top of each."""
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    toml = open(f"{REPO}/dlhn/Cargo.toml").read()
    deps = section(toml, "dependencies").replace('path = "../', f'path = "{REPO}/')
    edition = re.search(r'^edition = "(\d+)"', toml, re.M).group(1)
    declared = {}
    for l in section(toml, "features").splitlines():
        m = re.match(r"\s*([\w-]+)\s*=", l)
        if m and m.group(1) != "default":
            declared[m.group(1)] = l
    extra = "\n".join(declared.values())
    members, names = [], []
    src = open(f"{ROOT}/programs/c22.rs").read().replace("@HARNESS@", f"{ROOT}/harness/src")
    os.makedirs(f"{dest}/src")
    with open(f"{dest}/src/main.rs", "w") as f:
        f.write(src)
    for k, c in enumerate(combos()):
        names.append((f"p{k}", c))
        q = ", ".join(f'"{x}"' for x in c)
        os.makedirs(f"{dest}/l{k}")
        with open(f"{dest}/l{k}/Cargo.toml", "w") as f:
            f.write(f'[package]\nname = "dlhn_l{k}"\nversion = "0.1.7"\nedition = "{edition}"\n\n[lib]\nname = "dlhn"\npath = "{REPO}/dlhn/src/lib.rs"\n\n'
                    f'[features]\ndefault = [{q}]\n{extra}\n\n[dependencies]\n{deps}\n')
        os.makedirs(f"{dest}/p{k}")
        opt = ""
        if "num-bigint" in c:
            opt += 'num-bigint = "0.4"\n'
        if "bigdecimal" in c:
            opt += 'bigdecimal = "0.3"\n'
        if "time" in c:
            opt += 'time = "0.3"\n'
        with open(f"{dest}/p{k}/Cargo.toml", "w") as f:
            fs = "\n".join(f'f_{x} = []' for x in [])
            f.write(f'[package]\nname = "p{k}"\nversion = "0.1.0"\nedition = "2021"\nbuild = false\n\n[[bin]]\nname = "p{k}"\npath = "{dest}/p{k}/main.rs"\n\n'
                    f'[dependencies]\ndlhn = {{ package = "dlhn_l{k}", path = "../l{k}" }}\nserde = {{ version = "1", features = ["derive"] }}\nserde_bytes = "0.11"\n{opt}\n'
                    f'[features]\ndefault = [{", ".join(chr(34) + "on-" + x + chr(34) for x in c)}]\n' + "\n".join(f"on-{x} = []" for x in FEATURES) + "\n")
        s = src
        for x in FEATURES:
            s = s.replace(f'feature = "{x}"', f'feature = "on-{x}"')
        with open(f"{dest}/p{k}/main.rs", "w") as f:
            f.write(s)
        members += [f'"l{k}"', f'"p{k}"']
    shutil.rmtree(f"{dest}/src")
    with open(f"{dest}/Cargo.toml", "w") as f:
        f.write(f'[workspace]\nresolver = "2"\nmembers = [{", ".join(members)}]\n\n[profile.release]\nopt-level = 1\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n')
    shutil.copy(f"{ROOT}/harness/Cargo.lock", f"{dest}/Cargo.lock")
    return names
