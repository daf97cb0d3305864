"""Builds the symbolic executor and the harness, and extracts the LLVM IR of the code under test
from /repo's current working tree."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TC = "stable-x86_64-unknown-linux-gnu"
HOME = os.path.expanduser("~")
BIN = f"{HOME}/.rustup/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu/bin"

# Functions the executor replaces or wants to see as calls.
KEEP = [
    r"^vh_(?!compiled)",
    r"4core9panicking",
    r"3std9panicking",
    r"5ruint10algorithms3div11div_inlined",
    r"BuildHasher.*8hash_one",
    r"16alloy_primitives5utils14keccak256_impl",
    r"^_RNvM.*5ruint3powINtB4_4UintKj100_Kj4_E12wrapping_pow",
    r"^_RNvM.*5ruint3mulINtB4_4UintKj100_Kj4_E12wrapping_mul",
    r"^_RNvM.*5ruint3addINtB4_4UintKj100_Kj4_E12wrapping_(add|sub|neg)",
    r"^_RNvM.*5ruint7modularINtB4_4UintKj100_Kj4_E(7add_mod|7mul_mod|10reduce_mod|14mul_mod_by_ref)",
]


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("VERIF_SEED", None)
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit(f"build step failed ({r.returncode}): {' '.join(cmd[:6])}")
    return r.stdout


def build_engine():
    d = os.path.join(OUT, "symex")
    run(["cargo", "build", "--release", "--offline", "--target-dir", d],
        cwd=os.path.join(VERIF, "symex"), env=env())
    return os.path.join(d, "release", "symex")


def stub(src, dst, pats):
    """Turns the functions that the executor replaces into declarations, so that the optimiser
    neither inlines them nor changes their signatures."""
    out = open(dst, "w")
    skip = False
    seen = set()
    name_re = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
    for line in open(src):
        if skip:
            if line == "}\n":
                skip = False
            continue
        if line.startswith("define "):
            m = name_re.search(line)
            name = m.group(1)
            if any(p.search(name) for p in pats):
                skip = True
                if name in seen:
                    continue
                seen.add(name)
                # Up to the parenthesis that closes the parameters.
                i, depth = m.end(), 1
                while depth:
                    depth += {"(": 1, ")": -1}.get(line[i], 0)
                    i += 1
                head = re.sub(r"^define (internal |private |hidden |dso_local )*", "declare ", line[:i])
                out.write(head + "\n")
                continue
            if name.startswith("vh_"):
                pass
        out.write(line)
    out.close()


def put(path, data):
    """Writes a file if that changes it: cargo looks at the time."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)


def crate_dir(name):
    """The harness crate; the one for the runtime is put together with the runtime's source."""
    src = os.path.join(VERIF, name)
    if name not in ("rt", "evm"):
        return src
    d = os.path.join(OUT, name + "-crate")
    want = {}
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(src, f)):
            want[f] = open(os.path.join(src, f), "rb").read()
    for f in os.listdir(os.path.join(src, "src")):
        want["src/" + f] = open(os.path.join(src, "src", f), "rb").read()
    want["src/sym.rs"] = open(os.path.join(VERIF, "harness", "src", "sym.rs"), "rb").read()
    top = "/repo/crates/revmc-runtime/src"
    base = top + "/runtime"
    mods = re.findall(r"^\s*(?:pub(?:\([^)]*\))?\s+)?mod (\w+);", open(top + "/lib.rs").read(), re.M)
    mods = [m for m in mods if m not in ("runtime", "revm_evm", "alloy_evm")]
    take = mods
    if name == "evm":
        want["src/ir.rs"] = open(os.path.join(VERIF, "harness", "src", "ir.rs"), "rb").read()
        take = mods + ["revm_evm", "alloy_evm"]
    for root, _, files in os.walk(top):
        for f in files:
            r = os.path.relpath(os.path.join(root, f), top)
            if re.split(r"[/.]", r)[0] in take:
                want["src/" + r] = open(os.path.join(root, f), "rb").read()
    want["src/main.rs"] += "".join(f"mod {m};\n" for m in mods).encode()
    for root, _, files in os.walk(base) if name == "rt" else ():
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read()
                t = re.sub(r"(?<![\w:])(::)?std::", "crate::vstd::", t)
                # The helper process is left out, as where there is none.
                t = re.sub(r"#\[cfg\([^\]]*\)\]", lambda m: re.sub(r"\bunix\b", "any()", m.group(0)), t)
                want["src/runtime/" + os.path.relpath(p, base)] = t.encode()
    for root, _, files in os.walk(os.path.join(d, "src")):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, d) not in want:
                os.unlink(p)
    for f, data in want.items():
        put(os.path.join(d, f), data)
    return d


def crate_name(name):
    t = open(os.path.join(VERIF, name, "Cargo.toml")).read()
    return re.search(r'^name = "(.*)"', t, re.M).group(1)


def collect(d):
    """Bitcode files among the linker's inputs; the standard library's is embedded in its objects."""
    out = []
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith(".rlib"):
            x = p + ".x"
            os.makedirs(x)
            run([f"{BIN}/llvm-ar", "x", "--output", x, p])
            for o in sorted(os.listdir(x)):
                if o.endswith(".o"):
                    out.append(os.path.join(x, o))
        elif f.endswith(".o"):
            out.append(p)
    bcs = []
    for o in out:
        with open(o, "rb") as f:
            magic = f.read(4)
        if magic == b"BC\xc0\xde":
            bcs.append(o)
        elif magic == b"\x7fELF":
            b = o + ".bc"
            subprocess.run([f"{BIN}/llvm-objcopy", f"--dump-section=.llvmbc={b}", o, "/dev/null"],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(b) and os.path.getsize(b):
                bcs.append(b)
    return bcs


def build_harness(name="harness", extra_keep=(), features=()):
    """Compiles the harness and /repo's crates to one LLVM module; returns the .ll file."""
    d = os.path.join(OUT, name)
    objs = os.path.join(d, "objs")
    stamp = os.path.join(d, "linked")
    e = env()
    e["FAKELD_OUT"] = objs
    # Another linker than the real one: only the bitcode is wanted.
    e["RUSTFLAGS"] = f"-C linker-plugin-lto -C linker={VERIF}/vlib/fakeld -C no-prepopulate-passes"
    e["CARGO_PROFILE_RELEASE_LTO"] = "off"
    e["CARGO_TARGET_DIR"] = d
    cmd = ["cargo", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"]
    if features:
        cmd += ["--features", ",".join(features)]
    crate = crate_dir(name)
    shutil.rmtree(objs, ignore_errors=True)
    run(cmd, cwd=crate, env=e)
    me = open(os.path.abspath(__file__), "rb").read()
    if not os.path.isdir(objs):
        # Cargo found nothing to do: the last module is current.
        ll = open(stamp).read().split("\n")
        if ll[1] == hashlib.sha256(me).hexdigest() and os.path.exists(ll[0]):
            return ll[0]
        # Link again.
        for f in glob.glob(os.path.join(d, "x86_64-unknown-linux-gnu", "release", "deps", crate_name(name) + "-*")):
            os.unlink(f)
        shutil.rmtree(os.path.join(d, "x86_64-unknown-linux-gnu", "release", ".fingerprint"), ignore_errors=True)
        run(cmd, cwd=crate, env=e)
    if os.path.exists(stamp):
        os.unlink(stamp)
    bcs = collect(objs)
    bc, t1, t2 = (os.path.join(d, x) for x in ("all.bc", "t1.ll", "t2.ll"))
    run([f"{BIN}/llvm-link", "--suppress-warnings", "-o", bc] + bcs)
    shutil.rmtree(objs)
    ll = os.path.join(d, f"{name}.ll")
    run([f"{BIN}/opt", "-passes=internalize,globaldce", "-strip-debug", "-S",
         "-internalize-public-api-list=h_*,vh_*,main", bc, "-o", t1])
    stub(t1, t2, [re.compile(k) for k in list(KEEP) + list(extra_keep)])
    run([f"{BIN}/opt", "-passes=default<O2>,globaldce", "-S",
         "-vectorize-loops=false", "-vectorize-slp=false", t2, "-o", ll])
    for f in (bc, t1, t2):
        os.unlink(f)
    with open(stamp, "w") as f:
        f.write(ll + "\n" + hashlib.sha256(me).hexdigest())
    return ll


def build_native(name="harness", features=()):
    """The harness as an ordinary program, for replays."""
    d = os.path.join(OUT, name + "-native")
    e = env()
    e["CARGO_TARGET_DIR"] = d
    e["CARGO_PROFILE_RELEASE_LTO"] = "off"
    e["RUSTFLAGS"] = "--cfg vnative"
    cmd = ["cargo", "build", "--release", "--offline"]
    if features:
        cmd += ["--features", ",".join(features)]
    crate = crate_dir(name)
    run(cmd, cwd=crate, env=e)
    return os.path.join(d, "release", crate_name(name))


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


if __name__ == "__main__":
    t = time.time()
    with Lock():
        if "engine" in sys.argv[1:] or len(sys.argv) == 1:
            print(build_engine(), round(time.time() - t, 1))
        if "harness" in sys.argv[1:] or len(sys.argv) == 1:
            print(build_harness(), round(time.time() - t, 1))
        if "native" in sys.argv[1:]:
            print(build_native(), round(time.time() - t, 1))
        for x in ("rt", "evm"):
            if x in sys.argv[1:]:
                print(build_native(x), round(time.time() - t, 1))
                print(build_harness(x), round(time.time() - t, 1))
