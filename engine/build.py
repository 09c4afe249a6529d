"""Builds, from /repo's current working tree:

  build/<variant>/sym   - instrumented (symbolic) executable of harness + upppp_rust + std
  build/<variant>/nat   - un-instrumented executable of the very same LLVM IR (for replays)

Steps: mirror /repo/src (the modules that need hdf5/plotly/vtkio, which cannot be fetched, are
left out, as /opt/vp does) -> rustc -C lto=fat --emit=llvm-ir -> opt (dead-code removal,
scalarizer) -> instrument.py -> llc -> link with rt.cpp.  Every stage is keyed on a content hash,
so an unchanged tree costs nothing and any change of the tree rebuilds."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("UP4_REPO", "/repo")
BUILD = os.environ.get("UP4_BUILD", os.path.join(VERIF, "build"))
TC = "stable-x86_64-unknown-linux-gnu"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"

# what is left out of the mirror: "core" as in /opt/vp; "data" has the HDF5 datasets, converters and plots, with
# stand-ins (stubs/) for the crates that cannot be fetched
DROP = {
    "core": {"src/lib.rs": ["plotly", "converter", "plotting", "pylib"], "src/datamanager.rs": ["pdata", "tdata"]},
    "data": {"src/lib.rs": ["pylib"]},
    "py": {},
}
SKIP = {
    "core": ("src/main.rs", "src/converter", "src/plotting", "src/pylib",
             "src/datamanager/pdata.rs", "src/datamanager/tdata.rs"),
    "data": ("src/main.rs", "src/pylib"),
    "py": ("src/main.rs",),
}
STUBS = {"core": (), "data": ("hdf5", "vtkio", "ndarray-csv", "plotly"), "py": ("hdf5", "vtkio", "ndarray-csv", "plotly")}
# the Python layer runs in the interpreter (and numpy) that is installed here
NUMPY = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def place(variant):
    return BUILD if variant == "core" else os.path.join(BUILD, variant)


def env(variant="core"):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["PYO3_PYTHON"] = "/usr/bin/python3"
    e["CARGO_TARGET_DIR"] = os.path.join(place(variant), "target")
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        raise SystemExit(f"build step failed ({r.returncode}): {' '.join(cmd)[:300]}  (log: {log})")


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path, encoding="utf-8", newline="") as f:
            if f.read() == text:
                return
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def mirror(variant):
    dst = os.path.join(place(variant), "mirror")

    def get(rel):
        with open(os.path.join(REPO, rel), encoding="utf-8", newline="") as f:
            return f.read()
    toml = get("Cargo.toml")
    for s in STUBS[variant]:
        toml = re.sub(rf"^{s}\s*=.*$", f'{s} = {{ path = "{VERIF}/stubs/{s}" }}', toml, flags=re.M)
    if variant == "py":  # an interpreter in the process, not an extension module that is loaded by one
        toml = re.sub(r"^(pyo3\s*=.*?)\s*,\s*features\s*=\s*\[\s*\"extension-module\"\s*\]", r"\1", toml, flags=re.M)
    put(os.path.join(dst, "Cargo.toml"), re.sub(r"^([\w-]+\s*=.*\bgit\s*=)", r"# \1", toml, flags=re.M))
    kept = set()
    for top, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:
            rel = os.path.relpath(os.path.join(top, name), REPO)
            if not name.endswith(".rs") or rel.startswith(SKIP[variant]):
                continue
            text = get(rel)
            for mod in DROP[variant].get(rel, ()):
                text = re.sub(
                    rf"^((?:pub )?(?:mod {mod};|use {mod}::[^;\n]*;|extern crate {mod};))",
                    r"// \1", text, flags=re.M)
            put(os.path.join(dst, rel), text)
            kept.add(rel)
    if variant == "py":
        for name in os.listdir(os.path.join(REPO, "up4")):
            if name.endswith(".py"):
                put(os.path.join(dst, "up4", name), get("up4/" + name))
    for top, _, names in os.walk(os.path.join(dst, "src")):
        for name in names:
            p = os.path.join(top, name)
            if os.path.relpath(p, dst) not in kept:
                os.remove(p)
    return dst


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read())
            continue
        for top, dirs, names in sorted(os.walk(root)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "__pycache__"))
            for n in sorted(names):
                p = os.path.join(top, n)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def tools():
    sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()
    return os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_runtime(out, log):
    """rt.o / rt_native.o, keyed on their sources."""
    for n, flags in (("rt", ["-I" + Z3 + "/include"]), ("rt_native", [])):
        src = os.path.join(HERE, n + ".cpp")
        key = hashlib.sha256(open(src, "rb").read()).hexdigest()
        stamp = os.path.join(out, n + ".key")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(os.path.join(out, n + ".o")):
            continue
        run(["g++", "-O2", "-std=c++17", "-w", "-c", src, "-o", os.path.join(out, n + ".o")] + flags, log)
        open(stamp, "w").write(key)


def build(variant="core"):
    base = place(variant)
    os.makedirs(base, exist_ok=True)
    lock = open(os.path.join(base, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(base, "build.log")
    open(log, "w").close()
    out = os.path.join(base, "bin")
    os.makedirs(out, exist_ok=True)
    m = mirror(variant)
    hsrc = os.path.join(VERIF, "harness")
    hdst = os.path.join(base, "harness")
    build_runtime(out, log)
    key = tree_hash(m, os.path.join(hsrc, "src"), os.path.join(hsrc, "Cargo.toml"),
                    *[os.path.join(VERIF, "stubs", s) for s in STUBS[variant]],
                    *[os.path.join(HERE, f) for f in ("build.py", "instrument.py", "rt.cpp", "rt_native.cpp")])
    stamp = os.path.join(out, "key")
    if os.path.exists(stamp) and open(stamp).read() == key and \
            os.path.exists(os.path.join(out, "sym")) and os.path.exists(os.path.join(out, "nat")):
        return out
    if os.path.exists(stamp):
        os.remove(stamp)
    e = env(variant)
    # a copy of the harness crate beside the mirror (so that BUILD can live anywhere)
    if os.path.exists(hdst):
        shutil.rmtree(hdst)
    shutil.copytree(hsrc, hdst, ignore=shutil.ignore_patterns("target"))
    cfg = open(os.path.join(hdst, "Cargo.toml")).read().replace("../build/mirror", m)
    cfg = cfg.replace("[dependencies]", "[dependencies]\n" + "".join(f'{s} = {{ path = "{VERIF}/stubs/{s}" }}\n' for s in STUBS[variant]) +
                      ('colorous = "1.0.5"\n' if "plotly" in STUBS[variant] else "") +
                      ('pyo3 = "0.20.0"\nnumpy = "0.20.0"\n' if variant == "py" else ""))
    open(os.path.join(hdst, "Cargo.toml"), "w").write(cfg)
    if variant != "core" and os.path.exists(os.path.join(hdst, "Cargo.lock")):
        os.remove(os.path.join(hdst, "Cargo.lock"))
        shutil.copy(os.path.join(hsrc, f"Cargo.lock.{variant}"), os.path.join(hdst, "Cargo.lock")) if os.path.exists(
            os.path.join(hsrc, f"Cargo.lock.{variant}")) else None
    os.utime(os.path.join(hdst, "src/main.rs"))
    e["UP4_MIRROR"] = m
    e["UP4_NUMPY"] = NUMPY
    e["RUSTFLAGS"] = f"--cfg up4_verify --cfg variant_{variant} -Awarnings -C debuginfo=0 -C link-arg=-Wl,--unresolved-symbols=ignore-all"
    deps = os.path.join(base, "target/release/deps")
    for f in os.listdir(deps) if os.path.isdir(deps) else []:
        if f.startswith("up4_harness-") and f.endswith(".ll"):
            os.remove(os.path.join(deps, f))
    run(["cargo", "rustc", "--release", "--offline", "--bin", "up4_harness", "--", "--emit=llvm-ir"], log, cwd=hdst, env=e)
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("up4_harness-") and f.endswith(".ll")]
    if len(lls) != 1:
        raise SystemExit(f"expected one merged .ll, found {lls}")
    B = tools()
    raw, red, ll, sll = (os.path.join(out, n) for n in ("raw.bc", "red.bc", "red.ll", "sym.ll"))
    # nat: same IR, no instrumentation
    run([B + "/opt", "-passes=internalize,globaldce,function(scalarizer)", "-internalize-public-api-list=main", lls[0], "-o", red], log)
    run([B + "/llvm-dis", red, "-o", ll], log)
    run([sys.executable, os.path.join(HERE, "instrument.py"), ll, sll, os.path.join(out, "fns.cpp")], log)
    jobs = [
        subprocess.Popen([B + "/llc", "-O1", "--relocation-model=pic", "-filetype=obj", sll, "-o", os.path.join(out, "sym.o")]),
        subprocess.Popen([B + "/llc", "-O1", "--relocation-model=pic", "-filetype=obj", red, "-o", os.path.join(out, "nat.o")]),
        subprocess.Popen(["g++", "-O0", "-w", "-c", os.path.join(out, "fns.cpp"), "-o", os.path.join(out, "fns.o")]),
    ]
    for j in jobs:
        if j.wait() != 0:
            raise SystemExit("llc/g++ failed")
    libs = (["-lpython3.12"] if variant == "py" else []) + ["-lpthread", "-ldl", "-lm", "-lgcc_s", "-lc"]
    run(["g++", "-o", os.path.join(out, "sym"), out + "/sym.o", out + "/fns.o", out + "/rt.o", "-Wl,--gc-sections",
         "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp",
         "-Wl,--unresolved-symbols=ignore-in-object-files"] + libs, log)
    run(["g++", "-o", os.path.join(out, "nat"), out + "/nat.o", out + "/rt_native.o", "-Wl,--gc-sections",
         "-Wl,--unresolved-symbols=ignore-in-object-files"] + libs, log)
    os.remove(lls[0])
    for f in ("sym.ll", "red.ll", "red.bc", "sym.o", "nat.o"):
        p = os.path.join(out, f)
        if os.path.exists(p) and not os.environ.get("UP4_KEEP"):
            os.remove(p)
    open(stamp, "w").write(key)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["core"]:
        print(build(v))
