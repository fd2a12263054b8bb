"""Fact base: keeps per-crate MIR facts in sync with /repo's current source and serves them lazily.

A crate's facts are keyed by the content hash of its directory.  When the hash differs from the one
recorded at setup, the fact extractor (a rustc driver) re-analyses that crate from the current
source with the compiler arguments recorded by cargo; if that does not compile on its own (an
upstream crate changed its interface), or a build script / manifest / proc-macro changed, the whole
workspace is re-checked under cargo.
"""
import atexit
import hashlib, json, os, subprocess, sys, fcntl, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SAIL_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
FACTS = os.path.join(TARGET, "facts")
DRIVER_SRC = os.path.join(VERIF, "engine", "driver")
DRIVER = os.path.join(TARGET, "driver", "release", "sail-facts")
CHECK = os.path.join(TARGET, "check")
GLOBAL_FILES = ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml", ".cargo/config.toml"]
MACRO_CRATES = {"sail_sql_macro", "sail_build_scripts"}


class FactsError(Exception):
    pass


def crate_dirs():
    base = os.path.join(REPO, "crates")
    out = {}
    for d in sorted(os.listdir(base)):
        if os.path.isfile(os.path.join(base, d, "Cargo.toml")):
            out[d.replace("-", "_")] = os.path.join(base, d)
    return out


def hash_tree(d):
    src, other = hashlib.sha256(), hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "benches", "examples"))
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, d)
            try:
                data = open(p, "rb").read()
            except OSError:
                continue
            h = hashlib.sha256(data).digest()
            h2 = src if rel.startswith("src/") and rel.endswith(".rs") else other
            h2.update(rel.encode() + b"\0" + h)
    return {"src": src.hexdigest(), "other": other.hexdigest()}


def repo_hashes():
    out = {n: hash_tree(d) for n, d in crate_dirs().items()}
    g = hashlib.sha256()
    for f in GLOBAL_FILES:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            g.update(open(p, "rb").read())
    out["<global>"] = {"src": g.hexdigest(), "other": ""}
    return out


def _sysroot_lib():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip() + "/lib"


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "driver"))
    for k in list(env):
        if k.startswith("RUSTC"):
            env.pop(k)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER_SRC, env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise FactsError("building the fact extractor failed:\n" + r.stderr[-4000:])


def cargo_env():
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=_sysroot_lib(), SAIL_FACTS_DIR=FACTS, RUSTC_WORKSPACE_WRAPPER=DRIVER,
               CARGO_TARGET_DIR=CHECK, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
               PYO3_PYTHON="/usr/bin/python3.12")
    env.pop("SAIL_FACTS_STOP", None)
    return env


def full_check():
    os.makedirs(FACTS, exist_ok=True)
    if not os.path.exists(DRIVER):
        build_driver()
    r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--lib", "--offline", "--locked"],
                       cwd=REPO, env=cargo_env(), capture_output=True, text=True)
    if r.returncode:
        raise FactsError("cargo check of the workspace failed:\n" + r.stderr[-4000:])


def direct(crate, outdir):
    c = json.load(open(os.path.join(FACTS, crate + ".cmd")))
    env = dict(os.environ)
    env.update(c["env"])
    env.pop("CARGO_MAKEFLAGS", None)
    env.update(SAIL_FACTS_STOP="1", SAIL_FACTS_DIR=outdir, LD_LIBRARY_PATH=_sysroot_lib())
    r = subprocess.run([DRIVER] + c["args"][1:], cwd=c["cwd"], env=env, capture_output=True, text=True)
    ok = r.returncode == 0 and os.path.exists(os.path.join(outdir, crate + ".meta"))
    return ok, r.stderr


def setup():
    os.makedirs(TARGET, exist_ok=True)
    build_driver()
    # force a fresh record of every crate
    if os.path.isdir(FACTS):
        missing = [n for n in crate_dirs() if not os.path.exists(os.path.join(FACTS, n + ".cmd"))]
    else:
        missing = ["*"]
    stamp = os.path.join(FACTS, "hashes.json")
    h = repo_hashes()
    drv = hashlib.sha256(open(os.path.join(DRIVER_SRC, "src", "main.rs"), "rb").read()).hexdigest()
    old = {}
    if os.path.exists(stamp):
        old = json.load(open(stamp))
    if missing or old.get("<driver>") != drv:
        # invalidate workspace crates so that the wrapper runs on each of them
        fp = os.path.join(CHECK, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("sail-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        bd = os.path.join(CHECK, "debug", "build")
        if os.path.isdir(bd):
            for d in os.listdir(bd):
                if d.startswith("sail-"):
                    shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
    full_check()
    miss = [n for n in crate_dirs() if not os.path.exists(os.path.join(FACTS, n + ".meta"))]
    if miss:
        raise FactsError("no facts for crates: " + ", ".join(miss))
    h["<driver>"] = drv
    with open(stamp + ".tmp", "w") as f:
        json.dump(h, f)
    os.rename(stamp + ".tmp", stamp)


FRESH = False


def ensure(crates):
    """Returns {crate: directory holding its up-to-date facts} and a report of what was re-analysed."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp = os.path.join(FACTS, "hashes.json")
        if not os.path.exists(stamp) or not os.path.exists(DRIVER):
            setup()
        old = json.load(open(stamp))
        now = repo_hashes()
        changed = [n for n in now if old.get(n) != now[n]]
        if not changed and not FRESH:
            return {c: FACTS for c in crates}, []
        heavy = [n for n in changed if n == "<global>" or n in MACRO_CRATES or old.get(n, {}).get("other") != now[n]["other"]]
        relevant = [n for n in changed if n in crates]
        if FRESH and not heavy:
            # thorough tier: extract the facts of every crate the property reads anew
            dirs = {}
            for n in crates:
                side = os.path.join(TARGET, "side", f"{n}-fresh-{os.getpid()}")
                os.makedirs(side, exist_ok=True)
                atexit.register(shutil.rmtree, side, True)
                ok, err = direct(n, side)
                if not ok:
                    raise FactsError(f"no facts for {n}:\n" + err[-3000:])
                dirs[n] = side
            return dirs, list(crates)
        if not heavy:
            if not relevant:
                return {c: FACTS for c in crates}, []
            # side directory keyed by content so that repeated checks reuse it
            dirs = {c: FACTS for c in crates}
            okall = True
            for n in relevant:
                side = os.path.join(TARGET, "side", n + "-" + now[n]["src"][:24])
                if not os.path.exists(os.path.join(side, n + ".meta")):
                    os.makedirs(side, exist_ok=True)
                    ok, err = direct(n, side)
                    if not ok:
                        shutil.rmtree(side, ignore_errors=True)
                        okall = False
                        break
                dirs[n] = side
            if okall:
                prune_side()
                return dirs, relevant
        # until the check has passed, the recorded facts are not those of any tree
        os.remove(stamp)
        full_check()
        now["<driver>"] = old.get("<driver>")
        with open(stamp + ".tmp", "w") as f:
            json.dump(now, f)
        os.rename(stamp + ".tmp", stamp)
        return {c: FACTS for c in crates}, [n for n in changed]
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def prune_side(keep=40):
    base = os.path.join(TARGET, "side")
    ds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)
