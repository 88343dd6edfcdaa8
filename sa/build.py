"""Builds the compiler driver and dumps the intermediate representation of the crate in a repository."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
CACHE = os.path.join(HERE, ".cache")
NIGHTLY = "+nightly"


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed (%d)\n%s" % (" ".join(cmd[:4]), r.returncode, r.stdout[-3000:]))
    return r.stdout


def libdir():
    return os.path.join(sh(["rustc", NIGHTLY, "--print", "sysroot"]).strip().split("\n")[-1], "lib")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def tree_hash(root, parts):
    h = hashlib.sha256()
    for p in parts:
        q = os.path.join(root, p)
        if os.path.isfile(q):
            fs = [q]
        else:
            fs = []
            for d, ds, ns in os.walk(q):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:24]


def driver():
    """The compiled driver."""
    with Lock("driver"):
        want = tree_hash(os.path.join(HERE, "driver"), ["src", "Cargo.toml"])
        stamp = os.path.join(BUILD, "driver.hash")
        exe = os.path.join(BUILD, "driver", "debug", "mirdump")
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want):
            sh(["cargo", NIGHTLY, "build", "--offline", "-q"], {"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")},
               os.path.join(HERE, "driver"))
            with open(stamp, "w") as f:
                f.write(want)
        return exe


REPO_PARTS = ["src", "Cargo.toml", "Cargo.lock", "build.rs", "ts"]


def repo_hash(repo):
    return "2" + tree_hash(repo, REPO_PARTS)


def dump(repo, target=None, out=None):
    """Path of the dump of the crate in repo as it is now."""
    exe = driver()
    lock = os.path.join(repo, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    key = repo_hash(repo)
    target = target or os.path.join(BUILD, "check")
    out = out or os.path.join(CACHE, "dump-%s.json" % key)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with Lock("dump-" + hashlib.sha256(target.encode()).hexdigest()[:8]):
        if os.path.exists(out) and out.startswith(CACHE) and os.path.exists(meta(out)):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        env = {"CARGO_TARGET_DIR": target, "LD_LIBRARY_PATH": libdir(), "MIRDUMP_CRATE": "typelalr", "MIRDUMP_OUT": tmp,
               "RUSTC_WORKSPACE_WRAPPER": exe, "CARGO_INCREMENTAL": "0"}
        for base, ds, fs in os.walk(target):
            for d in list(ds):
                if d.startswith("typelalr-") or d == "typelalr":
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
                    ds.remove(d)
            for n in fs:
                if n.startswith(("typelalr-", "libtypelalr-")):
                    os.unlink(os.path.join(base, n))
        t0 = time.time()
        log = sh(["cargo", NIGHTLY, "check", "--lib", "--offline", "--manifest-path", os.path.join(repo, "Cargo.toml")], env)
        if not os.path.exists(tmp):
            raise BuildError("no dump was written\n" + log[-2000:])
        for base, ds, fs in os.walk(target):
            for n in fs:
                if re.match(r"libtypelalr-\w+\.rmeta$", n):
                    shutil.copy(os.path.join(base, n), meta(out))
        with_grammar(tmp, target)
        os.replace(tmp, out)
        if out.startswith(CACHE):
            old = sorted((f for f in os.listdir(CACHE) if f.startswith("dump-") and f.endswith(".json")),
                         key=lambda f: os.path.getmtime(os.path.join(CACHE, f)))
            for f in old[:-6]:
                os.unlink(os.path.join(CACHE, f))
                if os.path.exists(meta(os.path.join(CACHE, f))):
                    os.unlink(meta(os.path.join(CACHE, f)))
        return out


def with_grammar(path, target):
    """Adds what the generated parser says about the notation."""
    from . import notation
    with open(path) as f:
        j = json.load(f)
    at = [f["span"][0] for f in j["fns"] if f["path"].startswith("parser::grammar::")]
    if at:
        p = at[0] if os.path.isabs(at[0]) else os.path.join(target, at[0])
        if os.path.exists(p):
            with open(p) as f:
                j["grammar"] = notation.extract(f.read())
    with open(path, "w") as f:
        json.dump(j, f)


def meta(out):
    """The compiled interface of the crate that belongs to a dump."""
    d, n = os.path.split(out)
    return os.path.join(d, "libtypelalr-%s.rmeta" % n.replace("dump-", "").replace(".json", ""))


def compiles(dump, source, target=None):
    """(ok, error codes and first message) of a program that uses the crate a dump was made of."""
    target = target or os.environ.get("VERIF_TARGET") or os.path.join(BUILD, "check")
    dirs = []
    ext = {}
    for base, ds, fs in os.walk(target):
        for n in fs:
            m = re.match(r"lib(\w+)-\w+\.rmeta$", n)
            if m:
                dirs.append(base)
                ext[m.group(1)] = os.path.join(base, n)
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        with open(os.path.join(d, "w.rs"), "w") as f:
            f.write(source)
        cmd = ["rustc", NIGHTLY, "--crate-type", "lib", "--crate-name", "witness", "--edition", "2021", "--emit=metadata", "--error-format=short", "-Awarnings",
               "--out-dir", d, "--extern", "typelalr=" + meta(dump), "--extern", "bumpalo=" + ext.get("bumpalo", "")]
        for x in sorted(set(dirs)):
            cmd += ["-L", "dependency=" + x]
        r = subprocess.run(cmd + [os.path.join(d, "w.rs")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    return r.returncode == 0, r.stdout
