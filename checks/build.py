"""Rebuilds everything a check needs from /repo's current working tree."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
FEATURES = ("default", "fma")


def files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return out


def tree_hash():
    h = hashlib.sha256()
    fs = files(os.path.join(REPO, "src"), (".rs",))
    fs += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs") if os.path.exists(os.path.join(REPO, f))]
    for d in ("driver", "harness", "replay"):
        fs += files(os.path.join(VERIF, d), (".rs", ".toml", ".lock"))
    for f in fs:
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                       errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def driver():
    """the MIR exporter; depends on /verif only"""
    h = hashlib.sha256()
    for f in files(os.path.join(VERIF, "driver"), (".rs", ".toml", ".lock")):
        h.update(open(f, "rb").read())
    d = os.path.join(TARGET, "driver-" + h.hexdigest()[:12])
    exe = os.path.join(d, "release", "mirdump")
    if not os.path.exists(exe):
        sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", d], os.path.join(VERIF, "driver"))
    return exe


_sr = []


def sysroot():
    if not _sr:
        _sr.append(sh(["rustc", "+nightly", "--print", "sysroot"], VERIF).strip())
    return _sr[0]


def dump(base, feat):
    out = os.path.join(base, "mir-%s.json" % feat)
    if os.path.exists(out):
        return out
    exe = driver()
    tmp = out + ".tmp"
    td = os.path.join(base, "mir-" + feat)
    if os.path.exists(td):
        # a leftover of an interrupted build: the exporter only runs when cargo compiles the crate
        shutil.rmtree(td)
    cmd = ["cargo", "+nightly", "check", "--offline", "--target-dir", td]
    if feat != "default":
        cmd += ["--features", feat]
    sh(cmd, os.path.join(VERIF, "harness"), {
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "RUSTC_WRAPPER": exe, "MIRDUMP_OUT": tmp,
        "RUSTFLAGS": "-Zthreads=4 -Zalways-encode-mir -Coverflow-checks=on -Zmir-opt-level=0 -Cdebug-assertions=off",
    })
    if not os.path.exists(tmp):
        raise BuildError("the MIR exporter wrote nothing")
    os.rename(tmp, out)
    shutil.rmtree(td, ignore_errors=True)
    return out


def replay(base, feat):
    td = os.path.join(base, "replay-" + feat)
    exe = os.path.join(td, "debug", "replay")
    if os.path.exists(exe + ".ok"):
        return exe
    cmd = ["cargo", "build", "--offline", "--target-dir", td]
    if feat != "default":
        cmd += ["--features", feat]
    # the parallel front end of the stable compiler only needs the -Z switch
    sh(cmd, os.path.join(VERIF, "replay"), {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zthreads=4"})
    open(exe + ".ok", "w").close()
    return exe


class Built:
    def __init__(self, need_replay=FEATURES):
        t0 = time.time()
        h = tree_hash()
        self.hash = h
        self.base = os.path.join(TARGET, "tree-" + h)
        os.makedirs(self.base, exist_ok=True)
        for f in os.listdir(TARGET):
            if f.startswith("tree-") and f != "tree-" + h:
                shutil.rmtree(os.path.join(TARGET, f), ignore_errors=True)
        driver()
        self.pool = ThreadPoolExecutor(8)
        self.dumps = {f: self.pool.submit(dump, self.base, f) for f in FEATURES} if need_replay else {}
        self.replays = {f: self.pool.submit(replay, self.base, f) for f in need_replay}
        self.t0 = t0

    def dump(self, f):
        return self.dumps[f].result()

    def replay(self, f):
        if f not in self.replays:
            self.replays[f] = self.pool.submit(replay, self.base, f)
        return self.replays[f].result()


if __name__ == "__main__":
    t = time.time()
    b = Built()
    for f in FEATURES:
        print(b.dump(f))
        print(b.replay(f))
    print("%.1f s" % (time.time() - t))
