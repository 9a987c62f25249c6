"""python3 bin/seedlib/make.py [ID…]: writes /verif/seeded/<id>/ and confirms each bug in a scratch copy of /repo:
it builds, passes the stable tests, and its demonstration fails with it and passes without it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from table import SEEDS
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def one(s):
    id, prop, edits, demo, needs, breaks = s
    d = os.path.join(ROOT, "seeded", id)
    w = f"/tmp/seedwork/{id}"
    if os.path.exists(w):
        shutil.rmtree(w)
    os.makedirs(w)
    sh(["cp", "-a", "/repo", w + "/repo"], "/")
    r = w + "/repo"
    sh(["git", "checkout", "-q", "--", "."], r)
    for f, a, b in edits:
        t = open(os.path.join(r, f)).read()
        if t.count(a) != 1:
            shutil.rmtree(w)
            return id, f"edit does not apply ({t.count(a)} places in {f})"
        open(os.path.join(r, f), "w").write(t.replace(a, b))
    patch = sh(["git", "diff"], r).stdout
    env = dict(os.environ, CARGO_TARGET_DIR=r + "/target", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    sh("rm -rf target/debug/.fingerprint/sim-* target/debug/.fingerprint/post-*", r, shell=True)
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", r, shell=True, env=env)
    bad = [l for l in (t.stdout + t.stderr).splitlines() if l.startswith("test ") and not l.rstrip().endswith("ok")
           and "ignored" not in l]
    if "error: could not compile" in t.stderr or "error[" in t.stderr or "error:" in t.stderr and "test failed" not in t.stderr:
        shutil.rmtree(w)
        return id, "does not build: " + t.stderr[-1500:]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    shutil.copy(HERE + "/harness.py", d + "/harness.py")
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    e2 = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    withp = sh(["bash", d + "/demo.sh"], r, env=e2)
    sh(["git", "checkout", "-q", "--", "."], r)
    without = sh(["bash", d + "/demo.sh"], r, env=e2)
    shutil.rmtree(w)
    msg = []
    if bad:
        msg.append("fails tests: " + "; ".join(bad[:3]))
    if without.returncode:
        msg.append("demo fails without the bug: " + (without.stdout + without.stderr)[-600:])
    if not withp.returncode:
        msg.append("demo passes with the bug")
    elif withp.returncode not in (1,):
        msg.append(f"demo ends with {withp.returncode}: " + (withp.stdout + withp.stderr)[-600:])
    if msg:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f)) if os.path.isfile(os.path.join(d, f)) else shutil.rmtree(os.path.join(d, f))
        os.rmdir(d)
    return id, " | ".join(msg) or "confirmed: " + withp.stdout.strip()[-150:]


want = set(sys.argv[1:])
todo = [s for s in SEEDS if not want or s[0] in want]
with cf.ThreadPoolExecutor(6) as ex:
    for id, msg in ex.map(one, todo):
        print(id, ":", msg, flush=True)
