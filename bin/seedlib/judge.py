"""python3 bin/seedlib/judge.py [--own] [ID…]: which checks report which planted bug (in scratch copies of /repo and /verif);
--own: run only the check of the bug's own property.  A directory of *.diff files may be given with --dir (behaviour-preserving
edits; every report is a false alarm)."""
import concurrent.futures as cf
import json
import os
import queue
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = sys.argv[1:]
own = "--own" in args
args = [a for a in args if a != "--own"]
only = []
if "--checks" in args:
    i = args.index("--checks")
    only = args[i + 1].split(",")
    del args[i:i + 2]
folder = None
if "--dir" in args:
    i = args.index("--dir")
    folder = args[i + 1]
    del args[i:i + 2]
checks = sorted(f[:-3].upper() for f in os.listdir(ROOT + "/checks") if re.fullmatch(r"c\d+\.py", f) and (not only or f[:-3].upper() in only))
N = 6
pool = queue.Queue()
for i in range(N):
    d = f"/tmp/judge/{os.getpid()}.{i}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(["cp", "-a", ROOT, d + "/verif"])
    subprocess.run(["rsync", "-a", "--exclude", "target", "/repo/", d + "/repo/"]) if shutil.which("rsync") else \
        subprocess.run(f"mkdir {d}/repo && cd /repo && tar --exclude=./target -cf - . | tar -xf - -C {d}/repo", shell=True)
    pool.put(d)


def one(item):
    id, patch, prop = item
    d = pool.get()
    try:
        r = d + "/repo"
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
        a = subprocess.run(["git", "apply", patch], cwd=r, capture_output=True, text=True)
        if a.returncode:
            return id, prop, "does not apply: " + a.stderr[:200], []
        hits, odd, und = [], [], []
        for c in ([prop] if own and prop else checks):
            t = subprocess.run(["./check.sh", c, "quick"], cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"),
                               capture_output=True, text=True)
            if t.returncode == 1 and f"VIOLATION property={c} " in t.stdout:
                hits.append(c)
                open(f"/tmp/judge/{id}.{c}.txt", "w").write(t.stdout)
            elif t.returncode:
                odd.append(f"{c}: rc {t.returncode} {t.stdout[-300:]} {t.stderr[-300:]}")
            else:
                m = re.search(r"(\d+) undecided", t.stdout)
                if m and int(m.group(1)):
                    und.append(f"{c}:{m.group(1)}")
                    open(f"/tmp/judge/{id}.{c}.und.txt", "w").write(t.stdout)
        return id, prop, hits, odd, und
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d + "/repo")
        pool.put(d)


items = []
if folder:
    for f in sorted(os.listdir(folder)):
        if f.endswith(".diff") and (not args or f[:-5] in args):
            items.append((f[:-5], os.path.join(os.path.abspath(folder), f),
                          f.split("-")[0] if re.match(r"C\d\d-", f) else None))
else:
    for id in sorted(os.listdir(ROOT + "/seeded")):
        if not args or id in args:
            items.append((id, f"{ROOT}/seeded/{id}/patch.diff", json.load(open(f"{ROOT}/seeded/{id}/meta.json"))["property"]))
with cf.ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, items):
        id, prop, hits, odd = r[:4]
        if isinstance(hits, str):
            print(id, hits, flush=True)
            continue
        mark = "" if prop is None else "CAUGHT" if prop in hits else "missed" if not hits else "other "
        if prop is None:
            mark = "ALARM " if hits else "quiet "
        print(f"{mark} {id:28} {prop or ''} by {' '.join(hits)}" + (f"  undecided {' '.join(r[4])}" if r[4] else "") +
              ("  ODD " + " / ".join(odd) if odd else ""), flush=True)
while not pool.empty():
    shutil.rmtree(pool.get())
