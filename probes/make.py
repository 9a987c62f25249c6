"""python3 probes/make.py [NAME…]: writes probes/<name>.diff, changes of /repo that break the property named first (compiled and tested in a
scratch copy); bin/seedlib/judge.py --own --dir probes then shows which checks report them."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from edits import EDITS

W = "/tmp/probe-scratch"


def main():
    want = sys.argv[1:]
    if os.path.exists(W):
        shutil.rmtree(W)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    bad = 0
    for name, edits in EDITS.items():
        if want and name not in want:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
        ok = True
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p, encoding="utf-8").read()
            if hasattr(old, "sub"):             # a pattern
                if len(old.findall(s)) != 1:
                    print(f"{name}: {len(old.findall(s))} matches in {f} of {old.pattern!r}")
                    ok = False
                    break
                open(p, "w", encoding="utf-8").write(old.sub(new, s))
                continue
            if s.count(old) != 1:
                print(f"{name}: {s.count(old)} matches in {f} of {old[:60]!r}")
                ok = False
                break
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        if ok:
            r = subprocess.run(["cargo", "test", "--workspace", "--offline", "-q"], cwd=W, capture_output=True, text=True)
            if r.returncode:
                print(f"{name}: does not build or pass\n{(r.stdout + r.stderr)[-300:]}")
                ok = False
        if ok:
            d = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
            open(os.path.join(HERE, name + ".diff"), "w").write(d)
        bad += not ok
    shutil.rmtree(W)
    return bad


sys.exit(main())
