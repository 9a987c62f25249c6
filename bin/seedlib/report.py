#!/usr/bin/env python3
"""Rewrite the table of DESIGN.md (between the two markers) from the output of judge.py over seeded/:  report.py LOG"""
import json, pathlib, re, sys

root = pathlib.Path(__file__).resolve().parents[2]
rows = []
for l in pathlib.Path(sys.argv[1]).read_text().splitlines():
    m = re.match(r"(CAUGHT|MISSED|missed)\s+(\S+)\s+(C\d\d) by(.*?)(?:\s+undecided .*)?$", l)
    if m:
        meta = json.loads((root / "seeded" / m[2] / "meta.json").read_text())
        what = re.sub(r"\s+", " ", meta["what_it_breaks"])
        what = what if len(what) < 110 else what[:107].rsplit(" ", 1)[0] + " …"
        rows.append(f"| {m[2]} | {m[3]} | {what.replace('|', '/')} | {'yes' if m[1] == 'CAUGHT' else 'NO'} | {' '.join(x for x in m[4].split() if x != m[3])} |")
table = "<!-- table -->\n| seeded bug | property | what it breaks | caught by its check | also reported by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /table -->"
f = root / "DESIGN.md"
t = f.read_text()
t = t.replace("@@TABLE@@", table) if "@@TABLE@@" in t else re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: table, t, flags=re.S)
f.write_text(t)
