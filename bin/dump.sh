#!/bin/bash
# Translate the current source of /repo to MIR and dump it as JSON.
#   bin/dump.sh OUT [REPO]
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
OUT="$1"; REPO="${2:-/repo}"
CACHE="$V/.cache"; TGT="$CACHE/target"; DRV="$CACHE/driver/debug/mirdump"
mkdir -p "$OUT" "$TGT"
exec 9>"$CACHE/lock"; flock 9
SYSROOT="$(rustc +nightly --print sysroot)"
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && cargo +nightly build --offline --target-dir "$CACHE/driver") >&2
fi
# analyse a mirror of the tracked and untracked sources, so that nothing is written to the repository
MIR="$CACHE/mirror"
mkdir -p "$MIR"
python3 - "$REPO" "$MIR" <<'PY'
import os, sys, shutil
src, dst = sys.argv[1:3]
want = set()
for root, dirs, files in os.walk(src):
    dirs[:] = [d for d in dirs if d not in (".git", "target", "node_modules")]
    for f in files:
        p = os.path.join(root, f)
        r = os.path.relpath(p, src)
        want.add(r)
        q = os.path.join(dst, r)
        if not os.path.isfile(p):
            continue
        data = open(p, "rb").read()
        if os.path.exists(q) and open(q, "rb").read() == data:
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "wb").write(data)
for root, dirs, files in os.walk(dst):
    for f in files:
        q = os.path.join(root, f)
        if os.path.relpath(q, dst) not in want and f != "Cargo.lock":
            os.remove(q)
PY
[ -f "$MIR/Cargo.lock" ] || cp "$V/driver/repo.Cargo.lock" "$MIR/Cargo.lock"
# the dump is a function of the mirrored sources and of the driver
KEY="$( (cd "$MIR" && find . -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$DRV") | sha256sum | cut -d' ' -f1)"
if [ -f "$OUT/key" ] && [ "$(cat "$OUT/key")" = "$KEY" ] && [ -f "$OUT/sim.lib.json" ] && [ -f "$OUT/post.bin.json" ]; then
  exit 0
fi
rm -f "$OUT"/*.json "$OUT/key"
cd "$MIR"
for P in sim post; do
  rm -rf "$TGT"/debug/.fingerprint/$P-* "$TGT"/debug/build/$P "$TGT"/debug/incremental/$P-*
done
LD_LIBRARY_PATH="$SYSROOT/lib" RUSTC_WORKSPACE_WRAPPER="$DRV" RUSTFLAGS="-Zalways-encode-mir" \
MIRDUMP_OUT="$OUT" MIRDUMP_ALLOW=core,std,alloc,nalgebra,num_traits,simba MIRDUMP_DENY=fmt,panick \
  cargo +nightly check --workspace --offline --target-dir "$TGT" >&2
[ -f "$OUT/sim.lib.json" ] && [ -f "$OUT/post.bin.json" ]
echo "$KEY" >"$OUT/key"
