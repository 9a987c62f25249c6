#!/bin/bash
set -e
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/.cache" "$V/evidence"
(cd "$V/driver" && cargo +nightly build --offline --target-dir "$V/.cache/driver")
"$V/bin/dump.sh" "$V/.cache/out" /repo
