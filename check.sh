#!/bin/bash
# check.sh PROPERTY [quick|thorough]
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
OUT="$V/.cache/out"
LOG="$V/.cache/dump.log"
mkdir -p "$V/.cache" "$V/evidence"
if ! "$V/bin/dump.sh" "$OUT" "${VERIF_REPO:-/repo}" >"$LOG" 2>&1; then
  echo "the working tree does not translate to MIR:"; tail -30 "$LOG"; exit 2
fi
exec python3-vt "$V/sa/run.py" "$P" "$T" "$OUT"
