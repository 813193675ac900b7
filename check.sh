#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Other: error of the check.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
PROP="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
W="$(mktemp -d "${TMPDIR:-/tmp}/verif-dst.XXXXXX")" || exit 2
trap 'rm -rf -- "${W:?}"' EXIT
level="$("$HERE/build.sh" "$W")" || { echo "check: build failed" >&2; exit 2; }
mkdir -p "$HERE/evidence" "$HERE/out"
"$W/dst" run -prop "$PROP" -tier "$TIER" -seed "$SEED" -workers "${VERIF_WORKERS:-8}" -instr-level "$level" \
  -evidence "$HERE/evidence/$PROP.json" -out "$HERE/out" -known "$HERE/known-findings.txt"
rc=$?
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
