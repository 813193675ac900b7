#!/bin/bash
# try_bug.sh BUGDIR PROPERTY [seed]: run one check against a scratch copy of /repo with the bug applied.
set -u
HERE="$(cd "$(dirname "$0")/.." && pwd)"
T="$(mktemp -d /tmp/verif-try.XXXXXX)" || exit 2
trap 'rm -rf -- "${T:?}"' EXIT
git clone -q /repo "$T/repo"
git -C "$T/repo" apply "$1/patch.diff" || exit 2
mkdir "$T/w"
VERIF_REPO="$T/repo" "$HERE/build.sh" "$T/w" >/dev/null || exit 2
"$T/w/dst" run -prop "$2" -seed "${3:-1}" -workers 8 -out "$T/out" -evidence "$T/ev.json" -known "$HERE/known-findings.txt"
rc=$?
if [ "${KEEP:-}" ]; then mkdir -p "$KEEP"; cp "$T"/out/* "$KEEP"/ 2>/dev/null; fi
exit $rc
