#!/bin/bash
# replay.sh FILE: rebuild from the current tree and re-execute one recorded run.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d "${TMPDIR:-/tmp}/verif-dst.XXXXXX")" || exit 2
trap 'rm -rf -- "${W:?}"' EXIT
"$HERE/build.sh" "$W" >/dev/null || exit 2
"$W/dst" replay "$@"
