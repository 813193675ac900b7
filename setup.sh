#!/bin/bash
# Warm the Go build cache; the checks rebuild from the working tree themselves.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d "${TMPDIR:-/tmp}/verif-dst.XXXXXX")" || exit 2
trap 'rm -rf -- "${W:?}"' EXIT
"$HERE/build.sh" "$W" >/dev/null || exit 2
"$W/dst" list >/dev/null
