#!/bin/bash
# build.sh WORKDIR: instrument the current working tree of /repo and build the
# simulator binary WORKDIR/dst against it. Prints the instrumentation level.
# Exit 2 when the tree (or the machinery) does not build.
set -u
W="$1"
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOWORK=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
err() { echo "build: $*" >&2; exit 2; }

(cd "$HERE/sim" && go build -o "$W/instr" ./instr) || err "instrumenter does not build"
(cd "$REPO" && go build ./... ) >"$W/orig.log" 2>&1 || { cat "$W/orig.log" >&2; err "the tree in $REPO does not build"; }

mkdir -p "$W/harness"
cp "$HERE"/harness/*.go "$W/harness/"
modver=$(awk '$1=="go"{print $2; exit}' "$REPO/go.mod")
case "$modver" in
  1.[0-9]|1.1[0-9]|1.20|1.[0-9].*|1.1[0-9].*|1.20.*|"") ver=1.21 ;;   # keeps the loop variable semantics of the repository
  *) ver="$modver" ;;
esac
for level in 3 2 1; do
  mkdir -p "$W/l$level/repo" "$W/l$level/srand"
  rm -f -- "$W/l$level/sites1" "$W/l$level/sites2"
  "$W/instr" -src "$REPO" -out "$W/l$level/repo" -level $level -sites "$W/l$level/sites1" -skip /test,/tests -base 1 >"$W/instr.log" 2>&1 || { cat "$W/instr.log" >&2; continue; }
  n=$(wc -l < "$W/l$level/sites1")
  "$W/instr" -src "$HERE/srand" -out "$W/l$level/srand" -level $level -sites "$W/l$level/sites2" -base "$((n+1))" >"$W/instr.log" 2>&1 || { cat "$W/instr.log" >&2; continue; }
  cat > "$W/l$level/repo/go.mod" <<M
module github.com/timtadh/data-structures
go $ver
M
  grep -vE '^(module|go|toolchain) ' "$REPO/go.mod" >> "$W/l$level/repo/go.mod"
  [ -f "$REPO/go.sum" ] && cp "$REPO/go.sum" "$W/l$level/repo/go.sum" && cp "$REPO/go.sum" "$W/harness/go.sum"
  printf 'module verif.local/srand\ngo 1.21\n' > "$W/l$level/srand/go.mod"
  cat > "$W/harness/go.mod" <<M
module verif.local/harness
go 1.25
require (
	github.com/timtadh/data-structures v0.0.0
	verif.local/sim v0.0.0
	verif.local/srand v0.0.0
)
replace github.com/timtadh/data-structures => $W/l$level/repo
replace verif.local/sim => $HERE/sim
replace verif.local/srand => $W/l$level/srand
M
  grep -vE '^(module|go|toolchain) ' "$REPO/go.mod" >> "$W/harness/go.mod"
  sed -i 's#^\./#math/rand/#' "$W/l$level/sites2"
  cat "$W/l$level/sites1" "$W/l$level/sites2" > "$W/sites.txt"
  if (cd "$W/harness" && go build -o "$W/dst" .) >"$W/build$level.log" 2>&1; then
    echo $level
    exit 0
  fi
  echo "build: instrumentation level $level does not compile:" >&2
  head -20 "$W/build$level.log" >&2
done
err "instrumented tree does not build"
