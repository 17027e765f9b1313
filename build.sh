#!/bin/bash
# Builds the model checker against /repo's current working tree: build.sh OUT [det]
# With det, the order of maps, the clock and random numbers in the repository's code are under the checker's control.
set -e
. /opt/vp/env.sh
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${MC_REPO:-/repo}"
OUT="$1"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT

lines() {
  for f in "$HERE"/mc/*.go; do printf '%s/verifmc/%s\t%s\n' "$REPO" "$(basename "$f")" "$f"; done
  for f in vdet.go sched.go; do printf '%s/verifmc/vdet/%s\t%s/vdet/%s\n' "$REPO" $f "$HERE" $f; done
}
overlay() {
  { echo '{"Replace": {'; awk -F'\t' 'NR>1{printf ",\n"} {printf "\"%s\": \"%s\"", $1, $2}' "$1"; echo '}}'; } > "$2"
}
build() { (cd "$REPO" && go build -tags norace -gcflags=github.com/milkyway-labs/milkyway/v3/verifmc/vdet=-complete=false -overlay "$W/$1.json" -o "$OUT" ./verifmc); }

lines > "$W/plain"
overlay "$W/plain" "$W/plain.json"
if [ "$2" = det ]; then
  mkdir "$W/src"
  if (cd "$HERE/det" && GOFLAGS=-mod=readonly go build -o "$W/detbin" .) && "$W/detbin" "$REPO" "$W/src" > "$W/rewritten"; then
    { cat "$W/plain" "$W/rewritten"; printf '%s/verifmc/vdet/on.go\t%s/vdet/on.go\n' "$REPO" "$HERE"; } > "$W/det"
    overlay "$W/det" "$W/det.json"
    GODEBUG=goindex=0 build det && exit 0 # the index of the module cache ignores overlays
  fi
  echo "the instrumented build failed: the order of maps is left to the runtime" >&2
fi
build plain
