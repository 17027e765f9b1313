#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
case "$1" in C33|C43) KIND=det ;; *) KIND= ;; esac
bash ./build.sh "$W/mc" $KIND || { echo "build failed" >&2; exit 2; }
TIER="${2:-${VERIF_TIER:-quick}}"
TMPDIR="$W" "$W/mc" -prop "$1" -tier "$TIER" -verif "$PWD" -evidence "$PWD/evidence"
