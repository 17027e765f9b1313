#!/bin/bash
# Warms the build cache: the checker is built once so that the checks only recompile what changed.
cd "$(dirname "$0")" || exit 2
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
bash ./build.sh "$W/mc" && "$W/mc" -list
