#!/bin/bash
# Builds every harness from /repo's current tree, offline.
cd "$(dirname "$0")" || exit 1
. lib.sh
for c in harness/*/; do
    [ -f "$c/Cargo.toml" ] || continue
    build "$(basename "$c")" || exit 1
done
