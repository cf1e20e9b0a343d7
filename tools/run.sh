#!/bin/bash
# run.sh CRATE ID...: builds and runs, with short output.
cd "$(dirname "$0")/.." || exit 2
. lib.sh
c=$1; shift
build $c || exit 2
for i in "$@"; do
build/target/debug/vp-$c $i 2>&1 | grep -v "^proptest: Abort" | cut -c1-${W:-1500}
done
