#!/bin/bash
# rules.sh ID: C39 or C40 rule by rule, the first failure of each.
cd "$(dirname "$0")/.." || exit 2
. lib.sh
build full || exit 2
for r in ${2:-$(grep -o '^    [pn]("[a-z0-9_]*"' harness/full/src/patterns.rs | cut -d'"' -f2 | sort -u)}; do
  VP_RULE=$r build/target/debug/vp-full $1 2>&1 | grep -v "^proptest\|^VIOLATION\|^case:\|^KNOWN" | cut -c1-${W:-400} | sed "s/^C.*cases, \([0-9]*\).*/\1/" | paste -sd'~' | sed "s/^/$r: /; s/~ *\(got\|expected\)/ \1/g; s/~/\n    /g"
done
