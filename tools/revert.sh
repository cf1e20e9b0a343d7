#!/bin/bash
# revert.sh COMMIT CRATE ID...: do the checks report the defect again when the fix is undone?
cd "$(dirname "$0")/.." || exit 2
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo show "$1" -R | git -C /repo apply || exit 2
c=$1; shift
W=${W:-300} tools/run.sh "$@" | grep -a "VIOLATION\|ERROR\|cases\|error" | head -${N:-4}
git -C /repo checkout -q -- .
