#!/bin/bash
# check.sh CRATE ID [--replay FILE]: builds what the check needs from /repo's current tree and
# runs it. Exit 0 holds, 1 VIOLATION, 2 build error, 3 error of the check.
cd "$(dirname "$0")" || exit 2
. lib.sh
build "$1" || exit 2
case $1 in core | lsp) export VP_SCALE=${VP_SCALE:-4} ;; esac
exec "$VP_TARGET/debug/vp-$1" "${@:2}"
