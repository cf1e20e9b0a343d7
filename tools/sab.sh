#!/bin/bash
# sab.sh FILE 'python replace: old' 'new' CRATE ID...: do the checks report this change?
cd "$(dirname "$0")/.." || exit 2
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
python3 - "$1" "$2" "$3" <<'P' || exit 2
import sys
p='/repo/'+sys.argv[1]; s=open(p).read()
if sys.argv[2] not in s: sys.exit('old text not found')
open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
shift 3
W=${W:-300} tools/run.sh "$@" | grep -a "VIOLATION\|ERROR\|cases\|error\|sig=" | head -${N:-4}
git -C /repo checkout -q -- .
