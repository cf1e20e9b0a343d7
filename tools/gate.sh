#!/bin/bash
# Tests of /repo's working tree: the stable ones, and all of jarl's own over the stand-ins.
cd "$(dirname "$0")/.." || exit 2
. lib.sh
bash /opt/vp/build.sh >build/gate.log 2>&1 || { tail -5 build/gate.log; exit 1; }
(cd /repo && bash /opt/vp/test.sh /verif/build/gate.json) >>build/gate.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); g=json.load(open('/verif/build/gate.json'))
def ids(o):
    if isinstance(o,dict):
        for k in ('passed','stable','pass','tests'):
            if k in o and isinstance(o[k],list): return set(map(str,o[k]))
    return None
print('baseline', len(ids(b) or b), 'passed', len(ids(g) or g), 'missing', sorted((ids(b) or set())-(ids(g) or set()))[:5])
P
python3 tools/sync.py
for s in full-core full-lsp full-cli; do
  (cd subject/$s && cargo test --offline ${1:-} 2>&1 | grep -E "^warning: unused|^test result: .*[1-9][0-9]* (passed|failed)|FAILED|panicked at|^error" -A3 | grep -v "^--" | head -${LINES_MAX:-12})
done
