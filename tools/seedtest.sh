#!/bin/bash
# seedtest.sh [ID...]: applies each planted bug to /repo, runs build, tests, demo and its check, and undoes it.
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
    d=$PWD/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$prop'][0])")
    git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
    clean=skip
    [ -n "$CLEAN" ] && { (cd /repo && bash "$d/demo.sh") >/tmp/st.demo0 2>&1; clean=$?; }
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/st.build 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/st.json >/tmp/st.test 2>&1; t=$(tail -1 /tmp/st.test)
    (cd /repo && bash "$d/demo.sh") >/tmp/st.demo 2>&1; dm=$?
    s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} bash -c "$cmd" >/tmp/st.check 2>&1; c=$?
    e=$(($(date +%s) - s))
    git -C /repo checkout -- .
    echo "$id $prop build=$b tests=[$t] demo_clean=$clean demo=$dm check=$c ($e s) $(grep -m1 -o 'sig=.*' /tmp/st.check)"
done
