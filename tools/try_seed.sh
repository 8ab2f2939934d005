#!/bin/bash
# try_seed.sh ID [PROP..]: apply a planted change to a copy of /repo and run the check of its property against the copy
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir $t/repo; git -C /repo archive HEAD | tar x -C $t/repo; (cd $t/repo && git init -q && git apply $d/patch.diff) || exit 9
mkdir $t/out; cp -a /verif/build/core $t/out/ 2>/dev/null
MC_REPO=$t/repo MC_OUT=$t/out timeout 1000 python3 /verif/mc/check.py $p ${TIER:+--tier $TIER} >$t/log 2>&1; rc=$?
echo "$1 $p rc=$rc $(grep -m1 -A1 'violation: sig' $t/log | tr '\n' ' ' | cut -c1-250)"
