#!/bin/bash
# usage: seed.sh ID [PROP...]  — /repo's working tree holds the planted change; /verif/seeded/ID has main.rs and meta.json.
# Writes patch.diff, confirms tests pass and the demo fails with and passes without, runs the property's checks.
id=$1; shift; d=/verif/seeded/$id
[ -f $d/demo.sh ] || cp /verif/tools/seedtmpl/demo.sh $d/
[ -f $d/Cargo.toml ] || cp /verif/tools/seedtmpl/Cargo.toml $d/
[ -f $d/Cargo.lock ] || cp /verif/tools/seedtmpl/Cargo.lock $d/
git -C /repo diff >$d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in /repo"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /verif/tools/repotest.sh 2>&1 | tail -1
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1); echo "demo with change: $?"; grep -m2 "panicked\|assert" -A2 /tmp/demo.log | cut -c1-300
for p in $prop "$@"; do VERIF_TIER=quick bash /verif/check.sh $p 2>&1 | cut -c1-300 | head -4; done
git -C /repo checkout -- .
(cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1); echo "demo without: $?"; tail -3 /tmp/demo.log | cut -c1-300
