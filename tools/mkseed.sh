#!/bin/bash
# mkseed.sh ID: take the uncommitted change of /repo as planted bug ID, test it, and restore /repo.
# seeded/ID must already hold demo.sh and meta.json.
id=$1; d=/verif/seeded/$id
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > $d/patch.diff; else git -C /repo apply $d/patch.diff || exit 1; fi
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh > /tmp/s/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/s/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/s/out.json 2>&1 | tail -1
(cd /repo && bash $d/demo.sh); echo "demo with patch: $?"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$2" ] || { VERIF_SEED=${SEED:-3} /verif/check $p quick | tail -4; }
git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $d/demo.sh); echo "demo without: $?"
trap - EXIT
git -C /repo status --short
