#!/bin/bash
# author-time: run the property's quick check against a copy of /repo with a seeded patch applied.  usage: try.sh SEEDED_ID [extra main.py args]
id=$1; shift
w=$(mktemp -d /tmp/try_XXXXXX)
cp -a /repo/. $w/
git -C $w apply /verif/seeded/$id/patch.diff || exit 3
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
VERIF_REPO=$w python3 /verif/harness/main.py $p --tier quick "$@" 2>&1 | grep -v ^slow | tail -4 | cut -c1-600
rm -rf $w
