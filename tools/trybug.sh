#!/bin/bash
# run the checks given (default: its property) on a scratch copy of /repo with a planted bug
id=$1; shift; p=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d); git -C /repo archive HEAD | tar x -C $w
git -C $w apply --unsafe-paths --directory=$w /verif/seeded/$id/patch.diff 2>/dev/null || (cd $w && patch -s -p1 < /verif/seeded/$id/patch.diff) || exit 9
for x in $p; do ( cd /verif; s=$SECONDS; VERIF_REPO=$w timeout 900 python3-vt checks/$x.py > /tmp/try.$id.$x.log 2>&1; echo "$id $x rc=$? $((SECONDS-s))s $(grep VIOLATION /tmp/try.$id.$x.log | head -2)" ); done
find $w -delete
