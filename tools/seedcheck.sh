#!/bin/bash
# seedcheck.sh ID [CHECK]: run the check of a planted bug against a scratch copy carrying it
cd /verif
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo $w/repo
git -C $w/repo checkout -q -- . && git -C $w/repo apply /verif/seeded/$id/patch.diff || echo APPLY FAILED
VERIF_REPO=$w/repo timeout 900 ./check $prop > $w/log 2>&1; rc=$?
echo "$id $prop rc=$rc $(grep -c VIOLATION $w/log) :: $(grep -h VIOLATION $w/log | head -1 | cut -c1-200)"
rm -rf "$w"
