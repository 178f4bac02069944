#!/bin/bash
# against.sh SEEDED_ID [CHECK...] : runs checks on a scratch copy of /repo with a planted bug
id=$1; shift
w=$(mktemp -d /tmp/against.XXXX); cp -a /repo $w/repo
( cd $w/repo && git apply /verif/seeded/$id/patch.diff ) || exit 2
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
[ $# = 0 ] && set -- $prop
for c in "$@"; do echo "== $id $c"; (cd /verif && MIRX_REPO=$w/repo python3 check.py $c | grep -v '^  analysed'); done
rm -rf "$w"
