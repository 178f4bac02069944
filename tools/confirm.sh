#!/bin/bash
# confirm.sh ID... : in a scratch copy, confirms that a planted bug builds, passes the stable tests and that its
# demo is quiet without it and fails with it
for id in "$@"; do
 s=/verif/seeded/$id; w=$(mktemp -d /tmp/confirm.XXXX); cp -a /repo $w/repo; cd $w/repo
 bash $s/demo.sh >$w/o1 2>&1; a=$?
 git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
 cargo test --offline -q >$w/o2 2>&1; t=$?
 bash $s/demo.sh >$w/o3 2>&1; b=$?
 echo "$id: demo clean=$a tests=$t demo bug=$b $([ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] && echo OK || echo BAD)"
 [ $a = 0 ] || tail -5 $w/o1; [ $t = 0 ] || tail -30 $w/o2
 cd /; rm -rf "$w"
done
