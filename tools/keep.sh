#!/bin/bash
# keep.sh ID PROPERTY "needs" "what it breaks" < main.rs : saves the change made in /tmp/w/repo as seeded/ID and resets it
id=$1; d=/verif/seeded/$id; mkdir -p $d
cat > $d/main.rs
cp /verif/tools/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh
git -C /tmp/w/repo diff > $d/patch.diff
git -C /tmp/w/repo checkout -q -- .
[ -s $d/patch.diff ] || { echo "$id: EMPTY PATCH"; exit 1; }
python3 - "$@" <<'P'
import json,sys
id,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%id,'w'),indent=1)
P
/verif/tools/confirm.sh $id
