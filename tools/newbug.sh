#!/bin/bash
# newbug.sh ID PROPERTY 'needs' 'what it breaks' FILE <<< python edit "old\n====\nnew": makes patch.diff and meta.json
set -e
id=$1 p=$2 needs=$3 breaks=$4 file=$5
B=/verif/seeded/$id; mkdir -p $B
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
git -C /repo archive HEAD | tar x -C $T; cd $T; git init -q; git add -A; git -c user.name=a -c user.email=a@a commit -qm a
cat > /tmp/plant/edit; python3 - "$T/$file" <<'P'
import sys
s=open(sys.argv[1]).read()
for blk in open('/tmp/plant/edit').read().split('\n@@@@\n'):
    o,n=blk.split('\n====\n'); n=n.rstrip('\n')
    assert s.count(o)==1,(s.count(o),o)
    s=s.replace(o,n)
open(sys.argv[1],'w').write(s)
P
git diff > $B/patch.diff
python3 -c "
import json,sys
json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$B/meta.json','w'),indent=1)" "$p" "$needs" "$breaks"
# the removed lines must come from the original repository
base=$(git -C /repo rev-list --max-parents=0 HEAD)
git -C /repo blame -s $file HEAD | grep -v "^^" > /tmp/plant/mine || true
grep '^-[^-]' $B/patch.diff | cut -c2- | while read -r l; do grep -qF -- "$l" /tmp/plant/mine && echo "NOTE own line? $l" || true; done
