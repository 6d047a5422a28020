#!/bin/bash
# seedtest.sh ID [PROP...]: confirms a planted bug in a private copy of /repo
# (bind-mounted over /repo in a namespace of its own) and runs checks on it.
ID=$1; shift
S=/verif/seeded/$ID
D=/tmp/w/seed/$ID
rm -rf "/tmp/w/seed/$ID"; mkdir -p /tmp/w/seed
cp -a /repo "$D"
PROPS="$*"; [ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $D /repo; cd /repo
mkdir -p /tmp/w/seed/d.$ID; cp $S/* /tmp/w/seed/d.$ID/; rm -f /tmp/w/seed/d.$ID/*.diff /tmp/w/seed/d.$ID/meta.json
bash /opt/vp/build.sh > /tmp/w/seed/$ID.b0 2>&1
timeout 300 bash /tmp/w/seed/d.$ID/demo.sh > /tmp/w/seed/$ID.demo0 2>&1; echo demo clean: \$?
git apply $S/patch.diff || { echo DOES NOT APPLY; exit 1; }
bash /opt/vp/test.sh /tmp/w/seed/$ID.json > /tmp/w/seed/$ID.b1 2>&1
python3 -c \"import json;d=json.load(open('/tmp/w/seed/$ID.json'));print('passed',len(d['passed']) if hasattr(d['passed'],'__len__') else d['passed'],'failed',d['failed'])\"
timeout 300 bash /tmp/w/seed/d.$ID/demo.sh > /tmp/w/seed/$ID.demo1 2>&1; echo demo patched: \$?
tail -2 /tmp/w/seed/$ID.demo1
for p in $PROPS; do timeout 900 python3 /verif/check.py \$p > /tmp/w/seed/$ID.\$p 2>&1; echo check \$p: \$?; grep -A2 VIOLATION /tmp/w/seed/$ID.\$p | cut -c1-300 | head -4; tail -1 /tmp/w/seed/$ID.\$p; done
"
rm -rf "/tmp/w/seed/$ID" "/tmp/w/seed/d.$ID"
