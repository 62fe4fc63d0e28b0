#!/bin/bash
# usage: seed-verify.sh ID [PROPERTY...]   confirms a planted bug in a scratch copy of /repo and runs checks on it
# needs /tmp/sc/repo (cp -a /repo) and /tmp/sc/{build,test}.sh (paths rewritten)
ID=$1; shift
D=/verif/seeded/$ID; R=/tmp/sc/repo
git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
rm -rf /tmp/sc/demo; mkdir /tmp/sc/demo; cp $D/* /tmp/sc/demo; rm -f /tmp/sc/demo/*.diff /tmp/sc/demo/meta.json
(cd $R && timeout 300 bash /tmp/sc/demo/demo.sh >/tmp/sc/d0.txt 2>&1); echo "[$ID] demo clean: $? $(tail -1 /tmp/sc/d0.txt | cut -c1-200)"
git -C $R apply $D/patch.diff || exit 1
if [ -z "$SKIPTEST" ]; then
bash /tmp/sc/test.sh /tmp/sc/t.json >/tmp/sc/tt.txt 2>&1
python3 - <<'EOP'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t={x.replace('../tmp/sc/repo/','') for x in json.load(open('/tmp/sc/t.json'))['passed']}
print('stable tests missing:',len(b-t),list(b-t)[:4])
EOP
fi
(cd $R && timeout 300 bash /tmp/sc/demo/demo.sh >/tmp/sc/d1.txt 2>&1); echo "demo patched: $? $(tail -1 /tmp/sc/d1.txt | cut -c1-300)"
for p in $P; do (cd /verif && VERIF_REPO=$R VERIF_EVIDENCE=/tmp/sc/ev timeout 900 node check.mjs $p > /tmp/sc/c.txt 2>&1; echo "check $p: $? violations $(grep -c VIOLATION /tmp/sc/c.txt)"; head -c 500 /tmp/sc/c.txt; echo); done
git -C $R checkout -q -- .
