#!/bin/bash
# trybug.sh ID...: apply, build, test, demo, check; always reverts /repo.
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
bash $d/demo.sh >/tmp/demo0.txt 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
b=skip; t=skip
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/build.txt 2>&1; b=$?; bash /opt/vp/test.sh /tmp/t.json >/tmp/test.txt 2>&1; t=$(python3 -c "
import json;r=json.load(open('/tmp/t.json'));print(str(r)[:0]+','.join(k for k in json.load(open('/opt/vp/BASELINE.json')).keys())[:40] if 0 else len(str(r)))"); t="$(tail -1 /tmp/test.txt | cut -c1-100)"; fi
bash $d/demo.sh >/tmp/demo1.txt 2>&1; c=$?
cd /verif; timeout 900 python3 run.py $prop >/tmp/check.txt 2>&1; k=$?
git -C /repo checkout -- .
echo "$id ($prop): demo clean=$a build=$b tests=[$t] demo patched=$c check=$k $(grep -m1 VIOLATION /tmp/check.txt) | $(grep -m1 '^  ' /tmp/check.txt)"
done
[ -z "$NOTEST" ] && bash /opt/vp/build.sh >/dev/null 2>&1
