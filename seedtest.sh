#!/bin/bash
# dev helper: try seeded/<id> in /repo: demo clean, apply, build, stable tests, demo patched, property check; then undo.
id=$1; S=/verif/seeded/$id
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh >/tmp/sd.out 2>&1; echo "$id clean demo rc=$? (want 0)"
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
if bash /opt/vp/build.sh >/tmp/sb.out 2>&1; then
  bash /opt/vp/test.sh /tmp/so.json >/dev/null 2>&1
  python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/so.json'))['passed']);print('tests broken:',sorted(b-p))"
  bash $S/demo.sh >/tmp/sd2.out 2>&1; echo "patched demo rc=$? (want !=0)"
  cd /verif && for p in ${2:-$prop}; do python3 run_check.py $p quick > /tmp/sc.out 2>&1; echo "check $p rc=$? (want 1)"; grep -E "VIOL|::|ERROR" /tmp/sc.out | cut -c1-300 | head -${LINES_MAX:-4}; done
else echo "BUILD FAILED"; tail -5 /tmp/sb.out; fi
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1
