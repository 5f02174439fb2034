#!/bin/bash
# dev helper: rebuild /repo and compare its tests with the baseline
bash /opt/vp/build.sh >/tmp/b.out 2>&1 || { grep -E "error" /tmp/b.out | head; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/o.json'))['passed']);print('tests broken:',sorted(b-p), len(b))"
