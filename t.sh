#!/bin/bash
# dev helper: mirror, build one harness, run one property in one process, print violations
exe=$1; p=$2; shift 2
cd /verif && python3 - <<P
import run_check as r
import io,contextlib,sys
b=io.StringIO()
try:
  with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b): r.build("${KIND:-asan}", ["$exe"])
except BaseException as e:
  t=b.getvalue()+str(e); print("\n".join(l for l in t.split("\n") if "error" in l)[:3000]); sys.exit(1)
P
[ $? -eq 0 ] || exit 1
export ASAN_OPTIONS=detect_leaks=0:max_allocation_size_mb=3000 UBSAN_OPTIONS=print_stacktrace=1
rm -f /tmp/t_$p.json
timeout 900 build/${KIND:-asan}/$exe $p --out /tmp/t_$p.json "$@" 2>&1 | head -60
python3 - <<P
import json,os
j=json.load(open('/tmp/t_$p.json'));print(j['evaluations'],j['checks'],j['perkey'])
seen={}
for v in j['violations']:
    seen[v['key']]=seen.get(v['key'],0)+1
    if seen[v['key']]<=int(os.environ.get('KEEP','1')): print(v['key'],v['index'],v['msg'][:300],'|',v['case'][:500])
import os
if os.environ.get('CNT'):
    for k,v in sorted(j['counters'].items()): print('  ',k,v)
    for k,v in sorted(j['extremes'].items()): print('  ext',k,v)
P
