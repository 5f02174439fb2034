#!/usr/bin/env python3
"""dev helper: mkseed.py <id> <property> <needs> <breaks> < spec, where spec is python: edits=[(file, old, new),...]; demo='''C++ main'''
Makes seeded/<id>/ from a scratch copy of the touched files."""
import sys, os, json, subprocess, tempfile, shutil
sid, prop, needs, breaks = sys.argv[1:5]
ns = {}
exec(sys.stdin.read(), ns)
out = f"/verif/seeded/{sid}"
os.makedirs(out, exist_ok=True)
diff = ""
td = tempfile.mkdtemp()
files = {}
for f, old, new in ns["edits"]:
    t = files.setdefault(f, open("/repo/" + f).read())
    assert t.count(old) == 1, (f, t.count(old), old)
    files[f] = t.replace(old, new)
subprocess.run(["git", "init", "-q", td], check=True)
for f in files:
    os.makedirs(os.path.dirname(f"{td}/{f}"), exist_ok=True)
    shutil.copy("/repo/" + f, f"{td}/{f}")
subprocess.run(["git", "-C", td, "add", "-A"], check=True)
for f, t in files.items():
    open(f"{td}/{f}", "w").write(t)
diff = subprocess.run(["git", "-C", td, "diff"], capture_output=True, text=True, check=True).stdout
shutil.rmtree(td)
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo.cpp", "w").write(ns["demo"])
shutil.copy("/verif/seeded/.demo.sh.tpl", out + "/demo.sh")
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
