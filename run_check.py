#!/usr/bin/env python3
"""Decide one property: mirror /repo, build the library and the harness under
sanitizers, run the monitored workload in shards, merge what the monitors saw,
match violations against known findings, write the evidence file.

usage: run_check.py <property> [quick|thorough]    (exit 0 held, 1 violation, 2 error)
       run_check.py --setup
       run_check.py --replay <file>
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props  # noqa: E402


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def mirror():
    """Copy /repo/src by content: a file is only rewritten when it differs, so
    that the incremental build is right whatever the time stamps say."""
    dst = os.path.join(BUILD, "mirror")
    seen = set()
    for top in ("src",):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            if "pyPROPOSAL" in root or "/_build" in root:
                continue
            for f in files:
                if not f.endswith((".h", ".cxx", ".hpp", ".in", ".cpp")):
                    continue
                s = os.path.join(root, f)
                rel = os.path.relpath(s, REPO)
                d = os.path.join(dst, rel)
                seen.add(d)
                data = open(s, "rb").read()
                try:
                    if open(d, "rb").read() == data:
                        continue
                except OSError:
                    pass
                os.makedirs(os.path.dirname(d), exist_ok=True)
                with open(d, "wb") as o:
                    o.write(data)
                os.utime(d)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if p not in seen:
                os.remove(p)
    return dst


def build(kind, targets):
    """kind: asan | tsan | full (asan + CubicInterpolation stand-in)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        m = mirror()
        bd = os.path.join(BUILD, kind)
        env = dict(os.environ, CC="clang", CXX="clang++", LC_ALL="C.UTF-8")
        if not os.path.exists(os.path.join(bd, "build.ninja")):
            os.makedirs(bd, exist_ok=True)
            cmd = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bd, "-G", "Ninja",
                   "-DMIRROR=" + m, "-DSAN=" + ("tsan" if kind == "tsan" else "asan"),
                   "-DFULL=" + ("ON" if kind == "full" else "OFF")]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                shutil.rmtree(bd, ignore_errors=True)
                die("cmake failed:\n" + r.stdout[-3000:])
        r = subprocess.run(["ninja", "-C", bd, "-j", str(JOBS)] + targets, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("build failed:\n" + r.stdout[-6000:])
        return bd


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
                         "detect_stack_use_after_return=1:max_allocation_size_mb=3000:handle_abort=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


def crash_kind(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", err)
    m2 = re.search(r"runtime error: ([^\n]{0,80})", err)
    if m2:
        t = re.sub(r"[-+]?[0-9.][0-9.e+xa-f-]*", "N", m2.group(1))
        return "ub(" + t.split(":")[0].strip()[:60] + ")"
    if m:
        return m.group(1) + "(" + m.group(2) + ")"
    if "MON-HANG" in err:
        return "hang"
    if "MON-TERMINATE" in err:
        return "terminate"
    return "abnormal-exit"


def where(err):
    """first stack frames inside PROPOSAL sources, for the report"""
    out = []
    for l in err.splitlines():
        if re.match(r"\s+#\d+ ", l) and "/mirror/" in l:
            out.append(re.sub(r".*/mirror/", "", l.strip()))
            if len(out) >= 3:
                break
    return " < ".join(out)


def run_harness(exe, prop, tier, seed, nshard, scale, only=None, timeout=None):
    tmp = tempfile.mkdtemp(prefix="mon_", dir=BUILD)
    try:
        procs = []
        n = 1 if only else nshard
        for i in range(n):
            out = os.path.join(tmp, "o%d.json" % i)
            sc = os.path.join(tmp, "s%d" % i)
            os.makedirs(sc)
            cmd = [exe, prop, "--seed", str(seed), "--tier", tier, "--out", out, "--shard", str(i),
                   "--nshard", str(n), "--scale", str(scale), "--scratch", sc]
            if only:
                cmd += ["--class", only[0], "--index", str(only[1])]
            errf = open(os.path.join(tmp, "e%d" % i), "w+")
            procs.append((subprocess.Popen(cmd, env=san_env(), stdout=subprocess.DEVNULL, stderr=errf, cwd=sc), out, errf))
        res = []
        t0 = time.time()
        for p, out, errf in procs:
            left = None if timeout is None else max(1, timeout - (time.time() - t0))
            to = False
            try:
                p.wait(left)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                to = True
            errf.seek(0)
            err = errf.read()
            errf.close()
            j = None
            if p.returncode == 0 and os.path.exists(out):
                j = json.load(open(out))
                b = open(out + ".bin", "rb").read()
                j["hashes"] = {b[k:k + 8] for k in range(0, len(b), 8)}
            res.append((p.returncode, j, err, to))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


def collect(results):
    viol, counters, extremes, samples, merge, hashes = [], {}, {}, {}, {}, set()
    ev = ck = 0
    inconclusive = 0
    for rc, j, err, to in results:
        if to:
            inconclusive += 1
            continue
        if j is None:
            m = re.search(r"MON-CASE\t([^\t\n]*)\t(-?\d+)\t([^\n]*)", err)
            kind = crash_kind(err)
            if not m and kind == "abnormal-exit":
                inconclusive += 1
                print("note: shard ended with rc=%d and no report: %s" % (rc, err[-800:]))
                continue
            cls, idx, desc = (m.group(1), int(m.group(2)), m.group(3)) if m else ("?", -1, "")
            viol.append({"key": cls + ":" + kind, "class": cls, "index": idx, "case": desc,
                         "msg": kind + " " + where(err), "report": err[-6000:]})
            continue
        ev += j["evaluations"]
        ck += j["checks"]
        hashes |= j["hashes"]
        for k, v in j["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in j["extremes"].items():
            if k in extremes:
                extremes[k] = [min(extremes[k][0], v[0]), max(extremes[k][1], v[1])]
            else:
                extremes[k] = v
        for k, v in (j["samples"] or {}).items():
            samples.setdefault(k, []).extend(v)
        for k, v in (j["merge"] or {}).items():
            merge.setdefault(k, []).append(v)
        viol.extend(j["violations"])
    return dict(viol=viol, counters=counters, extremes=extremes, samples=samples, merge=merge, hashes=hashes,
                ev=ev, ck=ck, inconclusive=inconclusive)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        kinds = {}
        for p in props.PROPS.values():
            kinds.setdefault(p["kind"], set()).add(p["exe"])
        for k, v in sorted(kinds.items()):
            build(k, sorted(v))
        print("setup done")
        return 0
    replay = None
    if a and a[0] == "--replay":
        replay = json.load(open(a[1]))
        prop = replay["property"]
        tier = replay["tier"]
    else:
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if prop not in props.PROPS:
        die("unknown property " + prop)
    spec = props.PROPS[prop]
    seed = int(replay["seed"] if replay else os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    bd = build(spec["kind"], [spec["exe"]])
    exe = os.path.join(bd, spec["exe"])
    tb = time.time() - t0
    nshard = spec.get("shards", JOBS)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if tier == "quick":
        scale *= props.PROPS[prop].get("qscale", 1)
    only = (replay["class"], replay["index"]) if replay else None
    tmo = 620 if tier == "quick" else 6 * 3600
    if replay:
        nshard = 1
    r = collect(run_harness(exe, prop, tier, seed, nshard, scale, only, timeout=tmo))
    if r["inconclusive"] and not r["viol"]:
        print("note: %d shard(s) inconclusive; running once more" % r["inconclusive"], flush=True)
        r2 = collect(run_harness(exe, prop, tier, seed, nshard, scale, only, timeout=100 if tier == "quick" else tmo / 4))
        if r2["inconclusive"] and not r["viol"] and not r2["viol"]:
            die("inconclusive: shards timed out or died without a report")
        if not r2["inconclusive"] or r2["viol"]:
            r = r2
    if spec.get("post") and not only:
        spec["post"](r, tier)
    known = [k for k in load_known() if k[0] == prop]
    seen_known = set()
    new = []
    for v in r["viol"]:
        hit = next((k for k in known if k[1] == v["key"]), None)
        if hit:
            seen_known.add(hit)
        else:
            new.append(v)
    for _, k, what in sorted(set(known)):
        # listed findings are printed when the run met them again
        st = "observed in this run" if any(s[1] == k for s in seen_known) else "not met in this run"
        print("KNOWN-FINDING: property=%s %s [%s; %s]" % (prop, what, k, st))
    if only:
        for v in r["viol"]:
            print(json.dumps(v, indent=1)[:4000])
        print("replayed %s %s: %d violation(s)" % (only[0], only[1], len(r["viol"])))
        return 1 if r["viol"] else 0
    need = spec.get("require", {})
    missing = []
    if not new:
        for cname, minimum in need.items():
            if r["counters"].get(cname, 0) < minimum * min(scale, 1):
                missing.append("%s: saw %d, needs %d" % (cname, r["counters"].get(cname, 0), minimum))
    samples = []
    for c in sorted(r["samples"]):
        samples += [c + ": " + s for s in r["samples"][c][:2]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["ev"], "distinct_nontrivial": len(r["hashes"]), "rule": spec["rule"],
            "samples": samples[:40] or ["(none)"],
            "oracle_decisions": r["ck"], "observed": dict(sorted(r["counters"].items())),
            "extremes": {k: [float("%.4g" % x) for x in v] for k, v in sorted(r["extremes"].items())},
            "build": spec["kind"], "shards": nshard,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if r.get("extra"):
        ev["coverage"].update(r["extra"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle decisions, build %.0fs, total %.0fs" %
          (prop, tier, seed, r["ev"], len(r["hashes"]), r["ck"], tb, time.time() - t0))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        keys = {}
        for v in new:
            keys.setdefault(v["key"], v)
        for n, (k, v) in enumerate(sorted(keys.items())):
            if n >= 10:
                break
            f = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump(dict(property=prop, tier=tier, seed=seed, **{x: v.get(x) for x in ("class", "index", "key", "msg", "case", "report")}),
                      open(f, "w"), indent=1)
            print("  %s :: %s :: %s" % (k, v["msg"][:400], (v.get("case") or "")[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if missing or r["ev"] == 0 or len(r["hashes"]) == 0:
        die("observed too little: " + "; ".join(missing or ["no cases"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
