#!/usr/bin/env python3
"""Apply each planted bug to a scratch copy, run its property's check against it (must report a violation),
and with --baseline also apply it to /repo and run the stable tests (restored afterwards).

  testseeds.py [-k SUBSTRING] [--baseline] [--nocheck]
"""
import argparse, glob, json, os, shutil, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-k", default="")
ap.add_argument("--baseline", action="store_true")
ap.add_argument("--nocheck", action="store_true")
a = ap.parse_args()
for d in sorted(glob.glob(V + "/seeded/*/")):
    n = os.path.basename(d[:-1])
    if a.k not in n:
        continue
    prop = json.load(open(d + "meta.json"))["property"]
    res = ""
    if not a.nocheck:
        w = tempfile.mkdtemp(prefix="ts-", dir="/tmp")
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        subprocess.run(["git", "apply", d + "patch.diff"], cwd=w + "/r", check=True)
        t0 = time.time()
        p = subprocess.run(["python3", V + "/run.py", "check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/r"))
        ok = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        res += "%s %.0fs %s" % ("caught" if ok else "MISSED rc=%d" % p.returncode, time.time() - t0, p.stdout.strip().split("\n")[0][:110])
        shutil.rmtree(w)
        f = V + "/tools/seed_results.json"
        r = json.load(open(f)) if os.path.exists(f) else {}
        why = [l.strip() for l in p.stdout.split("\n") if l.startswith("  ")][:1] or [""]
        r[n] = (prop + ": " + why[0][:150]) if ok else "MISSED"
        json.dump(r, open(f, "w"), indent=0, sort_keys=True)
    if a.baseline:
        subprocess.run(["git", "-C", "/repo", "apply", d + "patch.diff"], check=True)
        try:
            # the lines changed must be those of the original repository
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/ts.json"], capture_output=True)
            o = json.load(open("/tmp/ts.json"))
            want = json.load(open("/opt/vp/BASELINE.json"))
            want = want["stable"]
            miss = [x for x in want if x not in o["passed"]]
            res += "  baseline %d passed, missing %s" % (len(o["passed"]), miss[:3])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    print("%-36s %s %s" % (n, prop, res), flush=True)
