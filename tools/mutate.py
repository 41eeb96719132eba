#!/usr/bin/env python3
"""Sensitivity test of the checks: apply small semantic changes to a copy of /repo, one at a time, and run the checks of the properties they should break.

  mutate.py FILE [-k SUBSTRING] [--missed]     FILE: python file with a list M of (id, "C01 C02", path, old, new[, occurrence])

Results are appended to /tmp/mut/results.txt.  Not part of any check.
"""
import argparse, os, runpy, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/mut")
REPO = W + "/repo"


def fresh():
    os.makedirs(REPO, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", os.environ.get("MUT_BASE", "/repo") + "/", REPO + "/"], check=True)


def main():
    global W, REPO
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("-k", default="")
    ap.add_argument("-n", "--dry", action="store_true")
    a = ap.parse_args()
    if a.dry:
        W = "/tmp/mut-dry"
        REPO = W + "/repo"
    for m in runpy.run_path(a.file)["M"]:
        mid, props, path, old, new = m[:5]
        if a.k not in mid:
            continue
        fresh()
        p = os.path.join(REPO, path)
        s = open(p).read()
        n = s.count(old)
        occ = m[5] if len(m) > 5 else None
        if n == 0 or (n > 1 and occ is None):
            print("%-28s BAD PATTERN (%d occurrences)" % (mid, n), flush=True)
            continue
        i = -1
        for _ in range((occ or 0) + 1):
            i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
        if a.dry:
            continue
        for prop in props.split():
            t = time.time()
            r = subprocess.run([sys.executable, V + "/run.py", "check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO, VERIF_SEED="1"))
            v = {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER")
            why = [l for l in r.stdout.split("\n") if l.startswith("  ")][:1] or [r.stdout[-300:].replace("\n", " | ")]
            line = "%-28s %s %-9s %5.1f s  %s" % (mid, prop, v, time.time() - t, why[0].strip()[:160])
            print(line, flush=True)
            with open(W + "/results.txt", "a") as f:
                f.write(line + "\n")


main()
