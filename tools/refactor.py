#!/usr/bin/env python3
"""Behaviour-preserving edits: the checks of the properties named have to stay quiet on each of them.

  refactor.py FILE [-k SUB]      FILE defines R = [(id, "C01 C02", [(file, old, new), ...]), ...]; old occurs once.
  A new file is given as (file, None, text). With MUT_DIR=... another scratch directory is used.
"""
import argparse, os, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/refactor")
REPO = W + "/repo"


def fresh():
    if not os.path.isdir(REPO):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
    subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", shell=True, cwd=REPO, check=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("-k", default="")
    ap.add_argument("-n", "--dry", action="store_true")
    a = ap.parse_args()
    for rid, props, edits in runpy.run_path(a.file)["R"]:
        if a.k not in rid:
            continue
        fresh()
        bad = False
        for path, old, new in edits:
            p = os.path.join(REPO, path)
            if old is None:
                open(p, "w").write(new)
                continue
            s = open(p).read()
            if s.count(old) != 1:
                print("%-28s BAD PATTERN (%d occurrences) in %s: %r" % (rid, s.count(old), path, old[:60]), flush=True)
                bad = True
                continue
            open(p, "w").write(s.replace(old, new))
        if bad or a.dry:
            continue
        for prop in props.split():
            t = time.time()
            r = subprocess.run([sys.executable, V + "/run.py", "check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO, VERIF_SEED="1"))
            out = [l for l in r.stdout.split("\n") if "VIOLATION" in l or l.startswith("  ") or "error" in l]
            print("%-28s %s %s %6.1f s  %s" % (rid, prop, {0: "quiet", 1: "ALARM"}.get(r.returncode, "NO ANSWER"), time.time() - t, "" if r.returncode == 0 else " | ".join(out)[:400] or r.stdout[-300:] + r.stderr[-300:]), flush=True)


main()
