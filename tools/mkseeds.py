#!/usr/bin/env python3
"""Build the planted bugs of /verif/seeded from the descriptions in seeds_*.py and test each of them.

  mkseeds.py [-k SUBSTRING] [--notest]

Each description: id, property, edits [(file, old, new)], needs, breaks, sources (for the demo) and the demo program (C++ or Python).
The patch is tested in a scratch copy: it applies, the stable tests pass with it, the demo passes without and fails with it.
"""
import argparse, glob, json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Exit 0 if the demonstration finds the behaviour right, 1 if not. Run with the repository as working directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf -- "$W"' EXIT
%s
"""
CPP = """S=cpp_utils/src/cpp
g++ -std=c++17 -O1 -w -pthread %s-I"$D/stubs" -Icpp_utils/include -I$S -Ithirdparty/filewatch "$D/demo.cpp" %s -o "$W/demo" || exit 1
cd "$W" && timeout 100 ./demo"""
PY = """PYTHONDONTWRITEBYTECODE=1 timeout 100 python3 "$D/demo.py" "$PWD" "$W" """


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("--notest", action="store_true")
    ap.add_argument("--baseline", action="store_true", help="also run the stable tests (slow) for files that are part of the build")
    a = ap.parse_args()
    for f in sorted(glob.glob(V + "/tools/seeds_*.py")):
        for s in runpy.run_path(f)["S"]:
            if a.k not in s["id"]:
                continue
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
            run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
            r = w + "/r"
            for path, old, new in s["edits"]:
                p = os.path.join(r, path)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "BAD PATTERN", path, t.count(old))
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = run(["git", "diff"], cwd=r).stdout
                open(d + "/patch.diff", "w").write(diff)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                if "py" in s:
                    open(d + "/demo.py", "w").write(s["py"].lstrip("\n"))
                    open(d + "/demo.sh", "w").write(SH % PY)
                else:
                    open(d + "/demo.cpp", "w").write(s["cpp"].lstrip("\n"))
                    src = " ".join("$S/%s.cpp" % x for x in s["sources"])
                    open(d + "/demo.sh", "w").write(SH % (CPP % (s.get("flags", "") + (" " if s.get("flags") else ""), src)))
                    if os.path.isdir(d + "/stubs"):
                        shutil.rmtree(d + "/stubs")
                    shutil.copytree(V + "/stubs", d + "/stubs")
                os.chmod(d + "/demo.sh", 0o755)
                if not a.notest:
                    # from another place, as it will be run
                    shutil.copytree(d, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
                    bad = [run(["bash", w + "/demo/demo.sh"], cwd=r) for _ in range(2)]
                    run(["git", "checkout", "-q", "."], cwd=r, check=True)
                    good = [run(["bash", w + "/demo/demo.sh"], cwd=r) for _ in range(2)]
                    res = "ok" if all(x.returncode == 0 for x in good) and all(x.returncode not in (0,) for x in bad) else "WRONG"
                    print("%-32s %-4s %-5s with %s without %s  %s" % (s["id"], s["property"], res, [x.returncode for x in bad], [x.returncode for x in good],
                          (bad[0].stdout + bad[0].stderr).strip()[-150:].replace("\n", " | ")), flush=True)
                    if res != "ok":
                        print(good[0].stdout[-1500:], good[0].stderr[-1500:], bad[0].stderr[-800:])
            shutil.rmtree(w)


main()
