#!/usr/bin/env python3
"""Driver of the checks.

  run.py check C01 [--thorough] [--only SCENARIO]   explore all scenarios of a property
  run.py setup                                      toolchain check and engine build
  run.py replay FILE                                replay a recorded violation

Every check rebuilds what it needs from /repo's working tree (objects are cached under /verif/build by content).
"""
import signal
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
NPROC = os.cpu_count() or 4
CXX = "clang++"
SRC = os.path.join(R, "cpp_utils/src/cpp")
INC = ["-I%s/mc" % V, "-I%s/harness" % V, "-I%s/stubs" % V, "-I%s/cpp_utils/include" % R, "-I%s" % SRC]
FILEWATCH = "-I%s/thirdparty/filewatch" % R
COMMON = ["-std=gnu++17", "-g1", "-fno-omit-frame-pointer", "-w", "-DMC_VERIF"]
FLAGS = {
    "mc": COMMON + ["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
    "seq": COMMON + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
}
RTFLAGS = {"mc": COMMON + ["-O2"], "seq": COMMON + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr"]}
LINK = {"mc": ["-no-pie", "-rdynamic", "-ldl", "-lpthread"],
        "seq": ["-no-pie", "-rdynamic", "-fsanitize=address,undefined", "-ldl", "-lpthread"]}
RT = {"mc": "rt.cpp", "seq": "seq.cpp"}


def tree_hash():
    h = hashlib.sha256()
    for d in [R + "/cpp_utils/include", R + "/cpp_utils/src", R + "/thirdparty", V + "/mc", V + "/stubs"]:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in sorted(glob.glob(V + "/harness/*.hpp")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h


class BuildError(Exception):
    pass


class PublicUseError(BuildError):
    """A harness that says `uses: public` does nothing but what the documentation says a user can: that it does not compile is a violation."""


def compile_one(src, flags, base):
    h = base.copy()
    with open(src, "rb") as fh:
        h.update(fh.read())
    h.update((src + " ".join(flags)).encode())
    obj = os.path.join(B, "obj", h.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        return obj, ""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-6000:]
    os.replace(tmp, obj)
    return obj, ""


def header(hfile):
    """Directives in the first lines of a harness: engine, sources, flags, nofilewatch."""
    d = {"engine": "mc", "sources": None, "flags": [], "shadow": None, "exclude": [], "uses": ""}
    for line in open(hfile).read().split("\n")[:12]:
        m = re.match(r"//\s*(engine|sources|flags|shadow|exclude|uses):\s*(.*)", line)
        if m:
            k, v = m.group(1), m.group(2).strip()
            d[k] = v.split() if k in ("sources", "flags", "exclude") else v
    return d


def build(hfile, pool):
    d = header(hfile)
    eng = d["engine"]
    base = tree_hash()
    inc = (["-I%s/%s" % (V, d["shadow"])] if d["shadow"] else []) + INC + [FILEWATCH, "-I%s/thirdparty" % R]
    flags = FLAGS[eng] + inc + [f.replace("@R", R).replace("@V", V) for f in d["flags"]]
    allsrc = sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))
    allsrc = [s for s in allsrc if os.path.relpath(s, SRC)[:-4] not in d["exclude"]]
    hinted = allsrc if d["sources"] is None else \
        [s for s in allsrc if os.path.relpath(s, SRC)[:-4] in d["sources"]]
    jobs = {}
    f_rt = pool.submit(compile_one, os.path.join(V, "mc", RT[eng]), RTFLAGS[eng] + INC, base)
    f_h = pool.submit(compile_one, hfile, flags, base)
    for s in hinted:
        jobs[s] = pool.submit(compile_one, s, flags, base)
    for name, f in (("runtime", f_rt), (hfile, f_h)):
        o, err = f.result()
        if not o:
            if name == hfile and d["uses"] == "public" and "file not found" not in err:
                raise PublicUseError(err)
            raise BuildError("%s does not compile:\n%s" % (name, err))
    exe = None
    for attempt in (0, 1):
        objs, errs = [f_rt.result()[0], f_h.result()[0]], []
        for s, f in jobs.items():
            o, err = f.result()
            if o:
                objs.append(o)
            else:
                errs.append("%s: %s" % (s, err))
        hh = hashlib.sha256((" ".join(objs) + " ".join(LINK[eng])).encode()).hexdigest()[:24]
        exe = os.path.join(B, "exe", os.path.basename(hfile)[:-4] + "-" + hh)
        if os.path.exists(exe):
            return exe, len(jobs)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX] + objs + LINK[eng] + ["-o", tmp], capture_output=True, text=True)
        if p.returncode == 0:
            os.replace(tmp, exe)
            return exe, len(jobs)
        if attempt == 0 and len(jobs) < len(allsrc):
            for s in allsrc:
                if s not in jobs:
                    jobs[s] = pool.submit(compile_one, s, flags, base)
            continue
        raise BuildError("link failed:\n%s\n%s" % (p.stderr[-3000:], "\n".join(errs)[-5000:]))


def load_known(prop):
    """known: property=<id> scenario=<glob> match=<substring> :: <what fails>"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) match=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append({"scenario": m.group(2), "match": m.group(3), "what": m.group(4)})
    return res


def harnesses(prop):
    return sorted(glob.glob(os.path.join(V, "harness", prop.lower() + "[_a-z]*.cpp"))), \
        sorted(glob.glob(os.path.join(V, "harness", prop.lower() + "[_a-z]*.py")))


def check(prop, thorough, only=None, verbose=False):
    t0 = time.time()
    tier = "thorough" if thorough else "quick"
    hard = 3000.0 if thorough else 420.0
    cpps, pys = harnesses(prop)
    if not cpps and not pys:
        print("no harness for", prop)
        return 2
    known = load_known(prop)
    pool = cf.ThreadPoolExecutor(NPROC)
    results, samples, nsrc = [], [], 0
    tmpd = os.path.join(B, "out-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    try:
        runs = []
        for h in cpps:
            exe, n = build(h, pool)
            nsrc = max(nsrc, n)
            p = subprocess.run([exe, "--list", "--property", prop], capture_output=True, text=True)
            if p.returncode != 0:
                print("harness cannot list its scenarios:", p.stderr[-500:])
                return 2
            for line in p.stdout.split("\n"):
                f = line.split("\t")
                if len(f) == 5 and (thorough or f[2] == "1") and (only is None or fnmatch.fnmatch(f[1], only)):
                    runs.append((exe, f[1], header(h)["engine"]))
        for h in pys:
            p = subprocess.run([sys.executable, h, "--list"], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            if p.returncode != 0:
                print("harness cannot list its scenarios:", p.stderr[-2000:])
                return 2
            for line in p.stdout.split("\n"):
                f = line.split("\t")
                if len(f) == 2 and (thorough or f[1] == "1") and (only is None or fnmatch.fnmatch(f[0], only)):
                    runs.append((h, f[0], "py"))
        tb = time.time() - t0
        stop = threading.Event()   # set at the first violation: the rest is not worth a long wait

        def one(k):
            exe, name, eng = runs[k]
            if stop.is_set():
                return None
            out = os.path.join(tmpd, "%d.json" % k)
            left = max(5.0, hard - (time.time() - t0))
            cmd = ([sys.executable] if eng == "py" else []) + [exe, "--property", prop, "--scenario", name, "--out", out,
                   "--time", str(left if not thorough else min(left, 600.0))]
            kn = [x for x in known if fnmatch.fnmatch(name, x["scenario"])]
            for x in kn:
                cmd += ["--known", x["match"]]
            if thorough:
                cmd.append("--thorough")
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace",
                                 env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC"), cwd=tmpd, start_new_session=True)
            grace = None
            while True:
                try:
                    p.stderr_text = p.communicate(timeout=2)[1]
                    break
                except subprocess.TimeoutExpired:
                    if stop.is_set():
                        grace = grace or time.time() + 6
                        if time.time() > grace:
                            # with the processes it started, which hold its standard error
                            os.killpg(p.pid, signal.SIGKILL)
                            p.communicate()
                            return None
            try:
                r = json.load(open(out))
            except Exception as e:
                r = {"property": prop, "scenario": name, "status": "error", "msg": "no result (%s): rc=%d %s" %
                     (e, p.returncode, p.stderr_text[-2000:]), "executions": 0, "pruned": 0, "transitions": 0, "states": 0,
                     "completed_bound": -1, "target_bound": 0, "wall": 0, "known": [], "counters": {}}
            r["engine"], r["exe"], r["known_list"] = eng, exe, kn
            if r["status"] == "violation":
                stop.set()
            return r
        futs = [pool.submit(one, k) for k in range(len(runs))]
        for f in futs:
            r = f.result()
            if r is not None:
                results.append(r)
    except PublicUseError as e:
        first = next((l for l in str(e).split("\n") if "error:" in l), "")
        results = [{"property": prop, "scenario": "build", "status": "violation", "msg": "the documented use does not compile: " + first, "executions": 0, "pruned": 0,
                    "transitions": 0, "states": 0, "completed_bound": -1, "target_bound": 0, "wall": 0, "known": [], "known_list": [], "counters": {}, "engine": "build"}]
        tb = time.time() - t0
    except BuildError as e:
        print("BUILD ERROR", e)
        return 2
    finally:
        subprocess.run(["rm", "-rf", "--one-file-system", tmpd])
    bad = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] == "error"]
    hits = {}
    for r in results:
        for x, n in zip(r["known_list"], r.get("known", [])):
            if n:
                hits[(x["scenario"], x["match"])] = (x["what"], hits.get((x["scenario"], x["match"]), ("", 0))[1] + n)
    for (sc, m), (what, n) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for r in bad:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_]", "_", r["scenario"])))
        trace = ""
        if r["engine"] == "mc":
            try:
                p = subprocess.run([r["exe"], "--property", prop, "--scenario", r["scenario"], "--replay",
                                    ",".join(map(str, r.get("choices", [])))] + (["--thorough"] if thorough else []) + (["--fork-each"] if r.get("fork_each") else []),
                                   capture_output=True, text=True, errors="replace", timeout=60, env=dict(os.environ, TZ="UTC"))
                trace = p.stdout[-20000:]
            except subprocess.TimeoutExpired:
                pass
        json.dump({"property": prop, "scenario": r["scenario"], "message": r["msg"], "choices": r.get("choices", []),
                   "tier": tier, "fork_each": r.get("fork_each", 0), "engine": r["engine"], "trace": trace.split("\n")}, open(rp, "w"), indent=1)
        print("  %s: %s" % (r["scenario"], r["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for r in errors:
        print("ERROR in scenario %s: %s" % (r["scenario"], r["msg"][:1500]))
    if verbose:
        for r in results:
            print("%-40s %-9s exec=%-8d states=%-8d trans=%-9d bound=%s/%s %.2fs %s %s" % (
                r["scenario"], r["status"], r["executions"], r["states"], r["transitions"], r["completed_bound"],
                r["target_bound"], r["wall"], r.get("counters") or "", r["msg"][:200]))
    if only is None:
        write_evidence(prop, tier, results, bad, time.time() - t0, tb, nsrc)
    tot = sum(r["executions"] for r in results)
    print("%s %s: %d scenarios, %d executions, %d states, %d transitions, %.1f s (build %.1f s)%s" % (
        prop, tier, len(results), tot, sum(r["states"] for r in results), sum(r["transitions"] for r in results),
        time.time() - t0, tb, "" if not bad else ", VIOLATED"))
    if bad:
        return 1
    return 2 if errors or not results else 0


def write_evidence(prop, tier, results, bad, wall, tb, nsrc):
    spec = {}
    try:
        for line in open(os.path.join(V, "properties.jsonl")):
            s = json.loads(line)
            spec[s["id"]] = s
    except Exception:
        pass
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            if len(samples) < 12:
                samples.append("%s: %s" % (r["scenario"], s))
    for r in results:
        if len(samples) < 14:
            samples.append("%s: %d executions explored on the real code, deviation bound completed %s of %s" % (
                r["scenario"], r["executions"], r["completed_bound"], r["target_bound"]))
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["executions"] for r in results),
        "pruned_equivalent_prefixes": sum(r["pruned"] for r in results),
        "samples": samples,
        "exhaustive": all(r["completed_bound"] >= r["target_bound"] for r in results),
        "rule": "mc scenarios: every schedule, time-out and data choice of the scenario with at most `bound` deviations "
                "(preemptions, early time-outs, spurious wake-ups) is executed on the real code; states are distinct "
                "happens-before fingerprints. seq and py scenarios: every case of the stated finite space.",
        "scenarios": [{k: r.get(k) for k in ("scenario", "engine", "status", "executions", "pruned", "states", "transitions",
                                              "completed_bound", "target_bound", "wall", "counters")} for r in results],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov,
          "assumptions": ["sequentially consistent executions (data races are reported separately by happens-before analysis)",
                          "bounded thread counts, operation counts and deviation bounds, listed per scenario",
                          "Fast DDS is replaced by a stub of its logging, return-code and QoS interfaces"],
          "wall_s": round(wall, 3), "violations": len(bad)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)


def setup():
    pool = cf.ThreadPoolExecutor(NPROC)
    base = tree_hash()
    for e in RT:
        o, err = compile_one(os.path.join(V, "mc", RT[e]), RTFLAGS[e] + INC, base)
        if not o:
            print(err)
            return 2
    print("engines built")
    return 0


def replay(path):
    d = json.load(open(path))
    pool = cf.ThreadPoolExecutor(NPROC)
    cpps, pys = harnesses(d["property"])
    for h in cpps:
        try:
            exe, _ = build(h, pool)
        except PublicUseError as e:
            print(e)
            return 1
        if d["engine"] == "build":
            continue
        p = subprocess.run([exe, "--list", "--property", d["property"]], capture_output=True, text=True)
        if any(l.split("\t")[1:2] == [d["scenario"]] for l in p.stdout.split("\n")):
            return subprocess.run([exe, "--property", d["property"], "--scenario", d["scenario"], "--replay",
                                   ",".join(map(str, d["choices"]))] + (["--thorough"] if d["tier"] == "thorough" else []) + (["--fork-each"] if d.get("fork_each") else [])).returncode
    if d["engine"] == "build":
        return 0
    for h in pys:
        return subprocess.run([sys.executable, h, "--scenario", d["scenario"], "--replay"]).returncode
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.cmd == "setup":
        return setup()
    if a.cmd == "replay":
        return replay(a.arg)
    if a.cmd == "check":
        return check(a.arg, a.thorough, a.only, a.v)
    return 2


if __name__ == "__main__":
    sys.exit(main())
