"""C41: every enumeration description of a bounded space through the generator script, its headers compiled and executed."""
import argparse
import contextlib
import io
import itertools
import json
import os
import re
import runpy
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = os.path.join(REPO, "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py")
NAMES = ["a", "B2", "long_name", "_x"]
OTHERS = ["", "A", "b2", "a ", " a", "aa", "B", "long", "long_nam", "long_name_", "x", "0", "1", "value", ";", ",", "a;B2", "E", "E::a"]
NAMESPACES = [(None, ["eprosima"]), ("", []), ("one", ["one"]), ("one;two", ["one", "two"]), ("one , two", ["one", "two"]),
              (" one; two ;", ["one", "two"]), ("one;two;three", ["one", "two", "three"]), ("one,", ["one"])]


class Violation(Exception):
    pass


class R:
    cases = 0
    headers = 0
    steps = 0


def generate(*args):
    """Run the script as from the command line; its exit code."""
    argv, sys.argv = sys.argv, [SCRIPT] + list(args)
    R.steps += 1
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(SCRIPT, run_name="__main__")
        return 0
    except SystemExit as e:
        return e.code or 0
    except Exception as e:  # noqa: B902
        raise Violation("the script failed with %s: %s for %s" % (type(e).__name__, e, list(args)))
    finally:
        sys.argv = argv


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        raise Violation("there is no file %s" % path)


def code_only(text):
    return re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", text, flags=re.S))


def descriptions(thorough):
    for n in range(1, 5):
        for names in itertools.permutations(NAMES, n):
            for sep in ";,":
                for form in range(9 if not thorough else 12):
                    if form == 0:
                        t = sep.join(names)
                    elif form == 1:
                        t = (sep + " ").join(names)
                    elif form == 2:
                        t = "  " + ("  " + sep + "  ").join(names) + " "
                    elif form == 3:
                        t = sep.join(names) + sep
                    elif form == 4:
                        t = (sep + " ").join(names) + sep + " "
                    elif form == 5:
                        t = sep.join(names) + sep + sep
                    elif form == 6:
                        t = sep + sep.join(names)
                    elif form == 7:
                        t = (sep + sep).join(names)
                    elif form == 8:
                        t = (sep + " " + sep).join(names) + sep
                    elif form == 9:
                        t = (" " + sep).join(names) + " "
                    elif form == 10:
                        t = " " + sep + " " + sep.join(names)
                    else:
                        t = sep.join(" ".join(x) for x in names)
                    yield t, list(names)


def expectations(enum, names, ns, header):
    q = "::".join([""] + ns + [""]) if ns else "::"
    o = ["static void test_%s()" % enum, "{", "    ctx = %s;" % json.dumps("enumeration %s in namespaces %s" % (names, ns))]
    o.append("    typedef %s%s X;" % (q, enum))
    o.append("    check(%sN_VALUES_%s == %d && %sNAMES_%s.size() == %d, \"number of values\");" % (q, enum, len(names), q, enum, len(names)))
    o.append("    check(%sstring_vector_%s() == std::vector<std::string>{%s}, \"names\");" % (q, enum, ", ".join(json.dumps(n) for n in names)))
    for i, n in enumerate(names):
        o.append("    check(static_cast<int>(X::%s) == %d && %sNAMES_%s[%d] == \"%s\", \"order\");" % (n, i, q, enum, i, n))
        o.append("    check(%sto_string(X::%s) == \"%s\" && %sfrom_string_%s(\"%s\") == X::%s && text(X::%s) == \"%s\", \"conversion\");" % (q, n, n, q, enum, n, n, n, n))
    for n in NAMES + OTHERS:
        if n not in names:
            o.append("    try { %sfrom_string_%s(%s); check(false, \"a text that is no name was accepted\"); } catch (const std::invalid_argument&) { }" % (q, enum, json.dumps(n)))
    return "\n".join(o + ["}"])


def compile_and_run(d, cases):
    """cases: (enum, names, namespaces, header)"""
    src = os.path.join(d, "t.cpp")
    with open(src, "w") as f:
        for e, names, ns, h in cases:
            f.write('#include "%s"\n' % h)
        f.write('#include <cstdio>\n#include <sstream>\nstatic const char* ctx; static void check(bool ok, const char* what) { if (!ok) { std::printf("%s: %s\\n", what, ctx); throw 1; } }\n'
                "template <typename T> static std::string text(const T& t) { std::ostringstream os; os << t; return os.str(); }\n")
        for c in cases:
            f.write(expectations(*c) + "\n")
        f.write("int main() { try {\n" + "".join("    test_%s();\n" % c[0] for c in cases) + "} catch (int) { return 1; } return 0; }\n")
    p = subprocess.run(["clang++", "-std=c++11", "-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-I", d, src, "-o", os.path.join(d, "t")], capture_output=True, text=True)
    if p.returncode != 0:
        # which one?
        if len(cases) > 1:
            k = len(cases) // 2
            compile_and_run(d, cases[:k])
            compile_and_run(d, cases[k:])
        raise Violation("the header for values %s in namespaces %s does not compile: %s" % (cases[0][1], cases[0][2], p.stderr[:600]))
    p = subprocess.run([os.path.join(d, "t")], capture_output=True, text=True, timeout=100)
    if p.returncode != 0:
        raise Violation("%s %s" % (p.stdout.strip(), p.stderr.strip()[:500]))
    R.headers += len(cases)


def lists(k, thorough):
    arg, ns = NAMESPACES[k]
    more = [] if arg is None else ["--namespaces", arg]
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        out = os.path.join(d, "h.hpp")
        seen = {}
        for t, names in descriptions(thorough):
            R.cases += 1
            rc = generate("--enum", "E", "--values", t, "--output", out, *more)
            if rc != 0:
                raise Violation("the script ended with %s for values %r" % (rc, t))
            key = (code_only(read(out)), tuple(names))
            if key not in seen:
                # a description with another header than those before: compile it
                seen[key] = t
        cases = []
        for i, ((_, names), t) in enumerate(seen.items()):
            e = "E%d" % i
            generate("--enum", e, "--values", t, "--output", os.path.join(d, e + ".hpp"), *more)
            cases.append((e, list(names), ns, e + ".hpp"))
        compile_and_run(d, cases[:1])
        for i in range(0, len(cases), 64):
            compile_and_run(d, cases[i:i + 64])


def usage(_, thorough):
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as d:
        os.chdir(d)
        try:
            # the file goes where it is asked for, with its directories, and replaces what was there
            for flags in (("--enum", "--values", "--output", "--namespaces"), ("-e", "-v", "-o", "-n")):
                for out in ("o.hpp", "sub/o.hpp", "sub/deeper/o.hpp", "./o.h", os.path.join(d, "abs/o.hpp"), None, "sub/o.hpp"):
                    for vals, names in (("a;B2;_x", ["a", "B2", "_x"]), ("long_name", ["long_name"]), ("_x,a", ["_x", "a"])):
                        for ns, nsl in ((None, ["eprosima"]), ("one;two", ["one", "two"])):
                            R.cases += 1
                            args = [flags[0], "Color", flags[1], vals] + ([flags[2], out] if out else []) + ([flags[3], ns] if ns else []) + (["-d"] if len(names) == 2 else [])
                            if generate(*args) != 0:
                                raise Violation("the script failed with %s" % args)
                            path = os.path.join(d, out or "Color.hpp")
                            read(path)
                            rel = os.path.relpath(path, d)
                            if thorough or (R.cases % 5 == 0):
                                compile_and_run(d, [("Color", names, nsl, rel)])
            # without what is required nothing is written
            before = sorted(os.listdir(d))
            for args in ([], ["--enum", "X"], ["--values", "a;b"], ["--enum"], ["--enum", "X", "--values"]):
                R.cases += 1
                if generate(*args) == 0 or sorted(os.listdir(d)) != before:
                    raise Violation("the script accepted %s" % args)
            # many values
            for n in ([5, 20, 200] if not thorough else [5, 20, 200, 1000]):
                R.cases += 1
                names = ["v%d" % i for i in range(n)]
                generate("-e", "Many", "-v", ";".join(names), "-o", "many.hpp")
                compile_and_run(d, [("Many", names, ["eprosima"], "many.hpp")])
        finally:
            os.chdir(here)


SCENARIOS = [("lists_namespaces_%d" % k, k, lists) for k in range(len(NAMESPACES))] + [("usage", 0, usage)]


def main():
    ap = argparse.ArgumentParser()
    for x in ("--property", "--scenario", "--out"):
        ap.add_argument(x)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--time", type=float)
    ap.add_argument("--known", action="append", default=[])
    ap.add_argument("--replay", nargs="?", const="")
    a = ap.parse_args()
    if a.list:
        for n, _, _ in SCENARIOS:
            print("%s\t1" % n)
        return 0
    t0, msg = time.time(), ""
    _, k, f = next(x for x in SCENARIOS if x[0] == a.scenario)
    try:
        f(k, a.thorough)
    except Violation as e:
        msg = str(e)
    known = [int(bool(msg) and x in msg) for x in a.known]
    status = "violation" if msg and not any(known) else "ok"
    r = {"property": "C41", "scenario": a.scenario, "status": status, "msg": msg, "executions": R.cases, "pruned": 0, "transitions": R.steps, "states": R.cases,
         "completed_bound": 0, "target_bound": 0, "wall": time.time() - t0, "known": known, "counters": {"cases": R.cases, "headers_compiled": R.headers}, "samples": [], "choices": []}
    if a.out:
        with open(a.out, "w") as o:
            json.dump(r, o)
    else:
        print(r)
    return 1 if status == "violation" and a.replay is not None else 0


if __name__ == "__main__":
    sys.exit(main())
