"""C45: the CMake package: every combination of settings and options of a bounded space against the documented defaults (README of cmake_utils)."""
import argparse
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
C = REPO + "/cmake_utils/cmake/"
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CMAKE", "MODULE_", "BUILD_"))}


class Violation(Exception):
    pass


class R:
    cases = 0
    runs = 0


def check(ok, what):
    if not ok:
        raise Violation(what() if callable(what) else what)


def cmake(args, cwd, ok=True):
    R.runs += 1
    p = subprocess.run(["cmake"] + args, cwd=cwd, capture_output=True, text=True, env=ENV)
    if ok is not None:
        check((p.returncode == 0) == ok, lambda: "cmake %s %s: %s" % (" ".join(args), "failed" if ok else "accepted", p.stderr[-600:]))
    return p


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


INCLUDES = "cmake_minimum_required(VERSION 3.5)\n" + "".join('include("%s%s.cmake")\n' % (C, x) for x in (
    "project/in_source_build_prevention", "project/load_project_settings", "project/read_version", "project/read_commit_hash", "project/installation_paths",
    "project/configure_project", "project/cmake_options", "cpp_common/force_cpp", "cpp_common/find_external"))


def script(d, body, ok=True):
    """Run a script; the lines `report`ed: name -> value per case."""
    out = os.path.join(d, "out.txt")
    open(out, "w").close()
    write(os.path.join(d, "s.cmake"), INCLUDES + """
macro(report ID)
  set(_line "${ID}")
  foreach(_v ${ARGN})
    if(DEFINED ${_v})
      set(_line "${_line}\\t${_v}=${${_v}}")
    else()
      set(_line "${_line}\\t${_v}?")
    endif()
  endforeach()
  file(APPEND "%s" "${_line}\\n")
endmacro()
macro(quiet)
  macro(message KIND)
    if("${KIND}" STREQUAL "FATAL_ERROR")
      _message(FATAL_ERROR ${ARGN})
    endif()
  endmacro()
endmacro()
quiet()
%s""" % (out, body))
    cmake(["-P", os.path.join(d, "s.cmake")], d, ok)
    r = {}
    for line in open(out).read().splitlines():
        f = line.split("\t")
        r[f[0]] = {x.split("=")[0].rstrip("?"): (x.split("=", 1)[1] if "=" in x else None) for x in f[1:]}
    return r


def same(what, got, want):
    R.cases += 1
    bad = {k: (got.get(k), v) for k, v in want.items() if got.get(k) != v and (got.get(k) or v)}  # a list of nothing is the same as none
    check(not bad, lambda: "%s: %s" % (what, ", ".join("%s is %r, documented %r" % (k, g, w) for k, (g, w) in bad.items())))


TRUE = ("ON", "TRUE", "1", "YES")


def true(v):
    return v is not None and v.upper() in TRUE


# ---------------------------------------------------------------- settings
OPTIONAL = ["MODULE_TARGET_NAME", "MODULE_NAME_LARGE", "MODULE_SUMMARY", "MODULE_DESCRIPTION", "MODULE_MACRO", "MODULE_HEADERS_PATH", "MODULE_HEADERS_INSTALL_PATH",
            "MODULE_FIND_PACKAGES", "MODULE_DEPENDENCIES", "MODULE_THIRDPARTY_PATH", "MODULE_VERSION_FILE_PATH", "MODULE_LICENSE_FILE_PATH"]


def value(v):
    return "a;b" if v == "MODULE_DEPENDENCIES" else "x;y" if v == "MODULE_FIND_PACKAGES" else "given " + v


def settings_model(given, d):
    s = dict(given)
    s.setdefault("MODULE_TARGET_NAME", s["MODULE_NAME"])
    s.setdefault("MODULE_NAME_LARGE", s["MODULE_NAME"])
    s.setdefault("MODULE_SUMMARY", s["MODULE_NAME_LARGE"])
    s.setdefault("MODULE_DESCRIPTION", s["MODULE_SUMMARY"])
    s.setdefault("MODULE_MACRO", s["MODULE_NAME"].upper())
    s.setdefault("MODULE_HEADERS_PATH", s["MODULE_NAME"])
    s.setdefault("MODULE_HEADERS_INSTALL_PATH", s["MODULE_HEADERS_PATH"])
    s.setdefault("MODULE_FIND_PACKAGES", "")
    s.setdefault("MODULE_DEPENDENCIES", s["MODULE_FIND_PACKAGES"])
    for k, f in (("MODULE_THIRDPARTY_PATH", "thirdparty"), ("MODULE_VERSION_FILE_PATH", "VERSION"), ("MODULE_LICENSE_FILE_PATH", "LICENSE")):
        s.setdefault(k, d + "/../" + f)
    return s


def settings(d, thorough):
    """Every subset of the settings, given in the file of settings or before."""
    for where in ("file", "before", "argument"):
        sets = "".join('math(EXPR b "(${M} >> %d) & 1")\nif(b)\n  set(%s "%s")\nendif()\n' % (i, v, value(v)) for i, v in enumerate(OPTIONAL))
        write(d + "/project_settings.cmake", "set(MODULE_NAME some_name)\n" + (sets if where == "file" else ""))
        write(d + "/other.cmake", "set(MODULE_NAME some_name)\n" + sets)
        if where == "argument":
            write(d + "/project_settings.cmake", "set(MODULE_NAME wrong)\n")
        n = 1 << len(OPTIONAL)
        r = script(d, "function(one M)\n%sload_project_settings(%s)\nreport(${M} MODULE_NAME %s)\nendfunction()\nforeach(M RANGE 0 %d)\n  one(${M})\nendforeach()\n" % (
            sets if where == "before" else "", '"%s/other.cmake"' % d if where == "argument" else "", " ".join(OPTIONAL), n - 1))
        check(len(r) == n, "not all settings were loaded")
        for m in range(n):
            given = {"MODULE_NAME": "some_name"}
            given.update({v: value(v) for i, v in enumerate(OPTIONAL) if m >> i & 1})
            same("settings %s given in %s" % (sorted(given), where), r[str(m)], settings_model(given, d))
    write(d + "/project_settings.cmake", "set(MODULE_SUMMARY x)\n")
    script(d, "load_project_settings()\n", ok=False)
    R.cases += 1


# ---------------------------------------------------------------- options
BUILD = ["BUILD_TESTS", "BUILD_DOCS_TESTS", "BUILD_TOOL_TESTS", "BUILD_LIBRARY_TESTS", "BUILD_ALL", "BUILD_DOCS", "BUILD_TOOL", "BUILD_LIBRARY"]
FLAGS = ["CODE_COVERAGE", "TSAN_BUILD", "ASAN_BUILD"]


def options_model(g):
    r = {}
    t = g.get("BUILD_TESTS", "OFF")
    r["BUILD_TESTS"] = t
    for x in ("BUILD_DOCS_TESTS", "BUILD_TOOL_TESTS", "BUILD_LIBRARY_TESTS", "BUILD_ALL"):
        r[x] = g.get(x, t)
    r["BUILD_DOCS"] = g.get("BUILD_DOCS", "ON" if true(r["BUILD_ALL"]) or true(r["BUILD_DOCS_TESTS"]) else "OFF")
    r["BUILD_TOOL"], r["BUILD_LIBRARY"] = g.get("BUILD_TOOL", "ON"), g.get("BUILD_LIBRARY", "ON")
    for x in FLAGS:
        r[x] = g.get(x, "OFF")
    r["CMAKE_BUILD_TYPE"] = g.get("CMAKE_BUILD_TYPE", "Release")
    r["LOG_INFO"] = g.get("LOG_INFO", "ON" if r["CMAKE_BUILD_TYPE"] == "Debug" else "OFF")
    return r


def options_same(what, got, want):
    same(what, {k: v if k == "CMAKE_BUILD_TYPE" else true(v) for k, v in got.items()}, {k: v if k == "CMAKE_BUILD_TYPE" else true(v) for k, v in want.items()})


def options(d, thorough):
    """Every option not given, on or off."""
    names = BUILD + FLAGS + ["CMAKE_BUILD_TYPE", "LOG_INFO"]
    cases = []
    for v in itertools.product((None, "ON", "OFF"), repeat=len(BUILD)):
        cases.append({k: x for k, x in zip(BUILD, v) if x})
    for v in itertools.product((None, "ON", "OFF"), repeat=len(FLAGS)):
        for bt in (None, "Debug", "Release", "RelWithDebInfo"):
            for log in (None, "ON", "OFF"):
                g = {k: x for k, x in zip(FLAGS, v) if x}
                g.update({k: x for k, x in (("CMAKE_BUILD_TYPE", bt), ("LOG_INFO", log)) if x})
                cases.append(g)
    for how in ("variable", "cache"):
        body = "function(one I)\n" + "".join('math(EXPR j "%d + 1")\nlist(GET ARGV ${j} v)\nunset(%s CACHE)\nunset(%s)\nif(NOT v STREQUAL "-")\n  set(%s ${v}%s)\nendif()\n' % (
            i, n, n, n, ' CACHE STRING ""' if how == "cache" else "") for i, n in enumerate(names)) + "configure_cmake_options()\nreport(${I} %s)\nendfunction()\n" % " ".join(names)
        # (a list of one case: - for not given)
        body += "".join("one(%d %s)\n" % (i, " ".join(g.get(n, "-") for n in names)) for i, g in enumerate(cases))
        r = script(d, body)
        check(len(r) == len(cases), "not all options were configured")
        for i, g in enumerate(cases):
            options_same("options %s given as %s" % (g, how), r[str(i)], options_model(g))


def reconfigured(d, thorough):
    """Configured again and again in the same build directory, with other options."""
    write(d + "/p/CMakeLists.txt", INCLUDES + """
configure_cmake_options()
project(p LANGUAGES NONE)
file(WRITE "${CMAKE_BINARY_DIR}/out.txt" "${CMAKE_BUILD_TYPE};${LOG_INFO};${BUILD_TESTS};${BUILD_DOCS}")
""")
    steps = [{}, {"CMAKE_BUILD_TYPE": "Debug"}, {"CMAKE_BUILD_TYPE": "Release"}, {"LOG_INFO": "ON"}, {"BUILD_TESTS": "ON"}]
    n = 0
    for seq in itertools.product(range(len(steps)), repeat=3 if thorough else 2):
        n += 1
        b, given = d + "/b%d" % n, {}
        for k in seq:
            given.update(steps[k])
            cmake(["-S", d + "/p", "-B", b] + ["-D%s=%s" % x for x in steps[k].items()], d)
            f = open(b + "/out.txt").read().split(";")
            want = options_model(given)
            options_same("configured with %s in turn" % [steps[i] for i in seq], dict(zip(("CMAKE_BUILD_TYPE", "LOG_INFO", "BUILD_TESTS", "BUILD_DOCS"), f)),
                         {x: want[x] for x in ("CMAKE_BUILD_TYPE", "LOG_INFO", "BUILD_TESTS", "BUILD_DOCS")})


# ---------------------------------------------------------------- version
VERSION = ["MODULE_VERSION_MAJOR", "MODULE_VERSION_MINOR", "MODULE_VERSION_PATCH", "MODULE_VERSION", "MODULE_VERSION_STRING"]


def version(d, thorough):
    """Every subset of the parts of a version given, the others from files of several shapes."""
    lines = ["VERSION_MAJOR %s", "VERSION_MINOR %s", "VERSION_PATCH %s"]
    k = 0
    for nums in (("1", "5", "1"), ("0", "0", "0"), ("12", "345", "67"), ("10", "0", "9")):
        for perm in itertools.permutations(range(3)) if thorough or nums[0] == "12" else [(0, 1, 2)]:
            for end in ("\n", "\r\n") if thorough else ("\n",):
                k += 1
                text = end.join(lines[i] % nums[i] for i in perm) + (end if k % 2 else "")
                write(d + "/V", text)
                write(d + "/project_settings.cmake", 'set(MODULE_NAME n)\nset(MODULE_VERSION_FILE_PATH "%s/V")\n' % d + "".join(
                    'math(EXPR b "(${M} >> %d) & 1")\nif(b)\n  set(%s "%s")\nendif()\n' % (i, v, ("7", "8", "9", "20.21", "text")[i]) for i, v in enumerate(VERSION)))
                r = script(d, "macro(in_source_build_prevention)\nendmacro()\nset(MODULE_COMMIT_HASH x)\nfunction(one M)\nconfigure_project()\nreport(${M} %s)\nendfunction()\nforeach(M RANGE 0 31)\n  one(${M})\nendforeach()\n" % " ".join(VERSION))
                for m in range(32):
                    g = {v: ("7", "8", "9", "20.21", "text")[i] for i, v in enumerate(VERSION) if m >> i & 1}
                    w = {v: g.get(v, nums[i]) for i, v in enumerate(VERSION[:3])}
                    w["MODULE_VERSION"] = g.get("MODULE_VERSION", ".".join(w[v] for v in VERSION[:3]))
                    w["MODULE_VERSION_STRING"] = g.get("MODULE_VERSION_STRING", "v" + w["MODULE_VERSION"])
                    same("version %s given, file %r" % (g, text), r[str(m)], w)
    # no file is needed if there is nothing to take from it
    write(d + "/project_settings.cmake", 'set(MODULE_NAME n)\nset(MODULE_VERSION_FILE_PATH "%s/none")\nset(MODULE_VERSION_MAJOR 1)\nset(MODULE_VERSION_MINOR 2)\nset(MODULE_VERSION_PATCH 3)\n' % d)
    r = script(d, "macro(in_source_build_prevention)\nendmacro()\nset(MODULE_COMMIT_HASH x)\nconfigure_project()\nreport(0 %s)\n" % " ".join(VERSION))
    same("version without a file", r["0"], {"MODULE_VERSION": "1.2.3", "MODULE_VERSION_STRING": "v1.2.3", "MODULE_VERSION_MAJOR": "1"})


# ---------------------------------------------------------------- paths
def paths(d, thorough):
    """Every subset of the paths given, as variable or in the cache."""
    names = ["BIN", "INCLUDE", "LIB", "DATA", "LICENSE"]
    cases = list(itertools.product((None, "variable", "cache"), repeat=5))
    body = "function(one I)\nset(MODULE_NAME n)\n" + "".join(
        'math(EXPR j "%d + 1")\nlist(GET ARGV ${j} v)\nunset(MODULE_%s_INSTALL_DIR CACHE)\nif(v STREQUAL "variable")\n  set(MODULE_%s_INSTALL_DIR given_%s)\nelseif(v STREQUAL "cache")\n'
        '  set(MODULE_%s_INSTALL_DIR given_%s CACHE PATH "")\nendif()\n' % (i, n, n, n, n, n) for i, n in enumerate(names))
    body += "set_installation_paths()\nreport(${I} %s)\nendfunction()\n" % " ".join("MODULE_%s_INSTALL_DIR %s_INSTALL_DIR" % (n, n) for n in names)
    body += "".join("one(%d %s)\n" % (i, " ".join(x or "-" for x in c)) for i, c in enumerate(cases))
    r = script(d, body)
    for i, c in enumerate(cases):
        got = {k: os.path.normpath(v) for k, v in r[str(i)].items()}
        w = {}
        for n, x, default in zip(names, c, ("bin", "include", "lib", "share", None)):
            w[n] = "given_" + n if x else default
        w["LICENSE"] = w["LICENSE"] or w["DATA"] + "/n"
        same("paths given: %s" % dict(zip(names, c)), got, {p % n: v for n, v in w.items() for p in ("MODULE_%s_INSTALL_DIR", "%s_INSTALL_DIR")})


# ---------------------------------------------------------------- C++ versions
def standards(d, thorough):
    """Every C++ version in every form, with a compiler that supports it and one that does not."""
    for compiler in ("GNU", "Clang", "AppleClang", "MSVC"):
        for supported in ("ON", "OFF"):
            for form in ("%s", "C++%s"):
                for v in ("11", "14", "17", "20", "98", "3", "23x", "1", "171"):
                    if (compiler != "GNU" or form != "%s") and v not in ("11", "17", "20", "98") and not thorough:
                        continue
                    good = v in ("11", "14", "17", "20") and (supported == "ON" or compiler == "MSVC")
                    r = script(d, 'set(CMAKE_CXX_COMPILER_ID %s)\nif("%s" STREQUAL "GNU")\n  set(CMAKE_COMPILER_IS_GNUCXX ON)\nendif()\ninclude(CheckCXXCompilerFlag)\n'
                               "macro(check_cxx_compiler_flag F V)\n  set(${V} %s)\n  set(ASKED ${F})\nendmacro()\nforce_cpp(%s)\nreport(0 CMAKE_CXX_STANDARD ASKED)\n" % (compiler, compiler, supported, form % v), ok=good)
                    R.cases += 1
                    if good:
                        same("C++ version %s" % v, r["0"], {"CMAKE_CXX_STANDARD": v, "ASKED": None if compiler == "MSVC" else "-std=c++" + v})
    same("no C++ version", script(d, 'force_cpp("")\nreport(0 CMAKE_CXX_STANDARD)\n')["0"], {"CMAKE_CXX_STANDARD": None})


# ---------------------------------------------------------------- packages
def packages(d, thorough):
    """Packages of several versions, with and without a minimum."""
    def num(v):
        return [int(x) for x in v.split(".")] + [0] * (4 - len(v.split(".")))
    have = {"one": "2.5.1", "two": "3.0.0"}
    for n, v in have.items():
        write("%s/pk/%s-config.cmake" % (d, n), "set(%s_FOUND TRUE)\nset(WAS_%s TRUE)\n" % (n, n))
        write("%s/pk/%s-config-version.cmake" % (d, n), 'set(PACKAGE_VERSION "%s")\nif(PACKAGE_VERSION VERSION_LESS PACKAGE_FIND_VERSION)\n  set(PACKAGE_VERSION_COMPATIBLE FALSE)\nelse()\n'
              "  set(PACKAGE_VERSION_COMPATIBLE TRUE)\nendif()\n" % v)
    mins = [None, "1", "2", "2.5", "2.5.1", "2.5.2", "2.6", "3", "3.0.0", "3.0.1", "10.0"]
    for one in mins:
        for two in mins if thorough else (None, "2.5.1", "3", "3.0.0", "3.0.1"):
            for names in (["one"], ["one", "two"], ["two", "one"], ["one", "missing"], []):
                if "two" not in names and two is not None:
                    continue
                given = {"one": one, "two": two}
                good = all(n in have and (given[n] is None or num(given[n]) <= num(have[n])) for n in names)
                R.cases += 1
                try:
                    r = script(d, 'list(APPEND CMAKE_PREFIX_PATH "%s/pk")\n%sfind_external_projects("%s")\nreport(0 WAS_one WAS_two)\n' % (
                        d, "".join("set(%s_MINIMUM_VERSION \"%s\")\n" % (k, v) for k, v in given.items() if v), ";".join(names)), ok=good)
                except Violation as e:
                    raise Violation("packages %s with minimum versions %s, installed %s: %s" % (names, given, have, e))
                if good:
                    same("packages %s" % names, r["0"], {"WAS_one": "TRUE" if "one" in names else None, "WAS_two": "TRUE" if "two" in names else None})


# ---------------------------------------------------------------- labels of tests
def labels(d, thorough):
    """Every way to distribute tests over files of labels."""
    n, top = 0, 'cmake_minimum_required(VERSION 3.5)\nproject(p LANGUAGES NONE)\nenable_testing()\ninclude("%stest/test_labels.cmake")\n' % C
    cases = list(itertools.product(range(8), repeat=3 if thorough else 2))
    for c in cases:
        n += 1
        body = ""
        for lab in range(3):
            members = [i for i in range(len(c)) if c[i] >> lab & 1]
            write("%s/p/t%d/l%d.list" % (d, n, lab), "".join("t%d_%d\n" % (n, i) for i in members) + ("other\n" if lab == 1 else ""))
            body += 'set_test_label_file("${CMAKE_CURRENT_SOURCE_DIR}/l%d.list" label%d)\n' % (lab, lab)
        for i in range(len(c)):
            body += 'add_test(NAME t%d_%d COMMAND true)\nset_test_labels(t%d_%d)\nget_property(L TEST t%d_%d PROPERTY LABELS)\nfile(APPEND "%s/labels.txt" "%d %d [${L}]\\n")\n' % (n, i, n, i, n, i, d, n, i)
        write("%s/p/t%d/CMakeLists.txt" % (d, n), body)
        top += "add_subdirectory(t%d)\n" % n
    write(d + "/p/CMakeLists.txt", top)
    cmake(["-S", d + "/p", "-B", d + "/b"], d)
    got = {}
    for line in open(d + "/labels.txt"):
        m = re.match(r"(\d+) (\d+) \[(.*)\]", line)
        got[int(m.group(1)), int(m.group(2))] = m.group(3)
    for k, c in enumerate(cases):
        for i in range(len(c)):
            R.cases += 1
            want = ";".join("label%d" % x for x in range(3) if c[i] >> x & 1)
            check(got.get((k + 1, i)) == want, "labels of test %d of %s: %r, expected %r" % (i, c, got.get((k + 1, i)), want))


# ---------------------------------------------------------------- the installed package
def installed(d, thorough):
    """The package itself: configured, installed, found and used by another project."""
    cmake(["-S", REPO + "/cmake_utils", "-B", d + "/cu", "-DCMAKE_INSTALL_PREFIX=" + d + "/prefix"], d)
    cmake(["--install", d + "/cu"], d)
    version_ = [re.search(r"VERSION_%s (\d+)" % x, open(REPO + "/VERSION").read()).group(1) for x in ("MAJOR", "MINOR", "PATCH")]
    write(d + "/p/project_settings.cmake", "set(MODULE_NAME consumer)\n")
    write(d + "/VERSION", "VERSION_MAJOR 4\nVERSION_MINOR 5\nVERSION_PATCH 6\n")
    write(d + "/p/CMakeLists.txt", """cmake_minimum_required(VERSION 3.5)
find_package(cmake_utils ${WANTED} REQUIRED)
configure_project()
project(${MODULE_NAME} VERSION ${MODULE_VERSION} DESCRIPTION ${MODULE_DESCRIPTION} LANGUAGES NONE)
file(WRITE "${CMAKE_BINARY_DIR}/out.txt" "${cmake_utils_VERSION};${PROJECT_NAME};${PROJECT_VERSION};${MODULE_DESCRIPTION};${BUILD_LIBRARY};${CMAKE_BUILD_TYPE}")
foreach(m compile_library compile_test_library eprosima_packaging configure_project_cpp add_unittest_executable set_test_labels compile_tool compile_documentation)
  if(NOT COMMAND ${m})
    message(FATAL_ERROR "${m} is missing")
  endif()
endforeach()
""")
    major = int(version_[0])
    for i, (wanted, ok) in enumerate(((None, True), (".".join(version_), True), (version_[0], True), ("%d.0" % (major + 1), False), ("%s.%d" % (version_[0], int(version_[1]) + 1), False), ("%d" % (major - 1) if major > 0 else "99", False))):
        for again in range(2):
            p = cmake(["-S", d + "/p", "-B", "%s/b%d" % (d, i), "-Dcmake_utils_DIR=" + d + "/prefix/share/cmake_utils/cmake"] + (["-DWANTED=" + wanted] if wanted else []), d, None)
            R.cases += 1
            check((p.returncode == 0) == ok, "version %s wanted, %s installed: %s %s" % (wanted, ".".join(version_), "found" if p.returncode == 0 else "refused", p.stderr[-300:]))
            if ok:
                check(open("%s/b%d/out.txt" % (d, i)).read() == "%s;consumer;4.5.6;consumer;ON;Release" % ".".join(version_), lambda: "used by another project: " + open("%s/b%d/out.txt" % (d, i)).read())
    # not in the source directory
    write(d + "/q/project_settings.cmake", "set(MODULE_NAME consumer)\n")
    write(d + "/q/CMakeLists.txt", open(d + "/p/CMakeLists.txt").read())
    for where, ok in (("q", False), ("q/build", True), ("out", True)):
        cmake(["-S", d + "/q", "-B", d + "/" + where, "-Dcmake_utils_DIR=" + d + "/prefix/share/cmake_utils/cmake"], d, ok)
        R.cases += 1
    # the commit: of the project configured, none outside a repository
    for repo in (False, True):
        b = d + "/g%d" % repo
        write(b + "/p/project_settings.cmake", "set(MODULE_NAME consumer)\n")
        write(b + "/VERSION", "VERSION_MAJOR 4\nVERSION_MINOR 5\nVERSION_PATCH 6\n")
        write(b + "/p/CMakeLists.txt", "cmake_minimum_required(VERSION 3.5)\nfind_package(cmake_utils REQUIRED)\nconfigure_project()\nproject(x LANGUAGES NONE)\nfile(WRITE \"${CMAKE_BINARY_DIR}/out.txt\" \"${MODULE_COMMIT_HASH}\")\n")
        want = ""
        env = dict(ENV, GIT_CEILING_DIRECTORIES=d, GIT_AUTHOR_NAME="x", GIT_AUTHOR_EMAIL="x", GIT_COMMITTER_NAME="x", GIT_COMMITTER_EMAIL="x", GIT_CONFIG_GLOBAL="/dev/null")
        if repo:
            for a in (["init", "-q"], ["add", "-A"], ["commit", "-q", "-m", "x"]):
                subprocess.run(["git"] + a, cwd=b, env=env, check=True, capture_output=True)
            want = subprocess.run(["git", "rev-parse", "HEAD"], cwd=b, env=env, capture_output=True, text=True).stdout.strip()
        R.runs += 1
        p = subprocess.run(["cmake", "-S", b + "/p", "-B", b + "/b", "-Dcmake_utils_DIR=" + d + "/prefix/share/cmake_utils/cmake"], env=env, capture_output=True, text=True)
        R.cases += 1
        check(p.returncode == 0, "configuring failed: " + p.stderr[-300:])
        got = open(b + "/b/out.txt").read()
        check(got == want if repo else not re.fullmatch("[0-9a-f]{40}", got), "commit %r, expected %r" % (got, want))


SCENARIOS = [("settings", settings), ("options", options), ("reconfigured", reconfigured), ("version", version), ("paths", paths), ("standards", standards), ("packages", packages),
             ("labels", labels), ("installed", installed)]


def main():
    ap = argparse.ArgumentParser()
    for x in ("--property", "--scenario", "--out"):
        ap.add_argument(x)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--time", type=float)
    ap.add_argument("--known", action="append", default=[])
    ap.add_argument("--replay", nargs="?", const="")
    a = ap.parse_args()
    if a.list:
        for n, _ in SCENARIOS:
            print("%s\t1" % n)
        return 0
    t0, msg = time.time(), ""
    f = dict(SCENARIOS)[a.scenario]
    with tempfile.TemporaryDirectory() as d:
        try:
            f(d, a.thorough)
        except Violation as e:
            msg = " ".join(str(e).split())
    known = [int(bool(msg) and x in msg) for x in a.known]
    status = "violation" if msg and not any(known) else "ok"
    r = {"property": "C45", "scenario": a.scenario, "status": status, "msg": msg, "executions": R.cases, "pruned": 0, "transitions": R.cases + R.runs, "states": R.cases,
         "completed_bound": 0, "target_bound": 0, "wall": time.time() - t0, "known": known, "counters": {"cases": R.cases, "cmake_runs": R.runs}, "samples": [], "choices": []}
    if a.out:
        with open(a.out, "w") as o:
            json.dump(r, o)
    else:
        print(r)
    return 1 if status == "violation" and a.replay is not None else 0


if __name__ == "__main__":
    sys.exit(main())
