"""C46: libraries, tools and tests made with the CMake package: what is built, installed and found by others, for every configuration of a bounded space."""
import argparse
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c45_build import REPO, ENV, R, Violation, check, write  # noqa: E402

FORCED = ["-DCMAKE_CXX_COMPILER_FORCED=1", "-DCMAKE_C_COMPILER_FORCED=1"]
CONF = "share/cmake_utils/cmake"


def run(args, cwd=None, ok=True, libs=None):
    R.runs += 1
    p = subprocess.run(args, cwd=cwd, capture_output=True, text=True, env=dict(ENV, LD_LIBRARY_PATH=libs) if libs else ENV)
    if ok is not None:
        check((p.returncode == 0) == ok, lambda: "%s %s: %s" % (" ".join(args), "failed" if ok else "succeeded", (p.stdout + p.stderr)[-1500:]))
    return p


def files(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


def package(d):
    run(["cmake", "-S", REPO + "/cmake_utils", "-B", d + "/cu", "-DCMAKE_INSTALL_PREFIX=" + d + "/cmake_utils"])
    run(["cmake", "--install", d + "/cu"])
    return "-Dcmake_utils_DIR=%s/cmake_utils/%s" % (d, CONF)


def every(d, cases, f):
    """f(case, scratch directory) for all cases"""
    def one(k):
        c = cases[k]
        try:
            f(c, "%s/%d" % (d, k))
        except Violation as e:
            raise Violation("%s: %s" % (c, e))
        finally:
            subprocess.run(["rm", "-rf", "%s/%d" % (d, k)])
    with ThreadPoolExecutor(8) as ex:
        for x in [ex.submit(one, k) for k in range(len(cases))]:
            try:
                x.result()
            except Violation:
                ex.shutdown(cancel_futures=True)
                raise
            R.cases += 1


def top(extra, test=""):
    return """cmake_minimum_required(VERSION 3.5)
find_package(cmake_utils REQUIRED)
configure_project()
project(${MODULE_NAME} VERSION ${MODULE_VERSION} DESCRIPTION "${MODULE_DESCRIPTION}" LANGUAGES C CXX)
configure_project_cpp()
%s
%s
eprosima_packaging()
""" % (extra, test)


# ---------------------------------------------------------------- libraries
DEFAULT = {"shared": None, "headers": None, "install": None, "dirs": False, "resources": False, "macro": None, "listed": False, "build": True, "log": None, "settings_version": False}
DIRS = {"MODULE_BIN_INSTALL_DIR": "binaries", "MODULE_INCLUDE_INSTALL_DIR": "inc/lude", "MODULE_LIB_INSTALL_DIR": "lib/rary", "MODULE_DATA_INSTALL_DIR": "data", "MODULE_LICENSE_INSTALL_DIR": "papers"}


def module(d, o):
    """the sources of a library"""
    headers = o["headers"] or "alpha"
    macro = o["macro"] or "ALPHA"
    s = "set(MODULE_NAME alpha)\n"
    for v, x in (("MODULE_HEADERS_PATH", o["headers"]), ("MODULE_HEADERS_INSTALL_PATH", o["install"]), ("MODULE_MACRO", o["macro"]), ("MODULE_RESOURCES_PATH", "res" if o["resources"] else None)):
        if x:
            s += "set(%s %s)\n" % (v, x)
    if o["settings_version"]:
        s += "set(MODULE_VERSION_MAJOR 7)\nset(MODULE_VERSION_MINOR 0)\nset(MODULE_VERSION_PATCH 1)\n"
    if o["dirs"]:
        for v, x in DIRS.items():
            s += "set(%s %s)\n" % (v, x)
    write(d + "/VERSION", "VERSION_MAJOR 4\nVERSION_MINOR 5\nVERSION_PATCH 6\n")
    write(d + "/LICENSE", "the license\n")
    m = d + "/m"
    write(m + "/project_settings.cmake", s)
    write(m + "/include/%s/one.hpp" % headers, "#pragma once\n#include \"library/library_dll.h\"\n#include \"sub/two.h\"\n#include \"impl/one.ipp\"\n%s_DllAPI int one();\n" % macro)
    write(m + "/include/%s/sub/two.h" % headers, "#pragma once\nint two();\n")
    write(m + "/include/%s/impl/one.ipp" % headers, "inline int inlined() { return 1000; }\n")
    write(m + "/include/%s/notes.txt" % headers, "not a header\n")
    write(m + "/include/unrelated/z.hpp", "not of the library\n")
    write(m + "/src/cpp/one.cpp", "#include <%s/one.hpp>\n#include \"deep/private.hpp\"\n#include <alpha/library/config.h>\n#ifndef %s_SOURCE\n#error not built as a source of the library\n#endif\n%sint one() { return 1 + two() + three() + %s_VERSION_MAJOR * 10000; }\n"
          % (headers, macro, "#ifdef FASTDDS_ENFORCE_LOG_INFO\n#error log\n#endif\n" if o["log"] is not True else "#ifndef FASTDDS_ENFORCE_LOG_INFO\n#error no log\n#endif\n", macro))
    write(m + "/src/cpp/deep/private.hpp", "extern \"C\" int three();\n")
    write(m + "/src/cpp/deep/two.cxx", "int two() { return 20; }\n")
    write(m + "/src/cpp/deep/er/three.c", "int three() { return 300; }\n")
    if o["listed"]:
        write(m + "/src/cpp/deep/not_this.cpp", "#error not one of the sources given\n")
    write(m + "/res/a/b.txt", "a resource\n")
    write(m + "/res/c.bin", "another\n")
    given = ' "${PROJECT_SOURCE_DIR}/src/cpp/one.cpp;${PROJECT_SOURCE_DIR}/src/cpp/deep/two.cxx;${PROJECT_SOURCE_DIR}/src/cpp/deep/er/three.c"' if o["listed"] else ""
    write(m + "/CMakeLists.txt", top('compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include"%s)' % given))
    return m, headers, macro


def expected(o):
    """the files installed"""
    inc, lib, data, lic = ("inc/lude", "lib/rary", "data", "papers") if o["dirs"] else ("include", "lib", "share", "share/alpha")
    e = [lic + "/LICENSE"]
    if o["resources"]:
        e += [data + "/resources/a/b.txt", data + "/resources/c.bin"]
    if not o["build"]:
        return sorted(e), None
    to = o["install"] or o["headers"] or "alpha"
    e += [inc + "/" + to + "/" + x for x in ("one.hpp", "sub/two.h", "impl/one.ipp", "library/config.h", "library/library_dll.h", "library/eProsima_auto_link.h")]
    v = "7.0.1" if o["settings_version"] else "4.5.6"
    e += [lib + "/libalpha.a"] if o["shared"] is False else [lib + "/libalpha.so", lib + "/libalpha.so." + v[0], lib + "/libalpha.so." + v]
    c = lib + "/cmake/alpha/"
    e += [c + "alpha-config.cmake", c + "alpha-config-version.cmake", c + "alpha-targets.cmake", c + "alpha-targets-release.cmake"]
    return sorted(e), c


def library(o, d, cu):
    m, headers, macro = module(d, o)
    args = ["cmake", "-S", m, "-B", d + "/b", cu, "-DCMAKE_INSTALL_PREFIX=" + d + "/prefix"] + FORCED
    for v, x in (("BUILD_SHARED_LIBS", o["shared"]), ("BUILD_LIBRARY", None if o["build"] else False), ("LOG_INFO", o["log"])):
        if x is not None:
            args.append("-D%s=%s" % (v, "ON" if x else "OFF"))
    run(args)
    run(["cmake", "--build", d + "/b"])
    run(["cmake", "--install", d + "/b"])
    want, config = expected(o)
    got = files(d + "/prefix")
    check(got == want, lambda: "installed but not expected: %s, expected but not installed: %s" % (sorted(set(got) - set(want)), sorted(set(want) - set(got))))
    subprocess.run(["rm", "-rf", d + "/b"])
    subprocess.run(["rm", "-rf", d + "/m"])
    if not o["build"]:
        return
    # another project, which has nothing but what is installed
    to = o["install"] or o["headers"] or "alpha"
    write(d + "/c/main.cpp", "#include <%s/one.hpp>\n#include <%s/library/config.h>\n#include <cstdio>\n#ifdef %s_SOURCE\n#error a user is not a source of the library\n#endif\nint main() { printf(\"%%d %%d %%d.%%d.%%d %%s\", one(), inlined(), %s_VERSION_MAJOR, %s_VERSION_MINOR, %s_VERSION_MICRO, %s_VERSION_STRING); }\n"
          % (to, to, macro, macro, macro, macro, macro))
    write(d + "/c/CMakeLists.txt", "cmake_minimum_required(VERSION 3.5)\nproject(user LANGUAGES CXX)\nfind_package(alpha REQUIRED)\nadd_executable(user main.cpp)\ntarget_link_libraries(user alpha)\nfile(WRITE ${CMAKE_BINARY_DIR}/version \"${alpha_VERSION}\")\n")
    os.rename(d + "/prefix", d + "/moved")
    run(["cmake", "-S", d + "/c", "-B", d + "/cb", "-Dalpha_DIR=%s/moved/%s" % (d, config)] + FORCED)
    run(["cmake", "--build", d + "/cb"])
    v = "7.0.1" if o["settings_version"] else "4.5.6"
    p = run([d + "/cb/user"])
    check(p.stdout == "%d 1000 %s v%s" % (int(v[0]) * 10000 + 321, v, v), lambda: "a user of the library printed " + p.stdout)
    check(open(d + "/cb/version").read() == v, "version found")


def libraries(d, thorough):
    """Every configuration: the files installed are the ones expected, and another project builds and runs with them."""
    cu = package(d)
    dims = [("shared", (None, True, False)), ("headers", (None, "alpha/inner")), ("install", (None, "else/where")), ("dirs", (False, True))]
    rest = [("resources", (False, True)), ("macro", (None, "AL_PHA")), ("listed", (False, True)), ("build", (True, False)), ("log", (None, True, False)), ("settings_version", (False, True))]
    cases = []
    if thorough:
        dims, rest = dims + rest, []
    for v in itertools.product(*(x for _, x in dims)):
        cases.append(dict(DEFAULT, **dict(zip((n for n, _ in dims), v))))
    for n, vs in rest:
        for x in vs[1:]:
            for dirs in (False, True):
                cases.append(dict(DEFAULT, dirs=dirs, **{n: x}))
    every(d, cases, lambda o, s: library(o, s, cu))


def versions(d, thorough):
    """A project finds the library exactly if it has the same major version and is at least as new as asked for."""
    cu = package(d)
    parts = (0, 1, 2, 3) if thorough else (0, 1, 2)
    have = [(1, 2, 1), (0, 1, 0), (2, 0, 0)] + ([(1, 0, 2), (1, 1, 1)] if thorough else [])
    n = 0
    for h in have:
        n += 1
        m = "%s/%d/m" % (d, n)
        write("%s/%d/VERSION" % (d, n), "VERSION_MAJOR %d\nVERSION_MINOR %d\nVERSION_PATCH %d\n" % h)
        write("%s/%d/LICENSE" % (d, n), "x")
        write(m + "/project_settings.cmake", "set(MODULE_NAME alpha)\n")
        write(m + "/src/cpp/a.cpp", "int a() { return 1; }\n")
        write(m + "/include/alpha/a.hpp", "int a();\n")
        write(m + "/CMakeLists.txt", top('compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")'))
        b, prefix = "%s/%d/b" % (d, n), "%s/%d/prefix" % (d, n)
        run(["cmake", "-S", m, "-B", b, cu, "-DCMAKE_INSTALL_PREFIX=" + prefix] + FORCED)
        run(["cmake", "--build", b])
        run(["cmake", "--install", b])
        asked = [None] + [t for k in (1, 2, 3) for t in itertools.product(parts, repeat=k)]
        body = "cmake_minimum_required(VERSION 3.5)\nproject(user LANGUAGES C CXX)\n"
        for i, w in enumerate(asked):
            body += 'add_subdirectory(t%d)\n' % i
            write("%s/%d/c/t%d/CMakeLists.txt" % (d, n, i), 'find_package(alpha %s QUIET)\nif(alpha_FOUND)\n  file(APPEND "${CMAKE_BINARY_DIR}/found" "%d\\n")\nendif()\nunset(alpha_DIR CACHE)\nunset(alpha_FOUND CACHE)\n' % (".".join(map(str, w)) if w else "", i))
        write("%s/%d/c/CMakeLists.txt" % (d, n), body)
        cb = "%s/%d/cb" % (d, n)
        write(cb + "/found", "")
        run(["cmake", "-S", "%s/%d/c" % (d, n), "-B", cb, "-DCMAKE_PREFIX_PATH=" + prefix] + FORCED)
        got = set(int(x) for x in open(cb + "/found").read().split())
        for i, w in enumerate(asked):
            R.cases += 1
            good = not w or (w[0] == h[0] and w + (0,) * (3 - len(w)) <= h)
            check((i in got) == good, "version %s asked for, %s installed: %s" % (w, h, "found" if i in got else "refused"))


# ---------------------------------------------------------------- libraries that need others
def dependency(o, d, cu, alpha):
    how, thirdparty, public, private, shared, tool_ = o
    write(d + "/VERSION", "VERSION_MAJOR 1\nVERSION_MINOR 2\nVERSION_PATCH 3\n")
    write(d + "/LICENSE", "x")
    m = d + "/m"
    s = "set(MODULE_NAME gamma)\n"
    if how in ("found", "both"):
        s += "set(MODULE_FIND_PACKAGES alpha)\n"
    if how in ("linked", "both"):
        s += "set(MODULE_DEPENDENCIES alpha)\n"
    if thirdparty:
        s += "set(MODULE_THIRDPARTY_HEADERONLY three third)\n" + ('set(MODULE_THIRDPARTY_PATH "${CMAKE_CURRENT_SOURCE_DIR}/parties")\n' if thirdparty == 2 else "")
    at = m + "/parties" if thirdparty == 2 else d + "/thirdparty"
    write(at + "/three/three.hpp", "#define THREE 3\n")
    write(at + "/third/third.hpp", "#define THIRD 30\n")
    if public:
        s += 'set(MODULE_PUBLIC_EXTRA_HEADERS $<BUILD_INTERFACE:${CMAKE_CURRENT_SOURCE_DIR}/pub>)\n'
    if private:
        s += 'set(MODULE_PRIVATE_EXTRA_HEADERS ${CMAKE_CURRENT_SOURCE_DIR}/priv)\n'
    write(m + "/project_settings.cmake", s)
    write(m + "/pub/pub.hpp", "#define PUB 300\n")
    write(m + "/priv/priv.hpp", "#define PRIV 3000\n")
    write(m + "/include/gamma/g.hpp", "#pragma once\nint gamma();\n")
    uses, total = ["#include <alpha/one.hpp>"], ["one()"]
    if thirdparty:
        uses += ["#include <three.hpp>", "#include <third.hpp>"]
        total += ["THREE", "THIRD"]
    if public:
        uses.append("#include <pub.hpp>")
        total.append("PUB")
    if private:
        uses.append("#include <priv.hpp>")
        total.append("PRIV")
    write(m + "/src/cpp/g.cpp", "#include <gamma/g.hpp>\n%s\nint gamma() { return %s; }\n" % ("\n".join(uses), " + ".join(total)))
    # a program of the same project sees what is public and nothing that is private
    write(m + "/prog/main.cpp", "#include <gamma/g.hpp>\n#include <cstdio>\n%s\n#if __has_include(<priv.hpp>)\n#error private\n#endif\nint main() { printf(\"%%d\", gamma()); }\n" % ("#include <pub.hpp>" if public else ""))
    write(m + "/CMakeLists.txt", top('compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")', "add_executable(prog prog/main.cpp)\ntarget_link_libraries(prog gamma)" if tool_ else ""))
    b = d + "/b"
    run(["cmake", "-S", m, "-B", b, cu, "-Dalpha_DIR=" + alpha, "-DCMAKE_INSTALL_PREFIX=" + d + "/prefix", "-DBUILD_SHARED_LIBS=" + ("ON" if shared else "OFF")] + FORCED)
    run(["cmake", "--build", b])
    want = 40321 + (33 if thirdparty else 0) + (300 if public else 0) + (3000 if private else 0)
    if tool_:
        p = run([b + "/prog"], libs=b + ":" + alpha + "/../..")
        check(p.stdout == str(want), lambda: "a program of the project printed %s, expected %d" % (p.stdout, want))
    run(["cmake", "--install", b])
    write(d + "/c/main.cpp", "#include <gamma/g.hpp>\n#include <cstdio>\nint main() { printf(\"%d\", gamma()); }\n")
    write(d + "/c/CMakeLists.txt", "cmake_minimum_required(VERSION 3.5)\nproject(user LANGUAGES CXX)\nfind_package(alpha REQUIRED)\nfind_package(gamma REQUIRED)\nadd_executable(user main.cpp)\ntarget_link_libraries(user gamma)\n")
    run(["cmake", "-S", d + "/c", "-B", d + "/cb", "-Dalpha_DIR=" + alpha, "-Dgamma_DIR=%s/prefix/lib/cmake/gamma" % d] + FORCED)
    run(["cmake", "--build", d + "/cb"])
    p = run([d + "/cb/user"], libs=d + "/prefix/lib:" + alpha + "/../..")
    check(p.stdout == str(want), lambda: "a user printed %s, expected %d" % (p.stdout, want))


def dependencies(d, thorough):
    """Every way to need another package, thirdparty headers and further headers."""
    cu = package(d)
    m, _, _ = module(d + "/alpha", DEFAULT)
    run(["cmake", "-S", m, "-B", d + "/alpha/b", cu, "-DCMAKE_INSTALL_PREFIX=" + d + "/alpha/prefix"] + FORCED)
    run(["cmake", "--build", d + "/alpha/b"])
    run(["cmake", "--install", d + "/alpha/b"])
    cases = list(itertools.product(("found", "linked", "both"), (0, 1, 2), (0, 1), (0, 1), (0, 1), (0, 1)))
    if not thorough:
        cases = [c for c in cases if c[4] == (c[1] + c[2] + c[3]) % 2 and c[5] == (c[0] != "both")]
    every(d, cases, lambda o, s: dependency(o, s, cu, d + "/alpha/prefix/lib/cmake/alpha"))
    # a package that is needed and missing, or too old
    for need, ok in (("set(MODULE_FIND_PACKAGES missing)", False), ("set(MODULE_FIND_PACKAGES alpha)\nset(alpha_MINIMUM_VERSION 4.6)", False), ("set(MODULE_FIND_PACKAGES alpha)\nset(alpha_MINIMUM_VERSION 4.5.6)", True)):
        R.cases += 1
        write(d + "/x/VERSION", "VERSION_MAJOR 1\nVERSION_MINOR 2\nVERSION_PATCH 3\n")
        write(d + "/x/LICENSE", "x")
        write(d + "/x/m/project_settings.cmake", "set(MODULE_NAME gamma)\n%s\n" % need)
        write(d + "/x/m/CMakeLists.txt", top(""))
        subprocess.run(["rm", "-rf", d + "/x/b"])
        run(["cmake", "-S", d + "/x/m", "-B", d + "/x/b", cu, "-DCMAKE_PREFIX_PATH=" + d + "/alpha/prefix"] + FORCED, ok=ok)


# ---------------------------------------------------------------- tools
def tool(o, d, cu):
    target, listed, dirs, build, log, include = o
    write(d + "/VERSION", "VERSION_MAJOR 4\nVERSION_MINOR 5\nVERSION_PATCH 6\n")
    write(d + "/LICENSE", "the license\n")
    m = d + "/m"
    write(m + "/project_settings.cmake", "set(MODULE_NAME beta)\n" + ("set(MODULE_TARGET_NAME %s)\n" % target if target else "") + ("set(MODULE_BIN_INSTALL_DIR binaries)\n" if dirs else ""))
    write(m + "/src/main.cpp", "#include <cstdio>\n%sint two();\nextern \"C\" int three();\nint main() { printf(\"%%d\", 1 + two() + three()%s); }\n" % ("#include <h.hpp>\n" if include else "", " + H" if include else ""))
    write(m + "/other/h.hpp", "#define H 5000\n")
    write(m + "/src/deep/two.cxx", "#if%s defined(FASTDDS_ENFORCE_LOG_INFO)\n#error log\n#endif\nint two() { return 20; }\n" % (" !" if log else ""))
    write(m + "/src/deep/er/three.c", "int three() { return 300; }\n")
    if listed:
        write(m + "/src/deep/not_this.cpp", "#error not one of the sources given\n")
    sources = "${PROJECT_SOURCE_DIR}/src/main.cpp;${PROJECT_SOURCE_DIR}/src/deep/two.cxx;${PROJECT_SOURCE_DIR}/src/deep/er/three.c" if listed else ""
    write(m + "/CMakeLists.txt", top('compile_tool("${PROJECT_SOURCE_DIR}/src"%s%s)' % (' "%s"' % sources if listed or include else "", ' "${PROJECT_SOURCE_DIR}/other"' if include else "")))
    run(["cmake", "-S", m, "-B", d + "/b", cu, "-DCMAKE_INSTALL_PREFIX=" + d + "/prefix"] + ([] if build else ["-DBUILD_TOOL=OFF"]) + (["-DLOG_INFO=ON"] if log else []) + FORCED)
    run(["cmake", "--build", d + "/b"])
    run(["cmake", "--install", d + "/b"])
    exe = ("binaries/" if dirs else "bin/") + (target or "beta")
    want = sorted(["share/beta/LICENSE"] + ([exe] if build else []))
    got = files(d + "/prefix")
    check(got == want, lambda: "installed %s, expected %s" % (got, want))
    if build:
        p = run([d + "/prefix/" + exe])
        check(p.stdout == str(321 + 5000 * include), lambda: "the tool printed " + p.stdout)


def tools(d, thorough):
    """Every configuration of a tool."""
    cu = package(d)
    dims = [(None, "the_tool"), (False, True), (False, True), (True, False), (False, True), (False, True)]
    cases = list(itertools.product(*dims))
    if not thorough:
        cases = [c for c in cases if sum(x != y[0] for x, y in zip(c, dims)) <= 2]
    every(d, cases, lambda o, s: tool(o, s, cu))


# ---------------------------------------------------------------- tests
def tests(d, thorough):
    """Every list of tests: each test runs the test cases of its name and no other, and only when tests are built."""
    cu = package(d)
    names = ["a", "ab", "b", "a_b"]
    lists = [()] + [t for k in (1, 2, 3, 4) for t in itertools.combinations(names, k)] + ([t for t in itertools.permutations(names, 2)] if thorough else [])
    write(d + "/VERSION", "VERSION_MAJOR 4\nVERSION_MINOR 5\nVERSION_PATCH 6\n")
    write(d + "/LICENSE", "x")
    m = d + "/m"
    write(m + "/project_settings.cmake", "set(MODULE_NAME alpha)\n")
    write(m + "/src/cpp/deep/x.cpp", "int x() { return 1; }\n")
    write(m + "/include/alpha/a.hpp", "int x();\n")
    write(m + "/CMakeLists.txt", top('compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")', 'compile_test_library("${PROJECT_SOURCE_DIR}/test")'))
    body = ""
    t = '#include <alpha/a.hpp>\n#include <gtest/gtest.h>\n#include <cstdio>\n#include <cstdlib>\nvoid ran(const char* n) { if (FILE* f = fopen(getenv("RAN"), "a")) { fprintf(f, "%s\\n", n); fclose(f); } }\n'
    for s in ("suite", "suite_more", "other_suite"):
        for n in names:
            t += 'TEST(%s, %s) { ran("%s.%s"); EXPECT_EQ(x(), 1); }\n' % (s, n, s, n)
    t += 'class suitep : public testing::TestWithParam<int> {};\nTEST_P(suitep, a) { ran("suitep.a"); }\nTEST_P(suitep, b) { ran("suitep.b"); }\nINSTANTIATE_TEST_SUITE_P(p, suitep, testing::Values(1, 2));\nint main(int c, char** v) { testing::InitGoogleTest(&c, v); return RUN_ALL_TESTS(); }\n'
    write(m + "/test/t.cpp", t)
    write(m + "/test/needed.txt", "needed\n")
    body = 'add_library(tt OBJECT t.cpp)\ntarget_include_directories(tt PRIVATE ${GTEST_INCLUDE_DIRS} ${PROJECT_SOURCE_DIR}/include)\nfile(WRITE ${CMAKE_CURRENT_BINARY_DIR}/empty.cpp "")\n'
    for k, l in enumerate(lists):
        write(m + "/test/l%d/CMakeLists.txt" % k, 'configure_file(${CMAKE_CURRENT_SOURCE_DIR}/../needed.txt ${CMAKE_CURRENT_SOURCE_DIR}/needed.txt COPYONLY)\nset(TEST_LIST %s)\nset(S $<TARGET_OBJECTS:tt>)\nset(N needed.txt)\nadd_test_executable(exe%d "${S}" suite "${TEST_LIST}" "alpha" "${N}")\nset_target_properties(exe%d PROPERTIES LINKER_LANGUAGE CXX)\n' % (" ".join(l), k, k))
    # names of tests are global: one project per list, all with the same objects
    run(["g++", "-c", "-I" + m + "/include", "-o", d + "/t.o", m + "/test/t.cpp"])

    def one(l, s):
        k = lists.index(l)
        t = s + "/m"
        os.makedirs(s)
        run(["cp", "-r", m, t])
        for x in ("VERSION", "LICENSE"):
            run(["cp", d + "/" + x, s + "/" + x])
        write(t + "/test/CMakeLists.txt", "add_library(tt OBJECT IMPORTED GLOBAL)\nset_target_properties(tt PROPERTIES IMPORTED_OBJECTS %s/t.o)\nadd_subdirectory(l%d)\n" % (d, k))
        b = s + "/b"
        run(["cmake", "-S", t, "-B", b, cu, "-DBUILD_LIBRARY_TESTS=ON", "-DCMAKE_BUILD_TYPE=Debug"])
        run(["cmake", "--build", b])
        check(os.path.exists(b + "/test/l%d/needed.txt" % k), "a file needed by the test is missing")
        listed = sorted(re.findall(r"Test\s+#\d+: (\S+)", run(["ctest", "-N"], b).stdout))
        want = sorted("suite." + n for n in l) or ["suite"]
        check(listed == want, "tests %s, expected %s" % (listed, want))
        for n in listed:
            ran = s + "/ran"
            open(ran, "w").close()
            R.runs += 1
            p = subprocess.run(["ctest", "-R", "^%s$" % re.escape(n)], cwd=b, env=dict(ENV, RAN=ran), capture_output=True, text=True)
            check(p.returncode == 0, lambda: "test %s failed: %s" % (n, p.stdout[-500:]))
            got = sorted(set(open(ran).read().split()))
            case = n.partition(".")[2]
            should = sorted(x + "." + c for x in ("suite", "suite_more", "suitep") for c in names if (x != "suitep" or c in ("a", "b")) and c == case) if case else None
            if should is None:
                check(len(got) == 14, "the only test of an empty list runs %s" % got)
            else:
                check(set(should) - {"suite_more." + case} <= set(got) <= set(should), "test %s runs %s, expected %s" % (n, got, should))
    every(d, lists, one)
    write(m + "/test/CMakeLists.txt", body + "add_subdirectory(l3)\n")
    # not built, no tests
    for args, on in (([], False), (["-DBUILD_TESTS=ON"], True), (["-DBUILD_TESTS=ON", "-DBUILD_LIBRARY_TESTS=OFF"], False), (["-DBUILD_DOCS_TESTS=ON"], False), (["-DBUILD_TOOL_TESTS=ON"], False)):
        R.cases += 1
        b = d + "/b"
        subprocess.run(["rm", "-rf", b])
        run(["cmake", "-S", m, "-B", b, cu] + args)
        check((len(re.findall(r"Test\s+#\d+", run(["ctest", "-N"], b).stdout)) > 0) == on, "tests with %s" % args)


# ---------------------------------------------------------------- the sources of the library, for its tests
ALL_SOURCES = ["src/cpp/d/a.c", "src/cpp/d/b.cpp", "src/cpp/d/e/c.cxx", "src/cpp/d/e/f/g/h.hpp", "src/cpp/d/i.h", "src/cpp/d/j.hxx", "test/TestUtils/k.cpp", "test/TestUtils/d/l.cpp"]
NO_SOURCES = ["src/cpp/d/a.txt", "src/other/m.cpp", "test/n.cpp", "test/TestUtils/o.txt"]


def listed_sources(d, sets):
    """all_library_sources and all_header_sources of projects with these files"""
    script = "include(%s/cmake_utils/cmake/test/test_utils.cmake)\n" % REPO
    for i, fs in enumerate(sets):
        for f in fs:
            write("%s/%d/%s" % (d, i, f), "")
        script += 'set(PROJECT_SOURCE_DIR "%s/%d")\n' % (d, i)
        for call in ('all_library_sources("x.cpp;y.cpp")', 'all_library_sources("x.cpp;y.cpp" "p.cpp;q.cpp")', 'all_header_sources("x.cpp;y.cpp")'):
            script += 'set(TEST_SOURCES "")\n%s\nfile(APPEND "%s/out" "${TEST_SOURCES}\\n")\n' % (call, d)
    write(d + "/t.cmake", script)
    run(["cmake", "-P", d + "/t.cmake"])
    lines = open(d + "/out").read().split("\n")
    missed = []
    for i, fs in enumerate(sets):
        src = [f for f in fs if f not in NO_SOURCES]
        for k, want in enumerate((src, None, [f for f in src if f.startswith("src/") and f.rpartition(".")[2] in ("h", "hpp", "hxx")])):
            R.cases += 1
            want = ["x.cpp", "y.cpp"] + (["p.cpp", "q.cpp"] if want is None else sorted("%s/%d/%s" % (d, i, f) for f in want))
            got = [x for x in lines[3 * i + k].split(";") if x]
            if got[2:] == [] and want[2:] and all("/src/cpp/top." in x for x in want[2:]):
                missed.append("sources directly in src/cpp are not among those of the library for the tests, such as %s" % want[2])
                continue
            check(sorted(got) == sorted(want) and got[:2] == want[:2], lambda: "the sources of a library with %s: %s, expected %s" % (fs, got, want))
    check(not missed, lambda: missed[0])


def sources_of_tests(d, thorough):
    """Tests get exactly the sources of the library (or those given), wherever they are."""
    listed_sources(d, [[f for k, f in enumerate(ALL_SOURCES) if m >> k & 1] + [NO_SOURCES[m % 4]] for m in range(256)])


def sources_of_tests_at_the_top(d, thorough):
    """Also those directly in src/cpp."""
    listed_sources(d, [["src/cpp/top." + x for k, x in enumerate(("c", "cpp", "cxx", "h", "hpp", "hxx")) if m >> k & 1] for m in range(64)])


def test_executables(d, thorough):
    """Unit tests and blackbox tests, with and without further headers, files and sources of the library."""
    cu = package(d)
    for o in itertools.product(("unit", "black", "black_given"), (False, True), (False, True)):
        R.cases += 1
        kind, header, needed = o
        m = "%s/%s%d%d" % (d, kind, header, needed)
        write(m + "/VERSION", "VERSION_MAJOR 4\nVERSION_MINOR 5\nVERSION_PATCH 6\n")
        write(m + "/LICENSE", "x")
        m += "/m"
        write(m + "/project_settings.cmake", "set(MODULE_NAME alpha)\nset(MODULE_DEPENDENCIES m)\n")
        write(m + "/src/cpp/deep/x.cpp", "int x() { return 1; }\n")
        write(m + "/src/cpp/deep/private.hpp", "int x();\n")
        write(m + "/include/alpha/a.hpp", "int x();\n")
        write(m + "/CMakeLists.txt", top('compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")', 'compile_test_library("${PROJECT_SOURCE_DIR}/test")'))
        write(m + "/test/more/h.hpp", "#define MORE 7\n")
        write(m + "/test/needed.txt", "needed\n")
        write(m + "/test/given.cpp", "int x() { return 2; }\n")
        write(m + "/test/t.cpp", """#include <alpha/a.hpp>
#include <a.hpp>
#include <deep/private.hpp>
#include <alpha/library/config.h>
#include <cstdio>
#ifndef FASTDDS_ENFORCE_LOG_INFO
#error no log
#endif
%s
int main() { FILE* f = fopen("needed.txt", "r"); return x() == %d && (f != nullptr) == %s%s ? 0 : 1; }
""" % ("#include <h.hpp>" if header else "", 2 if kind == "black_given" else 1, "true" if needed else "false", " && MORE == 7" if header else ""))
        n, h = "needed.txt" if needed else "", "${PROJECT_SOURCE_DIR}/test/more" if header else ""
        call = {"unit": 'add_unittest_executable(tests "t.cpp" "" "alpha" "%s" "%s")' % (n, h),
                "black": 'add_blackbox_executable(tests "t.cpp" "" "%s" "%s")' % (n, h),
                "black_given": 'add_blackbox_executable(tests "t.cpp" "" "%s" "%s" "given.cpp")' % (n, h)}[kind]
        write(m + "/test/CMakeLists.txt", call + "\n")
        b = m + "/b"
        run(["cmake", "-S", m, "-B", b, cu, "-DBUILD_LIBRARY_TESTS=ON"] + FORCED)
        run(["cmake", "--build", b])
        exe = b + "/test/" + ("unittest_tests" if kind == "unit" else "blackbox_tests")
        check(os.path.exists(exe), lambda: "no " + exe)
        run(["ctest"], b)
        check(re.findall(r"Test\s+#\d+: (\S+)", run(["ctest", "-N"], b).stdout) == ["tests"], "the test is not listed")


SCENARIOS = [("libraries", libraries), ("versions", versions), ("dependencies", dependencies), ("tools", tools), ("tests", tests), ("sources_of_tests", sources_of_tests), ("sources_of_tests_at_the_top", sources_of_tests_at_the_top), ("test_executables", test_executables)]


def main():
    ap = argparse.ArgumentParser()
    for x in ("--property", "--scenario", "--out"):
        ap.add_argument(x)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--time", type=float)
    ap.add_argument("--known", action="append", default=[])
    ap.add_argument("--replay", nargs="?", const="")
    a = ap.parse_args()
    if a.list:
        for n, _ in SCENARIOS:
            print("%s\t1" % n)
        return 0
    t0, msg = time.time(), ""
    with tempfile.TemporaryDirectory() as d:
        try:
            dict(SCENARIOS)[a.scenario](d, a.thorough)
        except Violation as e:
            msg = " ".join(str(e).split())
    known = [int(bool(msg) and x in msg) for x in a.known]
    status = "violation" if msg and not any(known) else "ok"
    r = {"property": "C46", "scenario": a.scenario, "status": status, "msg": msg, "executions": R.cases, "pruned": 0, "transitions": R.cases + R.runs, "states": R.cases,
         "completed_bound": 0, "target_bound": 0, "wall": time.time() - t0, "known": known, "counters": {"cases": R.cases, "runs": R.runs}, "samples": [], "choices": []}
    if a.out:
        with open(a.out, "w") as o:
            json.dump(r, o)
    else:
        print(r)
    return 1 if status == "violation" and a.replay is not None else 0


if __name__ == "__main__":
    sys.exit(main())
