#!/usr/bin/env python3
"""Automatic one-token mutants of every source, each against the checks of the properties anchored in its file.

  automut.py [-k FILESUBSTRING] [--list]     results in $MUT_DIR/auto.txt; already tested mutants are skipped
"""
import argparse, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/automut")
REPO = W + "/repo"
EXTRA = {  # further checks for a file, after the ones anchored in it
    "WaitHandler.ipp": ["C05", "C06", "C09"], "CounterWaitHandler.cpp": ["C01", "C02", "C04", "C05"], "DBQueue.hpp": ["C04"], "SlotThreadPool.hpp": ["C05", "C06"],
    "CustomThread.cpp": ["C05"], "CustomThread.hpp": ["C05"], "SignalManager.hpp": ["C12"], "SignalEventHandler.hpp": ["C12"], "FileWatch.hpp": ["C15"],
    "LogConsumerConnection.hpp": ["C13"], "TSafeRandomManager.cpp": ["C18", "C32"], "RandomManager.cpp": ["C32", "C18"], "Heritable.hpp": ["C35"], "Tree.hpp": ["C35"],
    "utils.cpp": ["C27", "C28", "C29", "C30", "C38", "C39"], "utils.ipp": ["C39", "C27"], "Builder.hpp": ["C33"], "macros.hpp": ["C32", "C33"], "BaseLogConsumer.hpp": ["C14"],
    "LogFilter.cpp": ["C14"], "recursive_macros.hpp": ["C33"], "WaitHandler.hpp": ["C01", "C02"], "InternalPtrData.hpp": ["C17"], "SafeDatabase.hpp": ["C16"],
    "EventHandler.hpp": ["C07"], "ReturnCode.hpp": ["C36"], "Formatter.hpp": ["C36"], "Exception.hpp": ["C36"], "UnboundedPool.hpp": ["C20"], "IPool.hpp": ["C20"], "StdLogConsumer.cpp": ["C14"],
    "Fuzzy.hpp": ["C34"], "Timer.cpp": ["C25"], "Atomicable.ipp": ["C18"], "CommandReader.ipp": ["C23"], "IntWaitHandler.cpp": ["C01"], "BooleanWaitHandler.cpp": ["C01"],
}
SKIP = re.compile(r"^\s*(//|\*|/\*|#|log(Debug|Info|Warning|Error|DevError)|EPROSIMA_LOG|namespace|using |template|public:|private:|protected:|friend)")


def props_of():
    m = {}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            m.setdefault(f, []).append(p["id"])
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "cpp_utils/src", "cpp_utils/include", "thirdparty/filewatch", "py_utils"], capture_output=True, text=True).stdout.split()
    for f in files:
        b = os.path.basename(f)
        for x in EXTRA.get(b, []):
            if f.endswith((".hpp", ".ipp", ".cpp")) and x not in m.setdefault(f, []):
                m[f].append(x)
    return m


def mutants(path, text):
    """(id, new text)"""
    lines = text.split("\n")
    depth_comment = False
    inlog = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s:
            depth_comment = "*/" not in s
            continue
        if depth_comment:
            depth_comment = "*/" not in s
            continue
        if s.startswith(("logDebug", "logInfo", "logWarning", "logError", "logDevError", "EPROSIMA_LOG")):
            inlog = not s.endswith(";")
            continue
        if inlog:
            inlog = not s.endswith(";")
            continue
        if not s or SKIP.match(l):
            continue
        code = l.split("//")[0] if path.endswith(("pp",)) else l.split("#")[0]
        seen = set()

        def out(new, tag):
            if new != l and new not in seen:
                seen.add(new)
                return ("%s:%d:%s" % (os.path.basename(path), i + 1, tag), "\n".join(lines[:i] + [new] + lines[i + 1:]))
            return None
        r = []
        # delete a statement
        if path.endswith("pp") and re.match(r"^\s*(\*?[\w\.\->:\[\]\(\)\*&]+(\(.*\))?\s*;|[\w\.\->\[\]\*\(\)]+\s*([-+|&^]?=|<<=|>>=)\s*[^=].*;|(\+\+|--)[\w\.\->]+;|std::(lock_guard|unique_lock|shared_lock)<.*;)\s*$", code) and not re.match(r"^\s*(return\b.*|throw\b.*|else.*|break;|\}.*|\w+\(\)\s*=.*)$", code):
            r.append(out(re.match(r"^\s*", l).group(0) + ";", "del"))
        if path.endswith("pp") and re.match(r"^\s*(break|continue|return);$", code):
            r.append(out(re.match(r"^\s*", l).group(0) + ";", "del"))
        # negate a condition
        m = re.match(r"^(\s*(?:else )?(?:if|while) )\((.*)\)\s*$", code)
        if m:
            r.append(out("%s(!(%s))" % (m.group(1), m.group(2)), "neg"))
        if not re.match(r"^\s*for \(auto|.*\boperator\b|.*\bnoexcept\b.*\)$", code):
            for a, b in ((" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" * ", " + "),
                         ("notify_all", "notify_one"), ("notify_one", "notify_all"), ("true", "false"), ("false", "true"), (" and ", " or "), (" or ", " and ")):
                for k, x in enumerate(re.finditer(re.escape(a) if not a.isalpha() else r"\b%s\b" % a, code)):
                    r.append(out(l[:x.start()] + b + l[x.end():], "%s%d" % (a.strip(), k)))
            for k, x in enumerate(re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code)):
                r.append(out(l[:x.start()] + str(int(x.group(1)) + 1) + l[x.end():], "n%d" % k))
                if x.group(1) != "0":
                    r.append(out(l[:x.start()] + str(int(x.group(1)) - 1) + l[x.end():], "m%d" % k))
            for k, x in enumerate(re.finditer(r"\+\+|--", code)):
                r.append(out(l[:x.start()] + ("--" if x.group(0) == "++" else "++") + l[x.end():], "pp%d" % k))
        yield from (x for x in r if x)


SUBST = [(r"\bfind\(", "rfind("), (r"\brfind\(", "find("), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"),
         (r"\.begin\(\)", ".rbegin()"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"push_back", "push_front"), (r"push_front", "push_back"), (r"pop_front", "pop_back"), (r"pop_back", "pop_front"),
         (r"milliseconds", "microseconds"), (r"milliseconds", "seconds"), (r"\[=\]", "[&]"), (r"\bauto& ", "auto "), (r"const auto& ", "auto "), (r"std::move\((\w+)\)", r"\1"), (r" > ", " < "), (r" < ", " > "), (r" >= ", " <= "), (r" <= ", " >= "),
         (r" [+-] 1\b", ""), (r"std::recursive_mutex", "std::mutex"), (r"unique_lock<std::shared", "shared_lock<std::shared"), (r"unique_lock<(\w*Mutex|mutex_type)", r"shared_lock<\1"), (r"shared_lock<", "unique_lock<"), (r"exchange\(", "store("),
         (r"compare_exchange_strong", "compare_exchange_weak"), (r"\bstd::isspace\b", "std::isblank"), (r"\bisspace\b", "isblank"), (r"\bisdigit\b", "isalnum"), (r"\bisalnum\b", "isalpha"), (r"\btolower\b", "toupper"), (r"\btoupper\b", "tolower"), (r"\bemplace\(", "insert("),
         (r"!(\w)", r"\1"), (r" & ", " | "), (r" \| ", " & "), (r" << (\d)", r" >> \1"), (r" >> (\d)", r" << \1"), (r" / ", " * "), (r" % ", " / "), (r"\.load\(\)", ".exchange({})"), (r"first\b", "second"), (r"second\b", "first"), (r"\bstatic ", ""), (r"thread_local ", ""),
         (r"std::shared_ptr<(\w+)> (\w+) =", r"std::weak_ptr<\1> \2 ="), (r"\.count\(([^()]*)\) > 0", r".empty()"), (r"npos", "npos - 1"), (r"'(.)'", r"'x'"), (r"\bif \(", "while ("), (r"\bwhile \(", "if ("), (r"'\\n'", "'\\r'")]
NARROW = [("uint64_t", "uint8_t"), ("uint64_t", "uint16_t"), ("uint32_t", "uint8_t"), ("uint32_t", "uint16_t"), ("int64_t", "int32_t"), ("int32_t", "int8_t"), ("int32_t", "int16_t"), ("size_t", "uint8_t"), ("unsigned int", "unsigned char"), ("unsigned int", "unsigned short"),
          ("int", "signed char"), ("int", "short"), ("double", "float"), ("float", "int"), ("unsigned long", "unsigned short"), ("long", "short")]


def second(path, text):
    """statements exchanged, operands dropped, types narrowed, locals made static, near functions"""
    lines = text.split("\n")
    pp = path.endswith("pp")
    comment = inlog = False
    stmt = re.compile(r"^(\s+)[^\s/#*].*;\s*$")
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s or comment:
            comment = "*/" not in s
            continue
        if inlog or s.startswith(("logDebug", "logInfo", "logWarning", "logError", "logDevError", "EPROSIMA_LOG")):
            inlog = not s.endswith(";")
            continue
        if not s or s.startswith(("//", "#", "*", "namespace", "using ", "public:", "private:", "protected:", "friend", '"""')):
            continue
        tag = "%s:%d:" % (os.path.basename(path), i + 1)
        seen = set()

        def out(new, t):
            if new != l and new not in seen:
                seen.add(new)
                yield tag + t, "\n".join(lines[:i] + [new] + lines[i + 1:])
        if pp and i + 1 < len(lines):
            # this statement and the next one (comments between them go along)
            k = i + 1
            while k < len(lines) and (not lines[k].strip() or lines[k].strip().startswith("//")):
                k += 1
            a, b = stmt.match(l), stmt.match(lines[k]) if k < len(lines) else None
            if a and b and a.group(1) == b.group(1) and not re.match(r"\s*(return|break|throw|case)", l) and not re.match(r"\s*(public|private)", lines[k]):
                x = lines[:]
                x[i], x[k] = x[k], x[i]
                yield tag + "swap", "\n".join(x)
        code = l
        for k, x in enumerate(re.finditer(r" (&&|\|\|) ", code)):
            m = re.match(r"^(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$", code)
            if m:
                yield from out(m.group(1) + code[len(m.group(1)):x.start()] + m.group(3), "left%d" % k)
                yield from out(m.group(1) + code[x.end():-len(m.group(3))] + m.group(3), "right%d" % k)
            elif code.rstrip().endswith(";"):
                yield from out(code[:x.start()] + ";", "left%d" % k)
        if re.search(r"(&&|\|\|)\s*$", code) and i + 1 < len(lines) and re.search(r"(&&|\|\|)\s*$", lines[i + 1]):
            yield tag + "line", "\n".join(lines[:i] + lines[i + 1:])
        for n, (a, b) in enumerate(NARROW):
            for k, x in enumerate(re.finditer(r"(?<![\w])(std::)?%s\b(?!\()" % a, code)):
                if not (a == "int" and "unsigned" in code[:x.start()]):
                    yield from out(code[:x.start()] + b + code[x.end():], "narrow%d_%d" % (n, k))
        if pp and re.match(r"^\s{4,}(const )?[\w:]+(<[^()]*>)?[ &*]+\w+( = .*|\(.*\)|\{.*\})?;\s*$", code) and not re.match(r"^\s*(return|throw|static|typedef|delete|virtual|mutable|break|else)\b", code):
            yield from out(re.sub(r"^(\s*)", r"\1static ", code, count=1), "static")
        for n, (a, b) in enumerate(SUBST):
            for k, x in enumerate(re.finditer(a, code)):
                yield from out(code[:x.start()] + x.expand(b) + code[x.end():], "s%d_%d" % (n, k))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--second", action="store_true")
    ap.add_argument("--tag", default="", help="only mutants with this in their tag")
    ap.add_argument("--max-props", type=int, default=6)
    a = ap.parse_args()
    os.makedirs(REPO, exist_ok=True)
    res = W + "/auto.txt"
    done = {l.split()[0] for l in open(res)} if os.path.exists(res) else set()
    m = props_of()
    total = 0
    for f in sorted(m):
        if not re.search(a.k, f) or not os.path.isfile("/repo/" + f) or f.startswith("cmake_utils") or "enumeration_builder" in f:
            continue
        ms = list((second if a.second else mutants)(f, open("/repo/" + f).read()))
        total += len(ms)
        if a.list:
            print("%4d %s %s" % (len(ms), f, " ".join(m[f])))
            continue
        for mid, new in ms:
            if mid in done or a.tag not in mid.split(":")[2]:
                continue
            subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", "/repo/", REPO + "/"], check=True)
            open(REPO + "/" + f, "w").write(new)
            line = ""
            props = m[f][:a.max_props]
            if f.endswith("/utils.cpp"):
                n = int(mid.split(":")[1])
                fun = [x for x in open("/repo/" + f).read().split("\n")[:n] if re.match(r"^[a-z].*\($", x)][-1:] or [""]
                props = [q for k, q in (("bytes", "C28"), ("base64", "C29"), ("match", "C30"), ("access", "C38")) if k in fun[0]] or ["C27"]
            for prop in props:
                t = time.time()
                p = subprocess.run([sys.executable, V + "/run.py", "check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO, VERIF_SEED="1"))
                v = {0: "MISSED", 1: "caught"}.get(p.returncode, "NOANSWER")
                why = [l for l in p.stdout.split("\n") if l.startswith("  ")][:1] or [""]
                line = "%-40s %s %-8s %5.1f s  %s" % (mid, prop, v, time.time() - t, why[0].strip()[:140])
                if v != "MISSED":
                    break
            print(line, flush=True)
            with open(res, "a") as o:
                o.write(line + "\n")
    if a.list:
        print(total)


main()
