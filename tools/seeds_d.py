O = "thirdparty/optionparser/optionparser.h"
PRE = r"""
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "../../../thirdparty/optionparser/optionparser.h"
static int fail(const char* what) { std::printf("WRONG: %s\n", what); return 1; }
static option::ArgStatus none(const option::Option&, bool) { return option::ARG_NONE; }
static option::ArgStatus required(const option::Option& o, bool) { return o.arg ? option::ARG_OK : option::ARG_ILLEGAL; }
"""
S = [
dict(id="decorator-swallows-exceptions", property="C42",
     edits=[("py_utils/py_utils/debugging/debug_utils.py", "        result = func(*args, **kwargs)\n        logger.debug(f'Function <{func.__name__}> finished')\n        return result\n",
             "        result = None\n        try:\n            result = func(*args, **kwargs)\n        finally:\n            # Also seen when the function fails\n            logger.debug(f'Function <{func.__name__}> finished')\n            return result\n")],
     needs="A decorated function that raises", breaks="The exception never reaches the caller, who gets None",
     py=r"""
import sys
sys.path.insert(0, sys.argv[1] + "/py_utils")
from py_utils.debugging.debug_utils import debug_function_decorator

@debug_function_decorator
def f(x):
    if x > 2:
        raise ValueError(x)
    return x

assert f(1) == 1
try:
    f(3)
except ValueError:
    sys.exit(0)
print("WRONG: the exception was swallowed")
sys.exit(1)
"""),
dict(id="decorator-decides-once", property="C42",
     edits=[("py_utils/py_utils/debugging/debug_utils.py", "    def wrapper(*args, **kwargs):\n", "    if not logger.isEnabledFor(10):\n        # Nothing to write: spare the cost of the wrapper\n        return func\n\n    def wrapper(*args, **kwargs):\n")],
     needs="Debug activated after the function was decorated", breaks="Calls are not logged although debug is active",
     py=r"""
import io, logging, sys
sys.path.insert(0, sys.argv[1] + "/py_utils")
from py_utils.debugging.debug_utils import debug_function_decorator
from py_utils.logging.log_utils import logger

@debug_function_decorator
def f(x):
    return x

out = io.StringIO()
logger.addHandler(logging.StreamHandler(out))
logger.activate_debug()
assert f(1) == 1
if out.getvalue().count("Function <f>") != 2:
    print("WRONG: a call was not logged")
    sys.exit(1)
"""),
dict(id="options-detached-argument-reordered", property="C43",
     edits=[(O, "                            shift(args, nonops);\n                            if (numargs > 0)\n                            {\n                                --numargs;\n                            }\n                            ++args;\n                        }\n\n                        // No further",
                "                            if (numargs > 0)\n                            {\n                                --numargs;\n                            }\n                            ++args;\n                        }\n\n                        // No further")],
     needs="GNU mode, a word that is no option before an option with a separate argument", breaks="The remaining words are wrong: the argument or the option is one of them",
     sources=[], cpp=PRE + r"""
int main()
{
    const option::Descriptor u[] = {{0, 0, "f", "file", required, ""}, {0, 0, 0, 0, 0, 0}};
    const char* a[] = {"one", "-f", "name", "two", 0};
    option::Stats s(true, u, 4, a);
    const char* b[] = {"one", "-f", "name", "two", 0};
    std::vector<option::Option> o(s.options_max), buf(s.buffer_max);
    option::Parser p(true, u, 4, b, o.data(), buf.data());
    if (p.error() || p.optionsCount() != 1 || std::strcmp(o[0].arg, "name")) return fail("option");
    if (p.nonOptionsCount() != 2 || std::strcmp(p.nonOption(0), "one") || std::strcmp(p.nonOption(1), "two")) return fail("words");
    return 0;
}
"""),
dict(id="options-ambiguous-alias", property="C43",
     edits=[(O, "                        if (usage[i2].longopt == 0) // if there was no second match it's unambiguous, so accept i1 as idx",
                "                        // names of one and the same option do not compete\n                        while (usage[i2].longopt != 0 && usage[i2].index == usage[i1].index)\n                        {\n                            ++i2;\n                        }\n\n                        if (usage[i2].longopt == 0) // if there was no second match it's unambiguous, so accept i1 as idx")],
     needs="An abbreviation that begins the names of two descriptors with the same index but different types", breaks="An ambiguous abbreviation is taken for the first of them",
     sources=[], cpp=PRE + r"""
int main()
{
    const option::Descriptor u[] = {{0, 0, "", "", none, ""}, {1, 1, "", "color-on", none, ""}, {1, 2, "", "color-off", none, ""}, {0, 0, 0, 0, 0, 0}};
    const char* a[] = {"--color-o", "--color-of", 0};
    std::vector<option::Option> o(3), buf(4);
    option::Parser p(true, u, 2, a, o.data(), buf.data(), 3);
    if (p.error() || p.optionsCount() != 2 || o[0].count() != 1) return fail("an ambiguous abbreviation was accepted");
    if (o[1].count() != 1 || o[1].type() != 2) return fail("an abbreviation was not accepted");
    return 0;
}
"""),
dict(id="options-full-buffer-lists", property="C43",
     edits=[(O, "        while ((bufmax < 0 || bufidx < bufmax) && buffer[bufidx])\n", "        while (bufidx < parser.op_count && buffer[bufidx])\n")],
     needs="Two parsers that fill the same buffer one after the other (defaults by one, the command line by another)", breaks="The options of the first are overwritten",
     sources=[], cpp=PRE + r"""
int main()
{
    const option::Descriptor u[] = {{0, 0, "a", "", none, ""}, {1, 0, "b", "", none, ""}, {0, 0, 0, 0, 0, 0}};
    const char* x[] = {"-a", 0}; const char* y[] = {"-b", 0};
    std::vector<option::Option> o(3), buf(4);
    option::Parser p(u, 1, x, o.data(), buf.data());
    option::Parser q(u, 1, y, o.data(), buf.data());
    if (!buf[0] || buf[0].index() != 0 || !buf[1] || buf[1].index() != 1) return fail("options of the first parser are gone");
    if (o[0].count() != 1 || o[1].count() != 1) return fail("lists");
    return 0;
}
"""),
dict(id="usage-wide-character-at-the-edge", property="C44",
     edits=[(O, "                                if (utf8width + 2 > width)\n                                {\n                                    break;\n                                }\n                                ++utf8width;",
                "                                ++utf8width;")],
     needs="A wide character of which only one half fits on the line", breaks="The line is wider than the width given",
     sources=[], cpp=PRE + r"""
static std::string out;
static void put(const char* s, int n) { out.append(s, n); }
int main()
{
    const option::Descriptor u[] = {{0, 0, "", "", none, "abcde\xe6\x97\xa5\xe6\x97\xa5xyz"}, {0, 0, 0, 0, 0, 0}};
    option::printUsage(put, u, 6);
    if (out != "abcde\n\xe6\x97\xa5\xe6\x97\xa5xy\nz\n") return fail("wrapping");
    return 0;
}
"""),
dict(id="usage-tables-share-threshold", property="C44",
     edits=[(O, "        LinePartIterator part(usage);\n        while (part.nextTable())\n", "        LinePartIterator part(usage);\n        int overlong_column_threshold = 10000;\n        while (part.nextTable())\n"),
            (O, "            int leftwidth;\n            int overlong_column_threshold = 10000;\n", "            int leftwidth;\n")],
     needs="Two tables, the second with cells wider than those of the first", breaks="The columns of the second table are not aligned",
     sources=[], cpp=PRE + r"""
static std::string out;
static void put(const char* s, int n) { out.append(s, n); }
int main()
{
    const option::Descriptor u[] = {{0, 0, "", "", none, "-a  \tone"}, {0, 0, "", "", none, 0}, {0, 0, "", "", none, "--long  \ttwo"}, {0, 0, "", "", none, "--longer  \tthree"}, {0, 0, 0, 0, 0, 0}};
    option::printUsage(put, u, 40);
    if (out != "-a  one\n--long    two\n--longer  three\n") return fail("layout");
    return 0;
}
"""),
]
