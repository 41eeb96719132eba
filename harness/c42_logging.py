"""C42: the Python logger, debugging helpers and timer."""
import logging      # (its own locks stay real: nothing is scheduled inside)
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import pymc  # noqa: E402

pymc.install()


class Out:
    """Standard error: what the logger writes."""
    text = ""

    def write(self, s):
        Out.text += s
        return len(s)

    def flush(self):
        pass


REAL_ERR = sys.stderr
sys.stderr = Out()
from py_utils.logging import log_utils  # noqa: E402
from py_utils.debugging import debug_utils  # noqa: E402
from py_utils.time import Timer as timer_module  # noqa: E402
CustomLogger, Timer = log_utils.CustomLogger, timer_module.Timer
from pymc import scenario, check, spawn, join, choose  # noqa: E402
import time  # noqa: E402

LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
DEFAULT = None
FORMATS = ["%(levelname)s|%(message)s", "%(name)s %(message)s!"]


def drain():
    t, Out.text = Out.text, ""
    return t


def line(fmt, name, level, msg):
    """The line expected, as a regular expression."""
    lv = logging.getLevelName(level)
    if fmt is DEFAULT:
        return r"\[[^\]]*\]\[%s\]\[%s\] %s\n" % (re.escape(name), lv, re.escape(msg))
    return re.escape(fmt % {"levelname": lv, "message": msg, "name": name}) + "\n"


def matches(want, what):
    t = drain()
    check(re.fullmatch("".join(want), t) is not None, lambda: "%s: written %r, expected %r" % (what, t, "".join(want)))


def speak(lg, name, level, fmt, what):
    """Every level through every method: exactly the lines of the level set or higher, once each."""
    want, n = [], 0
    for lv in LEVELS:
        for how in range(2):
            n += 1
            msg = "text %d" % n
            if how:
                lg.log(lv, "text %d", n)
            else:
                [lg.debug, lg.info, lg.warning, lg.error, lg.critical][LEVELS.index(lv)](msg)
            if lv >= level:
                want.append(line(fmt, name, lv, msg))
        check(lg.isEnabledFor(lv) == (lv >= level), "isEnabledFor")
    matches(want, what)


class Model:
    def __init__(self, lg, name, level):
        self.lg, self.name, self.level, self.fmt = lg, name, level, DEFAULT

    def step(self, op):
        if op < 2:
            self.lg.set_format(FORMATS[op])
            self.fmt = FORMATS[op]
        elif op == 2:
            self.lg.set_format()
            self.fmt = DEFAULT
        elif op == 3:
            self.lg.activate_debug()
            self.level = logging.DEBUG
        else:
            self.level = LEVELS[op - 3]
            self.lg.set_log_level(self.level)
        return ["format 0", "format 1", "default format", "debug", "info", "warning", "error", "critical"][op]


def new_logger(k):
    if k == 0:
        return Model(CustomLogger(), "GLOBAL_LOG", logging.INFO)
    if k == 1:
        return Model(CustomLogger(logging.ERROR), "GLOBAL_LOG", logging.ERROR)
    return Model(CustomLogger(logging.DEBUG, "mine"), "mine", logging.DEBUG)


def history(depth):
    drain()
    m, done = new_logger(choose(3)), []
    speak(m.lg, m.name, m.level, m.fmt, "new logger")
    for _ in range(depth):
        done.append(m.step(choose(8)))
        speak(m.lg, m.name, m.level, m.fmt, "after %s" % done)


@scenario("histories", 0, 0)
def _():
    history(5 if pymc.THOROUGH else 4)


@scenario("two_loggers", 0, 0)
def _():
    # also two of one name have formats and levels of their own
    drain()
    a, b = new_logger(choose(3)), new_logger(choose(3))
    done = []
    for i in range(3 if pymc.THOROUGH else 2):
        m = [a, b][choose(2)]
        done.append(m.step(choose(8)))
        for x in (a, b):
            speak(x.lg, x.name, x.level, x.fmt, "after %s" % done)


ANY = [0, 1, 5, 9, 11, 15, 25, 35, 45, 51, 60, "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]


@scenario("any_level", 0, 0)
def _():
    # levels other than the usual ones, names of levels, and the native ways of setting one
    drain()
    first = choose(len(ANY) + 1)
    if first == len(ANY):
        m = CustomLogger()
        level = logging.INFO
    else:
        m, level = CustomLogger(ANY[first]), ANY[first]
    done = [level]
    for i in range(2):
        k = choose(len(ANY) + 1)
        if k == len(ANY):
            m.activate_debug()
            level = logging.DEBUG
        else:
            level = ANY[k]
            if (pymc.THOROUGH or i == 0) and choose(2):
                m.setLevel(level)
            else:
                m.set_log_level(level)
        done.append(level)
        bound = level if isinstance(level, int) else logging.getLevelName(level)
        for lv in (1, 4, 5, 6, 9, 10, 11, 15, 20, 25, 30, 40, 50, 55, 60, 70):
            m.log(lv, "at %d", lv)
            want = [line(DEFAULT, "GLOBAL_LOG", lv, "at %d" % lv)] if lv >= bound else []
            want = [w.replace("[Level %d]" % lv, r"\[Level %d\]" % lv).replace(r"\[Level %d\]]" % lv, r"Level %d\]" % lv) for w in want]
            matches(want, "level %d after %s" % (lv, done))


@scenario("handlers_of_the_user", 0, 0)
def _():
    # another handler added by the user gets the messages too, and once
    drain()
    seen = []

    class Own(logging.Handler):
        def emit(self, record):
            seen.append(record.getMessage())
    m = new_logger(choose(3))
    h = Own()
    before = choose(2)
    if before:
        m.step(choose(8))
    h.setFormatter(logging.Formatter("own %(message)s"))
    h.setLevel(logging.ERROR)
    m.lg.addHandler(h)
    m.step(choose(8))
    check(h.formatter._fmt == "own %(message)s" and h.level == logging.ERROR, "the handler of the user was changed")
    m.lg.critical("one %s", "two")
    check(seen == ["one two"], "the handler of the user got %s" % seen)
    matches([line(m.fmt, m.name, logging.CRITICAL, "one two")], "with another handler")


@scenario("threads", 2, 3)
def _():
    # a message is written once, in the format before or after, while another thread changes format or level
    drain()
    m = new_logger(2)
    op = choose(5)
    old = m.fmt
    ts = [spawn(lambda k=k: m.lg.error("from %d", k)) for k in range(2)]
    name = m.step(op)
    m.lg.error("from %d", 2)
    join(*ts)
    t = drain()
    for k in range(3):
        n = sum(len(re.findall(line(f, m.name, logging.ERROR, "from %d" % k), t)) for f in {old, m.fmt})
        check(n == 1, "message %d written %d times while the logger was given %s: %r" % (k, n, name, t))
    check(t.count("\n") == 3, "lines written: %r" % t)
    speak(m.lg, m.name, m.level, m.fmt, "afterwards")


class Failed(Exception):
    pass


class Quit(BaseException):
    pass


class Ends(StopIteration, Failed):
    pass


class Absent(KeyError, AttributeError):
    pass


FAILURES = [Failed, Quit, Ends, Absent, StopIteration, KeyboardInterrupt, TypeError, RuntimeError]


def debug_lines(active, *contents):
    """The lines of the global logger, each of which contains the texts given"""
    t = drain().splitlines()
    want = [c for c in contents] if active else []
    check(len(t) == len(want), "lines written: %s, expected %d" % (t, len(want)))
    for got, c in zip(t, want):
        check("DEBUG" in got and all(x in got for x in c), "line %r lacks one of %s" % (got, c))


@scenario("decorator", 0, 0)
def _():
    drain()
    active = choose(2)
    log_utils.logger.set_log_level(logging.DEBUG if active else logging.INFO)
    calls = []
    results = [None, 0, "", [1], object(), False, Failed]
    result = results[choose(len(results))]
    fails = choose(1 + len(FAILURES)) if result is None else choose(2)
    args = [(), (1,), ("x", None), ([1], {"a": 2}, (3, 4)), ("%d %s %", "{0}")][choose(5)]
    kwargs = [{}, {"a": 1}, {"b": None, "a": "x", "percent": "%s"}][choose(3)]

    def some_function(*a, **k):
        calls.append((a, k))
        if fails:
            raise error
        return result
    error = FAILURES[fails - 1]("no")
    times = 1 + choose(2)       # decorated once or twice
    f = some_function
    for _i in range(times):
        f = debug_utils.debug_function_decorator(f)
    for again in range(2):
        calls.clear()
        if again and choose(2):     # the level may change after decorating, and between calls
            active = not active
            log_utils.logger.set_log_level(logging.DEBUG if active else logging.INFO)
        try:
            r = f(*args, **kwargs)
            check(not fails, "the exception was lost")
            check(r is result, "result %r, expected %r" % (r, result))
        except (Exception, Quit, KeyboardInterrupt) as e:
            if type(e).__module__ == 'pymc':
                raise
            check(fails and e is error, "another exception")
        check(len(calls) == 1, "called %d times" % len(calls))
        check(len(calls[0][0]) == len(args) and all(x is y for x, y in zip(calls[0][0], args)) and calls[0][1] == kwargs, "arguments %r" % (calls[0],))
        if fails:
            t = drain()
            check(not t if not active else "some_function" in t, "written %r" % t)
        elif times == 1:
            debug_lines(active, ["some_function", repr(args), repr(kwargs)], ["some_function"])
        else:
            t = drain()
            check(t.count("\n") == (4 if active else 0), "written %r" % t)


@scenario("decorated_recursion", 0, 0)
def _():
    drain()
    log_utils.logger.set_log_level(logging.DEBUG)
    n = choose(6)

    @debug_utils.debug_function_decorator
    def fact(k):
        return 1 if k == 0 else k * fact(k - 1)
    want = 1
    for i in range(1, n + 1):
        want *= i
    check(fact(n) == want, "result of a recursive function")
    debug_lines(True, *([["fact", repr((k,))] for k in range(n, -1, -1)] + [["fact"]] * (n + 1)))


@scenario("introspection", 0, 0)
def _():
    drain()
    active = choose(2)
    if active:
        log_utils.logger.activate_debug()
    else:
        log_utils.logger.set_log_level(logging.WARNING)

    class Some:
        field_ = 3

        def method_one(self):
            check(False, "a method was called")

        @staticmethod
        def method_two():
            check(False, "a method was called")
    obj = [Some(), 3, "text", [1], None, Some, Timer(), log_utils.logger][choose(8)]
    debug_utils.debug_object_introspection(obj)
    cls = type(obj)
    names = [n for n in dir(obj) if callable(getattr(obj, n))]
    t = Out.text
    debug_lines(active, [cls.__name__] + names)
    check("field_" not in t, "a field that cannot be called is listed")


@scenario("timer", 0, 0)
def _():
    t, start = Timer(), time.time()
    for i in range(6 if pymc.THOROUGH else 5):
        op = choose(5)
        if op == 0:
            t.reset()
            start = time.time()
        elif op == 1:
            t, start = Timer(), time.time()
        else:
            time.sleep([0.0005, 1.25, 86400.0][op - 2])
        e = t.elapsed()
        check(abs(e - (time.time() - start)) < 1e-6, "elapsed %r, expected %r" % (e, time.time() - start))


if __name__ == "__main__":
    sys.exit(pymc.main("C42"))
