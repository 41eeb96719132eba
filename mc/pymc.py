"""Stateless model checker for Python threads.

Replaces the locks and clocks the `threading` module is built on by controlled ones, runs one thread at a time and explores
every schedule of a scenario with at most `bound` deviations (preemptions of a thread that could go on, clock advances while a
thread could go on).  Points where a switch may happen: before every lock acquisition, before every read or write of a mutable
attribute or item in the code under test (its modules are loaded with such points added to their syntax tree), and wherever a
thread blocks.  Executions that reach a state already explored with as many deviations left are cut (happens-before
fingerprints: what each thread has done and seen, independent of the order of unrelated steps).

A harness defines scenarios with @scenario("name", quick_bound, thorough_bound) and ends with pymc.main().
"""
import argparse
import ast
import importlib.abc
import importlib.util
import json
import operator
import os
import sys
import time as _real_time

import _thread
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
_real_lock = _thread.allocate_lock
_real_mono = _real_time.monotonic
sys.dont_write_bytecode = True


class Abort(BaseException):
    """Unwinds a thread whose execution is over."""


class _Violation(Exception):
    pass


class VThread:
    __slots__ = ("tid", "sem", "fn", "blocked", "deadline", "done", "streak", "h", "objs")

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.blocked = None      # the condition (callable) it waits for, or None
        self.deadline = None
        self.done = False
        self.streak = 0
        self.h = hash((tid, "start"))
        self.objs = 0


class Sched:
    MAX_STEPS = 6000
    FAIR = 120

    def __init__(self, prefix, bound, visited=None):
        self.prefix, self.bound, self.visited = prefix, bound, visited
        self.pruned = False
        self.shared = {}         # name of an attribute -> [hash of the last write, hash of the reads since]
        self.trail = []          # (choice, alternatives, cost of each alternative)
        self.threads = []
        self.now = 1000.0
        self.cost = 0
        self.steps = 0
        self.abort = False
        self.msg = None
        self.over = _real_lock()
        self.over.acquire()
        self.by_ident = {}
        self.counters = {}
        self.log = []

    # ---- choices
    def decide(self, costs):
        """Choose one of the alternatives; the first one is the default."""
        if len(costs) == 1:
            return 0
        k = len(self.trail)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= len(costs):
            raise RuntimeError("the execution is not reproducible")
        self.trail.append((c, costs, self.cost))
        self.cost += costs[c]
        return c

    # ---- scheduling
    def enabled(self, t):
        if t.done:
            return False
        if t.blocked is None:
            return True
        return t.blocked() or (t.deadline is not None and self.now >= t.deadline)

    def cur(self):
        return self.by_ident.get(_thread.get_ident())

    def pick(self, cur):
        """The next thread to run; cur is None if the running thread has ended."""
        while True:
            on = [t for t in self.threads if self.enabled(t)]
            late = [t.deadline for t in self.threads if not t.done and t.blocked is not None and t.deadline is not None and not self.enabled(t)]
            if not on and not late:
                return None
            opts, costs = [], []
            if cur is not None and cur in on:
                others = [t for t in on if t is not cur]
                if cur.streak > self.FAIR and (others or late):
                    # it does not get anywhere by itself: let the others go on
                    cur.streak = 0
                    if others:
                        return others[self.steps % len(others)]
                    self.now = max(self.now, min(late))
                    continue
                opts, costs = [cur] + others, [0] + [1] * len(others)
            else:
                # who goes on after a block is free, in the order of the threads
                opts, costs = list(on), [0] * len(on)
            if late:
                opts.append(None)
                costs.append(1 if on else 0)
            if len(costs) > 1 and self.visited is not None and len(self.trail) >= len(self.prefix):
                fp = hash((cur.tid if cur in on else -1, self.now, tuple([(t.h, t.done, t.blocked is None, t.deadline) for t in self.threads])))
                left = self.bound - self.cost
                if self.visited.get(fp, -1) >= left:
                    self.pruned = True
                    self.finish(None)
                    raise Abort()
                self.visited[fp] = left
            c = self.decide(costs)
            if opts[c] is not None:
                return opts[c]
            self.now = max(self.now, min(late))

    def switch(self, me):
        """Give the processor away (me may be blocked or done) until me is chosen."""
        nxt = self.pick(me if not me.done else None)
        if nxt is None:
            if all(t.done for t in self.threads):
                self.finish(None)
            else:
                stuck = ", ".join("thread %d" % t.tid for t in self.threads if not t.done)
                self.finish("deadlock: %s blocked for ever" % stuck)
            if me.done:
                return
            raise Abort()
        if nxt is me:
            me.streak += 1
            return
        nxt.streak = 0
        nxt.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.abort:
            raise Abort()

    def point(self):
        t = self.cur()
        if t is None:
            return
        if self.abort:
            raise Abort()
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.finish("livelock: no progress after %d steps" % self.steps)
            raise Abort()
        self.switch(t)

    def block(self, ready, deadline=None):
        """Block until ready() or the deadline; True if ready."""
        t = self.cur()
        if self.abort:
            raise Abort()
        if ready():
            return True
        t.blocked, t.deadline = ready, deadline
        t.streak = 0
        try:
            self.switch(t)
        finally:
            t.blocked, t.deadline = None, None
        r = ready()
        t.h = hash((t.h, "block", r, self.now))
        return r

    def touch(self, name, write):
        """The running thread is about to read or write a shared attribute."""
        t = self.cur()
        e = self.shared.setdefault(name, [0, 0])
        if write:
            t.h = hash((t.h, name, e[0], e[1]))
            e[0], e[1] = t.h, 0
        else:
            t.h = hash((t.h, name, e[0]))
            e[1] ^= t.h

    def finish(self, msg):
        if self.abort:
            return
        if msg and self.msg is None:
            self.msg = msg
        self.abort = True
        self.over.release()

    # ---- threads
    def spawn(self, fn):
        t = VThread(len(self.threads), fn)
        p = self.cur()
        if p is not None:
            t.h = p.h = hash((p.h, "spawn", t.tid))
        self.threads.append(t)
        _thread.start_new_thread(self.run_thread, (t,))
        return t

    def run_thread(self, t):
        t.sem.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not self.abort:
                t.fn()
        except Abort:
            pass
        except _Violation as e:
            self.finish(str(e))
        except BaseException as e:  # noqa: B902
            if not self.abort:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                self.finish("exception in thread %d: %s: %s (%s:%d)" % (t.tid, type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
        t.done = True
        self.by_ident.pop(_thread.get_ident(), None)
        if not self.abort:
            try:
                self.switch(t)
            except Abort:
                pass
            except BaseException as e:  # noqa: B902
                self.finish("scheduler: %r" % e)
        self.ended.release()

    def run(self, body):
        self.ended = _Sem()
        main = self.spawn(body)
        main.sem.release()
        self.over.acquire()
        # let whoever is still inside unwind
        for t in list(self.threads):
            if not t.done:
                t.sem.release()
                while not t.done:
                    _real_time.sleep(0)
        for _ in self.threads:
            self.ended.acquire()


class _Sem:
    def __init__(self):
        self.n, self.l = 0, _real_lock()

    def release(self):
        with self.l:
            self.n += 1

    def acquire(self):
        while True:
            with self.l:
                if self.n:
                    self.n -= 1
                    return
            _real_time.sleep(0)


S = None      # the running execution


class VLock:
    """A lock under the control of the scheduler; a plain flag outside of an execution."""

    def __init__(self):
        self.held = False
        s = S
        t = s.cur() if s is not None else None
        self.h = 0
        if t is not None:
            t.objs += 1
            self.h = hash((t.h, "lock", t.objs))

    def acquire(self, blocking=True, timeout=-1):
        s = S
        t = s.cur() if s is not None else None
        if t is None:
            if self.held and blocking:
                raise RuntimeError("a controlled lock is used outside of the scenario")
            got, self.held = not self.held, True
            return got
        if s.abort:
            raise Abort()
        if not blocking and self.held:
            t.h = hash((t.h, self.h, "held"))
            return False
        s.point()
        if self.held:
            if not blocking or timeout == 0 or not s.block(lambda: not self.held, None if timeout is None or timeout < 0 else s.now + timeout):
                t.h = hash((t.h, self.h, "held"))
                return False
        self.held = True
        t.h = self.h = hash((t.h, self.h, "acquired"))
        return True

    def release(self):
        if not self.held:
            if S is not None and S.abort:
                return
            raise RuntimeError("release unlocked lock")
        self.held = False
        t = S.cur() if S is not None else None
        if t is not None:
            t.h = self.h = hash((t.h, self.h, "released"))

    def locked(self):
        t = S.cur() if S is not None else None
        if t is not None:
            t.h = hash((t.h, self.h, "looked"))
        return self.held

    def _at_fork_reinit(self):
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _vnow():
    s = S
    t = s.cur() if s is not None else None
    if t is None:
        return _real_mono()
    t.h = hash((t.h, s.now))
    return s.now


def _vsleep(d):
    s = S
    if s is None or s.cur() is None:
        return _real_time_sleep(d)
    s.point()
    s.block(lambda: False, s.now + max(d, 0))


_real_time_sleep = _real_time.sleep
_real_time_time = _real_time.time


def install():
    threading._allocate_lock = VLock
    threading.Lock = VLock
    threading._CRLock = None
    threading._time = _vnow
    _real_time.monotonic = _vnow
    _real_time.perf_counter = _vnow
    _real_time.time = lambda: _vnow() if S is not None and S.cur() is not None else _real_time_time()
    _real_time.sleep = _vsleep_api
    _learn()
    sys.meta_path.insert(0, _Finder())


def _vsleep_api(d):
    s = S
    if s is None or s.cur() is None:
        return _real_time_sleep(d)
    return _vsleep(d)


# ---- points at accesses to shared state: attributes stored or changed anywhere outside of a constructor
_CHANGES = {"append", "appendleft", "pop", "popleft", "popitem", "add", "remove", "discard", "clear", "update", "extend", "insert", "setdefault", "sort"}
_mutable = set()


def _read(o, name):
    s = S
    if s is not None and s.cur() is not None:
        s.point()
        s.touch(name, False)
    return o


def _write(o, name):
    s = S
    if s is not None and s.cur() is not None:
        s.point()
        s.touch(name, True)
    return o


def _iop(op, a, b):
    return getattr(operator, op)(a, b)


_IOPS = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.BitOr: "ior", ast.BitAnd: "iand", ast.BitXor: "ixor", ast.FloorDiv: "ifloordiv",
         ast.Div: "itruediv", ast.Mod: "imod", ast.LShift: "ilshift", ast.RShift: "irshift", ast.Pow: "ipow"}


class _Collect(ast.NodeVisitor):
    def __init__(self):
        self.init = False

    def visit_FunctionDef(self, n):
        was, self.init = self.init, n.name == "__init__"
        self.generic_visit(n)
        self.init = was

    def visit_Attribute(self, n):
        if not self.init and not isinstance(n.ctx, ast.Load):
            _mutable.add(n.attr)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if not self.init and isinstance(f, ast.Attribute) and f.attr in _CHANGES and isinstance(f.value, ast.Attribute):
            _mutable.add(f.value.attr)
        self.generic_visit(n)


class _Points(ast.NodeTransformer):
    def wrap(self, n, name, write):
        return ast.copy_location(ast.Call(ast.Name("__pymc_write__" if write else "__pymc_read__", ast.Load()), [n, ast.Constant(name)], []), n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in _mutable:
            n.value = self.wrap(n.value, n.attr, not isinstance(n.ctx, ast.Load))
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        n.value = self.wrap(n.value, "[]", not isinstance(n.ctx, ast.Load))
        return n

    def visit_Call(self, n):
        f = n.func
        changes = isinstance(f, ast.Attribute) and f.attr in _CHANGES and isinstance(f.value, ast.Attribute) and f.value.attr in _mutable
        self.generic_visit(n)
        if changes:
            f.value.value = self.wrap(f.value.value.args[0], f.value.attr, True)
        return n

    def visit_AugAssign(self, n):
        t = n.target
        simple = isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.attr in _mutable and type(n.op) in _IOPS
        if not simple:
            self.generic_visit(n)
            return n
        load = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
        new = ast.Assign([t], ast.Call(ast.Name("__pymc_iop__", ast.Load()), [ast.Constant(_IOPS[type(n.op)]), load, n.value], []))
        ast.copy_location(new, n)
        self.generic_visit(new)
        return new


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "py_utils":
            return None
        base = os.path.join(REPO, "py_utils", *name.split("."))
        if os.path.isdir(base):
            return importlib.util.spec_from_file_location(name, os.path.join(base, "__init__.py"), loader=self, submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=self)
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        if not os.path.exists(path):
            return
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        tree = ast.fix_missing_locations(_Points().visit(tree))
        module.__dict__.update(__pymc_read__=_read, __pymc_write__=_write, __pymc_iop__=_iop)
        exec(compile(tree, path, "exec"), module.__dict__)


def _learn():
    """Which attributes does the code under test change?"""
    for d, _, names in os.walk(os.path.join(REPO, "py_utils", "py_utils")):
        for n in names:
            if n.endswith(".py"):
                with open(os.path.join(d, n), encoding="utf-8") as f:
                    _Collect().visit(ast.parse(f.read()))


# ------------------------------------------------------------------------------------------------ harness API
def fail(msg):
    raise _Violation(msg)


def check(ok, msg="check failed"):
    if not ok:
        raise _Violation(msg() if callable(msg) else msg)


def spawn(fn, *a):
    return S.spawn(lambda: fn(*a))


def join(*ts):
    for t in ts:
        S.point()
        S.block(lambda: t.done)
        c = S.cur()
        c.h = hash((c.h, t.h, "join"))


def choose(n):
    c = S.decide([0] * n)
    t = S.cur()
    t.h = hash((t.h, "choice", c))
    return c


def now():
    return _vnow()


def point():
    S.point()


def wait_blocked(*ts):
    """Until all the threads are blocked (or have ended) at the same time."""
    S.block(lambda: all(t.done or (t.blocked is not None and not S.enabled(t)) for t in ts))
    c = S.cur()
    c.h = hash((c.h, "seen blocked") + tuple([t.h for t in ts]))


def blocked(t):
    r = not t.done and t.blocked is not None and not S.enabled(t)
    c = S.cur()
    c.h = hash((c.h, t.h, "seen", r))
    return r


def count(name, n=1):
    S.counters[name] = S.counters.get(name, 0) + n


SCENARIOS = []


def scenario(name, quick=2, thorough=3, in_quick=True):
    def deco(f):
        SCENARIOS.append((name, quick, thorough, in_quick, f))
        return f
    return deco


THOROUGH = False


def explore(body, bound, deadline, stats):
    """Every execution with at most `bound` deviations, smallest first. Returns (message, choices) or (None, None)."""
    global S
    for b in range(bound + 1):
        stack = [[]]
        visited = {}
        while stack:
            prefix = stack.pop()
            s = Sched(prefix, b, visited)
            S = s
            s.run(body)
            S = None
            stats["pruned" if s.pruned else "executions"] += 1
            stats["transitions"] += s.steps
            for k, v in s.counters.items():
                stats["counters"][k] = stats["counters"].get(k, 0) + v
            stats["longest"] = max(stats["longest"], s.steps)
            if s.msg:
                return s.msg, [c for c, _, _ in s.trail]
            for i in range(len(s.trail) - 1, len(prefix) - 1, -1):
                c, costs, before = s.trail[i]
                for a in range(len(costs) - 1, c, -1):
                    if before + costs[a] <= b:
                        stack.append([x for x, _, _ in s.trail[:i]] + [a])
            if _real_mono() > deadline:
                return None, None
        stats["completed_bound"] = b
        stats["states"] = len(visited)
    return None, None


def main(prop):
    global THOROUGH, S
    ap = argparse.ArgumentParser()
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--property")
    ap.add_argument("--scenario")
    ap.add_argument("--out")
    ap.add_argument("--time", type=float, default=300)
    ap.add_argument("--known", action="append", default=[])
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay", nargs="?", const="")
    a = ap.parse_args()
    if a.list:
        for n, _, _, q, _ in SCENARIOS:
            print("%s\t%d" % (n, 1 if q else 0))
        return 0
    THOROUGH = a.thorough
    name, quick, thorough, _, body = next(x for x in SCENARIOS if x[0] == a.scenario)
    bound = thorough if a.thorough else quick
    stats = {"executions": 0, "transitions": 0, "counters": {}, "completed_bound": -1, "longest": 0, "pruned": 0, "states": 0}
    t0 = _real_mono()
    if a.replay is not None:
        s = S = Sched([int(x) for x in a.replay.split(",") if x], bound)
        s.run(body)
        S = None
        print(s.msg or "no violation")
        return 1 if s.msg else 0
    msg, choices = explore(body, bound, t0 + a.time, stats)
    known = [0] * len(a.known)
    status = "ok"
    if msg:
        status = "violation"
        for i, k in enumerate(a.known):
            if k in msg:
                status, known[i] = "ok", 1
    r = {"property": prop, "scenario": name, "status": status, "msg": msg or "", "executions": stats["executions"], "pruned": stats["pruned"],
         "transitions": stats["transitions"], "states": max(stats["states"], 1), "completed_bound": stats["completed_bound"], "target_bound": bound,
         "wall": _real_mono() - t0, "known": known, "counters": stats["counters"],
         "samples": ["longest execution %d steps" % stats["longest"]], "choices": choices or []}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(r, f)
    else:
        print(r)
    return 0
