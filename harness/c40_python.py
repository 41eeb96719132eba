"""C40: Python wait handlers under every schedule."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import pymc  # noqa: E402

pymc.install()
from py_utils.wait import WaitHandler as whm, BooleanWaitHandler as bm, IntWaitHandler as im  # noqa: E402
WaitHandler, AwakeReason = whm.WaitHandler, whm.AwakeReason
BooleanWaitHandler, IntWaitHandler = bm.BooleanWaitHandler, im.IntWaitHandler
DIS, TIME, MET = AwakeReason.disabled, AwakeReason.timeout, AwakeReason.condition_met
from pymc import scenario, check, spawn, join, choose, now, wait_blocked, fail  # noqa: E402


def waiter(res, k, f):
    def run():
        t = now()
        r = f()
        res[k] = (r, now() - t)
    return run


@scenario("open_wakes_all", 2, 3)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    ts = [spawn(waiter(res, k, h.wait)) for k in range(2)]
    t = spawn(h.open)
    join(t, *ts)
    check(res[0][0] == MET and res[1][0] == MET, "reasons %s" % res)
    check(h.get_value() is True and h.enabled())


@scenario("open_and_close", 3, 4)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    t = spawn(waiter(res, 0, h.wait))

    def toggle():
        h.open()
        h.close()
        h.open()
    u = spawn(toggle)
    join(t, u)
    check(res[0][0] == MET, "reason %s" % res)


@scenario("already_open", 3, 4)
def _():
    h, res = BooleanWaitHandler(True, True), {}
    ts = [spawn(waiter(res, k, lambda: h.wait(timeout=[None, 0, 5][choose(3)]))) for k in range(2)]
    join(*ts)
    check(all(r == (MET, 0) for r in res.values()), "reasons %s" % res)


@scenario("timeout_or_open", 3, 4)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    d = [0, 5, 0.25][choose(3)]
    t = spawn(waiter(res, 0, lambda: h.wait(timeout=d)))
    opened = {}

    def open_():
        opened["start"] = now()
        h.open()
        opened["end"] = now()
    u = spawn(open_)
    join(t, u)
    r, took = res[0]
    check(r in (MET, TIME), "reason %s" % r)
    check(r != TIME or took >= d, "timed out after %s of %s" % (took, d))


@scenario("timeout_alone", 2, 4)
def _():
    d = [0, 1, 2.5][choose(3)]
    h, res = [BooleanWaitHandler(True, False), WaitHandler(True, 0), IntWaitHandler(True)][choose(3)], {}
    w = h.wait_greater if isinstance(h, IntWaitHandler) else None
    t = spawn(waiter(res, 0, (lambda: w(3, d)) if w else (lambda: h.wait(timeout=d))))
    u = spawn(waiter(res, 1, (lambda: w(3, timeout=2 * d)) if w else (lambda: h.wait(timeout=2 * d))))
    join(t, u)
    check(res[0][0] == TIME and res[0][1] >= d and res[1][0] == TIME and res[1][1] >= 2 * d, "result %s" % res)


@scenario("timeout_despite_changes", 1, 2)
def _():
    # changes that do not fulfil the condition do not prolong the wait, nor end it
    d, every, base = [1, 3, 2.5][choose(3)], [1, 0.75][choose(2)], choose(2)
    h, pause, res = IntWaitHandler(True, 0), WaitHandler(True, 0), {}
    t = spawn(waiter(res, 0, lambda: WaitHandler.wait(h, lambda v: v < 0, d) if base else h.wait_equal(-1, d)))

    def change():
        for _i in range(6):
            pause.wait(timeout=every)
            h.increase()
    u = spawn(change)
    join(t, u)
    check(res[0][0] == TIME and d <= res[0][1] <= 6 * every, "reason %s after %s of %s" % (res[0] + (d,)))


@scenario("disable_wakes_all", 2, 3)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    ts = [spawn(waiter(res, k, h.wait)) for k in range(2)]
    u = spawn(h.disable)
    join(u, *ts)
    check(res[0][0] == DIS and res[1][0] == DIS, "reasons %s" % res)
    check(not h.enabled())
    r = h.wait()
    check(r == DIS)


@scenario("everybody_waiting", 0, 1)
def _():
    # n threads already wait, then one operation: all of them are released, whatever their number
    n, how = choose(5) + 1, choose(8)
    h = WaitHandler(True, 0) if how < 2 else BooleanWaitHandler(True, False) if how < 4 else IntWaitHandler(True, 5)
    res = {}
    f = (lambda: h.wait(lambda v: v == 7)) if how < 2 else h.wait if how < 4 else [lambda: h.wait_greater(5), lambda: h.wait(lambda v: v < 5), lambda: h.wait_equal(6), lambda: h.wait_equal(4)][how - 4]
    ts = []
    for k in range(n):
        ts.append(spawn(waiter(res, k, f)))
        wait_blocked(ts[k])
    [lambda: h.set_value(7), h.disable, lambda: h.open(), h.blocking_disable,
     lambda: h.increase(), lambda: h.decrease(), lambda: h.set_value(6), h.disable][how]()
    join(*ts)
    want = DIS if how in (1, 3, 7) else MET
    check(all(res[k][0] == want for k in range(n)), "reasons %s" % res)


@scenario("disable_open_timeout", 2, 3)
def _():
    h, res, seen = WaitHandler(True, 0), {}, []

    def pred(v):
        seen.append(v == 1)
        return v == 1
    t = spawn(waiter(res, 0, lambda: h.wait(pred, 5)))
    u = spawn(h.disable)
    v = spawn(lambda: h.set_value(1))
    join(t, u, v)
    r, took = res[0]
    check(r != MET or seen[-1], "condition met, but it was not")
    check(r != TIME, "timed out, although it was disabled") if took < 5 else None
    check(h.get_value() == 1 and not h.enabled())


@scenario("disabled_from_the_start", 3, 4)
def _():
    h, res = IntWaitHandler(False, 4), {}
    ts = [spawn(waiter(res, 0, lambda: h.wait_equal(4))), spawn(waiter(res, 1, lambda: h.wait_greater(9, 3))), spawn(h.increase)]
    join(*ts)
    check(res[0] == (DIS, 0) and res[1] == (DIS, 0), "reasons %s" % res)
    h.enable()
    check(h.enabled() and h.wait_equal(5) == MET and h.wait_greater_equal(5) == MET and h.wait_greater(5, 0) == TIME)


@scenario("enable_again", 3, 4)
def _():
    h, res = BooleanWaitHandler(False, True), {}
    t = spawn(waiter(res, 0, h.wait))
    u = spawn(h.enable)
    join(t, u)
    check(res[0][0] in (DIS, MET), "reasons %s" % res)
    check(h.wait() == MET)


def leave(h):
    """What a user may do once nobody uses the handler any more."""
    h.__dict__.clear()


@scenario("blocking_disable", 2, 3)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    n = 1 + choose(2)
    ts = [spawn(waiter(res, k, (lambda: h.wait()) if k else (lambda: h.wait(timeout=50)))) for k in range(n)]
    wait_blocked(*ts)
    h.blocking_disable()
    check(not h.enabled())
    leave(h)
    join(*ts)
    check(all(r[0] in (DIS, TIME) for r in res.values()) and len(res) == n, "reasons %s" % res)


@scenario("blocking_disable_any_time", 2, 3)
def _():
    h, res = IntWaitHandler(True, 0), {}
    t = spawn(waiter(res, 0, lambda: h.wait_equal(7)))
    u = spawn(h.blocking_disable)
    join(t, u)
    check(res[0][0] == DIS, "reasons %s" % res)
    check(not h.enabled())
    h.blocking_disable()


@scenario("blocking_disable_twice", 2, 3)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    t = spawn(waiter(res, 0, h.wait))
    us = [spawn(h.blocking_disable), spawn(h.blocking_disable)]
    join(t, *us)
    check(res[0][0] == DIS and not h.enabled(), "reasons %s" % res)
    h.enable()
    h.open()
    check(h.wait() == MET)


@scenario("blocking_disable_and_open", 2, 3)
def _():
    h, res = BooleanWaitHandler(True, False), {}
    t = spawn(waiter(res, 0, h.wait))
    wait_blocked(t)
    v = spawn(h.open)
    u = spawn(h.blocking_disable)
    join(u, v)
    leave(h)
    join(t)
    check(res[0][0] in (DIS, MET), "reasons %s" % res)


@scenario("predicate_fails", 2, 3)
def _():
    h, res = WaitHandler(True, 0), {}

    def pred(v):
        if v == 1:
            raise ValueError("predicate")
        return False

    def run():
        try:
            h.wait(pred)
            res["r"] = "returned"
        except ValueError:
            res["r"] = "raised"
    t = spawn(run)
    u = spawn(lambda: h.set_value(1))
    join(t, u)
    check(res["r"] == "raised", "the exception of the predicate was lost")
    h.blocking_disable()     # nobody waits any more
    check(not h.enabled())


@scenario("every_change_counts", 2, 3)
def _():
    h, res = IntWaitHandler(True, 2), {}
    ts = [spawn(lambda: h.increase(3)), spawn(h.decrease)]
    t = spawn(waiter(res, 0, lambda: h.wait_equal(4)))
    join(t, *ts)
    check(res[0][0] == MET and h.get_value() == 4, "value %s" % h.get_value())


@scenario("every_change_counts_alone", 2, 3)
def _():
    h = IntWaitHandler(True, 5)
    ts = [spawn(h.increase), spawn(lambda: h.increase(3)), spawn(h.decrease)]
    join(*ts)
    check(h.get_value() == 8, "value %s" % h.get_value())


@scenario("comparisons", 2, 3)
def _():
    k = choose(3)
    h, res = IntWaitHandler(True), {}
    w = [h.wait_equal, h.wait_greater_equal, h.wait_greater][k]
    t = spawn(waiter(res, 0, lambda: w(2)))
    for i in range(3):
        wait_blocked(t)
        if 0 in res:
            break
        check(i < [2, 2, 3][k])
        h.increase()
    join(t)
    check(res[0][0] == MET and h.get_value() == [2, 2, 3][k], "value %s" % h.get_value())
    # and each alone
    for v in range(-2, 4):
        for x in range(-2, 4):
            g = IntWaitHandler(True, v)
            check(g.wait_equal(x, 0) == (MET if v == x else TIME) and g.wait_greater_equal(x, 0) == (MET if v >= x else TIME)
                  and g.wait_greater(x, 0) == (MET if v > x else TIME), "comparison of %d and %d" % (v, x))


@scenario("steps_up_and_down", 2, 3)
def _():
    h, res = IntWaitHandler(True, 0), {}
    ts = [spawn(waiter(res, 0, lambda: h.wait_greater_equal(2))), spawn(waiter(res, 1, lambda: h.wait_equal(1)))]
    wait_blocked(*ts)
    h.increase()
    join(ts[1])
    h.decrease(4)
    wait_blocked(ts[0])
    check(0 not in res)
    h.increase(9)
    join(ts[0])
    check(res[0][0] == MET and res[1][0] == MET and h.get_value() == 6)


@scenario("truthful_reason", 2, 3)
def _():
    h, res, last = WaitHandler(True, 0), {}, {}

    def pred(k):
        def p(v):
            last[k] = (v % 2 == 1, now())
            return v % 2 == 1
        return p
    d = 2
    ts = [spawn(waiter(res, k, lambda k=k: h.wait(pred(k), d if k else None))) for k in range(2)]

    def change():
        for i in (1, 2, 1):
            h.set_value(i)
    u = spawn(change)
    join(u, *ts)
    for k in range(2):
        r, took = res[k]
        check(r != DIS)
        check((r == MET) == last[k][0], "reason %s, the condition was %s when it was last looked at" % (r, last[k][0]))
        check(r != TIME or (k == 1 and d is not None and took >= d), "timed out after %s of %s" % (took, d))


@scenario("waits_in_a_row", 2, 3)
def _():
    h, seen = IntWaitHandler(True, 0), []

    def consumer():
        for i in range(1, 4):
            check(h.wait_greater_equal(i) == MET)
            seen.append(i)
    ts = [spawn(consumer), spawn(lambda: [h.increase() for _ in range(3)])]
    join(*ts)
    check(seen == [1, 2, 3])


class Child(IntWaitHandler):
    """a wait of its own, as the documentation suggests"""

    def wait_lower(self, value, timeout=None):
        return WaitHandler.wait(self, lambda v: v < value, timeout)


@scenario("any_amount", 0, 1)
def _():
    # whatever the change, a thread awakes exactly if its condition holds afterwards
    x, start, op, n = choose(5) - 2, choose(3) - 1, choose(3), [-300, -2, -1, 0, 1, 2, 300][choose(7)]
    h, res = Child(True, start), {}
    w, cond = [(h.wait_equal, lambda v: v == x), (h.wait_greater_equal, lambda v: v >= x), (h.wait_greater, lambda v: v > x), (h.wait_lower, lambda v: v < x)][choose(4)]
    t = spawn(waiter(res, 0, lambda: w(x)))
    wait_blocked(t)
    before = cond(start)
    check((0 in res) == before, "awake %s with %d and %d" % (res, start, x))
    [h.increase, h.decrease, h.set_value][op](n)
    v = [start + n, start - n, n][op]
    wait_blocked(t)
    check(h.get_value() == v, "value %s, expected %s" % (h.get_value(), v))
    check((0 in res) == (before or cond(v)), "awake %s with %d, then %d, and %d" % (res, start, v, x))
    h.disable()
    join(t)
    check(res[0][0] == (MET if before or cond(v) else DIS), "reason %s" % (res[0],))


@scenario("wait_for_closing", 1, 2)
def _():
    h, res = BooleanWaitHandler(True, True), {}
    ts = [spawn(waiter(res, 0, lambda: WaitHandler.wait(h, lambda v: not v))), spawn(h.close)]
    join(*ts)
    check(res[0][0] == MET and h.get_value() is False)


@scenario("any_value", 0, 0)
def _():
    # the value may be anything, and the condition any about it
    values = [None, 0, "", "text", (), [1], False, 1.5, object()]
    a, b, en = values[choose(9)], values[choose(9)], choose(2) == 1
    h, res = WaitHandler(en, a), {}
    check(h.get_value() is a and h.enabled() is en)
    t = spawn(waiter(res, 0, lambda: h.wait(lambda v: v is b)))
    wait_blocked(t)
    check((0 in res) == (not en or a is b), "awake %s" % res)
    h.set_value(b)
    join(t)
    check(res[0][0] == (MET if en else DIS) and h.get_value() is b and h.enabled() is en, "reason %s" % (res[0],))
    # without a condition only the timeout or disabling ends it
    check(h.wait(timeout=2) == (TIME if en else DIS))


@scenario("histories", 0, 0)
def _():
    # every sequence of operations of one thread
    depth = 6 if pymc.THOROUGH else 5
    ops = ["enable", "disable", "blocking_disable", "increase", "decrease", "set", "wait"]
    seq = []
    for _ in range(depth):
        seq.append(choose(len(ops)))
    h, en, v = IntWaitHandler(seq[0] % 2 == 0, 0), seq[0] % 2 == 0, 0
    for o in seq:
        if o == 0:
            h.enable()
            en = True
        elif o == 1:
            h.disable()
            en = False
        elif o == 2:
            h.blocking_disable()
            en = False
        elif o == 3:
            h.increase(2)
            v += 2
        elif o == 4:
            h.decrease()
            v -= 1
        elif o == 5:
            h.set_value(-1)
            v = -1
        else:
            t = now()
            r = h.wait_greater(0, 3)
            check(r == (DIS if not en else MET if v > 0 else TIME), "reason %s after %s" % (r, [ops[x] for x in seq]))
            check(now() - t == (3 if r == TIME else 0), "it took %s" % (now() - t))
        check(h.enabled() == en and h.get_value() == v, "state after %s" % [ops[x] for x in seq])


if __name__ == "__main__":
    sys.exit(pymc.main("C40"))
