// engine: mc
// sources: wait/IntWaitHandler wait/CounterWaitHandler wait/BooleanWaitHandler time/time_utils Formatter exception/Exception
#include <climits>
#include "waitmodel.hpp"
using namespace h;

static const char* LOST = "lost wake-up or untruthful awake reason (no sequential explanation)";

static AwakeReason iwait(IntWaitHandler& w, int kind, int x, unsigned ms)
{
    switch (kind)
    {
        case 0: return w.wait_equal(x, ms);
        case 1: return w.wait_greater_than(x, ms);
        case 2: return w.wait_greater_equal_than(x, ms);
        case 3: return w.wait_lower_than(x, ms);
        default: return w.wait_lower_equal_than(x, ms);
    }
}
static Pred ipred(int kind, int x)
{
    switch (kind)
    {
        case 0: return [x](int v) { return v == x; };
        case 1: return [x](int v) { return v > x; };
        case 2: return [x](int v) { return v >= x; };
        case 3: return [x](int v) { return v < x; };
        default: return [x](int v) { return v <= x; };
    }
}
static const char* kname[] = {"wait_equal", "wait_greater_than", "wait_greater_equal_than", "wait_lower_than", "wait_lower_equal_than"};

struct IntRun : WaitRun<IntWaitHandler>
{
    IntRun(IntWaitHandler& h_, int v, bool en = true) : WaitRun(h_, v, en) { peek = [this] { return w.get_value(); }; }
    AwakeReason waitk(int kind, int x, unsigned ms = 0)
    {
        return wait(mc::str(kname[kind], " ", x), ms, ipred(kind, x), [&] { return iwait(w, kind, x, ms); });
    }
    void inc() { op("++", [&] { ++w; }, [](WState& s) { ++s.value; }); }
    void dec() { op("--", [&] { --w; }, [](WState& s) { --s.value; }); }
};

// every predicate against every value sequence of two setters
struct RegInt
{
    RegInt()
    {
        for (int k = 0; k < 5; ++k)
            for (int init = -1; init <= 1; ++init)
            {
                mc::Options o; o.budget_quick = 2; o.budget_thorough = 4;
                new mc::Registrar("C01", mc::str("int_", kname[k], "_init", init), o, [k, init]
                {
                    IntWaitHandler w(init);
                    IntRun r(w, init);
                    r.th.add([&] { r.waitk(k, 0); });
                    int a = mc::choose(3) - 1;
                    r.th.add([&] { r.set(a); });
                    int d = mc::choose(2);
                    r.th.add([&] { if (d) r.inc(); else r.dec(); });
                    r.finish(LOST);
                });
                mc::Options t; t.budget_quick = 2; t.budget_thorough = 3; t.spurious = true;
                new mc::Registrar("C01", mc::str("int_timed_", kname[k], "_init", init), t, [k, init]
                {
                    IntWaitHandler w(init);
                    IntRun r(w, init);
                    r.th.add([&] { r.waitk(k, 0, 5); });
                    int a = mc::choose(3) - 1, at = mc::choose(3);
                    r.th.add([&] { if (at) sleep_for(at == 1 ? 3 : 7); r.set(a); });
                    r.finish(LOST);
                });
            }
    }
} reg_int;

// value changes that the waiter must not sleep through: increments against decrements
MC_SCENARIO("C01", "int_counting", o.budget_quick = 2; o.budget_thorough = 4)
{
    IntWaitHandler w(0);
    IntRun r(w, 0);
    r.th.add([&] { r.waitk(0, 2); });
    r.th.add([&] { r.inc(); r.inc(); });
    r.th.add([&] { r.waitk(2, 1); r.inc(); });
    r.finish(LOST);
}
MC_SCENARIO("C01", "int_down", o.budget_quick = 2; o.budget_thorough = 4)
{
    IntWaitHandler w(2);
    IntRun r(w, 2);
    r.th.add([&] { r.waitk(4, 0); });
    r.th.add([&] { r.dec(); r.dec(); });
    r.th.add([&] { r.waitk(3, 1, 4); });
    r.finish(LOST);
}
// the same with every place of the value and the limit, below zero and across it
MC_SCENARIO("C01", "int_steps", o.budget_quick = 1; o.budget_thorough = 3)
{
    int from = mc::choose(5) - 3, limit = mc::choose(5) - 3, k = mc::choose(5), d = mc::choose(2);
    IntWaitHandler w(from);
    IntRun r(w, from);
    r.th.add([&] { r.waitk(k, limit); });
    r.th.add([&] { for (int i = 0; i < 2; ++i) { if (d) r.inc(); else r.dec(); } });
    r.finish(LOST);
}
// values of read access are values that were stored
MC_SCENARIO("C01", "int_reads", o.budget_quick = 3; o.budget_thorough = 5)
{
    IntWaitHandler w(0);
    IntRun r(w, 0);
    for (int i = 0; i < 2; ++i)
        r.th.add([&]
                {
                    for (int j = 0; j < 2; ++j)
                    {
                        int id = r.hist.begin("get");
                        int v = w.get_value();
                        r.hist.end(id, std::to_string(v), [v](WState& s) { return s.value == v; });
                    }
                });
    r.th.add([&] { r.set(5); r.inc(); r.dec(); });
    r.finish("values read are not the values stored");
}

// three threads with different conditions, all awakened by the same change
MC_SCENARIO("C01", "int_three_waiters", o.budget_quick = 1; o.budget_thorough = 2)
{
    IntWaitHandler w(0);
    IntRun r(w, 0);
    r.th.add([&] { r.waitk(0, 3); });
    r.th.add([&] { r.waitk(1, 2); });
    r.th.add([&] { r.waitk(2, 3, 2); });
    r.th.add([&] { r.set(3); });
    r.finish(LOST);
}

struct BoolRun : WaitRun<BooleanWaitHandler>
{
    BoolRun(BooleanWaitHandler& h_, int v, bool en = true) : WaitRun(h_, v, en) { peek = [this] { return (int)w.is_open(); }; }
    AwakeReason bwait(unsigned ms = 0) { return wait("wait", ms, [](int v) { return v != 0; }, [&] { return w.wait(ms); }); }
    void open() { op("open", [&] { w.open(); }, [](WState& s) { s.value = 1; }); }
    void close() { op("close", [&] { w.close(); }, [](WState& s) { s.value = 0; }); }
    bool is_open()
    {
        int id = hist.begin("is_open");
        bool v = w.is_open();
        hist.end(id, std::to_string(v), [v](WState& s) { return (s.value != 0) == v; });
        return v;
    }
};

MC_SCENARIO("C01", "bool_open_close", o.budget_quick = 2; o.budget_thorough = 4)
{
    BooleanWaitHandler w(false);
    BoolRun r(w, 0);
    r.th.add([&] { r.bwait(); });
    r.th.add([&] { r.open(); r.close(); });
    r.th.add([&] { r.is_open(); r.open(); });
    r.finish(LOST);
}
// opening what somebody else is closing
MC_SCENARIO("C01", "bool_reopen", o.budget_quick = 3; o.budget_thorough = 5)
{
    bool opened = mc::choose(2);
    BooleanWaitHandler w(opened);
    BoolRun r(w, opened);
    r.th.add([&] { r.bwait(mc::choose(2) ? 3 : 0); });
    r.th.add([&] { r.close(); });
    r.th.add([&] { r.open(); });
    r.finish(LOST);
}
MC_SCENARIO("C01", "bool_two_waiters", o.budget_quick = 2; o.budget_thorough = 3; o.spurious = true)
{
    BooleanWaitHandler w(false);
    BoolRun r(w, 0);
    r.th.add([&] { r.bwait(); r.bwait(); });
    r.th.add([&] { r.bwait(3); });
    r.th.add([&] { r.open(); });
    r.finish(LOST);
}
MC_SCENARIO("C01", "bool_timeout", o.budget_quick = 3; o.budget_thorough = 5)
{
    bool opened = mc::choose(2);
    BooleanWaitHandler w(opened);
    BoolRun r(w, opened);
    r.th.add([&] { r.bwait(2); r.bwait(1); });
    r.th.add([&] { sleep_for(mc::choose(4)); r.open(); sleep_for(1); r.close(); });
    r.finish(LOST);
}
MC_SCENARIO("C01", "bool_disabled", o.budget_quick = 3; o.budget_thorough = 5)
{
    bool en = mc::choose(2);
    BooleanWaitHandler w(false, en);
    BoolRun r(w, 0, en);
    r.th.add([&] { r.bwait(); r.bwait(2); });
    r.th.add([&] { r.open(); if (mc::choose(2)) r.close(); });
    r.th.add([&] { r.enable(); });
    r.finish(LOST);
}

// generic handler: user type, user predicate, values stored without notification
struct Val { int a = 0; int b = 0; };
struct GenH : WaitHandler<Val>
{
    using WaitHandler<Val>::WaitHandler;
    void set(int v, bool n) { Val x; x.a = v; x.b = v; set_value(x, n); }
};
struct GenRun
{
    GenH w{Val()};
    History<WState> hist; Threads th; std::vector<int> waits;
};
MC_SCENARIO("C01", "generic_no_notify", o.budget_quick = 2; o.budget_thorough = 4)
{
    GenH w{Val()};
    Quietly<int> stored;
    Threads th;
    Quietly<bool> second_done;
    th.add([&]
            {
                auto r = w.wait([](const Val& v) { mc::check(v.a == v.b, "the predicate saw a half-written value"); return v.a >= 1; });
                mc::check(r == AwakeReason::condition_met, "waiter awaken with another reason than condition_met");
            });
    th.add([&]
            {
                w.set(1, false);      // not notified
                // a later wait sees it without any notification
                auto r = w.wait([](const Val& v) { return v.a >= 1; });
                mc::check(r == AwakeReason::condition_met, "a later wait does not see a value set without notification");
                w.set(2, true);       // now everybody is awaken
            });
    th.join();
    Val v = w.get_value();
    mc::check(v.a == 2 && v.b == 2, "final value");
}
MC_SCENARIO("C01", "generic_default_value", o.budget_quick = 2; o.budget_thorough = 4)
{
    GenH w{true};
    Threads th;
    th.add([&] { mc::check(w.wait([](const Val& v) { return v.a == 7; }, 1000) != AwakeReason::disabled, "enabled handler reports disabled"); });
    th.add([&] { w.set(7, true); Val v = w.get_value(); mc::check(v.a == v.b, "torn value read"); });
    th.add([&] { w.set(8, false); });
    th.join();
    mc::check(w.enabled(), "handler not enabled after creation");
}

struct CntRun : WaitRun<CounterWaitHandler>
{
    using WaitRun::WaitRun;
};
MC_SCENARIO("C01", "long_timeout", o.budget_quick = 2; o.budget_thorough = 4)
{
    // the largest time-outs neither expire early nor overflow
    unsigned ms = mc::choose(2) ? 4294967295u : 86400000u;
    BooleanWaitHandler w(false);
    Threads th;
    th.add([&]
            {
                uint64_t t0 = mc::now_ns();
                auto r = w.wait(ms);
                if (r == AwakeReason::timeout) mc::check(mc::now_ns() - t0 >= ms * 1000000ull, "time-out before its time");
                else mc::check(r == AwakeReason::condition_met, "unexpected reason");
            });
    th.add([&] { sleep_for(10); w.open(); });
    th.join();
}
// the whole range of the integer type
MC_SCENARIO("C01", "int_extremes", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    static const int X[] = {INT_MIN, INT_MIN + 1, -2, -1, 0, 1, 2, 1000000000, INT_MAX - 1, INT_MAX};
    int v = X[mc::choose(10)], x = X[mc::choose(10)], how = mc::choose(2);
    IntWaitHandler w(how ? v : 5);
    if (!how) w.set_value(v);
    mc::check(w.get_value() == v, "value");
    for (int k = 0; k < 5; ++k)
    {
        bool met = ipred(k, x)(v);
        uint64_t t0 = mc::now_ns();
        AwakeReason r = iwait(w, k, x, 7);
        mc::check(r == (met ? AwakeReason::condition_met : AwakeReason::timeout), [&] { return mc::str(kname[k], " ", x, " with value ", v, ": ", name(r)); });
        mc::check(about(mc::now_ns() - t0, met ? 0 : 7000000), "time of the wait");
    }
    if (v < INT_MAX) { ++w; mc::check(w.get_value() == v + 1, "increment"); --w; }
    if (v > INT_MIN) { --w; mc::check(w.get_value() == v - 1, "decrement"); }
}
// time only passes when every thread waits: each wait ends exactly when its time is over, or its condition becomes true
MC_SCENARIO("C01", "exact_times", o.budget_quick = 3; o.budget_thorough = 5; o.early_timeouts = false)
{
    static const unsigned T[] = {1, 10, 999, 60000, 4294967290u};
    unsigned ms = T[mc::choose(5)], at = mc::choose(3) == 0 ? 0 : ms / 2, last = mc::choose(2) ? ms + 3 : ms - 1;
    IntWaitHandler w(0);
    Threads th;
    th.add([&]
            {
                uint64_t t0 = mc::now_ns();
                auto r = w.wait_equal(2, ms);
                uint64_t t = mc::now_ns() - t0;
                if (last < ms)
                {
                    mc::check(r == AwakeReason::condition_met, "the condition was met in time");
                    mc::check(about(t, last * 1000000ull), [&] { return mc::str("awakened after ", t, " ns, the condition was met after ", last, " ms"); });
                }
                else
                {
                    mc::check(r == AwakeReason::timeout, "the condition was not met in time");
                    mc::check(about(t, ms * 1000000ull), [&] { return mc::str("time-out of ", ms, " ms after ", t, " ns"); });
                }
            });
    th.add([&]
            {
                uint64_t t0 = mc::now_ns();
                // changes that do not matter, before the time is over
                sleep_for(at); w.set_value(1);
                if (mc::choose(2)) w.set_value(3);
                sleep_for(last - at); w.set_value(2);
                (void)t0;
            });
    th.join();
}
// Handlers and waits without the arguments that may be left out: enabled, closed, and without time-out.
namespace {
template <typename W, typename Meet>
void default_waits(W&& wait, Meet&& meet)
{
    Threads th;
    Quietly<bool> back(false);
    th.add([&]
            {
                AwakeReason r = wait();
                mc::check(r == AwakeReason::condition_met, "a wait without time-out did not return because of its condition");
                mc::Quiet q; back.v = true;
            });
    mc::wait_until([] { return mc::blocked(1); }, "waiting");
    std::this_thread::sleep_for(std::chrono::hours(24 * 50));
    mc::check(!back.get(), "a wait without time-out returned after 50 days");
    meet();
    th.join();
}
}
MC_SCENARIO("C01", "default_arguments", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false)
{
    switch (mc::choose(9))
    {
        case 0:
        {
            BooleanWaitHandler b;
            mc::check(b.enabled() && !b.is_open(), "a boolean handler is enabled and closed unless told otherwise");
            default_waits([&] { return b.wait(); }, [&] { b.open(); });
            break;
        }
        case 1:
        {
            BooleanWaitHandler b(true);
            mc::check(b.enabled() && b.is_open() && b.wait() == AwakeReason::condition_met, "a boolean handler is enabled unless told otherwise");
            break;
        }
        case 2: { IntWaitHandler w(3); mc::check(w.enabled(), "enabled by default"); default_waits([&] { return w.wait_equal(5); }, [&] { w.set_value(5); }); break; }
        case 3: { IntWaitHandler w(3); default_waits([&] { return w.wait_greater_than(3); }, [&] { ++w; }); break; }
        case 4: { IntWaitHandler w(3); default_waits([&] { return w.wait_greater_equal_than(4); }, [&] { ++w; }); break; }
        case 5: { IntWaitHandler w(3); default_waits([&] { return w.wait_lower_than(3); }, [&] { --w; }); break; }
        case 6: { IntWaitHandler w(3); default_waits([&] { return w.wait_lower_equal_than(2); }, [&] { --w; }); break; }
        case 7:
        {
            WaitHandler<std::string> w(std::string("a"));
            mc::check(w.enabled() && w.get_value() == "a", "enabled by default");
            default_waits([&] { return w.wait([](const std::string& s) { return s == "b"; }); }, [&] { w.set_value("b"); });
            break;
        }
        default:
        {
            WaitHandler<std::string> w;
            mc::check(w.enabled() && w.get_value().empty(), "enabled by default");
            default_waits([&] { return w.wait([](const std::string& s) { return s == "b"; }); }, [&] { w.set_value("b"); });
        }
    }
}

// As many threads wait as there may be, and one change serves all of them.
MC_SCENARIO("C01", "crowd", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false; o.delays = true)
{
    static const int N[] = {2, 4, 5, 6, 8, 9, 12, 17};
    int n = N[mc::choose(8)], kind = mc::choose(5);
    BooleanWaitHandler b(false);
    IntWaitHandler w(0);
    WaitHandler<std::string> g(std::string("a"));
    Threads th;
    for (int i = 0; i < n; ++i)
        th.add([&, i]
                {
                    AwakeReason r;
                    if (kind == 0) r = b.wait(i % 3 == 2 ? 100000 + i : 0);
                    else if (kind == 4) r = g.wait([](const std::string& s) { return s == "b"; });
                    else if (i % 2) r = w.wait_equal(1);
                    else r = w.wait_greater_equal_than(1, i % 3 == 2 ? 100000 + i : 0);
                    mc::check(r == AwakeReason::condition_met, "the condition was met");
                });
    auto all = [n] { for (int t = 1; t <= n; ++t) if (!mc::blocked(t)) return false; return true; };
    auto done = [n] { for (int t = 1; t <= n; ++t) if (!mc::finished(t)) return false; return true; };
    if (mc::choose(2)) mc::wait_until(all, "all wait");
    uint64_t t0 = mc::now_ns();
    if (kind == 0) b.open();
    if (kind == 1) w.set_value(1);
    if (kind == 2) ++w;
    if (kind == 3) { w.set_value(2, false); --w; }
    if (kind == 4) g.set_value("b");
    mc::wait_until(done, "everybody is served");
    mc::check(mc::now_ns() - t0 < 1000000, "somebody was served late");
    th.join();
}
