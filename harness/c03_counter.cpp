// engine: mc
// sources: wait/IntWaitHandler wait/CounterWaitHandler wait/BooleanWaitHandler time/time_utils Formatter exception/Exception
#include "waitmodel.hpp"
using namespace h;

static const char* EXPL = "units above the threshold lost, duplicated or stranded (no sequential explanation)";

struct Run : WaitRun<CounterWaitHandler>
{
    int thr;
    Run(CounterWaitHandler& w_, int t, int v, bool en = true) : WaitRun(w_, v, en), thr(t) {}
    AwakeReason take(unsigned ms = 0)
    {
        int t = thr;
        return wait("wait_and_decrement", ms, [t](int v) { return v > t; }, [&] { return w.wait_and_decrement(ms); }, 1);
    }
    AwakeReason reached(unsigned ms = 0)
    {
        int t = thr;
        return wait("wait_threshold_reached", ms, [t](int v) { return v == t; }, [&] { return w.wait_threshold_reached(ms); });
    }
    void inc() { op("++", [&] { ++w; }, [](WState& s) { ++s.value; }); }
    void get()
    {
        int id = hist.begin("get_value");
        int v = (int)w.get_value();
        int t = thr, i = init.value;
        mc::check(v >= (i < t ? i : t), "value below the threshold");
        hist.end(id, std::to_string(v), [v](WState& s) { return s.value == v; });
    }
    //! the value at rest is initial + increments - successful waits, and nobody is stranded
    void finish(const char* what)
    {
        settle();
        get();
        WaitRun::finish(what);
    }
};

static void with(int& t, int& v)
{
    t = mc::choose(3);
    v = mc::choose(t + 2);
}

MC_SCENARIO("C03", "two_consumers_two_increments", o.budget_quick = 3; o.budget_thorough = 6)
{
    int t, v; with(t, v);
    CounterWaitHandler w(t, v);
    Run r(w, t, v);
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.inc(); r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "two_consumers_two_producers", o.budget_quick = 2; o.budget_thorough = 4; o.spurious = true)
{
    CounterWaitHandler w(0, 0);
    Run r(w, 0, 0);
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.inc(); });
    r.th.add([&] { r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "three_consumers", o.budget_quick = 2; o.budget_thorough = 3)
{
    int v = mc::choose(2);
    CounterWaitHandler w(0, v);
    Run r(w, 0, v);
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.inc(); r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "repeated_consumer", o.budget_quick = 3; o.budget_thorough = 5)
{
    CounterWaitHandler w(1, 1);
    Run r(w, 1, 1);
    r.th.add([&] { r.take(); r.take(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.inc(); r.inc(); r.inc(); });
    r.finish(EXPL);
}
// a consumer whose time runs out as a unit arrives neither takes it nor swallows its notification
MC_SCENARIO("C03", "timed_consumer", o.budget_quick = 3; o.budget_thorough = 5; o.spurious = true)
{
    CounterWaitHandler w(0, 0);
    Run r(w, 0, 0);
    r.th.add([&] { r.take(2); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { int d = mc::choose(3); if (d) sleep_for(d); r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "timed_consumers_two_units", o.budget_quick = 2; o.budget_thorough = 4)
{
    int t, v; with(t, v);
    CounterWaitHandler w(t, v);
    Run r(w, t, v);
    r.th.add([&] { r.take(1); r.take(); });
    r.th.add([&] { r.take(1); });
    r.th.add([&] { r.inc(); sleep_for(1); r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "disabled_consumer", o.budget_quick = 2; o.budget_thorough = 5)
{
    CounterWaitHandler w(0, 0);
    Run r(w, 0, 0);
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(3); });
    r.th.add([&] { r.disable(); r.enable(); });
    r.th.add([&] { r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "created_disabled", o.budget_quick = 3; o.budget_thorough = 5)
{
    int v = mc::choose(3);
    CounterWaitHandler w(0, v, false);
    Run r(w, 0, v, false);
    r.th.add([&] { r.take(); r.take(); });
    r.th.add([&] { r.inc(); r.enable(); });
    r.th.add([&] { r.take(2); });
    r.finish(EXPL);
}
// threshold from above (takes) and from below (increments)
MC_SCENARIO("C03", "threshold_from_above", o.budget_quick = 3; o.budget_thorough = 5)
{
    int v = mc::choose(3);
    CounterWaitHandler w(1, 1 + v);
    Run r(w, 1, 1 + v);
    r.th.add([&] { r.reached(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(1); r.reached(2); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "threshold_from_below", o.budget_quick = 3; o.budget_thorough = 5)
{
    int v = mc::choose(3);
    CounterWaitHandler w(2, v);
    Run r(w, 2, v);
    r.th.add([&] { r.reached(); });
    r.th.add([&] { r.inc(); });
    r.th.add([&] { r.inc(); r.reached(1); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "threshold_two_waiters", o.budget_quick = 2; o.budget_thorough = 4; o.spurious = true)
{
    CounterWaitHandler w(0, 1);
    Run r(w, 0, 1);
    r.th.add([&] { r.reached(); });
    r.th.add([&] { r.reached(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.inc(); });
    r.finish(EXPL);
}
MC_SCENARIO("C03", "increments_never_steal_consumers", o.budget_quick = 2; o.budget_thorough = 3)
{
    // threshold waiter and consumers mixed: a notification for one kind must not be eaten by the other
    CounterWaitHandler w(0, 1);
    Run r(w, 0, 1);
    r.th.add([&] { r.reached(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.take(); });
    r.th.add([&] { r.inc(); });
    r.finish(EXPL);
}
// far above and below the threshold, many units, few switches
MC_SCENARIO("C03", "many_units", o.budget_quick = 0; o.budget_thorough = 1)
{
    static const int T[] = {0, 40, 300};
    int t = T[mc::choose(3)], below = mc::choose(2) ? 20 : 0, n = 30;
    int v = t - below < 0 ? t : t - below;
    CounterWaitHandler w(t, v);
    std::atomic<int> taken(0);
    Threads th;
    for (int k = 0; k < 2; ++k) th.add([&] { while (w.wait_and_decrement() == AwakeReason::condition_met) { mc::Quiet q; ++taken; } });
    th.add([&] { for (int i = 0; i < n; ++i) ++w; });
    mc::wait_until([&] { mc::Quiet q; return taken == n - (t - v); }, "all units taken");
    auto r = w.wait_threshold_reached();
    mc::check(r == AwakeReason::condition_met && (int)w.get_value() == t, "the threshold was not reached after all was taken");
    settle();
    mc::check(taken == n - (t - v), "units taken");
    w.disable();
    th.join();
    mc::check((int)w.get_value() == t, "value at the end");
}
// time only passes when every thread waits
MC_SCENARIO("C03", "exact_times", o.budget_quick = 3; o.budget_thorough = 5; o.early_timeouts = false)
{
    static const unsigned M[] = {1, 20, 100000};
    unsigned ms = M[mc::choose(3)], at = mc::choose(2) ? ms + 5 : ms / 2;
    CounterWaitHandler w(1, 0);
    Threads th;
    th.add([&]
            {
                uint64_t t0 = mc::now_ns();
                auto r = w.wait_and_decrement(ms);
                bool in_time = at < ms;
                mc::check(r == (in_time ? AwakeReason::condition_met : AwakeReason::timeout), "awake reason");
                mc::check(about(mc::now_ns() - t0, (in_time ? at : ms) * 1000000ull), [&] { return mc::str("wait of ", ms, " ms, a unit after ", at, " ms: took ", mc::now_ns() - t0, " ns"); });
            });
    th.add([&]
            {
                uint64_t t0 = mc::now_ns();
                auto r = w.wait_threshold_reached(ms);
                (void)r;
                mc::check(about(mc::now_ns() - t0, 0), "the threshold was reached at once");
            });
    th.add([&] { ++w; sleep_for(at); ++w; if (at > ms) { w.wait_and_decrement(); } });
    th.join();
    mc::check(w.get_value() == 1, "value at the end");
}
// so does waiting for the threshold, from above and from below
MC_SCENARIO("C03", "threshold_times", o.budget_quick = 3; o.budget_thorough = 5; o.early_timeouts = false)
{
    static const unsigned M[] = {1, 70, 300, 70000, 100000000, 4000000000u};
    unsigned ms = M[mc::choose(6)], at = mc::choose(2) ? ms + 5 : ms / 2;
    if (ms > 4000000) at = ms / 2;
    bool above = mc::choose(2), twice = mc::choose(2);
    CounterWaitHandler w(1, above ? 2 : 0);
    Threads th;
    for (int k = 0; k < 1 + twice; ++k)
        th.add([&]
                {
                    uint64_t t0 = mc::now_ns();
                    auto r = w.wait_threshold_reached(ms);
                    bool in_time = at < ms;
                    mc::check(r == (in_time ? AwakeReason::condition_met : AwakeReason::timeout), "awake reason");
                    mc::check(about(mc::now_ns() - t0, (in_time ? at : ms) * 1000000ull), [&] { return mc::str("wait of ", ms, " ms, the threshold after ", at, " ms: took ", mc::now_ns() - t0, " ns"); });
                });
    th.add([&] { sleep_for(at); if (above) w.wait_and_decrement(); else ++w; });
    th.join();
    mc::check(w.get_value() == 1, "value at the end");
}
// Without time-out a wait lasts as long as it takes, and a counter is enabled unless told otherwise.
MC_SCENARIO("C03", "default_arguments", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false)
{
    CounterWaitHandler w(2, 3);
    mc::check(w.enabled() && w.get_value() == 3, "a counter is enabled unless told otherwise");
    bool take = mc::choose(2);
    Threads th;
    Quietly<bool> back(false);
    if (take) mc::check(w.wait_and_decrement() == AwakeReason::condition_met && w.get_value() == 2, "the unit available");
    th.add([&]
            {
                AwakeReason r = take ? w.wait_and_decrement() : w.wait_threshold_reached();
                mc::check(r == AwakeReason::condition_met, "a wait without time-out did not return because of its condition");
                mc::Quiet q; back.v = true;
            });
    mc::wait_until([] { return mc::blocked(1); }, "waiting");
    std::this_thread::sleep_for(std::chrono::hours(24 * 50));
    mc::check(!back.get(), "a wait without time-out returned after 50 days");
    if (take) ++w; else mc::check(w.wait_and_decrement() == AwakeReason::condition_met, "the unit available");
    th.join();
    mc::check(w.get_value() == 2, "the value at the end");
}

// As many threads wait as there may be.
MC_SCENARIO("C03", "crowd", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false; o.delays = true)
{
    static const int N[] = {2, 3, 4, 5, 8, 9, 12, 17};
    int n = N[mc::choose(8)], kind = mc::choose(4);
    static const CounterType T[] = {5, 0x7ffffffd};
    CounterType t = T[mc::choose(2)];
    CounterWaitHandler w(t, kind == 2 ? t + 1 : kind == 3 ? t - 1 : t);
    std::atomic<int> taken(0);
    Threads th;
    for (int i = 0; i < n; ++i)
        th.add([&, i]
                {
                    unsigned ms = i % 3 == 2 ? 100000 + i : 0;
                    auto r = kind < 2 ? w.wait_and_decrement(ms) : w.wait_threshold_reached(ms);
                    mc::check(r == AwakeReason::condition_met, "reason");
                    mc::Quiet q;
                    ++taken;
                });
    auto all = [n] { for (int k = 1; k <= n; ++k) if (!mc::blocked(k)) return false; return true; };
    auto done = [n] { for (int k = 1; k <= n; ++k) if (!mc::finished(k)) return false; return true; };
    if (mc::choose(2)) mc::wait_until(all, "all wait");
    uint64_t t0 = mc::now_ns();
    if (kind == 0) for (int i = 0; i < n; ++i) ++w;
    // one unit at a time
    if (kind == 1)
        for (int i = 0; i < n; ++i)
        {
            ++w;
            mc::wait_until([&] { mc::Quiet q; return taken > i; }, "a unit is taken");
            mc::check(taken <= i + 1, "one unit was taken twice");
        }
    if (kind == 2) mc::check(w.wait_and_decrement() == AwakeReason::condition_met, "the unit");
    if (kind == 3) ++w;
    mc::wait_until(done, "everybody is served");
    mc::check(mc::now_ns() - t0 < 1000000 && w.get_value() == t, "served late, or the value at the end");
    th.join();
}
