// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/PeriodicEventHandler
#include "events.hpp"
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
using namespace h;

static const uint64_t MS = 1000000;

struct Per
{
    std::vector<uint64_t> at;       // when the current callback was called
    uint64_t since = 0;             // when it was set first (the thread's start)
    uint64_t period = 0;            // ns
    uint64_t last = 0;              // previous call of any callback since the thread started
    bool off = true;
    int calls = 0, running = 0;
    int points = 1;
    uint64_t work_ms = 0;
    std::function<void()> cb()
    {
        return [this]
               {
                   {
                       mc::Quiet q;
                       uint64_t t = mc::now_ns();
                       mc::check(!off, "the callback was called while unset");
                       mc::check(++running == 1, "two callbacks at the same time");
                       ++calls;
                       mc::check(t - since >= period, [&] { return mc::str("called ", t - since, " ns after it was set, the period is ", period); });
                       mc::check(!last || t - last >= period, [&] { return mc::str("called ", t - last, " ns after the previous call, the period is ", period); });
                       last = t;
                       at.push_back(t);
                   }
                   mc::mark(0x900);
                   for (int i = 0; i < points; ++i) mc::point();
                   if (work_ms) std::this_thread::sleep_for(std::chrono::milliseconds(work_ms));
                   mc::Quiet q; --running;
               };
    }
    void on(uint64_t p) { mc::Quiet q; period = p * MS; since = mc::now_ns(); last = 0; off = false; at.clear(); }
    void gone() { { mc::Quiet q; off = true; mc::check(running == 0, "the callback was running after unset or destruction returned"); } mc::mark(0x901); mc::point(); }
};
static void sleep_ms(uint64_t ms) { if (ms) std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

MC_SCENARIO("C10", "never_early", o.budget_quick = 3; o.budget_thorough = 4; o.spurious = true)
{
    Per p;
    p.on(2);
    std::unique_ptr<PeriodicEventHandler> e(new PeriodicEventHandler(p.cb(), 2));
    sleep_ms(5);
    e.reset();
    p.gone();
}
MC_SCENARIO("C10", "set_unset_again", o.budget_quick = 3; o.budget_thorough = 4)
{
    Per p;
    PeriodicEventHandler e(1);
    for (int i = 0; i < 2; ++i)
    {
        p.on(1);
        e.set_callback(p.cb());
        sleep_ms(i + 1);
        e.unset_callback();
        p.gone();
        sleep_ms(1);
    }
}
MC_SCENARIO("C10", "unset_anywhere", o.budget_quick = 4; o.budget_thorough = 6)
{
    Per p;
    p.on(1);
    PeriodicEventHandler e(p.cb(), 1);
    int d = mc::choose(3);
    sleep_ms(d);
    e.unset_callback();
    p.gone();
    if (mc::choose(2)) { p.on(1); e.set_callback(p.cb()); e.unset_callback(); p.gone(); }
}
MC_SCENARIO("C10", "replace_keeps_the_period", o.budget_quick = 3; o.budget_thorough = 4)
{
    Per p;
    p.on(2);
    PeriodicEventHandler e(p.cb(), 2);
    sleep_ms(3);
    e.set_callback(p.cb());
    sleep_ms(3);
    e.unset_callback();
    p.gone();
}
MC_SCENARIO("C10", "waiter", o.budget_quick = 2; o.budget_thorough = 3)
{
    Per p;
    p.on(1);
    PeriodicEventHandler e(p.cb(), 1);
    Threads th;
    th.add([&] { bool r = e.wait_for_event(2); mc::check(!r || mc::now_ns() >= 2 * MS, "two events before two periods"); });
    sleep_ms(mc::choose(4));
    e.unset_callback();
    p.gone();
    th.join();
}
MC_SCENARIO("C10", "simulated_events", o.budget_quick = 3; o.budget_thorough = 4)
{
    // a simulated event while the period thread fires
    int n = 0;
    PeriodicEventHandler e([&] { mc::Quiet q; ++n; }, 1);
    Threads th;
    th.add([&] { e.simulate_event_occurred(); });
    sleep_ms(2);
    th.join();
    e.unset_callback();
    mc::check((int)e.event_count() == n, [&] { return mc::str("event_count ", e.event_count(), " after ", n, " calls"); });
}
MC_SCENARIO("C10", "two_threads_set_unset", o.budget_quick = 2; o.budget_thorough = 3)
{
    int n = 0;
    PeriodicEventHandler e(1);
    Threads th;
    for (int i = 0; i < 2; ++i)
        th.add([&] { e.set_callback([&] { mc::Quiet q; ++n; }); e.unset_callback(); });
    sleep_ms(1);
    th.join();
    mc::check(mc::quiescent(mc::tid()), "the period thread goes on after the last unset");
    mc::check((int)e.event_count() == n, "event count");
}
MC_SCENARIO("C10", "two_threads_unset", o.budget_quick = 2; o.budget_thorough = 4)
{
    Per p;
    p.on(1);
    PeriodicEventHandler e(p.cb(), 1);
    Threads th;
    for (int i = 0; i < 2; ++i) th.add([&] { e.unset_callback(); });
    sleep_ms(1);
    th.join();
    p.gone();
}
// Time only passes when every thread waits for it, so whatever the schedule the calls are exact and stopping takes no time.
MC_SCENARIO("C10", "every_schedule_exact", o.budget_quick = 4; o.budget_thorough = 6; o.early_timeouts = false)
{
    Per p;
    p.points = 0;
    p.on(20);
    std::unique_ptr<PeriodicEventHandler> e(new PeriodicEventHandler(p.cb(), 20));
    int k = mc::choose(3);
    sleep_ms(k * 25);
    mc::check(p.calls == k, [&] { return mc::str(k * 25, " ms with a period of 20 ms: ", p.calls, " calls"); });
    bool again = mc::choose(2);
    for (int i = 0; i < (again ? 2 : 1); ++i)
    {
        uint64_t t0 = mc::now_ns();
        if (i == 0 && again) e->unset_callback(); else e.reset();
        p.gone();
        mc::check(about(mc::now_ns() - t0, 0), [&] { return mc::str("stopping took ", mc::now_ns() - t0, " ns"); });
        if (i == 0 && again) { p.on(20); e->set_callback(p.cb()); sleep_ms(mc::choose(2) * 30); }
    }
}
// Exact behaviour when every thread runs as soon as it can: one call at the end of each period.
struct RegSeq
{
    RegSeq()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 1; o.early_timeouts = false; o.hbcache = false;
        new mc::Registrar("C10", "exact", o, []
        {
            int period = 1 + mc::choose(3);
            Per p;
            p.points = 0;
            if (mc::choose(2)) p.work_ms = 1;
            std::unique_ptr<PeriodicEventHandler> e;
            bool set = mc::choose(2);
            uint64_t start = mc::now_ns();
            if (set) { p.on(period); e.reset(new PeriodicEventHandler(p.cb(), period)); }
            else e.reset(new PeriodicEventHandler(period));
            int depth = mc::thorough() ? 5 : 4;
            auto verify = [&]
                    {
                        // calls at start + period, + 2 period + work, ...
                        uint64_t now = mc::now_ns();
                        std::vector<uint64_t> expect;
                        if (set) for (uint64_t t = start + period * MS; t <= now; t += (period + p.work_ms) * MS) expect.push_back(t);
                        mc::Quiet q;
                        size_t n = p.at.size(), m = expect.size();
                        // at the boundary instant the call may still be about to happen
                        bool ok = n == m || (m == n + 1 && expect.back() == now);
                        for (size_t i = 0; ok && i < n; ++i) ok = p.at[i] == expect[i];
                        mc::check(ok, [&] { std::string s = mc::str("period ", period, " ms, set at ", start, ", now ", now, ": calls at"); for (auto t : p.at) s += mc::str(" ", t); return s; });
                    };
            for (int i = 0; i < depth; ++i)
            {
                switch (mc::choose(4))
                {
                    case 0:
                        e->set_callback(p.cb());
                        if (!set) { p.on(period); start = mc::now_ns(); }
                        set = true;
                        break;
                    case 1:
                    {
                        verify();
                        uint64_t t0 = mc::now_ns();
                        bool busy = p.running;
                        e->unset_callback();
                        if (!busy && p.at.size() + 1 != (size_t)-1)
                            mc::check(mc::now_ns() - t0 <= p.work_ms * MS + SLACK_NS, [&] { return mc::str("unset took ", mc::now_ns() - t0, " ns"); });
                        p.gone();
                        set = false; p.at.clear();
                        break;
                    }
                    case 2: sleep_ms(1); break;
                    default: sleep_ms(period); break;
                }
                verify();
            }
            uint64_t t0 = mc::now_ns();
            e.reset();
            mc::check(mc::now_ns() - t0 <= p.work_ms * MS + SLACK_NS, "destruction waited for the next period");
            p.gone();
        });
    }
} reg_seq;
MC_SCENARIO("C10", "period_zero", o.budget_quick = 0)
{
    bool thrown = false, ok = true;
    try { if (mc::choose(2)) PeriodicEventHandler e(0); else PeriodicEventHandler e([] {}, 0); }
    catch (const eprosima::utils::InitializationException&) { thrown = true; }
    mc::check(thrown, "period 0 accepted");
    try { PeriodicEventHandler e(1); } catch (...) { ok = false; }
    mc::check(ok, "period 1 rejected");
}
// Periods of any length are kept exactly.
MC_SCENARIO("C10", "long_periods", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false)
{
    static const uint32_t periods[] = {255, 256, 257, 999, 1000, 1001, 32767, 32768, 65535, 65536, 65537, 86400000, 604800001, 2147483646u, 2147483647u, 2147483648u, 2147483649u, 3000000000u, 4294967294u, 4294967295u};
    const uint64_t period = periods[mc::choose(20)];
    Per p;
    p.points = 0;
    p.on(period);
    std::unique_ptr<PeriodicEventHandler> e(new PeriodicEventHandler(p.cb(), (Duration_ms)period));
    int k = mc::choose(3);
    std::this_thread::sleep_for(std::chrono::milliseconds(k ? period * k + 1 : period - 1));
    mc::check(p.calls == k && (int)e->event_count() == k, [&] { return mc::str("period ", period, " ms: ", p.calls, " calls after ", k, " periods"); });
    uint64_t t0 = mc::now_ns();
    if (mc::choose(2)) e->unset_callback();
    e.reset();
    p.gone();
    mc::check(about(mc::now_ns() - t0, 0), "stopping took time");
}
// A long run: no call is lost and no delay accumulates.
MC_SCENARIO("C10", "very_many", o.budget_quick = 0; o.budget_thorough = 0; o.early_timeouts = false; o.hbcache = false; o.max_steps = 5000000)
{
    Per p;
    p.points = 0;
    const int total = mc::thorough() ? 70000 : 1500, period = 1 + mc::choose(3) * 9;
    p.on(period);
    std::unique_ptr<PeriodicEventHandler> e(new PeriodicEventHandler(p.cb(), period));
    bool change = mc::choose(2);
    for (int i = 1; i <= total; i += 100)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(100 * period) + std::chrono::microseconds(i == 1 ? 500 : 0));
        mc::check(p.calls == i + 99, [&] { return mc::str(p.calls, " calls in ", i + 99, " periods"); });
        if (change) e->set_callback(p.cb());
    }
    mc::check((int)e->event_count() == p.calls, "event count");
    e.reset();
    p.gone();
}
