// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "events.hpp"
using namespace h;

static const char* W = "wait_for_event missed an event, waited for nothing or lied (no sequential explanation)";

MC_SCENARIO("C09", "one_waiter", o.budget_quick = 4; o.budget_thorough = 7; o.spurious = true)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.wait(2); });
    r.th.add([&] { r.event(1); r.event(2); });
    r.finish(W);
}
MC_SCENARIO("C09", "two_waiters_two_sources", o.budget_quick = 2; o.budget_thorough = 4)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.wait(1); });
    r.th.add([&] { r.wait(2); r.wait(3); });
    r.th.add([&] { r.event(1); r.event(3); });
    r.th.add([&] { r.event(2); });
    r.finish(W);
}
MC_SCENARIO("C09", "unset_releases", o.budget_quick = 2; o.budget_thorough = 4; o.spurious = true)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.wait(1); });
    r.th.add([&] { r.wait(2); });
    r.th.add([&] { r.event(1); });
    r.unset();
    r.finish(W);
}
MC_SCENARIO("C09", "unset_set_again", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.wait(1); });
    r.th.add([&] { r.event(1); });
    r.unset();
    r.set(1);
    r.finish(W);
}
MC_SCENARIO("C09", "wait_before_set", o.budget_quick = 4; o.budget_thorough = 6)
{
    Run r;
    r.th.add([&] { r.wait(1); r.wait(1); });
    r.th.add([&] { r.set(0); r.event(1); });
    r.finish(W);
}
MC_SCENARIO("C09", "reset_against_wait", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.wait(2); });
    r.th.add([&] { r.event(1); r.event(2); });
    r.th.add([&] { if (mc::choose(2)) r.reset(); else r.decrement(); });
    r.finish(W);
}
MC_SCENARIO("C09", "destroy_releases", o.budget_quick = 3; o.budget_thorough = 5)
{
    // the handler is freed as soon as its destructor returns; the waiters had begun to wait
    std::unique_ptr<EH> e(new EH());
    e->set_callback([](int, std::string) {});
    Threads th;
    Quietly<int> results(0);
    EH* p = e.get();
    for (int i = 0; i < 2; ++i)
        th.add([p, &results, i] { bool x = p->wait_for_event(1 + i); mc::check(!x || i == 0, "wait_for_event returned true without the events"); mc::Quiet q; ++results.v; });
    mc::wait_until([] { return mc::blocked(1) && mc::blocked(2); }, "waiters waiting");
    int k = mc::choose(3);
    if (k == 1) e->fire(1);
    if (k == 2) { e->unset_callback(); }
    e.reset();
    th.join();
    mc::check(results.get() == 2, "a waiter was not released by destruction");
}
MC_SCENARIO("C09", "three_waiters", o.budget_quick = 2; o.budget_thorough = 3)
{
    Run r;
    r.set(0);
    for (int i = 0; i < 3; ++i) r.th.add([&, i] { r.wait(i + 1); });
    r.event(1); r.event(2); r.event(3);
    r.finish(W);
}
// Waiting for counts beyond any narrow counter, at each of their boundaries.
MC_SCENARIO("C09", "very_many", o.budget_quick = 1; o.budget_thorough = 1; o.early_timeouts = false; o.max_steps = 5000000)
{
    static const int bounds[] = {128, 256, 300, 32768, 65536, 65600};
    const int n = bounds[mc::choose(mc::thorough() ? 6 : 3)];
    EH e;
    e.set_callback([](int, std::string) {});
    for (int i = 0; i < n - 2; ++i) { mc::Quiet q; e.fire(i); }
    Threads th;
    th.add([&]
            {
                bool r = e.wait_for_event(n);
                mc::check(r && (int)e.event_count() >= n, [&] { return mc::str("wait_for_event(", n, ") returned ", r, " with ", e.event_count(), " events"); });
            });
    th.add([&]
            {
                bool r = e.wait_for_event(n + 1000);
                mc::check(!r, [&] { return mc::str("wait_for_event(", n + 1000, ") returned true with ", e.event_count(), " events"); });
            });
    e.fire(1);
    mc::wait_until([] { return mc::blocked(1) && mc::blocked(2); }, "both wait: one event is missing");
    e.fire(2);
    mc::wait_until([] { return mc::finished(1); }, "the waiter of the last event");
    e.unset_callback();
    th.join();
}
// As many threads wait as there may be.
MC_SCENARIO("C09", "many_waiters", o.budget_quick = 1; o.budget_thorough = 2; o.delays = true)
{
    Run r;
    r.set(0);
    for (int i = 0; i < 17; ++i) r.th.add([&, i] { r.wait(i < 9 ? 1 : 2); });
    if (mc::choose(2)) mc::wait_until([] { for (int t = 1; t < 18; ++t) if (!mc::blocked(t)) return false; return true; }, "all wait");
    r.event(1);
    if (mc::choose(2)) r.event(2);
    r.finish(W);
}
// Without a number it waits for one event.
MC_SCENARIO("C09", "one_event_by_default", o.budget_quick = 3; o.budget_thorough = 4)
{
    EH e;
    e.set_callback([](int, std::string) {});
    int before = mc::choose(3);
    for (int i = 0; i < before; ++i) e.fire(i);
    Threads th;
    th.add([&] { bool r = e.wait_for_event(); mc::check(r && e.event_count() >= 1, "wait_for_event() returned without an event"); });
    if (before) mc::wait_until([] { return mc::finished(1); }, "an event had happened");
    else
    {
        mc::wait_until([] { return mc::blocked(1); }, "no event has happened");
        e.fire(7);
    }
    th.join();
}
// Numbers of events that never come.
MC_SCENARIO("C09", "out_of_reach", o.budget_quick = 2; o.budget_thorough = 4)
{
    static const uint32_t N[] = {0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffff01u, 0xfffffffeu, 0xffffffffu};
    uint32_t n = N[mc::choose(6)];
    int k = mc::choose(3);
    EH e;
    e.set_callback([](int, std::string) {});
    if (k) e.fire(1);
    Threads th;
    th.add([&] { bool r = e.wait_for_event(n); mc::check(!r, [&] { return mc::str("wait_for_event(", n, ") returned true with ", e.event_count(), " events"); }); });
    if (k == 2) e.fire(2);
    mc::wait_until([] { return mc::blocked(1); }, "the event waited for never comes");
    e.unset_callback();
    th.join();
}
