// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "events.hpp"
using namespace h;

static const char* W = "events lost, doubled, miscounted or given to the wrong callback (no sequential explanation)";

MC_SCENARIO("C07", "two_sources", o.budget_quick = 3; o.budget_thorough = 6)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.event(1); r.event(2, true); });
    r.th.add([&] { r.event(3); r.count(); });
    r.finish(W);
}
MC_SCENARIO("C07", "three_sources", o.budget_quick = 2; o.budget_thorough = 4)
{
    Run r;
    r.set(0);
    for (int i = 0; i < 3; ++i) r.th.add([&, i] { r.event(i + 1); });
    r.count();
    r.finish(W);
}
MC_SCENARIO("C07", "events_against_set_unset", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.th.add([&] { r.event(1); r.event(2); });
    r.th.add([&] { r.set(0); r.unset(); r.set(1); });
    r.finish(W);
}
MC_SCENARIO("C07", "events_against_replace", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.event(1); r.event(2); r.count(); });
    r.th.add([&] { r.set(1); r.event(3); });
    r.finish(W);
}
MC_SCENARIO("C07", "set_against_unset", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.th.add([&] { r.set(0); r.event(1); });
    r.th.add([&] { r.set(1); r.event(2); });
    r.th.add([&] { r.unset(); });
    r.finish(W);
    mc::Quiet q;
    mc::check(r.e->sets.v == r.e->unsets.v && r.e->sets.v + r.e->changes.v == 2, "the handler was not told of each set, change and unset");
}
MC_SCENARIO("C07", "two_unset", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.unset(); });
    r.th.add([&] { r.unset(); r.set(1); });
    r.event(1);
    r.finish(W);
    mc::Quiet q;
    mc::check(r.e->sets.v == 2 && r.e->unsets.v == 2 && r.e->changes.v == 0, "the handler was not told of each set, change and unset");
}
MC_SCENARIO("C07", "two_set", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.th.add([&] { r.set(0); });
    r.th.add([&] { r.set(1); });
    r.event(1);
    r.finish(W);
    mc::Quiet q;
    mc::check(r.e->sets.v == 1 && r.e->unsets.v == 1 && r.e->changes.v == 1, "the handler was not told of each set, change and unset");
}
MC_SCENARIO("C07", "reset_and_decrement", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.set(0);
    r.th.add([&] { r.event(1); r.event(2); });
    r.th.add([&] { r.reset(); r.decrement(); });
    r.th.add([&] { r.decrement(); r.count(); });
    r.finish(W);
}
MC_SCENARIO("C07", "slow_callback", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r;
    r.extra = [](int a) { if (a == 1) std::this_thread::sleep_for(std::chrono::milliseconds(1)); };
    r.set(0);
    r.th.add([&] { r.event(1); });
    r.th.add([&] { r.event(2); r.count(); });
    r.count();
    r.finish(W);
}
// every sequence of operations of one thread
struct RegSeq
{
    RegSeq()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false;
        new mc::Registrar("C07", "sequences", o, []
        {
            Run r;
            r.use_tokens = true;
            int depth = mc::thorough() ? 8 : 7, cb = -1, n = 0, next = 0, sets = 0, changes = 0, unsets = 0;
            bool nested = mc::choose(2);
            for (int i = 0; i < depth; ++i)
            {
                switch (mc::choose(5))
                {
                    case 0: if (cb < 0) ++sets; else ++changes; cb = next++; r.set(cb); break;
                    case 1: if (cb >= 0) ++unsets; cb = -1; r.unset(); break;
                    case 2:
                    {
                        r.extra = nullptr;
                        if (nested) r.extra = [&](int a) { if (a < 100) { mc::Quiet q; r.sink.inside.clear(); r.e->fire(a + 100); r.sink.inside.push_back(cb); } };
                        int got = r.event(i, i & 1);
                        mc::check(got == cb, [&] { return mc::str("event called callback ", got, ", expected ", cb); });
                        if (cb >= 0) n += nested ? 2 : 1;
                        break;
                    }
                    case 3: r.reset(); n = 0; break;
                    default: r.decrement(); if (n) --n; break;
                }
                mc::check((int)r.e->event_count() == n, [&] { return mc::str("event_count is ", r.e->event_count(), ", expected ", n); });
                mc::check(cb >= 0 || r.e->wait_for_event(n + 1) == false, "wait_for_event without a callback set");
                mc::check(r.e->wait_for_event(n), "wait_for_event for events that already happened");
                mc::check(r.e->sets.v == sets && r.e->changes.v == changes && r.e->unsets.v == unsets, "the handler was not told of each set, change and unset");
                for (auto& t : r.tokens) mc::check((t.second.use_count() > 1) == (t.first == cb), "a callback was kept after it was unset or replaced (or lost while set)");
            }
        });
    }
} reg_seq;
// Counts beyond any narrow counter.
MC_SCENARIO("C07", "very_many", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 5000000)
{
    const int total = mc::thorough() ? 140000 : 70000;
    EH e;
    long calls = 0, sum = 0;
    e.set_callback([&](int a, std::string) { ++calls; sum += a; });
    long want = 0;
    for (int i = 1; i <= total; ++i)
    {
        if (i & 1) e.fire(i); else e.simulate_event_occurred(i, "x");
        want += i;
        if (i < 1100 || (i & 0xff) <= 1)
            mc::check((long)e.event_count() == i && calls == i && sum == want, [&] { return mc::str(i, " events, ", calls, " calls, event_count ", e.event_count()); });
    }
    // what was counted is there for whoever waits for it, and comes off one by one
    for (int n : {1, 255, 256, 257, 65535, 65536, 65537, total}) mc::check(e.wait_for_event(n), [&] { return mc::str("wait_for_event(", n, ") after ", total, " events"); });
    e.decrement_event_count();
    mc::check((int)e.event_count() == total - 1, "one event fewer");
    e.unset_callback();
    for (int n : {total, total + 65536}) mc::check(!e.wait_for_event(n), [&] { return mc::str("wait_for_event(", n, ") is true with ", total - 1, " events"); });
    mc::check((int)e.event_count() == total - 1, "the count changed when the callback was unset");
    e.reset_event_count();
    mc::check(e.event_count() == 0, "the count was not reset");
}

// two handlers, each with a thread of its own: neither notices the other
MC_SCENARIO("C07", "independent_handlers", o.budget_quick = 2; o.budget_thorough = 4)
{
    EH* a = new EH; EH* b = new EH;
    std::vector<int> ga, gb; auto* pa = &ga; auto* pb = &gb;
    Threads th;
    th.add([=]
            {
                a->set_callback([=](int x, std::string) { mc::Quiet q; pa->push_back(x); });
                a->fire(1);
                a->set_callback([=](int x, std::string) { mc::Quiet q; pa->push_back(100 + x); });
                a->fire(2);
                mc::check(a->wait_for_event(2), "the events of the first handler");
                a->unset_callback();
                a->fire(3);
                mc::check(a->event_count() == 2, "number of events of the first handler");
            });
    b->fire(7);
    b->set_callback([=](int x, std::string) { mc::Quiet q; pb->push_back(x); });
    b->fire(8);
    mc::check(b->event_count() == 1, "number of events of the second handler");
    b->unset_callback();
    b->set_callback([=](int x, std::string) { mc::Quiet q; pb->push_back(200 + x); });
    b->fire(9);
    th.join();
    mc::check(ga == std::vector<int>{1, 102} && gb == std::vector<int>{8, 209}, "callbacks of two handlers mixed up");
    {
        mc::Quiet q;
        mc::check(a->sets.v == 1 && a->changes.v == 1 && a->unsets.v == 1 && b->sets.v == 2 && b->changes.v == 0 && b->unsets.v == 1, "a handler was told of what happened to another");
    }
    delete a; delete b;
}
