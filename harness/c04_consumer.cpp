// engine: mc
// sources: wait/IntWaitHandler wait/CounterWaitHandler wait/BooleanWaitHandler time/time_utils Formatter exception/Exception
#include "lin.hpp"
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace h;
using namespace eprosima::utils;
using namespace eprosima::utils::event;

static const char* EXPL = "items lost, duplicated, reordered or stranded, or wrong exception (no sequential explanation)";

// Several consumers may take in any order among themselves (a consumer that owns a unit picks its item afterwards), so the
// global order required is the order per producer; see check_order.
struct St { int n = 0; bool enabled = true; };

struct Run
{
    DBQueueWaitHandler<std::string> q;
    History<St> hist;
    Threads th;
    struct Got { std::string v; int thread; };
    std::vector<Got> got;
    std::vector<int> waits;
    std::vector<std::pair<int, bool>> alls;
    std::map<int, int> produced;
    int initial = 0;
    St init;

    Run(bool en = true) : q(0, en) { init.enabled = en; }

    void produce(int p)
    {
        int k;
        { mc::Quiet qq; k = produced[p]++; }
        std::string v = mc::str("P", p, ":", k, "-a-long-enough-string-to-be-on-the-heap");
        int id = hist.begin("produce " + v.substr(0, 4));
        if (k & 1) q.produce(v); else q.produce(std::move(v));
        hist.end(id, "done", [](St& s) { ++s.n; return true; });
    }
    bool consume(unsigned ms = 0)
    {
        int id = hist.begin(mc::str("consume(", ms, ")"));
        { mc::Quiet qq; waits.push_back(id); }
        uint64_t t0 = mc::now_ns();
        try
        {
            std::string v = q.consume(ms);
            { mc::Quiet qq; got.push_back({v.substr(0, 4), mc::tid()}); }
            hist.end(id, v.substr(0, 4), [](St& s) { if (!s.enabled || s.n <= 0) return false; --s.n; return true; });
            return true;
        }
        catch (const DisabledException&)
        {
            hist.end(id, "disabled", [](St& s) { return !s.enabled; });
        }
        catch (const TimeoutException&)
        {
            mc::check(ms != 0, "timeout exception without a time limit");
            mc::check(mc::now_ns() - t0 >= ms * 1000000ull, "timeout exception before the time elapsed");
            hist.end(id, "timeout", [](St& s) { return s.enabled && s.n == 0; }, t0 + ms * 1000000ull);
        }
        return false;
    }
    void all_consumed(unsigned ms = 0)
    {
        int id = hist.begin(mc::str("wait_all_consumed(", ms, ")"));
        { mc::Quiet qq; alls.push_back({id, true}); }
        uint64_t t0 = mc::now_ns();
        AwakeReason r = q.wait_all_consumed(ms);
        if (r == AwakeReason::timeout) mc::check(ms && mc::now_ns() - t0 >= ms * 1000000ull, "wait_all_consumed timed out early");
        hist.end(id, r == AwakeReason::condition_met ? "all consumed" : r == AwakeReason::timeout ? "timeout" : "disabled", [r](St& s)
                {
                    if (r == AwakeReason::disabled) return !s.enabled;
                    return s.enabled && (r == AwakeReason::condition_met) == (s.n == 0);
                }, r == AwakeReason::timeout ? t0 + ms * 1000000ull : 0);
    }
    void ready()
    {
        int id = hist.begin("elements_ready");
        int v = (int)q.elements_ready_to_consume();
        hist.end(id, std::to_string(v), [v](St& s) { return s.n == v; });
    }
    void enable() { int id = hist.begin("enable"); q.enable(); hist.end(id, "done", [](St& s) { s.enabled = true; return true; }); }
    void disable(bool b = false) { int id = hist.begin("disable"); if (b) q.blocking_disable(); else q.disable(); hist.end(id, "done", [](St& s) { s.enabled = false; return true; }); }

    void finish()
    {
        settle();
        ready();
        {
            mc::Quiet qq;
            auto& hs = hist; auto& w = waits; auto& al = alls;
            hist.require(init, EXPL, [&hs, &w, &al](const St& s)
                    {
                        for (int x : w) if (hs.ops[x].end < 0 && (!s.enabled || s.n > 0)) return false;
                        for (auto& x : al) if (hs.ops[x.first].end < 0 && (!s.enabled || s.n == 0)) return false;
                        return true;
                    });
        }
        q.disable();
        th.join();
        // what is left can still be taken, in order
        q.enable();
        size_t total = 0;
        { mc::Quiet qq; for (auto& p : produced) total += p.second; }
        std::vector<std::string> rest;
        while (q.elements_ready_to_consume() > 0) rest.push_back(q.consume(1).substr(0, 4));
        mc::Quiet qq;
        for (auto& s : rest) got.push_back({s, 0});
        mc::check(got.size() == total, [&] { return mc::str("produced ", total, " items, consumed ", got.size(), ":", hist.text()); });
        std::set<std::string> seen;
        for (auto& g : got) mc::check(seen.insert(g.v).second, [&] { return "item " + g.v + " consumed twice:" + hist.text(); });
        for (auto& p : produced)
            for (int k = 0; k < p.second; ++k)
                mc::check(seen.count(mc::str("P", p.first, ":", k)), [&] { return mc::str("item P", p.first, ":", k, " lost:", hist.text()); });
        // one thread sees the items of one producer in order
        std::map<std::pair<int, char>, int> last;
        for (auto& g : got)
        {
            auto key = std::make_pair(g.thread, g.v[1]);
            auto it = last.find(key);
            mc::check(it == last.end() || it->second < g.v[3], [&] { return "items of one producer out of order at " + g.v + ":" + hist.text(); });
            last[key] = g.v[3];
        }
        for (auto& s : rest)
            for (auto& g : got)
                mc::check(g.thread == 0 || g.v[1] != s[1] || g.v[3] < s[3], [&] { return "item " + s + " overtaken by " + g.v + ":" + hist.text(); });
    }
};

MC_SCENARIO("C04", "one_producer_two_consumers", o.budget_quick = 2; o.budget_thorough = 4)
{
    Run r;
    r.th.add([&] { r.produce(1); r.produce(1); });
    r.th.add([&] { r.consume(); });
    r.th.add([&] { r.consume(); });
    r.finish();
}
MC_SCENARIO("C04", "two_producers_one_consumer", o.budget_quick = 2; o.budget_thorough = 4)
{
    Run r;
    r.th.add([&] { r.produce(1); r.produce(1); });
    r.th.add([&] { r.produce(2); });
    r.th.add([&] { r.consume(); r.consume(); r.consume(); });
    r.finish();
}
MC_SCENARIO("C04", "two_by_two", o.budget_quick = 1; o.budget_thorough = 3)
{
    Run r;
    r.th.add([&] { r.produce(1); r.produce(1); });
    r.th.add([&] { r.produce(2); r.produce(2); });
    r.th.add([&] { r.consume(); r.consume(); });
    r.th.add([&] { r.consume(); });
    r.finish();
}
MC_SCENARIO("C04", "three_consumers", o.budget_quick = 1; o.budget_thorough = 3)
{
    Run r;
    r.th.add([&] { r.produce(1); r.produce(1); r.produce(1); });
    for (int i = 0; i < 3; ++i) r.th.add([&] { r.consume(); });
    r.finish();
}
MC_SCENARIO("C04", "fifo_prefilled", o.budget_quick = 2; o.budget_thorough = 4)
{
    // items on both sides of a swap come out in order
    Run r;
    r.produce(1); r.produce(1); r.produce(1);
    r.consume();
    r.th.add([&] { r.produce(1); r.produce(1); });
    r.th.add([&] { for (int i = 0; i < 4; ++i) r.consume(); });
    r.finish();
}
MC_SCENARIO("C04", "timed_consumers", o.budget_quick = 2; o.budget_thorough = 4; o.spurious = true)
{
    Run r;
    r.th.add([&] { int d = mc::choose(3); if (d) std::this_thread::sleep_for(std::chrono::milliseconds(d)); r.produce(1); });
    r.th.add([&] { r.consume(2); });
    r.th.add([&] { r.consume(1); r.consume(); });
    r.finish();
}
MC_SCENARIO("C04", "disable_keeps_items", o.budget_quick = 2; o.budget_thorough = 4)
{
    bool b = mc::choose(2);
    Run r;
    r.th.add([&] { r.produce(1); r.produce(1); });
    r.th.add([&] { r.consume(); r.consume(); });
    r.th.add([&] { r.disable(b); r.enable(); });
    r.finish();
}
MC_SCENARIO("C04", "created_disabled", o.budget_quick = 3; o.budget_thorough = 5)
{
    Run r(false);
    r.th.add([&] { r.produce(1); r.consume(); });
    r.th.add([&] { r.enable(); });
    r.finish();
}
MC_SCENARIO("C04", "all_consumed", o.budget_quick = 2; o.budget_thorough = 4)
{
    Run r;
    r.produce(1);
    r.th.add([&] { r.produce(1); r.all_consumed(); });
    r.th.add([&] { r.consume(); r.consume(); });
    r.th.add([&] { r.all_consumed(2); });
    r.finish();
}
MC_SCENARIO("C04", "all_consumed_two_consumers", o.budget_quick = 2; o.budget_thorough = 3)
{
    Run r;
    r.produce(1); r.produce(1);
    r.th.add([&] { r.all_consumed(); });
    r.th.add([&] { r.consume(); });
    r.th.add([&] { r.consume(1); r.ready(); });
    r.finish();
}

// every sequence of operations, one thread
struct RegSeq
{
    RegSeq()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false;
        new mc::Registrar("C04", "sequences", o, []
        {
            Run r(mc::choose(2));
            int depth = mc::thorough() ? 7 : 6;
            for (int i = 0; i < depth; ++i)
            {
                bool en = r.q.enabled();
                int n = (int)r.q.elements_ready_to_consume();
                switch (mc::choose(5))
                {
                    case 0: r.produce(1); break;
                    case 1: mc::check(r.consume(1) == (en && n > 0), "consume result"); break;
                    case 2: r.disable(i & 1); break;
                    case 3: r.enable(); break;
                    default: r.all_consumed(1); break;
                }
                r.ready();
            }
            r.finish();
        });
    }
} reg_seq;
// a value that cannot be copied at the moment: it was not produced, and no consumer is told it was
namespace {
bool g_fail;
struct Boom {};
struct F { int v; F(int x = 0) : v(x) {} F(const F& o) : v(o.v) { if (g_fail) throw Boom(); } F(F&& o) : v(o.v) { if (g_fail) throw Boom(); } F& operator =(const F&) = default; };
}
MC_SCENARIO("C04", "failing_copies", o.budget_quick = 2; o.budget_thorough = 3)
{
    { mc::Quiet x; g_fail = false; }
    DBQueueWaitHandler<F> q(0, true);
    int moved = mc::choose(2), before = mc::choose(2), n = 1 + before;
    std::vector<int> got; auto* g = &got; auto* pq = &q;
    Threads th;
    if (before) q.produce(F(1));
    F e(2);
    bool thrown = false;
    {
        { mc::Quiet x; g_fail = true; }
        try { if (moved) q.produce(std::move(e)); else q.produce(e); } catch (const Boom&) { thrown = true; }
        { mc::Quiet x; g_fail = false; }
    }
    mc::check(thrown, "the failure did not reach the producer");
    mc::check((int)q.elements_ready_to_consume() == before, "a value that was not produced is counted");
    th.add([=] { for (int i = 0; i < n; ++i) { F x = pq->consume(); mc::Quiet qq; g->push_back(x.v); } });
    q.produce(F(3));
    th.join();
    mc::check(got == (before ? std::vector<int>{1, 3} : std::vector<int>{3}) && q.elements_ready_to_consume() == 0, "values consumed after a failure");
    mc::check(q.wait_all_consumed(1) == AwakeReason::condition_met, "all consumed");
}
// many values, few switches
MC_SCENARIO("C04", "many_values", o.budget_quick = 0; o.budget_thorough = 1)
{
    int n = 24, consumers = 1 + mc::choose(2);
    DBQueueWaitHandler<int> q(0, true);
    std::vector<int> last[2]; std::set<int> seen; std::atomic<int> taken(0); bool twice = false, order = false;
    for (auto& l : last) l.assign(3, -1);
    Threads th;
    for (int c = 0; c < consumers; ++c)
        th.add([&, c]
                {
                    try
                    {
                        for (;;)
                        {
                            int v = q.consume();
                            mc::Quiet k;
                            if (!seen.insert(v).second) twice = true;
                            if (last[c][v / 1000] >= v) order = true;
                            last[c][v / 1000] = v;
                            ++taken;
                        }
                    }
                    catch (const DisabledException&) {}
                });
    th.add([&] { for (int i = 0; i < n; ++i) q.produce(i); });
    for (int i = 0; i < n / 2; ++i) q.produce(1000 + i);
    mc::wait_until([&] { mc::Quiet k; return taken == n + n / 2; }, "all values taken");
    mc::check(q.wait_all_consumed() == AwakeReason::condition_met && q.elements_ready_to_consume() == 0, "not all consumed");
    q.disable();
    th.join();
    mc::Quiet k;
    mc::check(!twice && (int)seen.size() == n + n / 2, "a value was consumed twice");
    mc::check(!order, "values of one producer out of order");
}
// values pile up to any number before and between swaps
MC_SCENARIO("C04", "piles", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    static const int N[] = {1, 17, 300};
    DBQueueWaitHandler<std::string> q(0, true);
    int in = 0, out = 0;
    for (int round = 0; round < 3; ++round)
    {
        int a = N[mc::choose(3)];
        for (int i = 0; i < a; ++i) q.produce(mc::str("value ", in++));
        mc::check((int)q.elements_ready_to_consume() == in - out, "elements ready");
        int b = std::min(in - out, N[mc::choose(3)]);
        for (int i = 0; i < b; ++i) { std::string v = q.consume(1); mc::check(v == mc::str("value ", out), [&] { return mc::str("consumed ", v, ", expected value ", out); }); ++out; }
    }
    bool disabled = mc::choose(2);
    if (disabled) { q.disable(); q.enable(); }
    while (out < in) { std::string v = q.consume(1); mc::check(v == mc::str("value ", out), [&] { return mc::str("consumed ", v, ", expected value ", out); }); ++out; }
    bool timed_out = false;
    try { q.consume(1); } catch (const TimeoutException&) { timed_out = true; }
    mc::check(timed_out && q.wait_all_consumed(1) == AwakeReason::condition_met, "more values than produced");
}
// a producer goes on while hundreds of values wait for the only consumer, one of whose turns is long
MC_SCENARIO("C04", "backlog", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 1000000)
{
    static const int N[] = {70, 300, 1100};
    int first = N[mc::choose(3)], more = N[mc::choose(3)];
    bool copy = mc::choose(2);
    DBQueueWaitHandler<int> q(0, true);
    std::atomic<bool> one(false), go(false);
    std::atomic<bool>* p1 = &one; std::atomic<bool>* p2 = &go;
    auto put = [&](int v) { if (copy) { const int x = v; q.produce(x); } else q.produce(int(v)); };
    for (int i = 0; i < first; ++i) put(i);
    Threads th;
    bool ok = true; bool* o = &ok;
    th.add([&, p1, p2, o]
            {
                for (int i = 0; i < first + more; ++i)
                {
                    int v = q.consume();
                    { mc::Quiet k; if (v != i) *o = false; }
                    if (i == 0) { { mc::Quiet k; *p1 = true; } mc::wait_until([p2] { mc::Quiet k; return p2->load(); }, "told to go on"); }
                }
            });
    mc::wait_until([p1] { mc::Quiet k; return p1->load(); }, "the first value taken");
    for (int i = 0; i < more; ++i) put(first + i);
    mc::check((int)q.elements_ready_to_consume() == first + more - 1, "elements ready");
    { mc::Quiet k; *p2 = true; }
    mc::check(q.wait_all_consumed() == AwakeReason::condition_met, "all consumed");
    th.join();
    mc::Quiet k;
    mc::check(ok && q.elements_ready_to_consume() == 0, "values lost, doubled or out of order");
}
// time only passes when every thread waits
MC_SCENARIO("C04", "exact_times", o.budget_quick = 3; o.budget_thorough = 4; o.early_timeouts = false)
{
    static const unsigned M[] = {1, 20, 100000};
    unsigned ms = M[mc::choose(3)], at = mc::choose(2) ? ms + 5 : ms / 2;
    DBQueueWaitHandler<int> q(0, true);
    Threads th;
    int got[2] = {0, 0};
    for (int k = 0; k < 2; ++k)
        th.add([&, k]
                {
                    uint64_t t0 = mc::now_ns();
                    try
                    {
                        int v = q.consume(ms);
                        mc::check(v == 7 && at < ms && about(mc::now_ns() - t0, at * 1000000ull), [&] { return mc::str("value after ", at, " ms taken after ", mc::now_ns() - t0, " ns"); });
                        mc::Quiet x; got[k] = 1;
                    }
                    catch (const TimeoutException&)
                    {
                        mc::check(about(mc::now_ns() - t0, ms * 1000000ull), [&] { return mc::str("time-out of ", ms, " ms after ", mc::now_ns() - t0, " ns"); });
                    }
                });
    th.add([&] { sleep_for(at); q.produce(7); });
    th.join();
    mc::check(got[0] + got[1] == (at < ms), "values taken");
}
// Without arguments a queue is empty and enabled, and a wait lasts as long as it takes.
MC_SCENARIO("C04", "default_arguments", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false)
{
    DBQueueWaitHandler<std::string> q;
    mc::check(q.enabled() && q.elements_ready_to_consume() == 0, "a queue is enabled and empty unless told otherwise");
    bool all = mc::choose(2);
    Threads th;
    Quietly<bool> back(false);
    if (all) q.produce("a value that lives on the heap");
    th.add([&]
            {
                if (all) mc::check(q.wait_all_consumed() == AwakeReason::condition_met, "a wait without time-out did not return because of its condition");
                else mc::check(q.consume() == "a value that lives on the heap", "the value consumed");
                mc::Quiet qq; back.v = true;
            });
    mc::wait_until([] { return mc::blocked(1); }, "waiting");
    std::this_thread::sleep_for(std::chrono::hours(24 * 50));
    mc::check(!back.get(), "a wait without time-out returned after 50 days");
    if (all) mc::check(q.consume() == "a value that lives on the heap", "the value consumed"); else q.produce("a value that lives on the heap");
    th.join();
    mc::check(q.elements_ready_to_consume() == 0, "elements left");
}
