// engine: mc
// sources: Formatter exception/Exception
#include "lin.hpp"
#include <cpp_utils/queue/DBQueue.hpp>
using namespace h;
using eprosima::utils::event::DBQueue;

namespace {
int g_live;
struct E        // an element that knows whether it was moved from, and counts itself
{
    int v; bool gone = false; long pad[2] = {1, 2};
    E(int x = 0) : v(x) { mc::Quiet q; ++g_live; }
    E(const E& o) : v(o.v), gone(o.gone) { mc::check(!o.gone, "copy of an element moved away"); mc::Quiet q; ++g_live; }
    E(E&& o) noexcept : v(o.v), gone(o.gone) { mc::check(!o.gone, "an element moved away is moved again"); o.gone = true; mc::Quiet q; ++g_live; }
    E& operator =(const E& o) { mc::check(!o.gone, "copy of an element moved away"); v = o.v; gone = false; return *this; }
    E& operator =(E&& o) noexcept { mc::check(!o.gone, "an element moved away is moved again"); v = o.v; gone = false; o.gone = true; return *this; }
    ~E() { mc::Quiet q; --g_live; }
};
struct Move { int v; bool gone = false; Move(int x) : v(x) {} Move(const Move&) = delete; Move(Move&& o) noexcept : v(o.v) { o.gone = true; } };
struct St { std::deque<int> f, b; };
using Q = DBQueue<E>;
struct Run
{
    Q q; History<St> h;
    void push(int v, bool move)
    {
        int id = h.begin(mc::str("push ", v));
        if (move) { E e(v); q.push(std::move(e)); mc::check(e.gone, "not moved"); } else { E e(v); q.push(e); mc::check(!e.gone && e.v == v, "moved instead of copied"); }
        h.end(id, "", [v](St& s) { s.b.push_back(v); return true; });
    }
    void swap() { int id = h.begin("swap"); q.swap(); h.end(id, "", [](St& s) { s.f = s.b; s.b.clear(); return true; }); }
    void clear() { int id = h.begin("clear"); q.clear(); h.end(id, "", [](St& s) { s.f.clear(); s.b.clear(); return true; }); }
    bool empty() { int id = h.begin("empty"); bool r = q.empty(); h.end(id, mc::str(r), [r](St& s) { return s.f.empty() == r; }); return r; }
    void both() { int id = h.begin("both_empty"); bool r = q.both_empty(); h.end(id, mc::str(r), [r](St& s) { return (s.f.empty() && s.b.empty()) == r; }); }
    int size() { int id = h.begin("size"); int r = (int)q.size(); h.end(id, mc::str(r), [r](St& s) { return (int)s.f.size() == r; }); return r; }
    int front() { int id = h.begin("front"); E& e = q.front(); const Q& c = q; mc::check(&c.front() == &e, "two fronts"); mc::check(!e.gone, "moved away"); int r = e.v; h.end(id, mc::str(r), [r](St& s) { return !s.f.empty() && s.f.front() == r; }); return r; }
    void pop() { int id = h.begin("pop"); q.pop(); h.end(id, "", [](St& s) { if (s.f.empty()) return false; s.f.pop_front(); return true; }); }
    void take() { int id = h.begin("front_and_pop"); E e = q.front_and_pop(); mc::check(!e.gone, "moved away"); int r = e.v; h.end(id, mc::str(r), [r](St& s) { if (s.f.empty() || s.f.front() != r) return false; s.f.pop_front(); return true; }); }
    void end() { mc::Quiet x; h.require(St(), "not what two queues would do"); }
};
void drained(Run* r)
{
    while (!r->empty()) r->take();
    r->swap();
    while (!r->empty()) r->take();
    r->both(); r->end(); delete r;
    mc::Quiet q; mc::check(g_live == 0, "elements destroyed twice or never");
}
void fresh() { mc::Quiet q; g_live = 0; }
}
#define SC(name, b, bt) MC_SCENARIO("C24", name, o.budget_quick = b; o.budget_thorough = bt)

MC_SCENARIO("C24", "sequences", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    // every sequence of push (copy, move), swap, take, pop after front, clear
    fresh(); Run* r = new Run; int n = mc::thorough() ? 8 : 6, next = 0;
    std::deque<int> f, b;
    for (int i = 0; i < n; ++i)
    {
        int op = mc::choose(6);
        if (op < 2) { r->push(++next, op); b.push_back(next); }
        else if (op == 2) { r->swap(); f = b; b.clear(); }
        else if (op == 3) { if (f.empty()) continue; r->take(); f.pop_front(); }
        else if (op == 4) { if (f.empty()) continue; r->front(); r->pop(); f.pop_front(); }
        else { r->clear(); f.clear(); b.clear(); }
        mc::check(r->size() == (int)f.size() && r->empty() == f.empty(), "size"); r->both();
        if (!f.empty()) mc::check(r->front() == f.front(), "front");
    }
    drained(r);
}
MC_SCENARIO("C24", "move_only", o.budget_quick = 0)
{
    DBQueue<std::unique_ptr<int>> q;
    q.push(std::unique_ptr<int>(new int(5))); q.push(std::unique_ptr<int>());
    mc::check(q.empty() && !q.both_empty(), "before the swap");
    q.swap();
    auto p = q.front_and_pop();
    mc::check(p && *p == 5 && q.size() == 1, "moved element");
    mc::check(!q.front(), "an empty pointer"); q.pop(); mc::check(q.both_empty(), "empty");
}
namespace {
bool g_fail;
struct Boom {};
struct F { int v; F(int x) : v(x) {} F(const F& o) : v(o.v) { if (g_fail) throw Boom(); } F(F&& o) : v(o.v) { if (g_fail) throw Boom(); o.v = -1; } F& operator =(const F&) = default; };
}
MC_SCENARIO("C24", "failing_copies", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    // an element that cannot be copied or moved at the moment: nothing happened, and the queue goes on
    { mc::Quiet x; g_fail = false; }
    DBQueue<F> q; std::deque<int> f, b; int next = 0, n = mc::thorough() ? 7 : 6;
    for (int i = 0; i < n; ++i)
    {
        int op = mc::choose(6);
        bool fail = op == 2 || op == 3 || op == 5, thrown = false;
        if (op >= 4 && f.empty()) continue;
        try
        {
            F e(++next);
            { mc::Quiet x; g_fail = fail; }
            switch (op)
            {
                case 0: case 2: q.push(e); b.push_back(next); break;
                case 1: q.swap(); f = b; b.clear(); break;
                case 3: q.push(std::move(e)); b.push_back(next); break;
                default: { F g = q.front_and_pop(); mc::check(g.v == f.front(), "the element in front"); f.pop_front(); }
            }
        }
        catch (const Boom&) { thrown = true; }
        { mc::Quiet x; g_fail = false; }
        mc::check(thrown == fail, "the failure did not reach the caller");
        mc::check(q.size() == f.size() && q.empty() == f.empty() && q.both_empty() == (f.empty() && b.empty()) && (f.empty() || q.front().v == f.front()), "contents after a failure");
    }
    for (int k = 0; k < 2; ++k)
    {
        for (int v : f) { mc::check(!q.empty() && q.front().v == v, "elements after a failure"); q.pop(); }
        mc::check(q.empty(), "elements after a failure");
        q.swap(); f = b; b.clear();
    }
}
SC("two_producers", 5, 7)
{
    fresh(); Run* r = new Run; int m = mc::choose(2); Threads th;
    th.add([=] { r->push(1, m); r->push(2, !m); });
    th.add([=] { r->push(3, !m); });
    r->swap();
    if (!r->empty()) r->take();
    th.join(); drained(r);
}
SC("consumer_loop", 5, 7)
{
    // the consumer keeps swapping when its queue is empty, as the wait handlers do: nothing may be lost
    fresh(); Run* r = new Run; Threads th; std::vector<int> got;
    th.add([=] { for (int i = 1; i <= 3; ++i) r->push(i, i & 1); });
    for (int k = 0; k < 3; ++k) { if (r->empty()) r->swap(); if (!r->empty()) { got.push_back(r->front()); r->pop(); } }
    th.join();
    for (int k = 0; k < 2; ++k) { while (!r->empty()) { got.push_back(r->front()); r->pop(); } r->swap(); }
    mc::check(got == std::vector<int>({1, 2, 3}), "elements lost, doubled or out of order");
    drained(r);
}
SC("clear_and_look", 5, 7)
{
    fresh(); Run* r = new Run; Threads th; int k = mc::choose(3);
    th.add([=] { r->push(1, false); r->push(2, true); });
    th.add([=] { r->both(); r->size(); r->both(); });
    r->swap(); if (k == 0) r->clear(); else if (k == 1) r->swap(); else if (!r->empty()) r->take();
    th.join(); drained(r);
}
SC("two_consumers_taking", 5, 7)
{
    // each element is taken once, also by two threads
    fresh(); Run* r = new Run; Threads th;
    for (int i = 1; i <= 3; ++i) r->push(i, i & 1);
    r->swap();
    int a = mc::choose(2), b = mc::choose(2), look = mc::choose(2);
    th.add([=] { if (a) r->pop(); else r->take(); });
    th.add([=] { r->push(4, true); if (look) r->empty(); else r->size(); });
    if (b) r->pop(); else r->take();
    th.join(); mc::check(r->size() == 1, "one element is left"); drained(r);
}

SC("looking_at_the_front", 5, 7)
{
    // a swap puts another queue in front: an element looked at then is of one of the two
    fresh(); Run* r = new Run; Threads th; int k = mc::choose(2);
    r->push(3, true); r->swap(); r->push(1, false);
    const void* a = &r->q.front(); const void* seen = nullptr; const void** to = &seen;
    th.add([=]
            {
                const Q& c = r->q;
                const void* e = k ? (const void*)&r->q.front() : (const void*)&c.front();
                mc::Quiet q; *to = e;
            });
    r->swap();
    th.join(); mc::check(seen == a || seen == &r->q.front(), "neither of the elements that were in front"); drained(r);
}

// long queues, many swaps
MC_SCENARIO("C24", "long_runs", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 1000000)
{
    fresh();
    static const int N[] = {1, 100, 2100};
    Q q; std::deque<int> f, b; int next = 0;
    for (int round = 0; round < 3; ++round)
    {
        int n = N[mc::choose(round ? 2 : 3)];
        for (int i = 0; i < n; ++i) { E e(next); if (i & 1) q.push(e); else q.push(std::move(e)); b.push_back(next++); }
        mc::check(q.size() == f.size() && q.empty() == f.empty() && !q.both_empty(), "a push showed before the swap");
        q.swap(); f = b; b.clear();
        int pops = mc::choose(3) == 0 ? (int)f.size() : std::min<int>(f.size(), N[mc::choose(2)]);
        for (int i = 0; i < pops; ++i)
        {
            mc::check(q.front().v == f.front() && q.size() == f.size(), [&] { return mc::str("front is ", q.front().v, ", expected ", f.front()); });
            if (i % 3) q.pop(); else { E e = q.front_and_pop(); mc::check(e.v == f.front() && !e.gone, "element taken"); }
            f.pop_front();
        }
        mc::check(q.size() == f.size() && q.empty() == f.empty(), "size");
    }
    q.clear();
    mc::check(q.both_empty() && g_live == 0, "elements left after clear");
}
