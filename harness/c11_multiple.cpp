// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/PeriodicEventHandler event/MultipleEventHandler
#include "events.hpp"
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace h;

namespace {

int g_alive = 0;
template <typename ... A>
struct Src : public EventHandler<A...>
{
    Src() { mc::Quiet q; ++g_alive; }
    ~Src() { this->unset_callback(); mc::Quiet q; --g_alive; }
    void fire(A... a) { this->event_occurred_(a ...); }
    bool callback_set() const { return this->is_callback_set_; }
};
using S0 = Src<>;
using S1 = Src<int>;
using S2 = Src<int, std::string>;

struct M
{
    Sink sink;
    std::unique_ptr<MultipleEventHandler> m;
    int cb = 0;
    std::vector<std::function<void()>> fire;
    M() { Run::LogStub_fresh(); { mc::Quiet q; g_alive = 0; } m.reset(new MultipleEventHandler(make(0))); }
    std::function<void()> make(int k) { return [this, k] { sink.begin(k, 0); mc::point(); sink.finish(k); }; }
    void add(int kind, bool with_callback = false)
    {
        if (kind == 0)
        {
            auto* s = new S0();
            if (with_callback) s->set_callback([] { mc::fail("the callback a handler had before it was registered was called"); });
            m->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(s));
            fire.push_back([s] { s->fire(); });
        }
        else if (kind == 1)
        {
            auto* s = new S1();
            if (with_callback) s->set_callback([](int) { mc::fail("the callback a handler had before it was registered was called"); });
            m->register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(s));
            fire.push_back([s] { s->fire(7); });
        }
        else
        {
            auto* s = new S2();
            m->register_event_handler<EventHandler<int, std::string>, int, std::string>(std::unique_ptr<EventHandler<int, std::string>>(s));
            fire.push_back([s] { s->simulate_event_occurred(7, "data"); });
        }
    }
};

}

MC_SCENARIO("C11", "two_sources", o.budget_quick = 3; o.budget_thorough = 6)
{
    M x;
    x.add(0); x.add(2);
    Threads th;
    th.add([&] { x.fire[0](); x.fire[0](); });
    th.add([&] { x.fire[1](); });
    x.m->simulate_event_occurred();
    th.join();
    mc::check(x.sink.count(0) == 4, [&] { return mc::str("4 events, ", x.sink.count(0), " calls"); });
    mc::check(x.m->event_count() == 4, "event count");
    x.m.reset();
    x.sink.turn_off(0);
    mc::check(g_alive == 0, "a registered handler outlives the multiple handler");
}
MC_SCENARIO("C11", "three_sources", o.budget_quick = 3; o.budget_thorough = 4)
{
    M x;
    x.add(0); x.add(1); x.add(2);
    Threads th;
    for (int i = 0; i < 3; ++i) th.add([&, i] { x.fire[i](); });
    th.join();
    mc::check(x.sink.count(0) == 3 && x.m->event_count() == 3, "events forwarded");
}
MC_SCENARIO("C11", "register_while_firing", o.budget_quick = 3; o.budget_thorough = 5)
{
    M x;
    x.add(0);
    auto f = x.fire[0];
    Threads th;
    th.add([&] { f(); f(); });
    x.add(1); x.add(2);
    x.fire[1]();
    th.join();
    mc::check(x.sink.count(0) == 3, "events forwarded");
}
MC_SCENARIO("C11", "waiter", o.budget_quick = 3; o.budget_thorough = 4)
{
    M x;
    x.add(0); x.add(1);
    Threads th;
    th.add([&] { mc::check(x.m->wait_for_event(2), "two events happened"); });
    th.add([&] { x.fire[0](); });
    th.add([&] { x.fire[1](); });
    th.join();
    mc::check(x.sink.count(0) == 2, "events forwarded");
}
MC_SCENARIO("C11", "unset_while_firing", o.budget_quick = 3; o.budget_thorough = 5)
{
    M x;
    x.add(0); x.add(1);
    Threads th;
    th.add([&] { x.fire[0](); });
    th.add([&] { x.fire[1](); });
    x.m->unset_callback();
    x.sink.turn_off(0);
    x.m->set_callback(x.make(1));
    th.join();
    int n = x.sink.count(0) + x.sink.count(1);
    mc::check(n <= 2 && (int)x.m->event_count() == n, "event count");
    x.fire[0](); x.fire[1]();
    mc::check(x.sink.count(0) + x.sink.count(1) == n + 2, "events after setting the callback again");
}
MC_SCENARIO("C11", "periodic_sources", o.budget_quick = 2; o.budget_thorough = 3)
{
    M x;
    for (int p = 1; p <= 2; ++p)
        x.m->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(new PeriodicEventHandler(p)));
    Threads th;
    th.add([&] { x.m->wait_for_event(3); });
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    mc::wait_until([] { return mc::finished(3); }, "waiter awake");
    x.m.reset();
    x.sink.turn_off(0);
    th.join();
}
MC_SCENARIO("C11", "nested", o.budget_quick = 3; o.budget_thorough = 4)
{
    // a multiple handler inside another one
    M x;
    auto inner = std::unique_ptr<MultipleEventHandler>(new MultipleEventHandler());
    auto* pi = inner.get();
    auto* s = new S0();
    pi->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(s));
    x.m->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(std::move(inner)));
    x.add(1);
    Threads th;
    th.add([&] { s->fire(); });
    th.add([&] { x.fire[0](); });
    th.join();
    mc::check(x.sink.count(0) == 2, "events forwarded through two handlers");
    x.m.reset();
    mc::check(g_alive == 0, "a registered handler outlives the multiple handler");
}
// A source with a thread of its own, which its destruction waits for (as the ones of the repository)
struct Own : public EventHandler<int>
{
    std::thread t;
    explicit Own(int n) { mc::Quiet q; ++g_alive; q_n = n; }
    int q_n;
    void start() { t = std::thread([this] { for (int i = 0; i < q_n; ++i) event_occurred_(i); }); }
    ~Own() { if (t.joinable()) t.join(); this->unset_callback(); mc::Quiet q; --g_alive; }
};
void destroy_while_firing(int a, int b, bool wait)
{
    M x;
    Own* s[2] = {new Own(a), new Own(b)};
    for (Own* o : s) x.m->register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(o));
    for (Own* o : s) o->start();
    if (wait) x.m->wait_for_event(1);
    x.m.reset();
    x.sink.turn_off(0);
    mc::check(x.sink.count(0) == a + b, [&] { return mc::str(a + b, " events of registered handlers, ", x.sink.count(0), " calls"); });
    mc::check(g_alive == 0, "a registered handler outlives the multiple handler");
}
MC_SCENARIO("C11", "destroy_while_firing", o.budget_quick = 3; o.budget_thorough = 5) { destroy_while_firing(1, 1, false); }
MC_SCENARIO("C11", "destroy_while_firing_waiting", o.budget_quick = 2; o.budget_thorough = 4) { destroy_while_firing(2, 1, true); }
// Many events and many registered handlers.
MC_SCENARIO("C11", "very_many", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 5000000)
{
    M x;
    x.m->unset_callback();
    int calls = 0;
    x.m->set_callback([&] { ++calls; });
    const int handlers = mc::thorough() ? 300 : 40, rounds = mc::thorough() ? 300 : 40;
    for (int i = 0; i < handlers; ++i) x.add(i % 3);
    int n = 0;
    for (int r = 0; r < rounds; ++r)
        for (int i = 0; i < handlers; ++i)
        {
            x.fire[i]();
            ++n;
            mc::check(calls == n && (int)x.m->event_count() == n, [&] { return mc::str(n, " events, ", calls, " calls, event_count ", x.m->event_count()); });
        }
    if (mc::choose(2))
    {
        x.m->unset_callback();
        for (auto& f : x.fire) f();
        mc::check(calls == n, "called after unset");
        x.m->set_callback([&] { ++calls; });
        for (auto& f : x.fire) f();
        mc::check(calls == n + handlers, [&] { return mc::str(handlers, " events, ", calls - n, " calls after setting the callback again"); });
    }
    mc::check(g_alive == handlers, "a registered handler was destroyed");
    x.m.reset();
    mc::check(g_alive == 0, "a registered handler outlives the multiple handler");
}
struct RegSeq
{
    RegSeq()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false;
        new mc::Registrar("C11", "sequences", o, []
        {
            M x;
            bool set = true;
            int n = 0;
            std::map<int, int> expect;
            bool dflt = mc::choose(2);
            if (dflt) { x.m.reset(new MultipleEventHandler()); x.cb = -1; }
            int depth = mc::thorough() ? 8 : 7;
            for (int i = 0; i < depth; ++i)
            {
                switch (mc::choose(5))
                {
                    case 0: x.add((int)x.fire.size() % 3, i & 1); break;
                    case 1: x.cb = x.cb < 0 ? 0 : x.cb + 1; x.m->set_callback(x.make(x.cb)); set = true; break;
                    case 2: x.m->unset_callback(); set = false; break;
                    case 3: x.m->simulate_event_occurred(); if (set) { ++n; ++expect[x.cb]; } break;
                    default:
                        if (x.fire.empty()) break;
                        x.fire[i % x.fire.size()]();
                        if (set) { ++n; ++expect[x.cb]; }
                }
                for (auto& e : expect)
                    if (e.first >= 0) mc::check(x.sink.count(e.first) == e.second, [&] { return mc::str("callback ", e.first, " called ", x.sink.count(e.first), " times, expected ", e.second); });
                int total = 0;
                for (auto& e : expect) if (e.first >= 0) total += e.second;
                mc::check((int)x.sink.calls.size() == total, "unexpected call");
                mc::check((int)x.m->event_count() == n, [&] { return mc::str("event_count ", x.m->event_count(), ", expected ", n); });
            }
            mc::check(g_alive == (int)x.fire.size(), "a registered handler was destroyed");
            x.m.reset();
            mc::check(g_alive == 0, "a registered handler outlives the multiple handler");
        });
    }
} reg_seq;
