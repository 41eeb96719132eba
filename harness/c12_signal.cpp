// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "signals.hpp"

namespace {

struct C
{
    Signal sig;
    int calls = 0;
    bool off = false;
    std::function<void(Signal)> cb()
    {
        return [this](Signal s)
               {
                   { mc::Quiet q; mc::check(!off, "the callback was called after unset or destruction"); mc::check(s == sig, "the callback got another signal"); ++calls; }
                   mc::mark(0x900);
                   mc::point();
                   mc::Quiet q; mc::check(!off, "the callback was running after unset or destruction");
               };
    }
    void gone() { { mc::Quiet q; off = true; } mc::mark(0x901); mc::point(); }
};

void idle()
{
    int me = mc::tid();
    mc::wait_until([me] { for (int t = 0; t < mc::threads_created(); ++t) if (t != me && !mc::finished(t) && !mc::blocked(t)) return false; return true; }, "idle");
}
//! What arrived has been dispatched (the manager threads may wake up from time to time).
void drain(std::function<bool()> met)
{
    idle();
    for (int i = 0; i < 3 && !met(); ++i)
    {
        std::this_thread::sleep_for(std::chrono::seconds(1));
        idle();
    }
}
void drain() { std::this_thread::sleep_for(std::chrono::milliseconds(150)); idle(); }
void expect(const C& c, int n, const char* what)
{
    drain([&] { mc::Quiet q; return c.calls >= n; });
    mc::Quiet q;
    mc::check(c.calls == n, [&] { return mc::str(what, ": callback called ", c.calls, " times, expected ", n); });
}

}
#define SC(name, b, bt) MC_SCENARIO("C12", name, o.budget_quick = b; o.budget_thorough = bt; o.fork_each = true; o.early_timeouts = false)

SC("one_handler", 2, 4)
{
    C c{Signal::sigint};
    std::unique_ptr<I> e(new I(c.cb()));
    Threads th;
    th.add([&] { arrive(Signal::sigint); });
    arrive(Signal::sigint);
    th.join();
    expect(c, 2, "two arrivals");
    mc::check(e->event_count() == 2, "event count");
    arrive(Signal::sigint);
    expect(c, 3, "a third arrival");
    e.reset();
    c.gone();
    arrive(Signal::sigint, -1, false);
    drain();
    mc::done();
}
SC("interrupted_threads", 2, 4)
{
    // the signal is delivered on top of any thread, the one that dispatches signals too
    C c{Signal::sigint};
    std::unique_ptr<I> e(new I(c.cb()));
    int t = mc::threads_created() - 1;
    arrive(Signal::sigint);
    arrive(Signal::sigint, t);
    arrive(Signal::sigint, t);
    expect(c, 3, "three arrivals");
    e.reset();
    c.gone();
    mc::done();
}
SC("interrupted_owner", 2, 3)
{
    // the signal is delivered on top of a thread that is setting and unsetting handlers
    C c{Signal::sigint}, d{Signal::sigint};
    std::unique_ptr<I> e(new I(c.cb()));
    Threads th;
    th.add([&] { arrive(Signal::sigint, 0); });
    std::unique_ptr<I> f(new I(d.cb()));
    f->unset_callback();
    d.gone();
    th.join();
    expect(c, 1, "an arrival");
    mc::done();
}
SC("two_handlers_one_signal", 2, 3)
{
    C a{Signal::sigint}, b{Signal::sigint};
    std::unique_ptr<I> x(new I(a.cb())), y(new I(b.cb()));
    arrive(Signal::sigint);
    arrive(Signal::sigint);
    expect(a, 2, "first handler");
    expect(b, 2, "second handler");
    x.reset();
    a.gone();
    arrive(Signal::sigint);
    expect(b, 3, "the handler that stays");
    y->set_callback(b.cb());
    x.reset(new I(b.cb()));
    arrive(Signal::sigint);
    expect(b, 5, "a handler replaced and one created afterwards");
    mc::done();
}
SC("two_signals", 1, 2)
{
    C a{Signal::sigint}, b{Signal::sigterm};
    std::unique_ptr<I> x(new I(a.cb()));
    std::unique_ptr<T> y(new T(b.cb()));
    Threads th;
    th.add([&] { arrive(Signal::sigterm); });
    arrive(Signal::sigint);
    th.join();
    expect(a, 1, "handler of the first signal");
    expect(b, 1, "handler of the second signal");
    mc::done();
}
SC("user_signals", 1, 2)
{
    C a{Signal::sigusr1}, b{Signal::sigusr2};
    std::unique_ptr<SignalEventHandler<Signal::sigusr1>> x(new SignalEventHandler<Signal::sigusr1>(a.cb()));
    std::unique_ptr<SignalEventHandler<Signal::sigusr2>> y(new SignalEventHandler<Signal::sigusr2>(b.cb()));
    arrive(Signal::sigusr1); arrive(Signal::sigusr1); arrive(Signal::sigusr2);
    expect(a, 2, "handler of usr1");
    expect(b, 1, "handler of usr2");
    mc::done();
}
SC("destroy_while_arriving", 2, 4)
{
    C a{Signal::sigint}, b{Signal::sigint};
    std::unique_ptr<I> x(new I(a.cb())), y(new I(b.cb()));
    Threads th;
    th.add([&] { arrive(Signal::sigint); });
    if (mc::choose(2)) x->unset_callback();
    x.reset();
    a.gone();
    th.join();
    expect(b, 1, "the handler that stays");
    mc::check(a.calls <= 1, "called twice for one arrival");
    mc::done();
}
SC("set_again_while_arriving", 2, 3)
{
    C a{Signal::sigint}, b{Signal::sigint};
    std::unique_ptr<I> x(new I(a.cb()));
    Threads th;
    th.add([&] { arrive(Signal::sigint); });
    x->unset_callback();
    a.gone();
    x->set_callback(b.cb());
    arrive(Signal::sigint);
    th.join();
    drain([&] { mc::Quiet q; return a.calls + b.calls >= 2; });
    mc::check(a.calls + b.calls <= 2 && b.calls >= 1, [&] { return mc::str("2 arrivals, callbacks called ", a.calls, " + ", b.calls); });
    mc::done();
}
SC("two_threads_register", 2, 3)
{
    // the manager and the identifiers of registrations with two threads
    C a{Signal::sigint}, b{Signal::sigint};
    std::unique_ptr<I> x, y;
    Threads th;
    th.add([&] { x.reset(new I(a.cb())); });
    th.add([&] { y.reset(new I(b.cb())); });
    th.join();
    arrive(Signal::sigint);
    expect(a, 1, "first handler");
    expect(b, 1, "second handler");
    Threads t2;
    t2.add([&] { x.reset(); a.gone(); });
    y.reset();
    b.gone();
    t2.join();
    arrive(Signal::sigint, -1, false);
    drain();
    mc::done();
}
SC("waiter", 2, 3)
{
    std::unique_ptr<I> x(new I());
    Threads th;
    bool awake = false;
    th.add([&] { bool r = x->wait_for_event(2); mc::check(r, "two signals arrived"); mc::Quiet q; awake = true; });
    arrive(Signal::sigint);
    arrive(Signal::sigint);
    drain([&] { mc::Quiet q; return awake; });
    mc::check(awake, "the thread waiting for signals was not awakened");
    th.join();
    mc::done();
}
struct MyManager : SignalManager<Signal::sigusr2>
{
    MyManager() {}
    ~MyManager() {}
    static void hit() { signal_received_(); }
};
SC("manager_lifecycle", 3, 4)
{
    // destruction of the manager joins its thread, also with signals pending
    int calls = 0;
    {
        MyManager m;
        auto id = m.register_callback([&] { mc::Quiet q; ++calls; });
        auto id2 = m.register_callback([&] { mc::Quiet q; calls += 10; });
        mc::check(id != id2, "two registrations got one identifier");
        Threads th;
        th.add([&] { MyManager::hit(); });
        if (mc::choose(2)) { m.unregister_callback(id2); bool t = false; try { m.unregister_callback(id2); } catch (const InconsistencyException&) { t = true; } mc::check(t, "unregistering twice was accepted"); }
        th.join();
        if (mc::choose(2)) { drain([&] { mc::Quiet q; return calls > 0; }); mc::check(calls == 1 || calls == 11, "one arrival"); }
    }
    mc::Quiet q;
    mc::check(calls == 0 || calls == 1 || calls == 11 || calls == 10, "callbacks called for one arrival");
}
// Many arrivals, one after another and at once, and many handlers, all at once and one after another.
MC_SCENARIO("C12", "very_many", o.budget_quick = 0; o.budget_thorough = 0; o.delays = true; o.fork_each = true; o.early_timeouts = false; o.hbcache = false; o.max_steps = 5000000)
{
    C c{Signal::sigint};
    std::unique_ptr<I> e(new I(c.cb()));
    int n = 0;
    switch (mc::choose(4))
    {
        case 0:
            for (; n < 300; ) { arrive(Signal::sigint); ++n; idle(); }
            break;
        case 1:
            // before the first one is dispatched
            for (; n < 300; ++n) { mc::Quiet q; g_handler[SIGINT](SIGINT); }
            for (int i = 0; i < 100; ++i) { { mc::Quiet q; if (c.calls >= n) break; } drain(); }
            break;
        case 2:
        {
            // all of them alive
            int others = 0;
            std::vector<std::unique_ptr<I>> v;
            for (int i = 0; i < 300; ++i) v.emplace_back(new I([&](Signal) { mc::Quiet q; ++others; }));
            arrive(Signal::sigint); ++n;
            drain([&] { mc::Quiet q; return others >= 300; });
            { mc::Quiet q; mc::check(others == 300, [&] { return mc::str(others, " of 300 handlers were called"); }); }
            for (int i = 0; i < 300; i += 2) v[i].reset();
            arrive(Signal::sigint); ++n;
            drain([&] { mc::Quiet q; return others >= 450; });
            { mc::Quiet q; mc::check(others == 450, [&] { return mc::str(others - 300, " of 150 handlers were called"); }); }
            break;
        }
        default:
            // one after another, while the first one stays
            for (int i = 0; i < 700; ++i)
            {
                int other = 0;
                I f([&](Signal) { mc::Quiet q; ++other; });
                if (i % 50 == 49 || (i > 250 && i < 260) || (i > 508 && i < 516))
                {
                    arrive(Signal::sigint); ++n;
                    drain([&] { mc::Quiet q; return other == 1 && c.calls >= n; });
                    mc::Quiet q;
                    mc::check(other == 1, [&] { return mc::str("handler ", i + 2, " was called ", other, " times for one arrival"); });
                }
            }
    }
    expect(c, n, "the handler that stays");
    mc::check((int)e->event_count() == n, "event count");
    mc::done();
}
// every sequence of operations
struct RegSeq
{
    RegSeq()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.fork_each = true; o.hbcache = false;
        new mc::Registrar("C12", "sequences", o, []
        {
            std::unique_ptr<I> hi[2];
            std::unique_ptr<T> ht;
            std::vector<std::unique_ptr<C>> cs;
            C* cur[3] = {};
            int want[3] = {};
            bool everi = false, evert = false;
            int depth = mc::thorough() ? 5 : 4;
            auto mk = [&](Signal s) { cs.emplace_back(new C{s}); return cs.back().get(); };
            for (int i = 0; i < depth; ++i)
            {
                int op = mc::choose(8);
                if (op < 4)
                {
                    int k = op & 1;
                    if (op < 2)
                    {
                        // create, then replace
                        C* c = mk(Signal::sigint);
                        if (!hi[k]) hi[k].reset(new I(c->cb())); else hi[k]->set_callback(c->cb());
                        if (cur[k]) cur[k]->gone();
                        cur[k] = c; want[k] = 0; everi = true;
                    }
                    else if (hi[k])
                    {
                        if (i & 1) hi[k].reset(); else hi[k]->unset_callback();
                        if (cur[k]) cur[k]->gone();
                        cur[k] = nullptr;
                    }
                }
                else if (op == 4)
                {
                    C* c = mk(Signal::sigterm);
                    if (!ht) ht.reset(new T(c->cb())); else ht->set_callback(c->cb());
                    if (cur[2]) cur[2]->gone();
                    cur[2] = c; want[2] = 0; evert = true;
                }
                else if (op == 5) { if (ht) { ht.reset(); if (cur[2]) cur[2]->gone(); cur[2] = nullptr; } }
                else if (op == 6) { if (everi) { arrive(Signal::sigint, -1, cur[0] || cur[1]); for (int k = 0; k < 2; ++k) want[k] += cur[k] != nullptr; if (cur[0] || cur[1]) idle(); else drain(); } }
                else if (evert) { arrive(Signal::sigterm, -1, cur[2]); want[2] += cur[2] != nullptr; if (cur[2]) idle(); else drain(); }
                for (int k = 0; k < 3; ++k) if (cur[k]) expect(*cur[k], want[k], "handler");
            }
            mc::done();
        });
    }
} reg_seq;
