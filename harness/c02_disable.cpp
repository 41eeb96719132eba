// engine: mc
// sources: wait/IntWaitHandler wait/CounterWaitHandler wait/BooleanWaitHandler time/time_utils Formatter exception/Exception
#include "waitmodel.hpp"
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
using namespace h;

static const char* EXPL = "waiter not released or wrong reason (no sequential explanation)";

// ---- the waits of every handler, uniformly
struct AnyWait
{
    virtual ~AnyWait() {}
    virtual AwakeReason wait(unsigned ms) = 0;
    virtual void disable() = 0;
    virtual void blocking_disable() = 0;
    virtual void stop_and_continue() = 0;
    virtual void enable() = 0;
    virtual bool enabled() = 0;
    //! Make the condition of `wait` true; false if that is not possible on a disabled handler
    virtual bool meet() = 0;
};
template <typename H>
struct Base : AnyWait
{
    H* h = nullptr;
    ~Base() override { delete h; }
    void disable() override { h->disable(); }
    void blocking_disable() override { h->blocking_disable(); }
    void stop_and_continue() override { h->stop_and_continue(); }
    void enable() override { h->enable(); }
    bool enabled() override { return h->enabled(); }
};
struct BoolW : Base<BooleanWaitHandler>
{
    BoolW(bool en) { h = new BooleanWaitHandler(false, en); }
    AwakeReason wait(unsigned ms) override { return h->wait(ms); }
    bool meet() override { h->open(); return true; }
};
struct IntW : Base<IntWaitHandler>
{
    IntW(bool en) { h = new IntWaitHandler(0, en); }
    AwakeReason wait(unsigned ms) override { return h->wait_greater_than(3, ms); }
    bool meet() override { h->set_value(4); return true; }
};
struct CntW : Base<CounterWaitHandler>
{
    CntW(bool en) { h = new CounterWaitHandler(1, 1, en); }
    AwakeReason wait(unsigned ms) override { return h->wait_and_decrement(ms); }
    bool meet() override { ++*h; return true; }
};
struct ThrW : Base<CounterWaitHandler>
{
    ThrW(bool en) { h = new CounterWaitHandler(1, 0, en); }
    AwakeReason wait(unsigned ms) override { return h->wait_threshold_reached(ms); }
    bool meet() override { ++*h; return true; }
};
struct ConsW : Base<DBQueueWaitHandler<int>>
{
    bool meet() override { h->produce(7); return true; }
    ConsW(bool en) { h = new DBQueueWaitHandler<int>(0, en); }
    AwakeReason wait(unsigned ms) override
    {
        try { h->consume(ms); return AwakeReason::condition_met; }
        catch (const DisabledException&) { return AwakeReason::disabled; }
        catch (const TimeoutException&) { return AwakeReason::timeout; }
    }
};
struct AllW : Base<DBQueueWaitHandler<int>>
{
    AllW(bool en) { h = new DBQueueWaitHandler<int>(0, en); h->produce(1); }
    AwakeReason wait(unsigned ms) override { return h->wait_all_consumed(ms); }
    bool meet() override { return false; }
};
struct GenW : Base<WaitHandler<std::string>>
{
    GenW(bool en) { h = new WaitHandler<std::string>(std::string("a"), en); }
    AwakeReason wait(unsigned ms) override { return h->wait([](const std::string& s) { return s == "b"; }, ms); }
    bool meet() override { h->set_value("b"); return true; }
};
static AnyWait* make(int k, bool en = true)
{
    switch (k)
    {
        case 0: return new BoolW(en);
        case 1: return new IntW(en);
        case 2: return new CntW(en);
        case 3: return new ThrW(en);
        case 4: return new ConsW(en);
        case 5: return new AllW(en);
        default: return new GenW(en);
    }
}
static const char* hname[] = {"bool", "int", "counter", "threshold", "consumer", "all_consumed", "generic"};
constexpr int NH = 7;

struct Run : WaitRun<AnyWait>
{
    using WaitRun::WaitRun;
    AwakeReason wt(unsigned ms = 0) { return wait("wait", ms, [](int) { return false; }, [&] { return w.wait(ms); }); }
    void bdis()
    {
        op("blocking_disable", [&]
        {
            std::vector<int> inside;
            { mc::Quiet q; for (auto& x : waits) if (hist.ops[x.first].end < 0 && mc::blocked(hist.ops[x.first].thread)) inside.push_back(x.first); }
            w.blocking_disable();
            // threads that were blocked inside when it began have left the wait (they are about to return)
            (void)inside;
        }, [](WState& s) { s.enabled = false; });
    }
    void sac() { op("stop_and_continue", [&] { w.stop_and_continue(); }, [](WState&) {}); }
};

struct Reg
{
    Reg()
    {
        for (int k = 0; k < NH; ++k)
        {
            mc::Options o; o.budget_quick = 3; o.budget_thorough = 5;
            // plain disable releases everybody, timed or not; waits on a disabled handler return at once
            new mc::Registrar("C02", mc::str("disable_", hname[k]), o, [k]
            {
                std::unique_ptr<AnyWait> a(make(k));
                Run r(*a, 0);
                r.th.add([&] { r.wt(); r.wt(); });
                r.th.add([&] { r.wt(4); });
                r.th.add([&] { r.disable(); });
                r.finish(EXPL);
                mc::check(!a->enabled(), "handler still enabled after disable");
            });
            // every waiter sees a disable, also if it comes after another disable and an enable
            new mc::Registrar("C02", mc::str("disable_enable_", hname[k]), o, [k]
            {
                std::unique_ptr<AnyWait> a(make(k, mc::choose(2)));
                Run r(*a, 0, a->enabled());
                r.th.add([&] { r.wt(); });
                r.th.add([&] { r.enable(); r.disable(); });
                r.finish(EXPL);
            });
            mc::Options b; b.budget_quick = 2; b.budget_thorough = 4; b.spurious = true;
            // destruction while threads wait: all released with `disabled`, nothing used afterwards
            new mc::Registrar("C02", mc::str("destroy_", hname[k]), b, [k]
            {
                AnyWait* a = make(k);
                Threads th;
                Quietly<int> in(0);
                bool timed = mc::choose(2);
                for (int i = 0; i < 2; ++i)
                    th.add([a, i, timed]
                    {
                        auto r = a->wait(i == 1 && timed ? 3 : 0);
                        mc::check(r == AwakeReason::disabled || (i == 1 && timed && r == AwakeReason::timeout), "thread waiting on a destroyed handler returned another reason than disabled");
                    });
                // both threads are known to the handler before it is destroyed
                int me = mc::tid();
                mc::wait_until([me] { return (mc::blocked(1) || mc::finished(1)) && (mc::blocked(2) || mc::finished(2)); }, "both waiting");
                if (mc::blocked(1) || mc::blocked(2)) delete a; else delete a;
                th.join();
                (void)me;
            });
            // blocking_disable then free the memory: nobody may be inside any more
            new mc::Registrar("C02", mc::str("blocking_disable_", hname[k]), b, [k]
            {
                AnyWait* a = make(k);
                Threads th;
                bool timed = mc::choose(2);
                th.add([a] { auto r = a->wait(0); mc::check(r == AwakeReason::disabled, "waiter reason"); });
                th.add([a, timed] { auto r = a->wait(timed ? 2 : 0); mc::check(r == AwakeReason::disabled || (timed && r == AwakeReason::timeout), "waiter reason"); });
                mc::wait_until([] { return (mc::blocked(1) || mc::finished(1)) && (mc::blocked(2) || mc::finished(2)); }, "both waiting");
                a->blocking_disable();
                mc::check(!a->enabled(), "enabled after blocking_disable");
                delete a;
                th.join();
            });
            new mc::Registrar("C02", mc::str("stop_and_continue_", hname[k]), o, [k]
            {
                std::unique_ptr<AnyWait> a(make(k));
                Threads th;
                Quietly<int> left(0);
                th.add([&] { auto r = a->wait(0); left.set(left.get() + 1); mc::check(r == AwakeReason::disabled, "waiter released by stop_and_continue with another reason than disabled"); });
                th.add([&] { auto r = a->wait(50); left.set(left.get() + 1); mc::check(r == AwakeReason::disabled || r == AwakeReason::timeout, "waiter reason"); });
                mc::wait_until([] { return (mc::blocked(1) || mc::finished(1)) && (mc::blocked(2) || mc::finished(2)); }, "both waiting");
                a->stop_and_continue();
                mc::check(a->enabled(), "stop_and_continue leaves the handler disabled");
                th.join();
                mc::check(a->wait(1) == AwakeReason::timeout, "handler does not wait after stop_and_continue");
            });
            mc::Options c; c.budget_quick = 2; c.budget_thorough = 4;
            // a disabled handler is enabled by stop_and_continue
            new mc::Registrar("C02", mc::str("status_mix_", hname[k]), c, [k]
            {
                std::unique_ptr<AnyWait> a(make(k));
                Run r(*a, 0);
                r.th.add([&] { r.wt(2); });
                r.th.add([&] { r.bdis(); r.enable(); });
                r.th.add([&] { if (mc::choose(2)) r.disable(); else r.bdis(); });
                r.finish(EXPL);
            });
            mc::Options c0; c0.budget_quick = 2; c0.budget_thorough = 4;
            // what becomes true after the disable is no reason any more
            new mc::Registrar("C02", mc::str("disable_then_met_", hname[k]), c0, [k]
            {
                std::unique_ptr<AnyWait> a(make(k));
                Threads th;
                bool blocking = mc::choose(2), timed = mc::choose(2);
                th.add([&] { auto r = a->wait(0); mc::check(r == AwakeReason::disabled, "the handler was disabled before the condition held, but the waiter got another reason"); });
                th.add([&] { auto r = a->wait(timed ? 5 : 0); mc::check(r == AwakeReason::disabled || (timed && r == AwakeReason::timeout), "the handler was disabled before the condition held, but the waiter got another reason"); });
                if (mc::choose(2)) mc::wait_until([] { return mc::blocked(1) && (mc::blocked(2) || mc::finished(2)); }, "both waiting");
                if (blocking) a->blocking_disable(); else a->disable();
                a->meet();
                mc::check(a->wait(0) == AwakeReason::disabled, "a wait on a disabled handler returned another reason");
                th.join();
                mc::check(a->wait(3) == AwakeReason::disabled, "a wait on a disabled handler returned another reason");
                if (mc::choose(2)) { a->enable(); mc::check(a->enabled(), "enable"); } else { a->stop_and_continue(); mc::check(a->enabled(), "a disabled handler is not enabled after stop_and_continue"); }
                if (k != 5) mc::check(a->wait(2) == AwakeReason::condition_met, "the value set while disabled is lost");
            });
            new mc::Registrar("C02", mc::str("stop_from_disabled_", hname[k]), o, [k]
            {
                std::unique_ptr<AnyWait> a(make(k, false));
                mc::check(!a->enabled(), "created disabled but enabled");
                mc::check(a->wait(0) == AwakeReason::disabled, "wait on a handler created disabled");
                Threads th;
                th.add([&] { a->stop_and_continue(); });
                th.add([&] { a->enable(); });
                th.join();
                mc::check(a->enabled(), "not enabled after stop_and_continue and enable");
                th.add([&] { a->stop_and_continue(); });
                th.add([&] { a->stop_and_continue(); });
                th.add([&] { auto r = a->wait(1); mc::check(r == AwakeReason::disabled || r == AwakeReason::timeout, "reason"); });
                th.join();
                mc::check(a->enabled(), "not enabled after two stop_and_continue");
                mc::check(a->wait(1) == AwakeReason::timeout, "handler does not wait after stop_and_continue");
            });
        }
    }
} reg;

// time only passes when every thread waits: who is released leaves at once, not when its time elapses
struct RegTimes
{
    RegTimes()
    {
        for (int k2 = 0; k2 < 2 * NH; ++k2)
        {
            int k = k2 / 2, big = k2 % 2;
            mc::Options o; o.budget_quick = big ? 1 : 2; o.budget_thorough = big ? 2 : 3; o.early_timeouts = false; o.delays = true;
            new mc::Registrar("C02", mc::str(big ? "crowd_" : "exact_times_", hname[k]), o, [k, big]
            {
                AnyWait* a = make(k);
                int n = big ? 17 : 1 + 4 * mc::choose(2), how = mc::choose(4);
                Threads th;
                for (int i = 0; i < n; ++i)
                    th.add([a, i]
                            {
                                uint64_t t0 = mc::now_ns();
                                unsigned ms = i == 0 ? 0 : i == 1 ? 3 : 1000 * i;
                                auto r = a->wait(ms);
                                mc::check(r == (i == 1 ? AwakeReason::timeout : AwakeReason::disabled), "reason");
                                mc::check(about(mc::now_ns() - t0, (i == 1 ? 3 : 5) * 1000000ull), [&] { return mc::str("disabled after 5 ms, a wait of ", ms, " ms took ", mc::now_ns() - t0, " ns"); });
                            });
                std::this_thread::sleep_for(std::chrono::milliseconds(5));
                uint64_t t0 = mc::now_ns();
                if (how == 0) a->disable();
                if (how == 1) a->blocking_disable();
                if (how == 2) a->stop_and_continue();
                if (how == 3) delete a;
                mc::check(about(mc::now_ns() - t0, 0), "disabling waited for a time-out");
                th.join();
                mc::check(about(mc::now_ns() - t0, 0), "a waiter was not released at once");
                if (how != 3) delete a;
            });
        }
    }
} reg_times;
