// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/PeriodicEventHandler event/MultipleEventHandler event/logging/LogEventHandler event/logging/LogSevereEventHandler event/logging/LogConsumerConnection logging/BaseLogConsumer logging/BaseLogConfiguration types/Fuzzy
#include "events.hpp"
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace h;
using eprosima::fastdds::dds::Log;
using eprosima::fastdds::dds::LogStub;

//! What a callback uses: freed as soon as the callback may not be called any more.
struct Res
{
    Sink s;
    int* data[4] = {};
    std::weak_ptr<int> token[4];
    template <typename ... A>
    std::function<void(A...)> cb(int k)
    {
        data[k] = new int(k);
        auto t = std::make_shared<int>(k);
        token[k] = t;
        return [this, k, t](A...)
               {
                   s.begin(k, 0);
                   int* p = data[k];
                   ++*p;
                   mc::point();
                   ++*p;
                   s.finish(k);
               };
    }
    void gone(int k, bool released = true)
    {
        s.turn_off(k);
        if (released) { mc::Quiet q; mc::check(token[k].expired(), "the callback (and what it captured) was kept after unset, replacement or destruction"); }
        delete data[k];
        data[k] = nullptr;
    }
};

MC_SCENARIO("C08", "generic_unset", o.budget_quick = 4; o.budget_thorough = -1)
{
    Res r;
    EH e;
    e.set_callback(r.cb<int, std::string>(0));
    Threads th;
    th.add([&] { e.fire(1); });
    th.add([&] { e.simulate_event_occurred(2, "x"); });
    e.unset_callback();
    r.gone(0);
    th.join();
}
MC_SCENARIO("C08", "generic_replace", o.budget_quick = 4; o.budget_thorough = -1)
{
    Res r;
    EH e;
    e.set_callback(r.cb<int, std::string>(0));
    Threads th;
    th.add([&] { e.fire(1); e.fire(2); });
    e.set_callback(r.cb<int, std::string>(1));
    r.gone(0);
    e.set_callback(r.cb<int, std::string>(2));
    r.gone(1);
    th.join();
    e.unset_callback();
    r.gone(2);
}
MC_SCENARIO("C08", "generic_two_unset", o.budget_quick = 3; o.budget_thorough = 6)
{
    // two threads unset at the same time: both may free when they return
    Res r;
    EH e;
    e.set_callback(r.cb<int, std::string>(0));
    Threads th;
    th.add([&] { e.fire(1); });
    Quietly<int> n(0);
    auto off = [&] { e.unset_callback(); r.s.turn_off(0); };
    th.add(off);
    off();
    th.join();
    r.gone(0);
}
MC_SCENARIO("C08", "generic_unset_with_waiter", o.budget_quick = 3; o.budget_thorough = 6)
{
    Res r;
    EH e;
    e.set_callback(r.cb<int, std::string>(0));
    Threads th;
    th.add([&] { e.fire(1); });
    th.add([&] { e.wait_for_event(2); });
    e.unset_callback();
    r.gone(0);
    th.join();
}
MC_SCENARIO("C08", "generic_set_unset_cycles", o.budget_quick = 3; o.budget_thorough = 5)
{
    Res r;
    EH e;
    Threads th;
    th.add([&] { e.fire(1); e.fire(2); });
    for (int k = 0; k < 2; ++k) { e.set_callback(r.cb<int, std::string>(k)); e.unset_callback(); r.gone(k); }
    th.join();
}
MC_SCENARIO("C08", "periodic_destroy", o.budget_quick = 3; o.budget_thorough = 5)
{
    Res r;
    std::unique_ptr<PeriodicEventHandler> e(new PeriodicEventHandler(r.cb<>(0), 1));
    int d = mc::choose(3);
    if (d) std::this_thread::sleep_for(std::chrono::milliseconds(d));
    if (mc::choose(2)) { e->unset_callback(); r.gone(0); e.reset(); }
    else { e.reset(); r.gone(0); }
}
MC_SCENARIO("C08", "periodic_replace", o.budget_quick = 3; o.budget_thorough = 5)
{
    Res r;
    std::unique_ptr<PeriodicEventHandler> e(new PeriodicEventHandler(r.cb<>(0), 1));
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    e->set_callback(r.cb<>(1));
    r.gone(0);
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    e->unset_callback();
    r.gone(1);
    e->set_callback(r.cb<>(2));
    e.reset();
    r.gone(2);
}
struct SrcHolder
{
    // the multiple handler owns its sources; the test keeps a plain pointer to fire them until it is destroyed
    EH* a = nullptr;
};
MC_SCENARIO("C08", "multiple_unset", o.budget_quick = 3; o.budget_thorough = 5)
{
    Res r;
    std::unique_ptr<MultipleEventHandler> m(new MultipleEventHandler(r.cb<>(0)));
    EH* a = new EH();
    m->register_event_handler<EventHandler<int, std::string>, int, std::string>(std::unique_ptr<EventHandler<int, std::string>>(a));
    Threads th;
    th.add([&] { a->fire(1); });
    th.add([&] { a->fire(2); });
    if (mc::choose(2)) { m->unset_callback(); r.gone(0); }
    else { m->set_callback(r.cb<>(1)); r.gone(0); }
    th.join();
    m.reset();
    if (r.data[1]) r.gone(1);
}
MC_SCENARIO("C08", "multiple_destroy", o.budget_quick = 2; o.budget_thorough = 4)
{
    // destruction while periodic sources are firing
    Res r;
    std::unique_ptr<MultipleEventHandler> m(new MultipleEventHandler(r.cb<>(0)));
    for (int i = 0; i < 2; ++i)
        m->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(new PeriodicEventHandler(1)));
    int d = mc::choose(3);
    if (d) std::this_thread::sleep_for(std::chrono::milliseconds(d));
    m.reset();
    r.gone(0);
}
template <typename MK>
void log_destroy(bool queued, MK mk)
{
    LogStub::fresh(queued);
    Res r;
    auto e = mk(r.cb<Log::Entry>(0));
    Threads th;
    th.add([&] { EPROSIMA_LOG_ERROR(CAT, "one"); if (queued) LogStub::pump(); });
    th.add([&] { EPROSIMA_LOG_ERROR(CAT, "two"); if (queued) LogStub::pump(); });
    switch (mc::choose(3))
    {
        case 0: e.reset(); r.gone(0); break;
        case 1: e->unset_callback(); r.gone(0); e.reset(); break;
        default: e->set_callback(r.cb<Log::Entry>(1)); r.gone(0); e.reset(); r.gone(1); break;
    }
    th.join();
    LogStub::pump();
    Log::ClearConsumers();
}
using Cb = std::function<void(Log::Entry)>;
MC_SCENARIO("C08", "log_destroy", o.budget_quick = 2; o.budget_thorough = 4)
{
    log_destroy(false, [](Cb f) { return std::unique_ptr<LogEventHandler>(new LogEventHandler(f)); });
}
MC_SCENARIO("C08", "log_destroy_queued", o.budget_quick = 2; o.budget_thorough = 4)
{
    log_destroy(true, [](Cb f) { return std::unique_ptr<LogEventHandler>(new LogEventHandler(f)); });
}
MC_SCENARIO("C08", "log_severe_destroy", o.budget_quick = 2; o.budget_thorough = 4)
{
    log_destroy(mc::choose(2), [](Cb f) { return std::unique_ptr<LogSevereEventHandler>(new LogSevereEventHandler(f, Log::Warning)); });
}
