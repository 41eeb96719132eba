I = "cpp_utils/include/cpp_utils/"
C = "cpp_utils/src/cpp/"
WAIT = ["wait/IntWaitHandler", "wait/CounterWaitHandler", "wait/BooleanWaitHandler", "time/time_utils", "Formatter", "exception/Exception"]
BASE = ["Formatter", "exception/Exception", "utils", "math/math_extension", "time/time_utils"]
HEAD = r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <unistd.h>
static void fail(const char* what) { std::printf("WRONG: %s\n", what); std::fflush(stdout); _exit(1); }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
"""
S = [
dict(id="wait-notify-skips-second-waiter", property="C01",
     edits=[(I + "wait/impl/WaitHandler.ipp", "    if (notify)\n    {\n        wait_condition_variable_.notify_all();", "    if (notify)\n    {\n        // Each waiting thread takes the lock to check its condition, so they are awaken one by one\n        wait_condition_variable_.notify_one();")],
     needs="Two threads waiting on the same handler, with conditions such that the one notified is not the one whose condition holds",
     breaks="set_value wakes a single waiting thread, so another one whose condition holds stays blocked",
     sources=WAIT, cpp=HEAD + r"""
#include <cpp_utils/wait/IntWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int order = 0; order < 2; ++order)
    {
        IntWaitHandler w(0);
        std::atomic<bool> done(false);
        auto never = [&] { w.wait_equal(77); };
        auto real = [&] { w.wait_equal(1); done = true; };
        std::thread a, b;
        if (order) { a = std::thread(real); ms(100); b = std::thread(never); } else { a = std::thread(never); ms(100); b = std::thread(real); }
        ms(100);
        w.set_value(1);
        for (int i = 0; i < 200 && !done; ++i) ms(10);
        if (!done) fail("the value is the expected one but the waiter is blocked");
        w.set_value(77);
        a.join(); b.join();
    }
    return 0;
}
"""),
dict(id="wait-disable-loses-status", property="C02",
     edits=[(I + "wait/impl/WaitHandler.ipp", "    if (!enabled_.load())\n    {\n        reason = AwakeReason::disabled;\n    }\n    else if (finished_for_condition_met)\n    {\n        reason = AwakeReason::condition_met;\n    }", "    if (finished_for_condition_met && predicate(value_))\n    {\n        reason = AwakeReason::condition_met;\n    }\n    else if (!enabled_.load())\n    {\n        reason = AwakeReason::disabled;\n    }")],
     needs="A handler disabled, and its value then changed so that the condition holds",
     breaks="A wait on a disabled handler reports condition_met",
     sources=WAIT, cpp=HEAD + r"""
#include <cpp_utils/wait/IntWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
struct Slow : WaitHandler<int>
{
    using WaitHandler<int>::WaitHandler;
};
int main()
{
    // the waiter is kept inside its condition while the handler is disabled, and the value changes before it looks again
    WaitHandler<int> w(0, true);
    std::atomic<int> calls(0);
    AwakeReason r = AwakeReason::timeout;
    std::thread t([&] { r = w.wait([&](const int& v) { ++calls; return v == 1; }); });
    while (calls == 0) ms(1);
    ms(50);
    // both changes happen before the waiting thread could run: try until they do
    for (int i = 0; i < 3000 && r != AwakeReason::condition_met; ++i)
    {
        w.disable();
        w.set_value(1);
        t.join();
        if (r == AwakeReason::condition_met) break;
        w.set_value(0);
        w.enable();
        calls = 0;
        t = std::thread([&] { r = w.wait([&](const int& v) { ++calls; return v == 1; }); });
        while (calls == 0) std::this_thread::yield();
    }
    if (r == AwakeReason::condition_met) fail("disabled before the condition held, but reported condition_met");
    w.disable();
    t.join();
    return 0;
}
"""),
dict(id="counter-threshold-one-waiter", property="C03",
     edits=[(C + "wait/CounterWaitHandler.cpp", "    else if (value_ == threshold_)\n    {\n        threshold_reached_cv_.notify_all();\n    }\n}", "    else if (value_ == threshold_)\n    {\n        threshold_reached_cv_.notify_one();\n    }\n}")],
     needs="Two threads waiting for the threshold when the last unit is taken",
     breaks="Only one of the threads waiting for the threshold is awaken",
     sources=WAIT, cpp=HEAD + r"""
#include <cpp_utils/wait/CounterWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    CounterWaitHandler w(0, 1);
    std::atomic<int> done(0);
    auto f = [&] { w.wait_threshold_reached(); ++done; };
    std::thread a(f), b(f);
    ms(200);
    w.wait_and_decrement();
    for (int i = 0; i < 200 && done < 2; ++i) ms(10);
    if (done < 2) fail("the threshold was reached and a waiter is blocked");
    a.join(); b.join();
    return 0;
}
"""),
dict(id="consumer-copies-outside-lock", property="C04",
     edits=[(I + "wait/impl/DBQueueWaitHandler.ipp", "    // TODO: Do it without copy\n    auto value = queue_.front();\n    queue_.pop();\n", "    // TODO: Do it without copy\n    // Meanwhile do not block other consumers while copying\n    const T& next = queue_.front();\n    lock.unlock();\n    auto value = next;\n    lock.lock();\n    queue_.pop();\n")],
     needs="Two consumers at the same time, both with values in the queue",
     breaks="Both consumers get a copy of the same value, and another value is dropped without being given to anybody",
     sources=WAIT, cpp=HEAD + r"""
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils::event;
struct Slow
{
    int v;
    Slow(int x = 0) : v(x) {}
    // copying takes its time
    Slow(const Slow& o) : v(o.v) { ms(100); }
    Slow(Slow&& o) noexcept : v(o.v) {}
};
int main()
{
    DBQueueWaitHandler<Slow> q;
    for (int i = 0; i < 2; ++i) { const Slow s(1 << i); q.produce(s); }
    std::atomic<int> got(0);
    auto consumer = [&] { try { got += q.consume(3000).v; } catch (...) { fail("consume threw with values in the queue"); } };
    std::thread a(consumer), b(consumer);
    a.join(); b.join();
    if (got != 3) fail("the values consumed are not the ones produced");
    return 0;
}
"""),
dict(id="pool-finishes-before-task", property="C05",
     edits=[(C + "thread_pool/pool/SlotThreadPool.cpp", "            TaskId task_id = task_queue_.consume();\n", "            TaskId task_id = task_queue_.consume();\n            --unfinished_tasks_;\n"),
            (C + "thread_pool/pool/SlotThreadPool.cpp", "            task();\n            --unfinished_tasks_;", "            task();")],
     needs="wait_all_consumed called while the last task is still being executed",
     breaks="wait_all_consumed returns condition_met with a task half done",
     sources=["thread_pool/pool/SlotThreadPool", "thread_pool/task/TaskId", "utils", "math/math_extension"] + WAIT, cpp=HEAD + r"""
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
int main()
{
    SlotThreadPool p(2);
    std::atomic<int> done(0);
    TaskId id = new_unique_task_id();
    p.slot(id, Task([&] { ms(150); ++done; }));
    p.enable();
    for (int i = 0; i < 3; ++i) p.emit(id);
    if (p.wait_all_consumed() != event::AwakeReason::condition_met) fail("reason");
    if (done != 3) fail("wait_all_consumed returned before every task was executed");
    return 0;
}
"""),
dict(id="pool-disable-abandons-threads", property="C06",
     edits=[(C + "thread_pool/pool/SlotThreadPool.cpp", "        for (auto& thread : threads_)\n        {\n            thread.join();\n        }\n\n        threads_.clear();\n", "        // Threads finish as soon as they notice that the queue is disabled\n        for (auto& thread : threads_)\n        {\n            thread.detach();\n        }\n\n        threads_.clear();\n")],
     needs="disable called while a task is being executed",
     breaks="disable returns while a task is running, and the pool may be destroyed under it",
     sources=["thread_pool/pool/SlotThreadPool", "thread_pool/task/TaskId", "utils", "math/math_extension"] + WAIT, cpp=HEAD + r"""
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
int main()
{
    static SlotThreadPool p(1);
    static std::atomic<int> running(0), done(0);
    TaskId id = new_unique_task_id();
    p.slot(id, Task([&] { running = 1; ms(300); running = 0; ++done; }));
    p.enable();
    p.emit(id);
    while (!running) ms(1);
    p.disable();
    if (running || done != 1) fail("disable returned while a task was running");
    _exit(0);
}
"""),
dict(id="event-callback-outside-lock", property="C08",
     edits=[(I + "event/impl/EventHandler.ipp", "    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);\n\n    if (is_callback_set_.load())\n    {\n        callback_(args ...);\n", "    std::unique_lock<std::recursive_mutex> lock(internal_callback_mutex_);\n\n    if (is_callback_set_.load())\n    {\n        // Do not keep the mutex during the call, so a slow callback does not block the other threads\n        auto callback = callback_;\n        lock.unlock();\n        callback(args ...);\n        lock.lock();\n")],
     needs="unset_callback called by another thread while the callback is running",
     breaks="unset_callback returns while the callback is still running",
     sources=BASE, cpp=HEAD + r"""
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
struct H : EventHandler<int> { H() {} ~H() { unset_callback(); } };
int main()
{
    H h;
    std::atomic<int> running(0);
    h.set_callback([&](int) { running = 1; ms(300); running = 0; });
    std::thread t([&] { h.simulate_event_occurred(1); });
    while (!running) ms(1);
    h.unset_callback();
    if (running) fail("unset_callback returned while the callback was running");
    t.join();
    return 0;
}
"""),
dict(id="event-wait-awakes-one", property="C09",
     edits=[(I + "event/impl/EventHandler.ipp", "    // Awake every thread waiting for event to occur\n    wait_condition_variable_.notify_all();", "    // Awake the thread waiting for event to occur\n    wait_condition_variable_.notify_one();")],
     needs="Two threads waiting for different numbers of events",
     breaks="A thread waiting for a number of events that have happened stays blocked",
     sources=BASE, cpp=HEAD + r"""
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
struct H : EventHandler<int> { H() {} ~H() { unset_callback(); } };
int main()
{
    for (int order = 0; order < 2; ++order)
    {
        H h;
        h.set_callback([](int) {});
        std::atomic<bool> done(false);
        auto first = [&] { h.wait_for_event(1); done = true; };
        auto later = [&] { h.wait_for_event(5); };
        std::thread a, b;
        if (order) { a = std::thread(first); ms(100); b = std::thread(later); } else { a = std::thread(later); ms(100); b = std::thread(first); }
        ms(100);
        h.simulate_event_occurred(1);
        for (int i = 0; i < 200 && !done; ++i) ms(10);
        if (!done) fail("the event happened and its waiter is blocked");
        h.unset_callback();
        a.join(); b.join();
    }
    return 0;
}
"""),
dict(id="periodic-stop-without-lock", property="C10",
     edits=[(C + "event/PeriodicEventHandler.cpp", "            [this]\n            {\n                // Exit if number of events is bigger than expected n\n                // or if callback is no longer set\n                return !timer_active_.load();\n            });\n", "            [this]\n            {\n                // Exit if callback is no longer set and there has been some event\n                return event_count() > 0 && !timer_active_.load();\n            });\n")],
     needs="A handler with a long period unset before its first period has passed",
     breaks="unset_callback and destruction take a whole period when no event has happened yet",
     sources=BASE + ["event/PeriodicEventHandler"], cpp=HEAD + r"""
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    auto t0 = std::chrono::steady_clock::now();
    {
        PeriodicEventHandler h([] {}, 4000);
        ms(50);
    }
    auto d = std::chrono::steady_clock::now() - t0;
    if (d > std::chrono::milliseconds(2000)) fail("stopping the handler took a whole period");
    return 0;
}
"""),
dict(id="multiple-unset-before-sources", property="C11",
     edits=[(C + "event/MultipleEventHandler.cpp", "    for (std::unique_ptr<IBaseEventHandler>& event : handlers_registered_)\n    {\n        event.reset();\n    }\n\n    // At this point the callback is not recheable, but it should be unset before destroying the object\n    unset_callback();\n", "    // Once the callback is unset, nothing else is called: the handlers are destroyed with this object\n    unset_callback();\n")],
     needs="A registered handler that raises an event while the multiple handler is being destroyed, after its callback mutexes are gone",
     breaks="The handlers registered call a multiple handler already destroyed",
     sources=BASE + ["event/PeriodicEventHandler", "event/MultipleEventHandler"], flags="-fsanitize=address", cpp=HEAD + r"""
#include <cpp_utils/event/MultipleEventHandler.hpp>
using namespace eprosima::utils::event;
struct Late : EventHandler<int>
{
    std::atomic<int>* calls;
    explicit Late(std::atomic<int>* c) : calls(c) {}
    // its last event happens while it is destroyed, as that of a thread that is still working then
    ~Late() { simulate_event_occurred(1); unset_callback(); }
};
static std::atomic<int> called(0);
struct M : MultipleEventHandler
{
    M() : MultipleEventHandler([] { ++called; }) {}
};
int main()
{
    std::atomic<int> x(0);
    auto* m = new M();
    m->register_event_handler<Late, int>(std::make_unique<Late>(&x));
    delete m;
    if (called != 1) fail("the event of a handler registered did not reach the callback");
    return 0;
}
"""),
dict(id="signal-merges-arrivals", property="C12",
     edits=[(I + "event/impl/SignalManager.ipp", "            signals_received_--;\n", "            // Signals received so far are being handled now\n            signals_received_.store(0);\n")],
     needs="Two signals that arrive while the callbacks of a previous one are being called",
     breaks="Signals that arrive while another is handled are merged, and all but one are lost",
     sources=BASE, cpp=HEAD + r"""
#include <csignal>
#include <cpp_utils/event/SignalEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> calls(0), inside(0);
    {
        SignalEventHandler<Signal::sigint> h([&](Signal) { ++calls; inside = 1; ms(300); });
        ms(50);
        std::raise(SIGINT);
        while (!inside) ms(1);
        std::raise(SIGINT);
        std::raise(SIGINT);
        for (int i = 0; i < 300 && calls < 3; ++i) ms(10);
        if (calls != 3) fail("a signal did not reach its handler");
    }
    _exit(0);
}
"""),
dict(id="log-threshold-drops-errors", property="C14",
     edits=[(C + "logging/BaseLogConsumer.cpp", "    const bool is_message_valid = std::regex_search(entry.message, filter_regex);", "    const bool is_message_valid = std::regex_match(entry.message, filter_regex);")],
     needs="A filter that is found in the middle of a message whose category does not match",
     breaks="An entry with a message that contains the filter is not accepted",
     sources=BASE + ["logging/BaseLogConfiguration", "logging/BaseLogConsumer"], cpp=HEAD + r"""
#include <cpp_utils/logging/BaseLogConsumer.hpp>
using namespace eprosima::utils;
struct L : BaseLogConsumer
{
    using BaseLogConsumer::BaseLogConsumer;
    bool accept(const Log::Entry& e) { return accept_entry_(e); }
    void Consume(const Log::Entry&) override {}
};
int main()
{
    BaseLogConfiguration c;
    c.filter[VerbosityKind::Error].set_value("disk");
    L l(&c);
    Log::Entry e{};
    e.kind = Log::Kind::Error;
    e.context.category = "STORAGE";
    e.message = "the disk is full";
    if (!l.accept(e)) fail("an entry whose message has the text of the filter was dropped");
    return 0;
}
"""),
dict(id="database-copy-add-two-steps", property="C16",
     edits=[(I + "collection/database/impl/SafeDatabase.ipp", "    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n\n    return internal_db_.erase(key) != 0;", "    // Looking for a key does not require exclusive access\n    if (!is(key))\n    {\n        return false;\n    }\n\n    std::unique_lock<std::shared_timed_mutex> _(mutex_);\n    internal_db_.erase(key);\n    return true;")],
     needs="Two threads that erase the same key, the second looking for it before the first erases it",
     breaks="Both threads are told that they erased the key",
     sources=["Formatter"], cpp=HEAD + r"""
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
static std::atomic<int> slow(0);
struct Key
{
    int k;
    bool operator <(const Key& o) const { if (slow) ms(50); return k < o.k; }
};
int main()
{
    SafeDatabase<Key, int> db;
    db.add(Key{1}, 1);
    slow = 1;
    std::atomic<int> erased(0), go(0);
    auto f = [&] { ++go; while (go < 2) {} if (db.erase(Key{1})) ++erased; };
    std::thread a(f), b(f);
    a.join(); b.join();
    if (erased != 1) fail("one key was erased twice");
    return 0;
}
"""),
dict(id="lessee-guards-not-waited", property="C17",
     edits=[(I + "memory/impl/InternalPtrData.ipp", "    shared_mutex_.lock();\n    if (", "    // The owner may be reset from the thread that guards the data: do not block it for long\n    const bool exclusive = shared_mutex_.try_lock_for(std::chrono::seconds(10));\n    if ("),
            (I + "memory/impl/InternalPtrData.ipp", "        reference_ = nullptr;\n    }\n    shared_mutex_.unlock();", "        reference_ = nullptr;\n    }\n    if (exclusive)\n    {\n        shared_mutex_.unlock();\n    }")],
     needs="A guard kept for longer than the time limit while the owner is reset",
     breaks="The data is destroyed while a guard taken from a lessee is alive",
     sources=["Formatter", "exception/Exception"], cpp=HEAD + r"""
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
static std::atomic<int> alive(0);
struct X { X() { ++alive; } ~X() { --alive; } };
int main()
{
    OwnerPtr<X> o(new X());
    LesseePtr<X> l = o.lease();
    std::atomic<bool> in(false), bad(false);
    std::thread t([&] { auto g = l.lock(); in = true; ms(12000); if (!alive) bad = true; });
    while (!in) ms(1);
    o.reset();
    t.join();
    if (bad) fail("the data was destroyed under a guard");
    if (alive) fail("the data was not destroyed");
    return 0;
}
"""),
]
