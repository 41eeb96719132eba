// engine: mc
// sources: thread_pool/pool/SlotThreadPool thread_pool/task/TaskId wait/IntWaitHandler wait/CounterWaitHandler wait/BooleanWaitHandler time/time_utils Formatter exception/Exception utils math/math_extension
#include "c05_pool.hpp"
using namespace h;

MC_SCENARIO("C06", "destroy_busy", o.budget_quick = 3; o.budget_thorough = 5)
{
    Pool p(2);
    int a = p.slot(1);
    p.enable();
    p.emit(a); p.emit(a);
    p.destroy();
}
MC_SCENARIO("C06", "destroy_idle", o.budget_quick = 3; o.budget_thorough = 5)
{
    Pool p(1 + mc::choose(2));
    p.enable();
    p.destroy();
}
MC_SCENARIO("C06", "destroy_never_enabled", o.budget_quick = 3; o.budget_thorough = 5)
{
    Pool p(2);
    int a = p.slot();
    p.emit(a);
    if (mc::choose(2)) p.disable();
    p.destroy();
    mc::check(p.total(p.started) == 0, "a pool never enabled executed a task");
}
MC_SCENARIO("C06", "disable_busy", o.budget_quick = 3; o.budget_thorough = 5)
{
    Pool p(2);
    int a = p.slot(1);
    p.enable();
    p.emit(a); p.emit(a);
    p.disable();
    p.disable();
    int n = p.total(p.ended);
    settle();
    mc::check(n == p.total(p.ended), "a disabled pool executed a task");
    p.destroy();
    mc::check(n == p.total(p.ended), "a destroyed pool executed a task");
}
MC_SCENARIO("C06", "disable_while_emitting", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(2);
    int a = p.slot(1);
    p.enable();
    p.th.add([&] { p.owner(); p.emit(a); p.emit(a); });
    p.disable();
    settle();
    p.th.join();
    p.destroy();
}
MC_SCENARIO("C06", "disable_slow_task", o.budget_quick = 3; o.budget_thorough = 5)
{
    // the task takes time; disable waits for it
    Pool p(1);
    int a = p.slot(0, [] { std::this_thread::sleep_for(std::chrono::milliseconds(5)); });
    p.enable();
    p.emit(a); p.emit(a);
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    p.disable();
    p.destroy();
}
// disable returns as soon as the tasks that were running end, whatever is still queued or emitted; the rest waits
MC_SCENARIO("C06", "disable_returns_in_time", o.budget_quick = 2; o.budget_thorough = 4; o.early_timeouts = false)
{
    int workers = 1 + mc::choose(2), queued = mc::choose(6), again = mc::choose(2), off = mc::choose(3) * 10 + 5;
    Pool p(workers);
    int a = -1;
    a = p.slot(0, [&] { std::this_thread::sleep_for(std::chrono::milliseconds(10)); if (again) p.emit(a); });
    p.enable();
    for (int i = 0; i < queued; ++i) p.emit(a);
    uint64_t t = mc::now_ns();
    std::this_thread::sleep_for(std::chrono::milliseconds(off));
    p.disable();
    uint64_t ms = (mc::now_ns() - t) / 1000000;
    int lanes = std::min(workers, queued), last = off + 5;                      // what was running at the moment of disable ends here
    bool busy = again ? queued > 0 : queued > lanes * (off / 10) && lanes;
    int running = again ? lanes : busy ? std::min(lanes, queued - lanes * (off / 10)) : 0;
    mc::check(ms == (uint64_t)(running ? last : off), [&] { return mc::str("disable at ", off, " ms returned at ", ms, " ms"); });
    int done = p.total(p.ended);
    mc::check(done == (again ? lanes * (last / 10) : std::min(queued, lanes * (off / 10) + running)), [&] { return mc::str(done, " tasks executed"); });
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    mc::check(p.total(p.ended) == done, "a disabled pool executed a task");
    p.destroy();
}
MC_SCENARIO("C06", "cycles", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(1);
    int a = p.slot(), b = p.slot();
    for (int i = 0; i < 3; ++i)
    {
        p.enable(); p.enable();
        p.emit(i & 1 ? a : b);
        if (mc::choose(2)) p.settle_all();
        p.disable();
    }
    p.enable();
    p.emit(a);
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C06", "cycles_two_workers", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(2);
    int a = p.slot();
    p.enable();
    p.emit(a); p.emit(a);
    p.disable();
    p.enable(); p.enable();
    p.emit(a);
    p.settle_all();
    p.disable();
    p.destroy();
}
MC_SCENARIO("C06", "number_of_workers", o.budget_quick = 2; o.budget_thorough = 3)
{
    // n workers execute n blocking tasks at the same time, never more, also after a cycle and a double enable
    int n = 1 + mc::choose(2);
    Pool p(n);
    Quietly<int> running(0), most(0);
    // the first n tasks only end when n are being executed
    int a = p.slot(0, [&]
            {
                { mc::Quiet q; if (++running.v > most.v) most.v = running.v; }
                mc::mark(0x900);
                mc::wait_until([&] { return most.v >= n; }, "all workers busy");
                mc::Quiet q; --running.v;
            });
    int cycle = mc::choose(3);
    if (cycle) { p.enable(); if (cycle == 2) p.enable(); p.disable(); }
    p.enable();
    if (cycle == 2) p.enable();
    for (int i = 0; i <= n; ++i) p.emit(a);
    p.settle_all();
    mc::check(most.get() == n, [&] { return mc::str(n, " workers executed ", most.get(), " tasks at the same time"); });
    p.destroy();
}
MC_SCENARIO("C06", "waiter_released", o.budget_quick = 2; o.budget_thorough = 3)
{
    // a thread in wait_all_consumed is released by disable
    Pool p(1);
    int a = p.slot(0, [] { std::this_thread::sleep_for(std::chrono::milliseconds(2)); });
    p.enable();
    p.emit(a); p.emit(a);
    p.th.add([&] { p.owner(); p.wait_all(0, false); });
    p.disable();
    settle();
    p.th.join();
    p.destroy();
}
// many workers and a backlog, few switches
MC_SCENARIO("C06", "many_workers", o.budget_quick = 0; o.budget_thorough = 1; o.delays = true)
{
    static const int WORKERS[] = {1, 3, 6};
    Pool p(WORKERS[mc::choose(3)]);
    int a = p.slot(1), b = p.slot(1, [] { std::this_thread::sleep_for(std::chrono::seconds(100)); });
    for (int cycle = 0; cycle < 3; ++cycle)
    {
        p.enable();
        for (int i = 0; i < 12; ++i) p.emit(i % 3 ? a : b);
        int k = mc::choose(3);
        if (k == 1) p.settle_all();
        if (k == 2) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (cycle < 2 || mc::choose(2)) { p.disable(); int n = p.total(p.ended); settle(); mc::check(n == p.total(p.ended), "a task was executed after disable"); }
    }
    p.destroy();
}
// enabled and disabled again and again
MC_SCENARIO("C06", "many_cycles", o.budget_quick = 1; o.budget_thorough = 3; o.delays = true)
{
    Pool p(1 + mc::choose(2));
    int a = p.slot(), b = p.slot(1);
    int cycles = 8, kept = mc::choose(3);
    for (int i = 0; i < cycles; ++i)
    {
        p.enable();
        p.emit(i & 1 ? a : b);
        if (i % 3 != kept)
        {
            mc::check(p.wait_all(0, true) == AwakeReason::condition_met, [&] { return mc::str("wait_all_consumed of a pool enabled the ", i + 1, "th time"); });
            mc::check(p.all_done(), [&] { return mc::str("wait_all_consumed returned before every emitted task was executed, enabled the ", i + 1, "th time"); });
        }
        p.disable();
        mc::check(p.wait_all(0, true) == AwakeReason::disabled, "wait_all_consumed of a disabled pool");
    }
    p.enable();
    p.settle_all();
    p.destroy();
}
