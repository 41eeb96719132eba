// engine: mc
// sources: thread_pool/pool/SlotThreadPool thread_pool/task/TaskId wait/IntWaitHandler wait/CounterWaitHandler wait/BooleanWaitHandler time/time_utils Formatter exception/Exception utils math/math_extension
#include "c05_pool.hpp"
using namespace h;

MC_SCENARIO("C05", "two_workers", o.budget_quick = 2; o.budget_thorough = 4)
{
    Pool p(2);
    int a = p.slot(1), b = p.slot(1);
    p.enable();
    p.emit(a); p.emit(b); p.emit(a);
    p.settle_all();
    p.destroy();
    mc::check(p.all_done(), "task count after destruction");
}
MC_SCENARIO("C05", "emit_before_enable", o.budget_quick = 2; o.budget_thorough = 4)
{
    Pool p(2);
    int a = p.slot(), b = p.slot();
    p.emit(a); p.emit(b);
    p.enable();
    p.emit(b);
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "two_emitters", o.budget_quick = 1; o.budget_thorough = 3)
{
    Pool p(2);
    int a = p.slot(), b = p.slot();
    p.enable();
    p.th.add([&] { p.owner(); p.emit(a); p.emit(b); });
    p.th.add([&] { p.owner(); p.emit(b); });
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "two_emitters_one_worker", o.budget_quick = 2; o.budget_thorough = 4)
{
    Pool p(1);
    int a = p.slot(), b = p.slot();
    p.th.add([&] { p.owner(); p.emit(a); });
    p.th.add([&] { p.owner(); p.emit(b); });
    p.enable();
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "slot_while_running", o.budget_quick = 2; o.budget_thorough = 3)
{
    // registering slots while tasks are being looked up
    Pool p(1);
    int a = p.slot();
    p.enable();
    p.emit(a);
    for (int i = 0; i < 3; ++i) p.slot();
    p.emit(2); p.emit(0);
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "slot_against_emit", o.budget_quick = 2; o.budget_thorough = 3)
{
    // a thread registers slots while another one emits tasks and, once enabled, a worker looks them up
    SlotThreadPool p(1);
    bool down = mc::choose(2), running = mc::choose(2), two = mc::choose(2);
    int ran[6] = {}; int* r = ran;
    auto add = [&](int k) { p.slot(down ? 60 - k : 10 + k, [r, k] { mc::Quiet q; ++r[k]; }); };
    add(0);
    if (running) p.enable();
    Threads th;
    th.add([&] { for (int i = 0; i < (two ? 2 : 1); ++i) p.emit(down ? 60 : 10); });
    for (int k = 1; k < 5; ++k) add(k);
    p.emit(down ? 57 : 13);
    th.join();
    if (!running) p.enable();
    settle();
    { mc::Quiet q; mc::check(ran[0] == (two ? 2 : 1) && ran[3] == 1 && ran[1] + ran[2] + ran[4] == 0, "tasks executed"); }
    p.disable();
}
MC_SCENARIO("C05", "emit_from_task", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(2);
    int b = p.slot();
    int a = p.slot(0, [&] { p.emit(b); p.emit(b); });
    p.enable();
    p.emit(a);
    AwakeReason r = p.wait_all(0, true);
    mc::check(r == AwakeReason::condition_met, "wait_all_consumed of an enabled pool");
    mc::check(p.all_done(), "wait_all_consumed returned before tasks emitted by a task were executed");
    p.emit(b);
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "three_workers", o.budget_quick = 1; o.budget_thorough = 2)
{
    Pool p(3);
    int a = p.slot(1);
    p.enable();
    p.emit(a); p.emit(a); p.emit(a);
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "kept_while_disabled", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(2);
    int a = p.slot(1), b = p.slot();
    p.enable();
    p.emit(a); p.emit(b);
    p.disable();
    p.emit(b);
    p.enable();
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "emit_during_disable", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(1);
    int a = p.slot(), b = p.slot();
    p.enable();
    p.th.add([&] { p.owner(); p.emit(a); p.emit(b); });
    p.disable();
    p.enable();
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "wait_all", o.budget_quick = 2; o.budget_thorough = 4)
{
    Pool p(2);
    int a = p.slot(2), b = p.slot(1);
    p.enable();
    p.emit(a); p.emit(b);
    mc::check(p.wait_all(0, true) == AwakeReason::condition_met, "wait_all_consumed of an enabled pool");
    mc::check(p.all_done(), "wait_all_consumed returned before every emitted task was executed");
    mc::check(p.wait_all(0, true) == AwakeReason::condition_met, "wait_all_consumed of an idle pool");
    p.destroy();
}
MC_SCENARIO("C05", "wait_all_other_thread", o.budget_quick = 2; o.budget_thorough = 3)
{
    Pool p(1);
    int a = p.slot(1);
    p.enable();
    p.th.add([&] { p.owner(); p.emit(a); p.emit(a); });
    p.th.add([&] { p.owner(); mc::check(p.wait_all(0, true) != AwakeReason::timeout, "timeout without limit"); });
    p.settle_all();
    p.th.join();
    p.destroy();
}
MC_SCENARIO("C05", "wait_all_timeout", o.budget_quick = 2; o.budget_thorough = 4)
{
    Pool p(1);
    int d = mc::choose(3);
    int a = p.slot(0, [d] { if (d) std::this_thread::sleep_for(std::chrono::milliseconds(d)); });
    p.enable();
    p.emit(a);
    auto r = p.wait_all(1, true);
    if (r == AwakeReason::condition_met) mc::check(p.all_done(), "condition_met with a task pending");
    else mc::check(r == AwakeReason::timeout, "reason of wait_all_consumed");
    p.settle_all();
    p.destroy();
}
MC_SCENARIO("C05", "unique_ids", o.budget_quick = 4; o.budget_thorough = -1)
{
    std::vector<TaskId> v[3];
    Threads th;
    for (int t = 0; t < 3; ++t) th.add([&, t] { for (int i = 0; i < 2; ++i) { TaskId x = new_unique_task_id(); mc::Quiet q; v[t].push_back(x); } });
    th.join();
    std::set<TaskId> s;
    for (auto& x : v) for (auto y : x) mc::check(s.insert(y).second, "task id given twice");
}

// Every history of operations by one thread.
struct RegHist
{
    RegHist()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 1; o.hbcache = false;
        new mc::Registrar("C05", "histories", o, []
        {
            Pool p(1 + mc::choose(2));
            bool on = false;
            int depth = mc::thorough() ? 6 : 5;
            p.slot();
            for (int i = 0; i < depth; ++i)
            {
                switch (mc::choose(6))
                {
                    case 0: p.emit(mc::choose((int)p.ids.size())); break;
                    case 1:
                    {
                        // an unknown id
                        TaskId u = new_unique_task_id();
                        bool thrown = false;
                        try { p.p->emit(u); } catch (const ValueNotAllowedException&) { thrown = true; }
                        mc::check(thrown, "emit of an unregistered task was accepted");
                        break;
                    }
                    case 2:
                    {
                        // registering again is rejected and the first callback stays
                        bool thrown = false;
                        try { p.p->slot(p.ids[0], [] { mc::fail("the callback of a rejected slot was executed"); }); }
                        catch (const ValueNotAllowedException&) { thrown = true; }
                        mc::check(thrown, "a slot was registered twice");
                        break;
                    }
                    case 3: p.slot(); break;
                    case 4: if (on) p.disable(); else p.enable(); on = !on; break;
                    default:
                        if (!on)
                        {
                            int n = p.total(p.ended);
                            settle();
                            mc::check(n == p.total(p.ended), "a disabled pool executed a task");
                        }
                        else
                        {
                            mc::check(p.wait_all(0, true) == AwakeReason::condition_met, "wait_all_consumed");
                            mc::check(p.all_done(), "wait_all_consumed returned before every emitted task was executed");
                        }
                }
            }
            if (!on) p.enable();
            p.settle_all();
            p.destroy();
        });
    }
} reg_hist;
// many tasks, slots and workers, few switches
MC_SCENARIO("C05", "many_tasks", o.budget_quick = 1; o.budget_thorough = 2; o.delays = true)
{
    static const int WORKERS[] = {1, 3, 6};
    Pool p(WORKERS[mc::choose(3)]);
    int slots = 1 + 8 * mc::choose(2), tasks = 16;
    for (int i = 0; i < slots; ++i) p.slot();
    bool before = mc::choose(2);
    if (!before) p.enable();
    for (int i = 0; i < tasks; ++i)
    {
        p.emit((i * i + i / 3) % slots);
        if (i == tasks / 2 && before) p.enable();
    }
    if (mc::choose(2)) mc::check(p.wait_all(0, true) == AwakeReason::condition_met && p.all_done(), "wait_all_consumed");
    p.settle_all();
    p.destroy();
}
// as many tasks run at the same time as there are workers
MC_SCENARIO("C05", "all_workers_at_once", o.budget_quick = 0; o.budget_thorough = 1; o.delays = true)
{
    static const int WORKERS[] = {2, 3, 5, 8, 9, 12, 16, 17};
    int n = WORKERS[mc::choose(8)];
    Pool p(n);
    Quietly<int> running(0), most(0);
    int a = p.slot(0, [&]
            {
                { mc::Quiet q; if (++running.v > most.v) most.v = running.v; }
                mc::mark(0x900);
                mc::wait_until([&] { return most.v >= n; }, "all workers busy");
                mc::Quiet q; --running.v;
            });
    bool before = mc::choose(2);
    if (!before) p.enable();
    for (int i = 0; i < n + 1; ++i) p.emit(a);
    if (before) p.enable();
    mc::check(p.wait_all(0, true) == AwakeReason::condition_met && p.all_done(), "wait_all_consumed");
    mc::check(most.get() == n, [&] { return mc::str(n, " workers executed ", most.get(), " tasks at the same time"); });
    p.destroy();
}
// any number of slots, and of tasks waiting to be executed
MC_SCENARIO("C05", "many_slots", o.budget_quick = 0; o.budget_thorough = 1; o.delays = true; o.hbcache = false; o.max_steps = 3000000)
{
    static const int N[] = {33, 70, 300};
    int n = N[mc::choose(3)], each = 1 + 4 * mc::choose(2);
    bool before = mc::choose(2);
    Pool p(1 + mc::choose(2));
    for (int i = 0; i < n; ++i) p.slot();
    if (!before) p.enable();
    for (int k = 0; k < each; ++k) for (int i = 0; i < n; ++i) p.emit((i * 7 + k) % n);
    bool thrown = false;
    try { p.p->slot(p.ids[n - 1], [] { mc::fail("the callback of a rejected slot was executed"); }); } catch (const ValueNotAllowedException&) { thrown = true; }
    mc::check(thrown, "a slot was registered twice");
    if (before) p.enable();
    mc::check(p.wait_all(0, true) == AwakeReason::condition_met && p.all_done(), "wait_all_consumed");
    p.settle_all();
    p.destroy();
}
// time only passes when every thread waits
MC_SCENARIO("C05", "exact_times", o.budget_quick = 3; o.budget_thorough = 4; o.early_timeouts = false)
{
    static const unsigned M[] = {1, 30, 100000};
    unsigned ms = M[mc::choose(3)], work = mc::choose(2) ? ms + 7 : ms / 2;
    Pool p(1);
    int a = p.slot(0, [work] { std::this_thread::sleep_for(std::chrono::milliseconds(work)); });
    p.enable();
    uint64_t t0 = mc::now_ns();
    p.emit(a);
    auto r = p.wait_all(ms, true);
    mc::check(r == (work > ms ? AwakeReason::timeout : AwakeReason::condition_met), "reason of wait_all_consumed");
    mc::check(about(mc::now_ns() - t0, std::min(ms, work) * 1000000ull), [&] { return mc::str("waiting ", ms, " ms for a task of ", work, " ms took ", mc::now_ns() - t0, " ns"); });
    p.settle_all();
    p.destroy();
}
// Waiting without a time-out lasts as long as the tasks.
MC_SCENARIO("C05", "no_time_out", o.budget_quick = 1; o.budget_thorough = 2; o.early_timeouts = false)
{
    Pool p(1);
    int a = p.slot(0, [] { std::this_thread::sleep_for(std::chrono::hours(24 * 50)); });
    p.enable();
    uint64_t t0 = mc::now_ns();
    p.emit(a);
    if (mc::choose(2)) p.emit(a);
    auto r = p.p->wait_all_consumed();
    mc::check(r == AwakeReason::condition_met && p.all_done(), "wait_all_consumed without time-out");
    mc::check(mc::now_ns() - t0 >= 24ull * 50 * 3600 * 1000000000ull, "wait_all_consumed returned before the task ended");
    p.settle_all();
    p.destroy();
}
