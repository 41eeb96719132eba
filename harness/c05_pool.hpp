// Thread pool scenarios shared by C05 and C06.
#pragma once
#include "common.hpp"
#include "lin.hpp"
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#include <cpp_utils/thread_pool/task/TaskId.hpp>

namespace h {
using namespace eprosima::utils;
using eprosima::utils::event::AwakeReason;

struct Pool
{
    std::unique_ptr<SlotThreadPool> p;
    std::vector<int> emitted, returned, started, ended;     // per slot
    std::set<int> owners;                          // threads that are not workers
    bool off = true;                               // no callback may be running or start
    bool dead = false;
    std::vector<TaskId> ids;
    Threads th;

    Pool(int threads) { p.reset(new SlotThreadPool(threads)); mc::Quiet q; owners.insert(mc::tid()); }
    ~Pool() { th.join(); }

    //! A slot whose callback has `points` scheduling points
    int slot(int points = 0, std::function<void()> extra = nullptr)
    {
        TaskId id = new_unique_task_id();
        int k;
        {
            mc::Quiet q;
            for (auto x : ids) mc::check(x != id, "new_unique_task_id returned the same id twice");
            k = (int)ids.size();
            ids.push_back(id); emitted.push_back(0); returned.push_back(0); started.push_back(0); ended.push_back(0);
        }
        p->slot(id, [this, k, points, extra]
                {
                    {
                        mc::Quiet q;
                        mc::check(!off, "a task started while the pool was disabled or destroyed");
                        mc::check(!owners.count(mc::tid()), "a task was executed by a thread that is not of the pool");
                        ++started[k];
                        mc::check(started[k] <= emitted[k], "a task was executed more times than emitted");
                    }
                    mc::mark(0x500 + k);
                    for (int i = 0; i < points; ++i) mc::point();
                    if (extra) extra();
                    {
                        mc::Quiet q;
                        mc::check(!off, "a task was still running after disable or destruction returned");
                        ++ended[k];
                    }
                    mc::mark(0x600 + k);
                });
        return k;
    }
    void emit(int k)
    {
        { mc::Quiet q; ++emitted[k]; }
        mc::mark(0x700 + k);
        p->emit(ids[k]);
        { mc::Quiet q; ++returned[k]; }
        mc::mark(0x780 + k);
    }
    void enable() { { mc::Quiet q; off = false; } mc::mark(0x800); p->enable(); }
    void disable()
    {
        p->disable();
        { mc::Quiet q; off = true; }
        mc::mark(0x801);
        mc::point();
        unfinished("disable");
    }
    void destroy()
    {
        th.join();
        p.reset();
        { mc::Quiet q; off = true; dead = true; }
        mc::mark(0x802);
        mc::point();
        unfinished("destruction");
    }
    void unfinished(const char* w)
    {
        mc::Quiet q;
        for (size_t i = 0; i < started.size(); ++i)
            mc::check(started[i] == ended[i], [&] { return mc::str("a task was running when ", w, " returned"); });
    }
    int total(const std::vector<int>& v) const { mc::Quiet q; int n = 0; for (int x : v) n += x; return n; }
    bool all_done() const { mc::Quiet q; return emitted == ended; }
    void owner() { mc::Quiet q; owners.insert(mc::tid()); }
    //! wait until all emitted tasks have been executed, no more, no less
    void settle_all()
    {
        settle();
        mc::Quiet q;
        mc::check(emitted == ended, [&] { return mc::str("emitted ", total(emitted), " tasks, executed ", total(ended), " (lost task)"); });
    }
    AwakeReason wait_all(unsigned ms, bool quiet_after)
    {
        std::vector<int> before;
        mc::mark(0x790);
        { mc::Quiet q; before = returned; }
        uint64_t t0 = mc::now_ns();
        AwakeReason r = p->wait_all_consumed(ms);
        mc::Quiet q;
        if (r == AwakeReason::condition_met && quiet_after)
            for (size_t i = 0; i < before.size(); ++i)
                mc::check(ended[i] >= before[i], "wait_all_consumed returned condition_met before every emitted task was executed");
        if (r == AwakeReason::timeout) mc::check(ms && mc::now_ns() - t0 >= ms * 1000000ull, "wait_all_consumed timed out early");
        return r;
    }
};

} // namespace h
