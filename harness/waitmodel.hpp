// Wait handlers as scenario actors with a sequential reference model.
#pragma once
#include "lin.hpp"
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>
#include <cpp_utils/wait/WaitHandler.hpp>

namespace h {
using namespace eprosima::utils;
using namespace eprosima::utils::event;

inline const char* name(AwakeReason r)
{
    return r == AwakeReason::disabled ? "disabled" : r == AwakeReason::timeout ? "timeout" : r == AwakeReason::condition_met ? "condition_met" : "invalid reason";
}

struct WState
{
    int value = 0;
    bool enabled = true;
};

using Pred = std::function<bool (int)>;

//! A scenario over one handler: operations are recorded and checked against the model at the end.
template <typename H>
struct WaitRun
{
    H& w;
    History<WState> hist;
    Threads th;
    WState init;
    std::vector<std::pair<int, Pred>> waits;   // (operation, predicate)
    std::function<int ()> peek;                // value of the handler, asked for at the end

    WaitRun(H& w_, int v, bool en = true) : w(w_) { init.value = v; init.enabled = en; }

    template <typename F>
    void op(const std::string& what, F f, std::function<void(WState&)> effect)
    {
        int id = hist.begin(what);
        f();
        hist.end(id, "done", [effect](WState& s) { effect(s); return true; });
    }

    //! take: effect of a successful wait on the value
    template <typename F>
    AwakeReason wait(const std::string& what, unsigned ms, Pred p, F f, int take = 0)
    {
        int id = hist.begin(what + "(timeout " + std::to_string(ms) + ")");
        { mc::Quiet q; waits.push_back({id, p}); }
        uint64_t t0 = mc::now_ns();
        AwakeReason r = f();
        uint64_t t1 = mc::now_ns();
        {
            mc::Quiet q;
            if (r == AwakeReason::timeout)
            {
                mc::check(ms != 0, "a wait without time limit returned timeout");
                mc::check(t1 - t0 >= ms * 1000000ull, "a wait returned timeout before its time elapsed");
            }
        }
        hist.end(id, name(r), [r, p, take](WState& s)
                {
                    if (r == AwakeReason::disabled) return !s.enabled;
                    if (!s.enabled) return false;
                    if (r == AwakeReason::condition_met)
                    {
                        if (!p(s.value)) return false;
                        s.value -= take;
                        return true;
                    }
                    return r == AwakeReason::timeout && !p(s.value);
                }, r == AwakeReason::timeout ? t0 + ms * 1000000ull : 0);
        return r;
    }

    void set(int v, bool notify = true) { op(mc::str("set(", v, notify ? "" : ", no notify", ")"), [&] { w.set_value(v, notify); }, [v](WState& s) { s.value = v; }); }
    void enable() { op("enable", [&] { w.enable(); }, [](WState& s) { s.enabled = true; }); }
    void disable() { op("disable", [&] { w.disable(); }, [](WState& s) { s.enabled = false; }); }

    //! All threads finished or blocked for good: nobody may be blocked whose condition holds or whose handler is disabled.
    void finish(const char* what)
    {
        settle();
        if (peek)
        {
            int id = hist.begin("value at the end");
            int v = peek();
            hist.end(id, std::to_string(v), [v](WState& s) { return s.value == v; });
        }
        {
            mc::Quiet q;
            auto& w2 = waits;
            auto& hs = hist;
            hist.require(init, what, [&w2, &hs](const WState& s)
                    {
                        for (auto& x : w2)
                            if (hs.ops[x.first].end < 0 && (!s.enabled || x.second(s.value))) return false;
                        return true;
                    });
        }
        w.disable();
        th.join();
    }
};

} // namespace h
