// Histories of concurrent operations and a brute-force linearizability check against a sequential model.
#pragma once
#include "common.hpp"

namespace h {

template <typename State>
class History
{
public:

    struct Op
    {
        int thread = 0;
        std::string what;
        int start = 0, end = -1;
        uint64_t tstart = 0, tend = 0, not_before = 0;
        //! applies the operation with its observed result; false: impossible in this state
        std::function<bool(State&)> apply;
        bool optional = false;
    };

    //! Begin an operation; the caller makes the call and then ends it.
    int begin(const std::string& what)
    {
        mc::point();
        mc::mark(0x100 + ops.size());
        mc::Quiet q;
        Op o;
        o.thread = mc::tid(); o.what = what; o.start = ++clock_; o.tstart = mc::now_ns();
        ops.push_back(o);
        return (int)ops.size() - 1;
    }

    void end(int id, const std::string& result, std::function<bool(State&)> apply, uint64_t not_before = 0)
    {
        mc::mark(0x200 + id);
        mc::Quiet q;
        Op& o = ops[id];
        o.end = ++clock_; o.tend = mc::now_ns(); o.what += " -> " + result; o.apply = std::move(apply); o.not_before = not_before;
        mc::note(o.what);
    }

    bool done(int id) const { mc::Quiet q; return ops[id].end >= 0; }
    int pending() const
    {
        mc::Quiet q; int n = 0;
        for (auto& o : ops) n += o.end < 0;
        return n;
    }

    std::string text() const
    {
        std::string s;
        for (auto& o : ops)
            s += mc::str("\n  [", o.start, ",", o.end, "] thread ", o.thread, " ", o.what);
        return s;
    }

    //! Pending operations may have taken effect or not unless they carry no `apply`.
    bool linearizable(State init, State* final_state = nullptr, std::function<bool(const State&)> accept = nullptr)
    {
        mc::Quiet q;
        accept_ = accept;
        std::vector<char> used(ops.size(), 0);
        return search(init, used, final_state);
    }

    void require(State init, const char* what, std::function<bool(const State&)> accept = nullptr)
    {
        mc::Quiet q;
        if (!linearizable(init, nullptr, accept))
            mc::fail(std::string(what) + ":" + text());
    }

    std::vector<Op> ops;

private:

    bool search(const State& st, std::vector<char>& used, State* fin)
    {
        bool all = true;
        for (size_t i = 0; i < ops.size(); ++i)
            if (!used[i] && ops[i].end >= 0) { all = false; break; }
        if (all && (!accept_ || accept_(st)))
        {
            if (fin) *fin = st;
            return true;
        }
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (used[i] || !ops[i].apply) continue;
            bool minimal = true;
            for (size_t j = 0; j < ops.size() && minimal; ++j)
                if (!used[j] && j != i && ops[j].end >= 0 &&
                        (ops[j].end < ops[i].start || (ops[i].not_before && ops[j].tend < ops[i].not_before)))
                    minimal = false;
            if (!minimal) continue;
            State s2 = st;
            if (!ops[i].apply(s2)) continue;
            used[i] = 1;
            if (search(s2, used, fin)) return true;
            used[i] = 0;
        }
        return false;
    }

    int clock_ = 0;
    std::function<bool(const State&)> accept_;
};

//! Wait until every other thread is finished or blocked for good.
inline void settle()
{
    int me = mc::tid();
    mc::wait_until([me] { return mc::quiescent(me); }, "settle");
}

} // namespace h
