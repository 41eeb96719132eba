// Event handlers as scenario actors with a sequential reference model.
#pragma once
#include "common.hpp"
#include "lin.hpp"
#include <fastdds/dds/log/Log.hpp>
#include <cpp_utils/event/EventHandler.hpp>

namespace h {
using namespace eprosima::utils;
using namespace eprosima::utils::event;

struct EState
{
    int cb = -1;        // callback set, -1: none
    int n = 0;          // events counted
};

//! A concrete handler as a user of the library writes it.
struct EH : public EventHandler<int, std::string>
{
    Quietly<int> sets{0}, changes{0}, unsets{0};
    EH() : EventHandler<int, std::string>() {}
    ~EH() { unset_callback(); }
    void fire(int a) { event_occurred_(a, mc::str("event-data-", a, "-long-enough-for-the-heap")); }
protected:
    void callback_set_nts_() noexcept override { told(false, true, "set"); mc::Quiet q; ++sets.v; }
    void callback_change_nts_() noexcept override { told(true, true, "changed"); mc::Quiet q; ++changes.v; }
    void callback_unset_nts_() noexcept override { told(true, false, "unset"); mc::Quiet q; ++unsets.v; }
private:
    //! What a derived handler is told: in order, one thing at a time.
    void told(bool from, bool to, const char* what)
    {
        bool ok;
        { mc::Quiet q; ok = !telling && is == from; telling = true; }
        mc::check(ok, [&] { return mc::str("the derived handler was told that the callback was ", what, " while being told of something else, or out of order"); });
        mc::mark(0xd00 + from * 2 + to);
        mc::point();
        mc::Quiet q;
        telling = false;
        is = to;
    }
    bool telling = false, is = false;
};

//! The events delivered to callbacks and whether callbacks may be called at all.
struct Sink
{
    struct Call { int cb, arg, thread; };
    std::vector<Call> calls;
    std::set<int> off;            // callbacks that must not be called any more
    std::vector<int*> heap;       // what the callbacks use; freed when they are off
    int finished = 0;             // calls that have returned
    std::vector<int> inside;      // callback each running call belongs to

    void begin(int cb, int arg)
    {
        mc::mark(0x900 + cb * 16 + (arg & 15));
        mc::Quiet q;
        mc::check(!off.count(cb), [&] { return mc::str("callback ", cb, " was called after it was unset, replaced or its handler destroyed"); });
        mc::check(inside.empty(), "two callbacks of one handler at the same time");
        inside.push_back(cb);
        calls.push_back({cb, arg, mc::tid()});
    }
    void finish(int cb)
    {
        mc::mark(0xa00 + cb);
        mc::Quiet q;
        mc::check(!off.count(cb), [&] { return mc::str("callback ", cb, " was still running after it was unset, replaced or its handler destroyed"); });
        inside.pop_back();
        ++finished;
    }
    void turn_off(int cb)
    {
        { mc::Quiet q; off.insert(cb); }
        mc::mark(0xb00 + cb);
        mc::point();
    }
    int count(int cb) const { mc::Quiet q; int n = 0; for (auto& c : calls) n += c.cb == cb; return n; }
};

struct Run
{
    std::unique_ptr<EH> e;
    Sink sink;
    History<EState> hist;
    Threads th;
    std::vector<std::pair<int, int>> waits;    // operation, n
    std::function<void(int)> extra;            // executed inside callbacks
    std::map<int, std::shared_ptr<int>> tokens; // captured by callback k
    bool use_tokens = false;

    Run() { LogStub_fresh(); e.reset(new EH()); }
    ~Run() { th.join(); }
    static void LogStub_fresh() { eprosima::fastdds::dds::LogStub::any = false; }

    std::function<void(int, std::string)> callback(int k)
    {
        std::shared_ptr<int> token;
        if (use_tokens) { mc::Quiet q; token = std::make_shared<int>(k); tokens[k] = token; }
        return [this, k, token](int a, std::string s)
               {
                   sink.begin(k, a);
                   mc::check(!token || *token == k, "the callback's capture was corrupted");
                   mc::check(s == mc::str("event-data-", a, "-long-enough-for-the-heap"), "the callback got other data than the event's");
                   mc::point();
                   if (extra) extra(a);
                   sink.finish(k);
               };
    }
    void set(int k)
    {
        auto f = callback(k);
        int id = hist.begin(mc::str("set_callback(", k, ")"));
        e->set_callback(std::move(f));
        hist.end(id, "done", [k](EState& s) { s.cb = k; return true; });
    }
    void unset()
    {
        int id = hist.begin("unset_callback");
        e->unset_callback();
        hist.end(id, "done", [](EState& s) { s.cb = -1; return true; });
    }
    int event(int a, bool simulate = false)
    {
        int id = hist.begin(mc::str("event(", a, ")"));
        if (simulate) e->simulate_event_occurred(a, mc::str("event-data-", a, "-long-enough-for-the-heap")); else e->fire(a);
        mc::Quiet q;
        int cb = -1, n = 0;
        for (auto& c : sink.calls) if (c.arg == a) { cb = c.cb; ++n; }
        mc::check(n <= 1, [&] { return mc::str("event ", a, " called callbacks ", n, " times"); });
        hist.end(id, cb < 0 ? "no callback" : mc::str("callback ", cb), [cb](EState& s) { if (s.cb != cb) return false; if (cb >= 0) ++s.n; return true; });
        return cb;
    }
    //! An event is counted once it has been handled, this is, its callback has returned.
    void handled(int n, const char* what)
    {
        mc::mark(0xc00 + n);
        mc::Quiet q;
        mc::check(sink.finished >= n, [&] { return mc::str(what, " counted ", n, " events when the callback had returned ", sink.finished, " times"); });
    }
    int count()
    {
        int id = hist.begin("event_count");
        int v = (int)e->event_count();
        handled(v, "event_count");
        hist.end(id, std::to_string(v), [v](EState& s) { return s.n == v; });
        return v;
    }
    void reset() { int id = hist.begin("reset"); e->reset_event_count(); hist.end(id, "done", [](EState& s) { s.n = 0; return true; }); }
    void decrement() { int id = hist.begin("decrement"); e->decrement_event_count(); hist.end(id, "done", [](EState& s) { if (s.n) --s.n; return true; }); }
    bool wait(int n)
    {
        int id = hist.begin(mc::str("wait_for_event(", n, ")"));
        { mc::Quiet q; waits.push_back({id, n}); }
        bool r = e->wait_for_event(n);
        if (r) handled(n, "wait_for_event");
        hist.end(id, r ? "true" : "false", [r, n](EState& s) { return r ? s.n >= n : s.cb < 0 && s.n < n; });
        return r;
    }
    void require(const char* what)
    {
        mc::Quiet q;
        auto& hs = hist; auto& w = waits;
        hist.require(EState(), what, [&hs, &w](const EState& s)
                {
                    for (auto& x : w) if (hs.ops[x.first].end < 0 && (s.cb < 0 || s.n >= x.second)) return false;
                    return true;
                });
    }
    void finish(const char* what)
    {
        settle();
        count();
        require(what);
        unset();
        th.join();
        require(what);
    }
};

} // namespace h
