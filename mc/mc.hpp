// Controlled-scheduler stateless model checker: harness API.
// Every thread of a scenario is a fiber; every pthread operation, atomic operation, sleep and clock
// read of the code under test goes through the explorer, which enumerates the schedules.
#pragma once
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>

namespace mc {

struct Options
{
    int budget_quick = 2;        // deviation (preemption) bound, -1 = unbounded
    int budget_thorough = 3;
    bool spurious = false;       // explore spurious condition-variable wake-ups (1 deviation each)
    bool races = true;           // report data races (happens-before) and use-after-free
    bool hbcache = true;         // prune happens-before equivalent prefixes
    bool fork_each = false;      // one process per execution (for code with static state)
    int fair = 48;               // consecutive steps after which an enabled thread must yield
    int max_steps = 20000;       // steps after which an execution is a livelock
    bool leak_ok = true;         // report heap blocks of the scenario still allocated at its end
    bool quick = true;           // part of the quick tier
    bool advance_on_idle = true; // time-outs fire when no thread can run
    bool delays = false;         // every departure from round robin is a deviation, also where the running thread blocks (delay bounding)
    bool early_timeouts = true;  // time-outs may also fire (1 deviation) while other threads can run
};

using Body = std::function<void ()>;

struct Registrar
{
    Registrar(const char* property, const std::string& name, Options o, Body body);
};

#define MC_CAT2(a, b) a ## b
#define MC_CAT(a, b) MC_CAT2(a, b)

// MC_SCENARIO("C01", "name", o.budget_quick = 2; o.spurious = true) { body }
#define MC_SCENARIO_(prop, name, id, ...)                                                       \
    static void MC_CAT(mc_body_, id) ();                                                        \
    static mc::Registrar MC_CAT(mc_reg_, id) (prop, name,                                       \
            [] () { mc::Options o; __VA_ARGS__; return o; } (), MC_CAT(mc_body_, id));          \
    static void MC_CAT(mc_body_, id) ()
#define MC_SCENARIO(prop, name, ...) MC_SCENARIO_(prop, name, __COUNTER__, __VA_ARGS__)

//! End the execution as a violation.
//! (in the sequential engine it returns when the failure is a known finding, and the enumeration goes on)
void fail(const std::string& msg);
inline bool check(bool ok, const std::string& msg)
{
    if (!ok)
    {
        fail(msg);
    }
    return ok;
}
inline bool check(bool ok, const char* msg)
{
    if (!ok)
    {
        fail(msg);
    }
    return ok;
}
//! Lazily built message.
template <typename F>
inline auto check(bool ok, F f) -> decltype(std::string(f()), true)
{
    if (!ok)
    {
        fail(f());
    }
    return ok;
}
//! Describe the case being run (reported when it crashes or hangs).
void ctx(const char* s, size_t n);
inline void ctx(const std::string& s) { ctx(s.data(), s.size()); }

//! Nondeterministic data choice in [0, n), all values explored.
int choose(int n);
//! Explicit scheduling point.
void point();
//! Scheduling point at which leaving the thread is free.
void yield();
//! Make the position of this instant in the global order part of the explored state.
void mark(uint64_t v);
//! Virtual time in nanoseconds since the execution began.
uint64_t now_ns();
//! Virtual time moves forward without sleeping (used by sequential scenarios).
void advance_ns(uint64_t ns);
//! The wall clock is set to another time (sequential engine).
void set_wall_offset_ns(int64_t ns);
int tid();
//! Run f as a signal handler: on top of thread t as soon as it goes on, if it is running; on this thread otherwise.
void interrupt(int t, std::function<void()> f);
//! Live heap blocks allocated by the scenario.
uint64_t live_blocks();
//! Add a line to the trace of a replay.
void note(const std::string& s);
//! Whether thread t is currently blocked (waiting for a mutex, condition variable, join or sleep).
bool blocked(int t);
//! Whether no thread other than `self` can run now or later without help (all finished or blocked without deadline).
bool quiescent(int self);
//! End the execution here, as good, whatever other threads do (for threads of static objects; use with fork_each).
void done();
//! Whether thread t has finished.
bool finished(int t);
//! Number of threads created so far, main included.
int threads_created();
bool in_execution();
bool thorough();
//! count something for the evidence
void count(const char* what, uint64_t n = 1);

//! Scope whose memory accesses are not checked for races (harness bookkeeping).
struct Quiet
{
    Quiet();
    ~Quiet();
};

//! Wait (as a visible blocking operation) until the predicate holds. The predicate must only read harness
//! state written under mc::Quiet / mc::mark.
void wait_until(std::function<bool()> pred, const char* what);

template <typename ... A>
std::string str(const A&... a)
{
    std::ostringstream s;
    using x = int[];
    (void)x{0, ((s << a), 0) ...};
    return s.str();
}

} // namespace mc
