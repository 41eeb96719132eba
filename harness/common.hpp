// Shared helpers of the scenarios.
#pragma once
#include <mc.hpp>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace h {

//! Flags and counters of the harness: never a scheduling point, never a race.
template <typename T>
struct Quietly
{
    Quietly(T x = T()) : v(x) {}
    T get() const { mc::Quiet q; return v; }
    void set(T x) { mc::Quiet q; v = x; }
    void mset(T x, uint64_t tag) { mc::Quiet q; v = x; mc::mark(tag); }
    T v;
};

//! Threads joined at the end of the scope.
struct Threads
{
    std::vector<std::thread> t;
    template <typename F>
    int add(F f) { t.emplace_back(f); return (int)t.size() - 1; }
    void join() { for (auto& x : t) if (x.joinable()) x.join(); t.clear(); }
    ~Threads() { join(); }
};

//! What a duration may be above the exact one: polling with short sleeps is no defect, waiting for another period or time-out is.
static const uint64_t SLACK_NS = 900000;
inline bool about(uint64_t ns, uint64_t expected) { return ns >= expected && ns <= expected + SLACK_NS; }

} // namespace h
