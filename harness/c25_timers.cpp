// engine: seq
// sources: time/Timer time/PausableTimer
#include "enum.hpp"
#include <cmath>
#include <cpp_utils/time/Timer.hpp>
#include <cpp_utils/time/PausableTimer.hpp>
using namespace eprosima::utils;

namespace {
//! an ideal stopwatch, in nanoseconds
struct Watch { bool playing; uint64_t acc = 0, since; uint64_t value(uint64_t now) const { return acc + (playing ? now - since : 0); } };
bool near(double a, double ns) { return std::fabs(a - ns / 1e6) < 2e-6; }
void read(const Timer& t, uint64_t ns)
{
    double e = t.elapsed();
    mc::check(near(e, (double)ns), [&] { return mc::str("elapsed ", e, " ms, expected ", ns, " ns"); });
    uint32_t m = t.elapsed_ms();
    mc::check(m == ns / 1000000 || (ns % 1000000 == 0 && ns > 0 && m == ns / 1000000 - 1 && e < ns / 1e6), [&] { return mc::str("elapsed_ms ", m, ", expected ", ns / 1000000); });
}
const uint64_t STEP[] = {1000000, 500000, 3, 3600ull * 1000000000ull + 250000};
}
MC_SCENARIO("C25", "timer")
{
    // reset, elapsed, four advances of the clock, wall clock set back and forward
    int n = mc::thorough() ? 8 : 6;
    en::tuples(8, n, [&](const std::vector<int>& v)
    {
        en::begin(en::q(v));
        mc::set_wall_offset_ns(0);
        Timer t; uint64_t start = mc::now_ns();
        for (int op : v)
        {
            mc::count("ops");
            if (op == 0) { t.reset(); start = mc::now_ns(); }
            else if (op == 1) read(t, mc::now_ns() - start);
            else if (op < 6) mc::advance_ns(STEP[op - 2]);
            else mc::set_wall_offset_ns(op == 6 ? -7200ll * 1000000000ll : 86400ll * 1000000000ll);
        }
        read(t, mc::now_ns() - start);
    });
    mc::set_wall_offset_ns(0);
}
MC_SCENARIO("C25", "pausable_timer")
{
    // play, pause, reset, elapsed, advances, wall clock set back; through the object and through its base
    int n = mc::thorough() ? 8 : 7;
    for (int start = 0; start < 2; ++start) en::tuples(7, n, [&](const std::vector<int>& v)
    {
        en::begin(mc::str("playing ", start, " ", en::q(v)));
        mc::set_wall_offset_ns(0);
        PausableTimer p(start); Timer& b = p;
        Watch w{start != 0, 0, mc::now_ns()};
        for (size_t k = 0; k < v.size(); ++k)
        {
            int op = v[k];
            mc::count("ops");
            if (op == 0) { p.play(); if (!w.playing) { w.playing = true; w.since = mc::now_ns(); } }
            else if (op == 1) { p.pause(); w.acc = w.value(mc::now_ns()); w.playing = false; }
            else if (op == 2) { if (k & 1) b.reset(); else p.reset(); w.acc = 0; w.since = mc::now_ns(); }
            else if (op == 3) read(p, w.value(mc::now_ns()));
            else if (op == 6) mc::set_wall_offset_ns(-7200ll * 1000000000ll);
            else mc::advance_ns(STEP[op == 4 ? 0 : 3]);
            mc::check(p.playing() == w.playing, "playing state");
        }
        read(p, w.value(mc::now_ns()));
    });
    mc::set_wall_offset_ns(0);
}
MC_SCENARIO("C25", "fractions")
{
    // sums of many short intervals
    for (uint64_t a : {1ull, 999ull, 333333ull, 999999ull, 1000001ull}) for (int n = 0; n < (mc::thorough() ? 3000 : 600); ++n)
    {
        en::begin(mc::str(n, " intervals of ", a, " ns"));
        PausableTimer p(false);
        for (int i = 0; i < n; ++i) { p.play(); mc::advance_ns(a); p.pause(); mc::advance_ns(a * 7); }
        double e = p.elapsed();
        mc::check(std::fabs(e - a * n / 1e6) < 1e-6 * (n + 1), "accumulated intervals");
        mc::check(p.elapsed_ms() <= a * n / 1000000 && p.elapsed_ms() + 1 >= a * n / 1000000, "accumulated milliseconds");
    }
}

MC_SCENARIO("C25", "long_times")
{
    // up to what a result in milliseconds can hold
    const uint64_t D = 24ull * 3600 * 1000000000ull, B = 1ull << 31;
    for (uint64_t total : {D, 24 * D, (B - 1) * 1000000, B * 1000000, (B + 1) * 1000000, 49 * D, uint64_t(4294967295ull * 1000000)})
        for (uint64_t parts : {1ull, 2ull, 7ull}) for (uint64_t over : {0ull, 1ull, 999999ull})
        {
            en::begin(mc::str(total, " ns and ", over, " in ", parts, " intervals"));
            mc::set_wall_offset_ns(0);
            Timer t; PausableTimer p(parts & 1), q(true);
            uint64_t start = mc::now_ns(), acc = 0, rest = total + over;
            for (uint64_t i = 0; i < parts; ++i)
            {
                uint64_t part = i + 1 == parts ? rest : total / parts;
                p.play(); mc::advance_ns(part); p.pause(); mc::set_wall_offset_ns(i & 1 ? 0 : -(int64_t)D);
                acc += part; rest -= part;
                read(p, acc); read(t, mc::now_ns() - start); read(q, mc::now_ns() - start);
            }
        }
    mc::set_wall_offset_ns(0);
}
