// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "lin.hpp"
#include <ctime>
#include <dlfcn.h>
#include <cpp_utils/time/time_utils.hpp>
using namespace h;
using namespace eprosima::utils;

// The calendar functions of the C library: what they write, in storage of their own or of the caller, is written by
// the harness, so that two threads using one storage at once are seen.
namespace {
typedef std::tm* (*Convert)(const time_t*, std::tm*);
std::tm g_tm;
std::tm* fill(const char* real, const time_t* t, std::tm* to)
{
    std::tm x;
    { mc::Quiet q; if (!((Convert)dlsym(RTLD_NEXT, real))(t, &x)) return nullptr; }
    mc::point(); *to = x; mc::point();
    return to;
}
}
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { return fill("gmtime_r", t, r); }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* r) noexcept { return fill("localtime_r", t, r); }
extern "C" struct tm* gmtime(const time_t* t) noexcept { return fill("gmtime_r", t, &g_tm); }
extern "C" struct tm* localtime(const time_t* t) noexcept { return fill("localtime_r", t, &g_tm); }

namespace {
void ask(int k, bool local)
{
    static const char* const S[] = {"2001-02-03_04-05-06", "1999-12-31_23-59-59"};
    std::string s = timestamp_to_string(date_to_timestamp(k ? 1999 : 2001, k ? 12 : 2, k ? 31 : 3, k ? 23 : 4, k ? 59 : 5, k ? 59 : 6), "%Y-%m-%d_%H-%M-%S", local);
    mc::Quiet q;
    mc::check(s == S[k], [&] { return "converted by two threads at once: " + s + ", expected " + S[k]; });
}
}
MC_SCENARIO("C26", "two_threads_format", o.budget_quick = 4; o.budget_thorough = 6)
{
    bool l = mc::choose(2);
    { mc::Quiet q; setenv("TZ", "UTC0", 1); tzset(); }
    Threads th;
    th.add([=] { ask(0, l); });
    ask(1, false);
}
MC_SCENARIO("C26", "two_threads_today", o.budget_quick = 3; o.budget_thorough = 5)
{
    Threads th;
    th.add([] { ask(1, false); });
    Timestamp a = time_to_timestamp(1, 2, 3), b = time_to_timestamp(4, 5, 6);
    mc::check(b - a == std::chrono::seconds(3 * 3600 + 3 * 60 + 3), "two times of today");
}
MC_SCENARIO("C26", "sleep", o.budget_quick = 2; o.budget_thorough = 3)
{
    static const uint32_t D[] = {0, 1, 2, 999, 1000, 60000, 3600000, 4294967295u};
    uint32_t d = D[mc::choose(8)];
    Threads th;
    th.add([] { sleep_for(3); });
    uint64_t t = mc::now_ns();
    sleep_for(d);
    mc::check(mc::now_ns() - t >= d * 1000000ull, "slept less than asked for");
    mc::check(mc::now_ns() - t <= d * 1000000ull + 3000000ull, "slept longer than asked for");
    mc::check(duration_to_ms(d).count() == (long)d, "duration_to_ms");
}
