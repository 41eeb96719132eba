// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "pure.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
MC_SCENARIO("C30", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true)
{
    pure::both([](int k) { std::string s; for (const char* p : {"a*", "*b?", "rt/*", "[x-z]*"}) s += match_pattern(p, k ? "ab" : "rt/abc") ? '1' : '0'; return s; });
}
