// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "pure.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
namespace {
const pure::Fun F[] = {
    [](int k) { return pure::all(split_string(k ? "a,b,,c" : "x--y-z", k ? "," : "--")); },
    [](int k) { std::string s = k ? "aXbXc" : "--++--"; unsigned n = replace_all(s, k ? "X" : "--", k ? "yy" : ""); return s + std::to_string(n); },
    [](int k) { std::string s = k ? "aXbXc" : "--++--"; bool b = replace_first(s, k ? "X" : "++", k ? "yy" : ""); return s + std::to_string(b); },
    [](int k) { std::string s = k ? "  a b " : "\tx\n"; unsigned n = strip_str(s); return s + std::to_string(n); },
    [](int k) { std::string s = k ? "MiXed 1" : "Other"; to_lowercase(s); std::string t = s; to_uppercase(t); return s + t; },
    [](int k) { return number_trailing_zeros_format(k ? 12 : 98765, k ? 5 : 7); },
    [](int k) { return pure::all(split_string(k ? "a;b|c" : "1,2.3", k ? std::set<std::string>{";", "|"} : std::set<std::string>{",", "."})); },
};
}
MC_SCENARIO("C27", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
