// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "pure.hpp"
#include <map>
#include <set>
#include <sstream>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
namespace {
typedef std::shared_ptr<int> P;
const pure::Fun F[] = {
    [](int k) { std::ostringstream os; container_to_stream<int>(os, std::vector<int>{1, 2, k}, ","); container_to_stream<std::string>(os, std::set<std::string>{"a", k ? "b" : "c"}); return os.str() + generic_to_string(k); },
    [](int k) { std::map<int, int> m{{1, 2}, {k + 3, 4}}; std::string s; for (int x : get_keys(m)) s += std::to_string(x); return s; },
    [](int k) { std::set<P> a{std::make_shared<int>(1), std::make_shared<int>(k)}, b{std::make_shared<int>(k), std::make_shared<int>(1)}; return std::to_string(are_set_of_ptr_equal<int>(a, b)) + std::to_string(set_of_ptr_contains<int>(a, std::make_shared<int>(5 * k))); },
};
}
// collections of their own in two threads
MC_SCENARIO("C39", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
