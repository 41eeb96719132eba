// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "pure.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
namespace {
const pure::Fun F[] = {
    [](int k) { return std::to_string(to_bytes(k ? "12.5 KB" : "3GiB")); },
    [](int k) { return from_bytes(k ? 12500 : 3ull << 30); },
    [](int k) { return k ? from_bytes(999) : std::to_string(to_bytes("7B")); },
};
}
MC_SCENARIO("C28", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
