// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "pure.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
namespace {
const pure::Fun F[] = {
    [](int k) { return base64_encode(k ? "some text" : "another"); },
    [](int k) { return base64_decode(k ? "c29tZSB0ZXh0" : "YW5vdGhlcg=="); },
    [](int k) { return k ? base64_encode("some text") : base64_decode("YW5vdGhlcg=="); },
};
}
MC_SCENARIO("C29", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
