// engine: mc
// sources: qos/qos_utils
#include "pure.hpp"
#include <sstream>
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::utils;
namespace dds = eprosima::fastdds::dds;
MC_SCENARIO("C37", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true)
{
    pure::both([](int k) { std::ostringstream os; dds::PolicyMask m; m.set(k ? 3 : 5); m.set(k ? 30 : 7); os << m << "|" << (k ? dds::LIFESPAN_QOS_POLICY_ID : dds::HISTORY_QOS_POLICY_ID); return os.str(); });
}
