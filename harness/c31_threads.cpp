// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils ros2_mangling
#include "pure.hpp"
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
namespace {
const pure::Fun F[] = {
    [](int k) { std::string n = k ? "/chatter" : "/a/b"; return pure::text({mangle_if_ros_topic(n), demangle_if_ros_topic("rt" + n), add_ros_topic_prefix(n), get_ros_prefix_if_exists("rq" + n), remove_ros_prefix_if_exists("rr" + n)}); },
    [](int k) { return pure::text({mangle_if_ros_type(k ? "std_msgs/msg/String" : "a/msg/B"), demangle_if_ros_type(k ? "std_msgs::msg::dds_::String_" : "a::msg::dds_::B_")}); },
    [](int k) { std::string n = k ? "/add" : "/a/b"; std::string q = mangle_ros_service_request_prefix_in_topic(n), r = mangle_ros_service_reply_prefix_in_topic(n);
        return pure::text({q, r, demangle_ros_service_prefix_from_topic(q), demangle_ros_service_prefix_from_topic(r), demangle_ros_service_request_prefix_from_topic(q), demangle_ros_service_reply_prefix_from_topic(r)}); },
    [](int k) { std::string n = mangle_service_type_only(k ? "rq/a/srv/B" : "rr/x/srv/Y"); return n + demangle_service_type_only(n); },
    [](int k) { return pure::all(get_all_ros_prefixes()) + remove_prefix("rt/a", k ? "rt" : "rq") + add_prefix("a", "b") + add_suffix("a", "c"); },
};
}
MC_SCENARIO("C31", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
