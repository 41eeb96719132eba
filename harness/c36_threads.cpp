// engine: mc
// sources: Formatter exception/Exception ReturnCode
#include "pure.hpp"
#include <sstream>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
using namespace eprosima::utils;
namespace dds = eprosima::fastdds::dds;
namespace {
const pure::Fun F[] = {
    [](int k) { std::ostringstream os; os << ReturnCode(k ? ReturnCode::RETCODE_NO_DATA : ReturnCode::RETCODE_ERROR) << ReturnCode(k ? dds::RETCODE_OK : dds::RETCODE_TIMEOUT); return os.str(); },
    [](int k) { Formatter f; f << "text " << k << std::string(20 + k, 'x'); std::string s = f; return s + f.to_string(); },
    [](int k) { try { if (k) throw InitializationException(Formatter() << "one " << k); throw TimeoutException("two"); } catch (const Exception& e) { return std::string(e.what()); } },
};
}
// values of their own in two threads
MC_SCENARIO("C36", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
