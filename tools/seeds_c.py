I = "cpp_utils/include/cpp_utils/"
C = "cpp_utils/src/cpp/"
EXC = ["Formatter", "exception/Exception"]
U = EXC + ["utils", "math/math_extension"]
T = U + ["time/time_utils"]
HEAD = r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
static void fail(const char* what) { std::printf("WRONG: %s\n", what); std::fflush(stdout); _exit(1); }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
"""
S = [
dict(id="pool-resets-refused-element", property="C20",
     edits=[(I + "pool/impl/UnboundedPool.ipp", "    // This only could happen if more elements are released than reserved.\n", "    // Reset the element as soon as it comes back\n    this->reset_element_(element);\n\n    // This only could happen if more elements are released than reserved.\n"),
            (I + "pool/impl/UnboundedPool.ipp", "    // Return it to the vector\n    this->reset_element_(element);\n    elements_", "    // Return it to the vector\n    elements_")],
     needs="An element returned while nothing is on loan", breaks="The refused element is reset although it was already free",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
static int resets = 0;
struct P : UnboundedPool<int>
{
    P(PoolConfiguration c) : UnboundedPool<int>(c) { initialize_vector_(); }
    int* new_element_() override { return new int(0); }
    void reset_element_(int*) override { ++resets; }
};
int main()
{
    PoolConfiguration c;
    c.initial_size = 2; c.batch_size = 1;
    P p(c);
    int* x = nullptr; int* y = nullptr;
    p.loan(x); p.loan(y);
    p.return_loan(x); p.return_loan(y);
    if (resets != 2) fail("elements returned are reset once");
    bool refused = false;
    try { p.return_loan(x); } catch (const InconsistencyException&) { refused = true; }
    if (!refused) fail("accepted");
    if (resets != 2) fail("a refused element was changed");
    return 0;
}
"""),
dict(id="dbqueue-both-empty-in-steps", property="C24",
     edits=[(I + "queue/DBQueue.hpp", "        std::unique_lock<std::mutex> guard(m_foreground_mutex);\n        std::unique_lock<std::mutex> bg_guard(m_background_mutex);\n        return m_foreground_queue->empty() && m_background_queue->empty();",
             "        // The producers do not have to wait while the foreground queue is looked at\n        if (!empty())\n        {\n            return false;\n        }\n\n        std::unique_lock<std::mutex> bg_guard(m_background_mutex);\n        return m_background_queue->empty();")],
     needs="A swap between the look at the foreground queue and the look at the background one", breaks="both_empty is true although there was an element in one of the queues all the time",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/queue/DBQueue.hpp>
using namespace eprosima::utils;
int main()
{
    event::DBQueue<int> q;
    q.push(1);
    std::atomic<bool> stop(false), wrong(false);
    std::thread looker([&] { while (!stop && !wrong) if (q.both_empty()) wrong = true; });
    auto t0 = std::chrono::steady_clock::now();
    while (!wrong && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20))
        for (int i = 0; i < 100; ++i) { q.swap(); q.push(1); q.pop(); }
    stop = true;
    looker.join();
    if (wrong) fail("both empty with an element inside");
    return 0;
}
"""),
dict(id="power-of-two-signed", property="C32",
     edits=[(C + "math/math_extension.cpp", "    return number && (!(number & (number - 1)));", "    // The lowest bit set is the only one\n    const int bits = static_cast<int>(number);\n    return bits > 0 && (bits & -bits) == bits;")],
     needs="The number 2 to the 31", breaks="It is not told to be a power of two",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/math/math_extension.hpp>
using namespace eprosima::utils;
int main()
{
    for (int i = 0; i < 32; ++i)
    {
        unsigned int p = 1u << i;
        if (!is_power_of_2(p)) fail("a power of two");
        if (i > 1 && (is_power_of_2(p - 1) || is_power_of_2(p + 1))) fail("not a power of two");
    }
    if (is_power_of_2(0) || is_power_of_2(0xFFFFFFFFu)) fail("not a power of two");
    return 0;
}
"""),
dict(id="command-drops-blank-words", property="C23",
     edits=[(I + "user_interface/impl/CommandReader.ipp", "        else\n        {\n            result.push_back(input[i]);\n        }", "        // Several blanks do not make more arguments\n        else if (!input[i].empty() || result.empty())\n        {\n            result.push_back(input[i]);\n        }")],
     needs="A line with two blanks together, or one at the end", breaks="The empty arguments between them are lost",
     sources=T + ["event/StdinEventHandler", "history/CommandHistoryHandler", "wait/CounterWaitHandler", "wait/IntWaitHandler"], cpp=HEAD + r"""
#include <cpp_utils/user_interface/CommandReader.hpp>
using namespace eprosima::utils;
enum class E { a };
int main()
{
    int p[2];
    if (pipe(p)) return 2;
    dup2(p[0], 0);
    std::string keys = "a  b\na \n";
    if (write(p[1], keys.data(), keys.size()) != (ssize_t)keys.size()) return 2;
    close(p[1]);
    CommandReader<E> r(EnumBuilder<E>(std::map<E, std::set<std::string>>{{E::a, {"a"}}}));
    Command<E> c;
    if (!r.read_next_command(c) || c.arguments != std::vector<std::string>{"a", "", "b"}) fail("first line");
    if (!r.read_next_command(c) || c.arguments != std::vector<std::string>{"a", ""}) fail("second line");
    return 0;
}
"""),
dict(id="bytes-negligible-both-sides", property="C28",
     edits=[(C + "utils.cpp", "    if (std::fabs(number_double - number_int) < 0.01)", "    if (std::fabs(number_double - std::round(number_double)) < 0.01)")],
     needs="A size just below a whole number of units", breaks="It is printed as the whole number below, almost one unit less",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    if (from_bytes(1999) != "2.00KB") fail(from_bytes(1999).c_str());
    if (from_bytes(2000) != "2KB" || from_bytes(2009) != "2KB" || from_bytes(1500) != "1.50KB" || from_bytes(1) != "1B") fail("other sizes");
    return 0;
}
"""),
dict(id="watcher-tells-creation", property="C15",
     edits=[(C + "event/FileWatcherHandler.cpp", "                    case FileWatchEvent::modified:\n", "                    // Some editors write a new file in the place of the old one\n                    case FileWatchEvent::added:\n                    case FileWatchEvent::modified:\n")],
     needs="The watched file removed and created again", breaks="The callback is called though the file was not modified",
     sources=T + ["event/FileWatcherHandler"], cpp=HEAD + r"""
#include <fstream>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils;
int main()
{
    { std::ofstream f("watched"); f << "x"; }
    std::atomic<int> n(0);
    event::FileWatcherHandler h([&](std::string) { ++n; }, "./watched");
    ms(300);
    std::remove("watched");
    ms(300);
    int before = n;
    // an empty file, created and not modified
    FILE* f = std::fopen("watched", "a"); std::fclose(f);
    ms(500);
    if (n != before) fail("a creation was told as a modification");
    { std::ofstream g("watched", std::ios::app); g << "y"; }
    for (int i = 0; i < 300 && n == before; ++i) ms(10);
    if (n == before) fail("a modification was not told");
    return 0;
}
"""),
dict(id="enum-name-as-c-string", property="C33",
     edits=[(I + "macros/custom_enumeration.hpp", "        if (NAMES_ ## enumeration_name[i] == s){e = static_cast<enumeration_name>(i); return true;}                 \\", "        if (NAMES_ ## enumeration_name[i].compare(s.c_str()) == 0){e = static_cast<enumeration_name>(i); return true;} \\")],
     needs="A text that goes on with other characters after a name and a null character", breaks="It is accepted as that name",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/macros/custom_enumeration.hpp>
ENUMERATION_BUILDER(Colour, red, green, blue);
int main()
{
    Colour c;
    if (!string_to_enumeration("green", c) || c != Colour::green) fail("a name was refused");
    if (string_to_enumeration(std::string("green\0er", 8), c)) fail("a text that is no name was accepted");
    return 0;
}
"""),
]
S = [s for s in S if s["needs"] and s["breaks"]]
