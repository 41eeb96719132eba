I = "cpp_utils/include/cpp_utils/"
C = "cpp_utils/src/cpp/"
EXC = ["Formatter", "exception/Exception"]
U = EXC + ["utils", "math/math_extension"]
T = U + ["time/time_utils"]
HEAD = r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
static void fail(const char* what) { std::printf("WRONG: %s\n", what); std::fflush(stdout); _exit(1); }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
"""
S = [
dict(id="event-counted-before-callback", property="C07",
     edits=[(I + "event/impl/EventHandler.ipp", "        callback_(args ...);\n\n        // TODO: decide if a disabled event should add number of events registered\n        {\n            // Increase number of callbacks received\n            std::lock_guard<std::mutex> lock(wait_mutex_);\n            ++number_of_events_registered_;\n        }\n", "        // TODO: decide if a disabled event should add number of events registered\n        {\n            // Increase number of callbacks received\n            std::lock_guard<std::mutex> lock(wait_mutex_);\n            ++number_of_events_registered_;\n        }\n\n        callback_(args ...);\n")],
     needs="The count read while the callback of an event is being executed",
     breaks="event_count counts an event that has not been handled",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
struct E : EventHandler<int> { ~E() { unset_callback(); } };
int main()
{
    E e;
    std::atomic<bool> in(false), out(false);
    e.set_callback([&](int) { in = true; ms(300); out = true; });
    std::thread t([&] { e.simulate_event_occurred(1); });
    while (!in) ms(1);
    unsigned n = e.event_count();
    bool o = out;
    t.join();
    if (n != 0 && !o) fail("an event was counted before its callback returned");
    if (e.event_count() != 1) fail("count");
    return 0;
}
"""),
dict(id="event-unset-twice-told", property="C07",
     edits=[(I + "event/impl/EventHandler.ipp", "    std::lock_guard<std::recursive_mutex> lock(event_mutex_);\n\n    bool was_callback_set_before = false;\n\n    if (is_callback_set_)", "    bool was_callback_set_before = false;\n\n    if (is_callback_set_)")],
     needs="Two threads unsetting the callback at the same time, both passing the check before any of them unsets it",
     breaks="The derived handler is told twice of one unset",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
static std::atomic<int> unsets(0);
struct E : EventHandler<int>
{
    ~E() { unset_callback(); }
    void callback_unset_nts_() noexcept override { ++unsets; }
};
int main()
{
    E e;
    std::atomic<bool> in(false);
    // both threads wait for the callback being executed
    e.set_callback([&](int) { in = true; ms(400); });
    std::thread t([&] { e.simulate_event_occurred(1); });
    while (!in) ms(1);
    std::thread a([&] { e.unset_callback(); }), b([&] { e.unset_callback(); });
    t.join(); a.join(); b.join();
    if (unsets != 1) fail("one unset told more than once");
    return 0;
}
"""),
dict(id="log-entry-before-filter", property="C13",
     edits=[(C + "event/logging/LogSevereEventHandler.cpp", "entry.kind <= threshold_", "entry.kind <= threshold_ || consumed_at_least_one_")] if False else
           [(C + "event/logging/LogEventHandler.cpp", "        entries_consumed_.push_back(entry);", "        // Entries repeated are only stored and notified once\n        for (const auto& e : entries_consumed_)\n        {\n            if (e.message == entry.message && e.timestamp == entry.timestamp && e.kind == entry.kind)\n            {\n                return;\n            }\n        }\n        entries_consumed_.push_back(entry);")],
     needs="Two identical messages of the same kind logged in the same second",
     breaks="The second entry is not reported",
     sources=T + ["event/logging/LogEventHandler", "event/logging/LogConsumerConnection"], cpp=HEAD + r"""
#include <fastdds/dds/log/Log.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
using namespace eprosima::utils;
int main()
{
    Log::SetVerbosity(Log::Kind::Info);
    std::atomic<int> n(0);
    {
        event::LogEventHandler h([&](Log::Entry e) { if (e.message.find("the message") != std::string::npos) ++n; });
        // more than a few seconds are not needed to log them
        for (int i = 0; i < 4; ++i) { logError(SOME_CATEGORY, "the message"); }
        Log::Flush();
        ms(100);
    }
    if (n != 4) { std::printf("%d calls\n", n.load()); fail("4 entries were logged"); }
    return 0;
}
"""),
dict(id="tsafe-seeded-draws-interleave", property="C18",
     edits=[(C + "math/random/TSafeRandomManager.cpp", "    std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);\n    seed_random_generator_.seed(seed);\n", "    {\n        // Only changing the state requires to be protected\n        std::lock_guard<Atomicable<std::mt19937>> guard(seed_random_generator_);\n        seed_random_generator_.seed(seed);\n    }\n")],
     needs="Two threads drawing the numbers of different seeds, one reseeding between the seeding and the draw of the other",
     breaks="The number drawn for a seed is that of another seed",
     sources=["math/random/TSafeRandomManager", "math/random/RandomManager"] + U, cpp=HEAD + r"""
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace eprosima::utils;
int main()
{
    TSafeRandomManager m(1), ref(1);
    const auto a = ref.seeded_rand(5), b = ref.seeded_rand(9);
    std::atomic<bool> bad(false);
    auto run = [&](int seed, RandomNumberType expect) { for (int i = 0; i < 100000 && !bad; ++i) if (m.seeded_rand(seed) != expect) bad = true; };
    std::thread t1(run, 5, a), t2(run, 9, b), t3(run, 5, a);
    t1.join(); t2.join(); t3.join();
    if (bad) fail("the number drawn is not the one of its seed");
    return 0;
}
"""),
dict(id="safe-singleton-check-then-lock", property="C19",
     edits=[(I + "types/impl/SafeInitializableSingleton.ipp", "    std::lock_guard<std::mutex> _(mtx_);\n    return initialize_nts_(std::forward<Args>(args) ...);", "    {\n        // Nothing to do if it already exists\n        std::lock_guard<std::mutex> _(mtx_);\n        if (the_ptr_)\n        {\n            return false;\n        }\n    }\n\n    // The object is created without the mutex, as its constructor may use other singletons\n    std::shared_ptr<T> new_ptr(new T(std::forward<Args>(args)...));\n\n    std::lock_guard<std::mutex> _(mtx_);\n    the_ptr_ = new_ptr;\n    return true;")],
     needs="Two threads initialising the singleton at the same time, both before any of the objects is ready",
     breaks="Two objects are constructed and both initialisations report to be the first",
     sources=[], cpp=HEAD + r"""
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace eprosima::utils;
static std::atomic<int> made(0);
struct X { int v; X(int x = 0) : v(x) { ++made; ms(200); } };
int main()
{
    using S = SafeInitializableSingleton<X, 3>;
    std::atomic<int> first(0);
    auto run = [&](int x) { if (S::initialize(x)) ++first; };
    std::thread a(run, 1), b(run, 2);
    a.join(); b.join();
    if (made != 1 || first != 1) fail("the singleton was initialised twice");
    return 0;
}
"""),
dict(id="history-keeps-position", property="C21",
     edits=[(C + "history/CommandHistoryHandler.cpp", "        command_history_.push_back(command);\n        current_index_ = command_history_.size();", "        // A command recalled and run again is already in the history\n        if (current_index_ < command_history_.size() && command_history_[current_index_] == command)\n        {\n            return;\n        }\n        command_history_.push_back(command);\n        current_index_ = command_history_.size();")],
     needs="A command recalled with previous and added again", breaks="The command is not appended and the cursor does not go after the newest",
     sources=["history/CommandHistoryHandler"], cpp=HEAD + r"""
#include <cpp_utils/history/CommandHistoryHandler.hpp>
int main()
{
    eprosima::utils::history::CommandHistoryHandler h;
    h.add_command("a"); h.add_command("b");
    h.get_previous_command();
    if (h.get_previous_command() != "a") fail("previous");
    h.add_command("a");
    if (h.get_previous_command() != "a" || h.get_previous_command() != "b") fail("the command added is not the newest");
    return 0;
}
"""),
dict(id="stdin-delete-at-last", property="C22",
     edits=[(C + "event/StdinEventHandler.cpp", "                                                line.erase(line.begin() + index);", "                                                line.erase(line.begin() + index);\n                                                // The cursor stays over a character\n                                                if (index > 1 && index == line.size())\n                                                {\n                                                    --index;\n                                                }")],
     needs="Delete pressed over the last character of a line of three or more, and more characters typed after it",
     breaks="The characters typed afterwards are inserted one place before",
     sources=T + ["event/StdinEventHandler", "history/CommandHistoryHandler", "wait/CounterWaitHandler", "wait/IntWaitHandler"], cpp=HEAD + r"""
#include <cpp_utils/event/StdinEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    int p[2];
    if (pipe(p)) return 2;
    dup2(p[0], 0);
    std::string keys = "abc\x1b[D\x1b[3~xy\n";
    if (write(p[1], keys.data(), keys.size()) != (ssize_t)keys.size()) return 2;
    close(p[1]);
    std::string got;
    std::atomic<bool> done(false);
    {
        StdinEventHandler h([&](std::string s) { got = s; done = true; }, true, 1);
        for (int i = 0; i < 500 && !done; ++i) ms(10);
    }
    if (got != "abxy") { std::printf("%s\n", got.c_str()); fail("line"); }
    return 0;
}
"""),
dict(id="pausable-pause-drops-fractions", property="C25",
     edits=[(C + "time/PausableTimer.cpp", "    // If object was playing, store the elapsed time and restore the counter\n    if (playing_)\n    {\n        stored_time_elapsed_ += Timer::elapsed();", "    // If object was playing, store the elapsed time and restore the counter\n    if (playing_)\n    {\n        stored_time_elapsed_ += static_cast<Duration_ms>(Timer::elapsed());")],
     needs="A timer paused and played several times after fractions of a millisecond", breaks="The fractions of millisecond are lost in each pause",
     sources=["time/PausableTimer", "time/Timer"] , cpp=HEAD + r"""
#include <cpp_utils/time/PausableTimer.hpp>
using namespace eprosima::utils;
int main()
{
    PausableTimer t(true);
    double ran = 0;
    for (int i = 0; i < 200; ++i)
    {
        auto a = std::chrono::steady_clock::now();
        auto b = a;
        while (b - a < std::chrono::microseconds(700)) b = std::chrono::steady_clock::now();
        t.pause();
        t.play();
        ran += std::chrono::duration<double, std::milli>(b - a).count();
    }
    t.pause();
    // the timer was running during all of the time measured
    if (t.elapsed() < ran - 10) { std::printf("%f %f\n", ran, t.elapsed()); fail("time lost"); }
    return 0;
}
"""),
dict(id="time-to-timestamp-local-date", property="C26",
     edits=[(C + "time/time_utils.cpp", "    to_calendar_time(duration_seconds, false, tm);\n", "    to_calendar_time(duration_seconds, true, tm);\n")] if False else
           [(C + "time/time_utils.cpp", "    tm.tm_year = static_cast<int>(year) - 1900;\n\n    return Timeclock", "    tm.tm_year = static_cast<int>(year) - 1900;\n\n    // Days are limited to those of the longest month\n    tm.tm_mday = std::min(tm.tm_mday, tm.tm_mon == 1 ? (year % 4 == 0 && year % 100 != 0 ? 29 : 28) : 31);\n\n    return Timeclock")],
     needs="29th of February of a year multiple of 400", breaks="2000-02-29 becomes 2000-02-28",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/time/time_utils.hpp>
using namespace eprosima::utils;
int main()
{
    for (unsigned y : {1996u, 2000u, 2024u})
    {
        auto t = date_to_timestamp(y, 2, 29, 1, 2, 3);
        char b[40]; std::snprintf(b, sizeof b, "%u-02-29 01:02:03", y);
        if (timestamp_to_string(t, "%Y-%m-%d %H:%M:%S") != b) fail(b);
    }
    return 0;
}
"""),
dict(id="split-drops-last-empty", property="C27",
     edits=[(C + "utils.cpp", "    while (end != -1)\n    {\n        result.push_back(source.substr(start, end - start));\n        start = end + delimiter.size();\n        end = source.find(delimiter, start);\n    }", "    while (end != -1)\n    {\n        result.push_back(source.substr(start, end - start));\n        start = end + delimiter.size();\n        // Delimiters of several characters may overlap\n        end = source.find(delimiter, start - (delimiter.size() > 1 && source[start - 1] == delimiter[0] ? 1 : 0));\n        if (end != -1 && end < start)\n        {\n            start = end;\n            end = source.find(delimiter, start + 1);\n        }\n    }")],
     needs="A delimiter of several characters that may overlap with itself", breaks="Joining the pieces does not give the text back",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    for (std::string s : {"a::b::c", "a:::b", "xaaay", "::::", "a::::b::"})
        for (std::string d : {"::", "aa", ":"})
        {
            auto v = split_string(s, d);
            std::string r;
            for (size_t i = 0; i < v.size(); ++i) r += (i ? d : "") + v[i];
            if (r != s) fail("joining the pieces does not give the text back");
            for (auto& p : v) if (p.find(d) != std::string::npos) fail("a piece contains the delimiter");
        }
    return 0;
}
"""),
dict(id="base64-skips-zero-tail", property="C29",
     edits=[(C + "utils.cpp", "    if (valb > -6)\n    {\n        out.push_back(base64_alphabet[((val << 8) >> (valb + 8)) & 0x3F]);\n    }", "    // The last bits are only needed if there is something in them\n    if (valb > -6 && (valb != -4 || in.size() < 3 || ((val << 8) >> (valb + 8) & 0x3F)))\n    {\n        out.push_back(base64_alphabet[((val << 8) >> (valb + 8)) & 0x3F]);\n    }")],
     needs="A sequence of 4, 7... bytes whose last one has its lowest bits at zero", breaks="The encoding is not the standard text and the last byte is lost",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    for (int n = 1; n < 9; ++n)
        for (int c = 0; c < 256; ++c)
        {
            std::string s(n, 'x'); s[n - 1] = char(c);
            if (base64_decode(base64_encode(s)) != s) fail("round trip");
        }
    return 0;
}
"""),
dict(id="match-path-name", property="C30",
     edits=[(C + "utils.cpp", "FNM_NOESCAPE) == 0)", "FNM_NOESCAPE | (str.find(\"//\") == std::string::npos ? 0 : FNM_PATHNAME)) == 0)")],
     needs="A text with two slashes together", breaks="* does not match slashes",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    if (!match_pattern("rt*", "rt/a/b") || !match_pattern("rt*", "rt//b") || !match_pattern("a?b", "a/b") || !match_pattern("*//?*", "x//y//z")) fail("match");
    return 0;
}
"""),
dict(id="demangle-first-suffix", property="C31",
     edits=[(C + "ros2_mangling.cpp", "    size_t suffix_position = service_name.rfind(suffix);", "    size_t suffix_position = service_name.find(suffix);")],
     needs="A service whose name contains the suffix", breaks="The name is not demangled",
     sources=U + ["ros2_mangling"], cpp=HEAD + r"""
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
int main()
{
    for (std::string n : {"/add", "/Request", "/AReply", "/RequestManager/x"})
    {
        if (demangle_ros_service_request_prefix_from_topic(mangle_ros_service_request_prefix_in_topic(n)) != n) fail("request");
        if (demangle_ros_service_reply_prefix_from_topic(mangle_ros_service_reply_prefix_in_topic(n)) != n) fail("reply");
    }
    return 0;
}
"""),
dict(id="fuzzy-equal-unset-valid", property="C34",
     edits=[(I + "types/impl/Fuzzy.ipp", "    if (!this->is_set() && !other.is_set())\n    {\n        return true;\n    }\n    else\n    {\n        return this->fuzzy_level_ == other.fuzzy_level_ && this->value_ == other.get_reference();", "    if (!this->is_set() && !other.is_set())\n    {\n        return true;\n    }\n    else\n    {\n        // Both must be set, and to the same value\n        return this->is_set() == other.is_set() && this->value_ == other.get_reference() && (this->fuzzy_level_ < FuzzyLevelValues::fuzzy_level_hard) == (other.fuzzy_level_ < FuzzyLevelValues::fuzzy_level_hard);")],
     needs="Two values equal, one fuzzy and the other set", breaks="They compare equal with different levels",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/types/Fuzzy.hpp>
using namespace eprosima::utils;
int main()
{
    short l[] = {-20, 0, 20, 40, 60};
    for (short a : l) for (short b : l) for (int v = 0; v < 2; ++v)
    {
        Fuzzy<int> x(1, a), y(v, b);
        bool e = (a < 20 && b < 20) || (a == b && v == 1);
        if ((x == y) != e || (x != y) == e) fail("comparison");
    }
    return 0;
}
"""),
dict(id="tree-depth-of-first-branches", property="C35",
     edits=[(I + "types/impl/Tree.ipp", "    for (const auto& b : branches_)\n    {\n        max_value = std::max(max_value, 1 + b.depth());\n    }", "    for (const TreeNode<Info>& b : branches_)\n    {\n        // A branch without children below does not need to be visited again\n        if (max_value > 1 && b.branches().size() < 2)\n        {\n            continue;\n        }\n        max_value = std::max(max_value, 1 + b.depth());\n    }")],
     needs="A tree whose deepest branch comes after another of depth two and has a single child", breaks="The depth reported is less than the actual one",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/types/Tree.hpp>
using namespace eprosima::utils;
int main()
{
    TreeNode<int> root(0), shallow(1), deep(2);
    shallow.add_branch(3);
    TreeNode<int> d2(4); d2.add_branch(5);
    deep.add_branch(d2);
    root.add_branch(shallow);
    if (root.depth() != 2) fail("depth");
    root.add_branch(deep);
    if (root.depth() != 3) fail("depth");
    return 0;
}
"""),
dict(id="exception-formatter-cut", property="C36",
     edits=[(C + "exception/Exception.cpp", "    : message_(message)\n", "    : message_(message, 0, message.find_last_not_of(\" \\n\") + 1)\n")],
     needs="A message that ends in blanks or line ends", breaks="The exception does not carry exactly its text",
     sources=EXC, cpp=HEAD + r"""
#include <cpp_utils/exception/InitializationException.hpp>
using namespace eprosima::utils;
int main()
{
    for (std::string s : {"text", "text ", " ", "two\nlines\n", ""})
        if (InitializationException(s).what() != s) fail("text of the exception");
    return 0;
}
"""),
dict(id="qos-mask-last-policy", property="C37",
     edits=[(C + "qos/qos_utils.cpp", "    for (std::uint32_t id_int = QosPolicyId_t::INVALID_QOS_POLICY_ID; id_int < QosPolicyId_t::NEXT_QOS_POLICY_ID;\n", "    const auto last_policy_id = QosPolicyId_t::NEXT_QOS_POLICY_ID - 1;\n\n    for (std::uint32_t id_int = QosPolicyId_t::INVALID_QOS_POLICY_ID; id_int < last_policy_id;\n")],
     needs="A mask with the last of the policies", breaks="The last policy of the enumeration is never named",
     sources=["qos/qos_utils"], cpp=HEAD + r"""
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::fastdds::dds;
using namespace eprosima::utils;
int main()
{
    for (unsigned a = 1; a < NEXT_QOS_POLICY_ID; ++a) for (unsigned b = a + 1; b < NEXT_QOS_POLICY_ID; ++b)
    {
        PolicyMask m; m.set(a); m.set(b);
        if (qos_policy_mask_to_string(m) != qos_policy_id_to_string(QosPolicyId_t(a)) + ", " + qos_policy_id_to_string(QosPolicyId_t(b))) fail("names of the policies of a mask");
    }
    return 0;
}
"""),
dict(id="file-blank-last-line", property="C38",
     edits=[(C + "file/file_utils.cpp", "    while (getline(file, new_line))\n    {", "    while (getline(file, new_line))\n    {\n        // Do not take the end of file as a line\n        if (file.eof() && new_line.find_first_not_of(\" \\r\") == std::string::npos)\n        {\n            break;\n        }")],
     needs="A file whose last line has only blanks and no line end", breaks="The last line is not returned",
     sources=U + ["file/file_utils"], cpp=HEAD + r"""
#include <fstream>
#include <cpp_utils/file/file_utils.hpp>
using namespace eprosima::utils;
int main()
{
    for (std::string s : {"a\nb", "a\n  ", "a\n", " "})
    {
        { std::ofstream f("some_file"); f << s; }
        std::string r;
        for (auto& l : file_to_strings("some_file", false, false)) r += l + "\n";
        if (r != (s.back() == '\n' ? s : s + "\n")) fail("lines of the file");
    }
    return 0;
}
"""),
dict(id="ptr-sets-first-null", property="C39",
     edits=[(I + "impl/utils.ipp", "        if (nullptr != *itr)\n        {\n            if (*itr->get() == *element.get())\n            {\n                // If are equal, element is contained\n                return true;\n            }\n        }", "        // nullptr is the first one in the set\n        if (nullptr == *itr)\n        {\n            return set.size() > 2 && *(++itr)->get() == *element.get();\n        }\n        else if (*itr->get() == *element.get())\n        {\n            // If are equal, element is contained\n            return true;\n        }")],
     needs="A set of pointers with a null one and three or more elements", breaks="An element is not found",
     sources=U, cpp=HEAD + r"""
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    using P = std::shared_ptr<int>;
    for (int k = 0; k < 4; ++k)
    {
        std::set<P> s;
        for (int i = 0; i < k; ++i) s.insert(std::make_shared<int>(i));
        s.insert(P());
        for (int i = 0; i < 4; ++i) if (set_of_ptr_contains(s, std::make_shared<int>(i)) != (i < k)) fail("contains");
    }
    return 0;
}
"""),
dict(id="python-increase-notifies-one", property="C40",
     edits=[("py_utils/py_utils/wait/IntWaitHandler.py", "            self._value += value\n            self._condition.notify_all()", "            self._value += value\n            # Each change fulfils the condition of one thread at most\n            self._condition.notify()")],
     needs="Two threads waiting for different values", breaks="A thread whose condition holds stays blocked",
     py='''
import sys, threading, time
sys.path.insert(0, sys.argv[1] + "/py_utils")
from py_utils.wait.IntWaitHandler import IntWaitHandler
h = IntWaitHandler(True, 0)
res = []
a = threading.Thread(target=lambda: h.wait_greater_equal(5, 8), daemon=True)
a.start()
time.sleep(0.2)
b = threading.Thread(target=lambda: res.append(h.wait_greater_equal(1, 8)), daemon=True)
b.start()
time.sleep(0.2)
h.increase()
b.join(3)
sys.exit(0 if res else 1)
'''),
dict(id="python-timeout-starts-again", property="C40",
     edits=[("py_utils/py_utils/wait/WaitHandler.py", "                awaken_reason = self._condition.wait_for(\n                    lambda: not self._enabled_nts() or predicate(self._value),\n                    timeout)\n",
             "                awaken_reason = predicate(self._value)\n                while self._enabled_nts() and not awaken_reason:\n                    notified = self._condition.wait(timeout)\n                    awaken_reason = predicate(self._value)\n                    if not notified:\n                        break\n"),
            ("py_utils/py_utils/wait/WaitHandler.py", "            if not self._enabled:\n                return AwakeReason.disabled\n", "            if not self._enabled_nts():\n                return AwakeReason.disabled\n")],
     needs="Changes of the value while waiting, none of which fulfils the condition", breaks="Each of them starts the timeout again, so that the wait lasts much longer than it",
     py='''
import sys, threading, time
sys.path.insert(0, sys.argv[1] + "/py_utils")
from py_utils.wait.IntWaitHandler import IntWaitHandler
from py_utils.wait.WaitHandler import AwakeReason
h = IntWaitHandler(True, 0)
stop = time.time() + 6

def change():
    while time.time() < stop:
        h.increase()
        time.sleep(0.05)

threading.Thread(target=change, daemon=True).start()
start = time.time()
reason = h.wait_equal(-1, 1)
sys.exit(0 if reason == AwakeReason.timeout and time.time() - start < 4 else 1)
'''),
dict(id="generator-name-prefix", property="C41",
     edits=[("dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py", "        if (NAMES_%enum_name%[i] == s)", "        if (NAMES_%enum_name%[i].compare(0, s.size(), s) == 0)")],
     needs="A text that is the beginning of a name, as the empty one", breaks="from_string accepts texts that are no names",
     py='''
import subprocess, sys
repo, work = sys.argv[1], sys.argv[2]
subprocess.run([sys.executable, repo + "/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py", "--enum", "E", "--values", "alpha;al;beta",
                "--output", work + "/e.hpp", "--namespaces", "a;b"], check=True)
open(work + "/m.cpp", "w").write("""#include <iostream>
#include "e.hpp"
using namespace a::b;
int main()
{
    if (from_string_E("al") != E::al || from_string_E("alpha") != E::alpha) return 1;
    try { from_string_E("be"); return 1; } catch (const std::invalid_argument&) {}
    try { from_string_E(""); return 1; } catch (const std::invalid_argument&) {}
    return 0;
}
""")
subprocess.run(["g++", "-std=c++17", work + "/m.cpp", "-o", work + "/m"], check=True)
sys.exit(subprocess.run([work + "/m"]).returncode)
'''),
]
S = [s for s in S if s["needs"] and s["breaks"]]
