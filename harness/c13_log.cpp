// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/logging/LogEventHandler event/logging/LogSevereEventHandler event/logging/LogConsumerConnection
#include "events.hpp"
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
using namespace h;
using eprosima::fastdds::dds::Log;
using eprosima::fastdds::dds::LogStub;
using Cb = std::function<void(Log::Entry)>;

namespace {

struct Rec
{
    std::map<std::string, int> seen;      // message -> times
    bool off = false;
    int threshold = Log::Info;            // entries less severe must not come
    int running = 0;
    Cb cb()
    {
        return [this](Log::Entry e)
               {
                   {
                       mc::Quiet q;
                       mc::check(!off, "an entry reached a handler after its destruction");
                       mc::check(++running == 1, "two callbacks of one handler at the same time");
                       ++seen[e.message];
                       mc::check(seen[e.message] == 1, [&] { return "entry " + e.message + " was reported twice"; });
                       mc::check(e.kind <= threshold, "an entry less severe than the threshold was reported");
                       mc::check(e.message.substr(0, 1) == (e.kind == Log::Error ? "E" : e.kind == Log::Warning ? "W" : "I"), "kind of the entry");
                       mc::check(std::string(e.context.category) == "CAT", "category of the entry");
                   }
                   mc::mark(0x900);
                   mc::point();
                   mc::Quiet q; --running;
               };
    }
    void gone() { { mc::Quiet q; off = true; } mc::mark(0x901); mc::point(); }
    bool has(const std::string& s) const { mc::Quiet q; return seen.count(s); }
    int n() const { mc::Quiet q; return (int)seen.size(); }
};

void log(int kind, const std::string& m)
{
    if (kind == Log::Error) { EPROSIMA_LOG_ERROR(CAT, m); }
    else if (kind == Log::Warning) { EPROSIMA_LOG_WARNING(CAT, m); }
    else { EPROSIMA_LOG_INFO(CAT, m); }
}
std::string name(int kind, int i) { return mc::str(kind == Log::Error ? "E" : kind == Log::Warning ? "W" : "I", i, "-entry-long-enough-for-the-heap"); }

struct Logger
{
    bool queued;
    Logger(bool q, Log::Kind v = Log::Error) : queued(q) { LogStub::fresh(q); Log::SetVerbosity(v); LogStub::any = true; }
    void operator()(int kind, int i) { log(kind, name(kind, i)); if (queued) LogStub::pump(); }
};

}

MC_SCENARIO("C13", "two_loggers", o.budget_quick = 2; o.budget_thorough = 4)
{
    Logger l(mc::choose(2));
    Rec r;
    std::unique_ptr<LogEventHandler> e(new LogEventHandler(r.cb()));
    Threads th;
    th.add([&] { l(0, 1); l(0, 2); });
    th.add([&] { l(0, 3); });
    th.join();
    LogStub::pump();
    mc::check(r.n() == 3, [&] { return mc::str("3 entries logged, ", r.n(), " reported"); });
    mc::check(e->event_count() == 3, "event count");
    mc::check(e->wait_for_event(3), "wait_for_event");
    e.reset();
    r.gone();
    l(0, 4);
    Log::ClearConsumers();
}
MC_SCENARIO("C13", "created_while_logging", o.budget_quick = 2; o.budget_thorough = 4)
{
    Logger l(mc::choose(2));
    Rec r;
    Threads th;
    th.add([&] { l(0, 1); l(0, 2); });
    std::unique_ptr<LogEventHandler> e(new LogEventHandler(r.cb()));
    l(0, 3);
    th.join();
    LogStub::pump();
    mc::check(r.has(name(0, 3)), "an entry logged after the creation of the handler was not reported");
    e.reset();
    r.gone();
    Log::ClearConsumers();
}
MC_SCENARIO("C13", "destroyed_while_logging", o.budget_quick = 2; o.budget_thorough = 4)
{
    Logger l(mc::choose(2));
    Rec r;
    std::unique_ptr<LogEventHandler> e(new LogEventHandler(r.cb()));
    Threads th;
    th.add([&] { l(0, 1); l(0, 2); });
    th.add([&] { l(0, 3); });
    e.reset();
    r.gone();
    th.join();
    Log::ClearConsumers();
}
MC_SCENARIO("C13", "consumers_cleared", o.budget_quick = 2; o.budget_thorough = 4)
{
    // the logger drops its consumers before or while the handler dies
    Logger l(mc::choose(2));
    Rec r;
    std::unique_ptr<LogEventHandler> e(new LogEventHandler(r.cb()));
    Threads th;
    th.add([&] { l(0, 1); Log::ClearConsumers(); });
    th.add([&] { l(0, 2); });
    e.reset();
    r.gone();
    th.join();
}
MC_SCENARIO("C13", "two_handlers", o.budget_quick = 2; o.budget_thorough = 3)
{
    Logger l(mc::choose(2));
    Rec a, b;
    std::unique_ptr<LogEventHandler> x(new LogEventHandler(a.cb())), y(new LogEventHandler(b.cb()));
    Threads th;
    th.add([&] { l(0, 1); l(0, 2); });
    x.reset();
    a.gone();
    th.join();
    LogStub::pump();
    mc::check(b.n() == 2, "entries were lost by the handler that stays");
    y.reset();
    b.gone();
    Log::ClearConsumers();
}
MC_SCENARIO("C13", "severe_created_while_logging", o.budget_quick = 3; o.budget_thorough = 5)
{
    Logger l(mc::choose(2), Log::Info);
    int t = mc::choose(2);
    Rec r;
    r.threshold = t;
    Threads th;
    th.add([&] { l(2, 1); l(1, 2); });
    th.add([&] { l(0, 3); });
    std::unique_ptr<LogSevereEventHandler> e(new LogSevereEventHandler(r.cb(), static_cast<Log::Kind>(t)));
    l(0, 4);
    th.join();
    LogStub::pump();
    mc::check(r.has(name(0, 4)), "an error logged after the creation of the handler was not reported");
    e.reset();
    r.gone();
    Log::ClearConsumers();
}
MC_SCENARIO("C13", "severe_destroyed_while_logging", o.budget_quick = 3; o.budget_thorough = 5)
{
    Logger l(mc::choose(2), Log::Info);
    int t = mc::choose(2);
    Rec r;
    r.threshold = t;
    std::unique_ptr<LogSevereEventHandler> e(new LogSevereEventHandler(r.cb(), static_cast<Log::Kind>(t)));
    Log::SetVerbosity(Log::Info);
    Threads th;
    th.add([&] { l(2, 1); l(1, 2); });
    th.add([&] { l(0, 3); });
    e.reset();
    r.gone();
    th.join();
    Log::ClearConsumers();
}
// all kinds, thresholds, verbosities and operations of one thread
struct RegSeq
{
    RegSeq()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false;
        new mc::Registrar("C13", "sequences", o, []
        {
            Logger l(true, static_cast<Log::Kind>(mc::choose(3)));
            int verbosity = Log::GetVerbosity();
            Rec r, r2;
            bool severe = mc::choose(2), preset = false;
            int t = Log::Info;
            std::unique_ptr<LogEventHandler> e;
            bool set = true;
            Rec* cur = &r;
            if (severe)
            {
                t = mc::choose(3);
                r.threshold = r2.threshold = t;
                e.reset(new LogSevereEventHandler(r.cb(), static_cast<Log::Kind>(t)));
                if (t > Log::Error) verbosity = t;
                mc::check(Log::GetVerbosity() == verbosity, "verbosity after creating a severe handler");
            }
            else if (mc::choose(2)) { e.reset(new LogEventHandler()); set = false; }
            else e.reset(new LogEventHandler(r.cb()));
            (void)preset;
            int count = 0;
            int depth = mc::thorough() ? 6 : 5;
            for (int i = 0; i < depth; ++i)
            {
                int op = mc::choose(6);
                if (op < 3)
                {
                    std::string m = name(op, i);
                    bool expect = set && op <= t && op <= verbosity;
                    l(op, i);
                    count += expect;
                    mc::check(cur->has(m) == expect, [&] { return mc::str("entry ", m, expect ? " not reported" : " reported", " with threshold ", t, " and verbosity ", verbosity); });
                    mc::check(!(cur == &r ? r2 : r).has(m), "entry reported to the replaced callback");
                }
                else if (op == 3) { cur = cur == &r ? &r2 : &r; e->set_callback(cur->cb()); set = true; }
                else if (op == 4) { e->unset_callback(); set = false; LogStub::pump(); }
                else { Log::SetVerbosity(static_cast<Log::Kind>((verbosity + 1) % 3)); verbosity = (verbosity + 1) % 3; }
                mc::check((int)e->event_count() == count, [&] { return mc::str("event count ", e->event_count(), ", expected ", count); });
            }
            e.reset();
            r.gone(); r2.gone();
            l(0, 9);
            Log::ClearConsumers();
        });
    }
} reg_seq;

// every sequence of entries, also equal ones: each arrives in order, with its whole content
namespace {
const Log::Entry VARIETY[] = {
    {"m", {"f.cpp", 1, "fun", "CAT"}, Log::Error, ""}, {"m", {"f.cpp", 1, "fun", "DOG"}, Log::Error, ""}, {"m", {"f.cpp", 2, "fun", "CAT"}, Log::Error, ""},
    {"m", {"f.cpp", 1, "fun", "CAT"}, Log::Warning, ""}, {"", {"g.cpp", 1, nullptr, ""}, Log::Info, ""}, {"a longer message, with\na second line", {nullptr, -1, "", "CAT"}, Log::Warning, ""},
    {std::string(3000, 'x') + "y", {"h.cpp", 70000, "fun", "CAT"}, Log::Error, ""}};
bool same(const char* a, const char* b) { return (!a && !b) || (a && b && std::string(a) == b); }
bool same(const Log::Entry& a, const Log::Entry& b)
{
    return a.message == b.message && a.kind == b.kind && a.context.line == b.context.line && same(a.context.filename, b.context.filename) && same(a.context.function, b.context.function) && same(a.context.category, b.context.category);
}
}
struct RegContents
{
    RegContents()
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false;
        new mc::Registrar("C13", "contents", o, []
        {
            Logger l(mc::choose(2), Log::Info);
            int t = mc::choose(3);      // the threshold, or no threshold at all
            std::vector<Log::Entry> got, want;
            Cb cb = [&](Log::Entry e) { mc::Quiet q; got.push_back(e); };
            std::unique_ptr<LogEventHandler> e;
            if (t < 2) { e.reset(new LogSevereEventHandler(cb, static_cast<Log::Kind>(t))); Log::SetVerbosity(Log::Info); }
            else e.reset(new LogEventHandler(cb));
            int n = mc::thorough() ? 4 : 3;
            for (int i = 0; i < n; ++i)
            {
                const Log::Entry& v = VARIETY[mc::choose(7)];
                Log::QueueLog(v.message, v.context, v.kind);
                if (t == 2 || v.kind <= t) { mc::Quiet q; want.push_back(v); }
                if (mc::choose(2)) LogStub::pump();
            }
            LogStub::pump();
            mc::Quiet q;
            mc::check(got.size() == want.size(), [&] { return mc::str(want.size(), " entries to report, ", got.size(), " reported"); });
            for (size_t i = 0; i < got.size(); ++i) mc::check(same(got[i], want[i]) && got[i].timestamp == "2024-01-01 00:00:00.000", [&] { return mc::str("entry ", i, ": \"", got[i].message, "\" reported with another content"); });
            e.reset();
            Log::ClearConsumers();
        });
    }
} reg_contents;

// many entries, one or many at a time
MC_SCENARIO("C13", "many_entries", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 1000000)
{
    Logger l(mc::choose(2), Log::Info);
    int t = mc::choose(3), batch = mc::choose(2) ? 1 : 64, n = 300;
    std::vector<std::string> got, want;
    Cb cb = [&](Log::Entry e) { mc::Quiet q; got.push_back(e.message); };
    std::unique_ptr<LogEventHandler> e;
    if (t < 2) { e.reset(new LogSevereEventHandler(cb, static_cast<Log::Kind>(t))); Log::SetVerbosity(Log::Info); }
    else e.reset(new LogEventHandler(cb));
    for (int i = 0; i < n; ++i)
    {
        int k = i % 3;
        Log::QueueLog(mc::str("entry ", i), {"f.cpp", i, "fun", "CAT"}, static_cast<Log::Kind>(k));
        if (t == 2 || k <= t) { mc::Quiet q; want.push_back(mc::str("entry ", i)); }
        if (i % batch == 0) LogStub::pump();
    }
    LogStub::pump();
    mc::check(e->event_count() == want.size(), "event count");
    { mc::Quiet q; mc::check(got == want, [&] { return mc::str(want.size(), " entries to report, ", got.size(), " reported, or in another order"); }); }
    e.reset();
    Log::ClearConsumers();
}
// Without a threshold the severe handler reports warnings and errors.
MC_SCENARIO("C13", "severe_by_default", o.budget_quick = 1; o.budget_thorough = 2)
{
    Logger l(mc::choose(2), Log::Info);
    Rec r;
    r.threshold = Log::Warning;
    std::unique_ptr<LogSevereEventHandler> e;
    if (mc::choose(2)) { Log::SetVerbosity(Log::Error); e.reset(new LogSevereEventHandler(r.cb())); mc::check(Log::GetVerbosity() == Log::Warning, "verbosity set by a severe handler"); }
    else e.reset(new LogSevereEventHandler(r.cb()));
    l(0, 1); l(1, 2); l(2, 3); l(1, 4);
    LogStub::pump();
    mc::check(r.n() == 3 && r.has(name(0, 1)) && r.has(name(1, 2)) && r.has(name(1, 4)), [&] { return mc::str("3 severe entries, ", r.n(), " reported"); });
    e.reset();
    r.gone();
    Log::ClearConsumers();
}
