// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/logging/LogEventHandler event/logging/LogSevereEventHandler event/logging/LogConsumerConnection logging/BaseLogConfiguration logging/BaseLogConsumer logging/StdLogConsumer testing/LogChecker wait/CounterWaitHandler wait/IntWaitHandler
#include "enum.hpp"
#include <sstream>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>
#include <cpp_utils/testing/LogChecker.hpp>
using namespace eprosima::utils;
using Stub = eprosima::fastdds::dds::LogStub;

namespace {

struct Acc : BaseLogConsumer
{
    Acc(const BaseLogConfiguration* c) : BaseLogConsumer(c) {}
    void Consume(const Log::Entry&) override {}
    bool accept(const Log::Entry& e) { return accept_entry_(e); }
};
bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
struct Re { const char* text; bool (*m)(const std::string&); };
const Re RES[] = {
    {"", [](const std::string&) { return true; }},
    {"a", [](const std::string& s) { return has(s, "a"); }},
    {"ab", [](const std::string& s) { return has(s, "ab"); }},
    {"^b", [](const std::string& s) { return !s.empty() && s[0] == 'b'; }},
    {"a$", [](const std::string& s) { return !s.empty() && s.back() == 'a'; }},
    {"^a$", [](const std::string& s) { return s == "a"; }},
    {"a|bb", [](const std::string& s) { return has(s, "a") || has(s, "bb"); }},
    {"c", [](const std::string& s) { return has(s, "c"); }},
    {"A", [](const std::string& s) { return has(s, "A"); }},
    {"b.*b", [](const std::string& s) { return s.find('b') != s.rfind('b'); }},
};
const int NRE = sizeof RES / sizeof *RES;
const Log::Kind KINDS[] = {Log::Error, Log::Warning, Log::Info};

BaseLogConfiguration conf(int verbosity, int fe, int fw, int fi)
{
    BaseLogConfiguration c;
    c.verbosity = Fuzzy<VerbosityKind>(KINDS[verbosity]);
    c.filter[Log::Error] = Fuzzy<std::string>(RES[fe].text);
    c.filter[Log::Warning] = Fuzzy<std::string>(RES[fw].text);
    c.filter[Log::Info] = Fuzzy<std::string>(RES[fi].text);
    return c;
}
Log::Entry entry(Log::Kind k, const std::string& cat, const std::string& msg)
{
    return Log::Entry{msg, Log::Context{"file.cpp", 7, "fun", cat.c_str()}, k, "2024-01-01 00:00:00.000"};
}
struct Capture
{
    std::ostringstream o, e; std::streambuf* bo, * be;
    Capture() : bo(std::cout.rdbuf(o.rdbuf())), be(std::cerr.rdbuf(e.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(bo); std::cerr.rdbuf(be); }
};
}

MC_SCENARIO("C14", "acceptance")
{
    // every verbosity, filter of the kind, filter of the other kinds, category and message
    int L = mc::thorough() ? 4 : 3;
    std::vector<std::string> texts;
    en::strings("ab", 0, L, [&](const std::string& s) { texts.push_back(s); });
    texts.push_back("A"); texts.push_back("c");
    for (int v = 0; v < 3; ++v) for (int f = 0; f < NRE; ++f) for (int o = 0; o < (mc::thorough() ? NRE : 2); ++o) for (int k = 0; k < 3; ++k)
    {
        int other = o == 0 ? 0 : o == 1 ? 7 : o;
        auto c = conf(v, k == 0 ? f : other, k == 1 ? f : other, k == 2 ? f : other);
        Acc a(&c);
        // the consumer keeps the configuration it was built with
        c = conf(0, 7, 7, 7);
        // with equal filters of kind and of category a long product adds nothing: all texts against a few others
        for (auto& cat : texts) for (auto& msg : texts)
        {
            if (cat.size() > 2 && msg.size() > 2) continue;
            en::begin(mc::str("verbosity ", v, " kind ", k, " filter ", en::q(RES[f].text), " others ", en::q(RES[other].text), " category ", en::q(cat), " message ", en::q(msg)));
            bool want = k <= v && (RES[f].m(cat) || RES[f].m(msg));
            en::same(a.accept(entry(KINDS[k], cat, msg)), want, "accepted");
        }
    }
}
MC_SCENARIO("C14", "standard_consumer")
{
    for (int v = 0; v < 3; ++v) en::tuples(3, 3, [&](const std::vector<int>& fs)
    {
        static const int F[] = {0, 1, 7};
        auto c = conf(v, F[fs[0]], F[fs[1]], F[fs[2]]);
        StdLogConsumer s(&c);
        for (int k = 0; k < 3; ++k) for (const char* cat : {"a", "b"}) for (const std::string& msg : {std::string("xay"), std::string("zbz"), std::string("multi\nline"), std::string(5000, 'x') + "a"})
        {
            en::begin(mc::str("verbosity ", v, " filters ", en::q(fs), " kind ", k, " category ", cat, " message ", en::q(msg)));
            Capture cap;
            s.Consume(entry(KINDS[k], cat, msg));
            std::string out = cap.o.str(), err = cap.e.str();
            const Re& re = RES[F[fs[k]]];
            bool want = k <= v && (re.m(cat) || re.m(msg));
            mc::check((want && k == 2) == !out.empty(), [&] { return "standard output: " + en::q(out); });
            mc::check((want && k < 2) == !err.empty(), [&] { return "standard error: " + en::q(err); });
            std::string t = out + err;
            if (want)
            {
                size_t p = t.find(msg);
                mc::check(p != std::string::npos && t.find(msg, p + 1) == std::string::npos, [&] { return "the message is not there once: " + en::q(t); });
                mc::check(has(t, (std::string("[") + cat + " ").c_str()), [&] { return "the category is not there: " + en::q(t); });
                mc::check(t.back() == '\n', "no end of line");
                mc::check(has(t, "2024-01-01 00:00:00.000") && has(t, "fun"), [&] { return "the time or the function is not there: " + en::q(t); });
            }
        }
    });
}
MC_SCENARIO("C14", "stream_of_entries")
{
    // one consumer, sequences of entries: each is judged alone, accepted ones come out in order
    auto c = conf(1, 0, 1, 0);
    int D = mc::thorough() ? 5 : 4;
    en::tuples(6, D, [&](const std::vector<int>& v)
    {
        en::begin("entries " + en::q(v));
        Capture cap;
        StdLogConsumer s(&c);
        std::vector<std::string> want;
        for (int i = 0; i < D; ++i)
        {
            int k = v[i] / 2; std::string msg = mc::str(v[i] % 2 ? "a" : "b", "#", i, "#");
            s.Consume(entry(KINDS[k], "x", msg));
            if (k == 0 || (k == 1 && v[i] % 2)) want.push_back(msg);
        }
        mc::check(cap.o.str().empty(), "standard output used for errors or warnings");
        std::string t = cap.e.str();
        size_t p = 0, n = 0;
        for (auto& w : want) { p = t.find(w, p); mc::check(p != std::string::npos, [&] { return "missing or out of order: " + w + " in " + en::q(t); }); }
        for (char ch : t) n += ch == '\n';
        en::same(n, want.size(), "lines written");
    });
}
MC_SCENARIO("C14", "default_configuration")
{
    en::begin("default");
    BaseLogConfiguration c; Formatter f;
    mc::check(c.is_valid(f), "the default configuration is not valid");
    en::same((int)c.verbosity.get_value(), (int)Log::Warning, "default verbosity");
    for (auto k : KINDS) en::same(c.filter.at(k).get_value(), "", "default filter");
    Acc a(&c);
    for (int k = 0; k < 3; ++k) en::same(a.accept(entry(KINDS[k], "any", "thing")), k <= 1, "default acceptance");
}
MC_SCENARIO("C14", "verbosity_precedence")
{
    // every sequence of verbosity writes at every level
    static const short LV[] = {-20, -1, 0, 1, 20, 40, 41, 60};
    int NL = 8, D = mc::thorough() ? 4 : 3;
    en::tuples(3 * NL, D, [&](const std::vector<int>& v)
    {
        if (mc::thorough() && D == 4 && (v[0] % 3)) return;
        en::begin("verbosity writes (kind + 3 * level) " + en::q(v));
        BaseLogConfiguration c; int val = Log::Warning; short lev = 0;
        auto filters = c.filter;
        for (int x : v)
        {
            c.set(Fuzzy<VerbosityKind>(KINDS[x % 3], LV[x / 3]));
            if (LV[x / 3] >= lev) { val = KINDS[x % 3]; lev = LV[x / 3]; }
            mc::check((int)c.verbosity.get_value() == val && c.verbosity.get_level() == lev, [&] { return mc::str("verbosity ", (int)c.verbosity.get_value(), " level ", c.verbosity.get_level(), ", expected ", val, " level ", lev); });
        }
        for (auto k : KINDS) mc::check(c.filter.at(k).get_value() == "" && c.filter.at(k).get_level() == 0, "a verbosity write changed a filter");
        mc::count("ops", D);
    });
}
MC_SCENARIO("C14", "filter_precedence")
{
    // every sequence of two or three filter writes, each kind with its own level
    static const short LV[] = {-20, 0, 20, 40, 60};
    int NL = mc::thorough() ? 5 : 4;
    int N = NL * NL * NL;
    en::tuples(N, 2, [&](const std::vector<int>& v)
    {
        en::begin("filter writes (level per kind) " + en::q(v));
        BaseLogConfiguration c; std::string val[3]; short lev[3] = {0, 0, 0};
        int i = 0;
        for (int x : v)
        {
            LogFilter f; int l[3] = {x % NL, x / NL % NL, x / NL / NL};
            for (int k = 0; k < 3; ++k)
            {
                std::string t = mc::str("f", i, k);
                f[KINDS[k]] = Fuzzy<std::string>(t, LV[l[k]]);
                if (LV[l[k]] >= lev[k]) { val[k] = t; lev[k] = LV[l[k]]; }
            }
            c.set(f);
            for (int k = 0; k < 3; ++k) mc::check(c.filter.at(KINDS[k]).get_value() == val[k] && c.filter.at(KINDS[k]).get_level() == lev[k],
                [&] { return mc::str("filter of kind ", k, ": ", c.filter.at(KINDS[k]).get_value(), " level ", c.filter.at(KINDS[k]).get_level(), ", expected ", val[k], " level ", lev[k]); });
            ++i;
        }
        mc::check(c.verbosity.get_value() == Log::Warning && c.verbosity.get_level() == 0, "a filter write changed the verbosity");
        mc::count("ops", 2);
    });
}
MC_SCENARIO("C14", "checker")
{
    int M = mc::thorough() ? 4 : 3;
    for (int th = 0; th < 3; ++th) for (int mode = 0; mode < 2; ++mode) for (int ex = 0; ex <= M; ++ex) for (int mx = 0; mx <= M; ++mx)
        en::tuples(3, M, [&](const std::vector<int>& kinds)
        {
            for (int n = 0; n <= M; ++n)
            {
                if (n < M && kinds[n]) continue;   // each prefix once
                en::begin(mc::str("threshold ", th, " expected ", ex, " max ", mx, " queued ", mode, " first ", n, " of kinds ", en::q(kinds)));
                Stub::fresh(mode); Log::SetVerbosity(Log::Info);
                testing::LogChecker c(KINDS[th], ex, mx);
                int severe = 0;
                for (int i = 0; i < n; ++i)
                {
                    Log::QueueLog("m", Log::Context{"f", 1, "g", "CAT"}, KINDS[kinds[i]]);
                    severe += kinds[i] <= th;
                }
                bool want = severe >= ex && severe <= std::max(mx, ex);
                en::same(c.check_valid(), want, "check_valid");
                en::same(c.check_valid(), want, "check_valid asked again");
                Log::QueueLog("m", Log::Context{"f", 1, "g", "CAT"}, Log::Error);
                ++severe;
                en::same(c.check_valid(), severe >= ex && severe <= std::max(mx, ex), "check_valid after one more entry");
            }
        });
    // without arguments: no warning and no error
    en::tuples(3, M, [&](const std::vector<int>& kinds)
    {
        en::begin(mc::str("default checker, kinds ", en::q(kinds)));
        Stub::fresh(false); Log::SetVerbosity(Log::Info);
        testing::LogChecker d;
        bool want = true;
        for (int k : kinds)
        {
            Log::QueueLog("m", Log::Context{"f", 1, "g", "CAT"}, KINDS[k]);
            want &= KINDS[k] == Log::Info;
            en::same(d.check_valid(), want, "check_valid");
        }
    });
    Stub::fresh(false);
}
