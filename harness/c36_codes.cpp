// engine: seq
// sources: Formatter exception/Exception ReturnCode
#include "enum.hpp"
#include <iomanip>
#include <limits>
#include <sstream>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
using namespace eprosima::utils;
namespace dds = eprosima::fastdds::dds;

namespace {
typedef ReturnCode::ReturnCodeValue V;
const V CODES[] = {ReturnCode::RETCODE_OK, ReturnCode::RETCODE_ERROR, ReturnCode::RETCODE_UNKNOWN, ReturnCode::RETCODE_NO_DATA, ReturnCode::RETCODE_NOT_ENABLED, ReturnCode::RETCODE_PRECONDITION_NOT_MET};
const char* const NAMES[] = {"Ok", "Error", "Unknown", "NoData", "NotEnabled", "PreconditionNotMet"};
V ideal(dds::ReturnCode_t c)
{
    if (c == dds::RETCODE_OK) return ReturnCode::RETCODE_OK;
    if (c == dds::RETCODE_NO_DATA) return ReturnCode::RETCODE_NO_DATA;
    if (c == dds::RETCODE_NOT_ENABLED) return ReturnCode::RETCODE_NOT_ENABLED;
    if (c == dds::RETCODE_PRECONDITION_NOT_MET) return ReturnCode::RETCODE_PRECONDITION_NOT_MET;
    if (c > 0 && c <= dds::RETCODE_ILLEGAL_OPERATION) return ReturnCode::RETCODE_ERROR;
    return ReturnCode::RETCODE_UNKNOWN;
}
void one(const ReturnCode& c, V v)
{
    mc::check(c() == (std::uint32_t)v, [&] { return mc::str("code ", c(), ", expected ", v); });
    std::ostringstream os; os << c << "," << c;
    en::same(os.str(), mc::str("{", NAMES[v], "},{", NAMES[v], "}"), "operator<<");
    mc::check((!c) == (v != ReturnCode::RETCODE_OK), "operator!");
    for (V w : CODES)
    {
        const ReturnCode d(w);
        mc::check((c == w) == (v == w) && (w == c) == (v == w) && (c != w) == (v != w) && (w != c) == (v != w), "comparison with a value");
        mc::check((c == d) == (v == w) && (d == c) == (v == w) && (c != d) == (v != w) && (c < d) == (v < w) && (d < c) == (w < v), "comparison");
    }
}
}
MC_SCENARIO("C36", "return_codes")
{
    en::begin("default"); one(ReturnCode(), ReturnCode::RETCODE_OK);
    for (int i = 0; i < 6; ++i)
    {
        en::begin(mc::str("value ", i));
        mc::check((int)CODES[i] == i, "number");
        one(ReturnCode(CODES[i]), CODES[i]);
        for (V w : CODES) { ReturnCode c(w), d(CODES[i]); c = d; one(c, CODES[i]); c = w; one(c, w); one(d, CODES[i]); }
    }
}
MC_SCENARIO("C36", "return_codes_of_the_middleware")
{
    auto offer = [&](dds::ReturnCode_t x) { en::begin(mc::str("middleware code ", x)); ReturnCode c(x); mc::check(c == ideal(x), [&] { return mc::str("mapped to ", c()); });
        if ((x >= -20 && x < 1100) || x % 97 == 0) { one(c, ideal(x)); ReturnCode d(ReturnCode::RETCODE_ERROR); d = x; one(d, ideal(x)); } };
    int n = mc::thorough() ? 2000000 : 40000;
    for (int x = -n; x <= n; ++x) offer(x);
    for (int k = 0; k < 31; ++k) for (int d = -2; d <= 2; ++d) { offer((1 << k) + d); offer(-(1 << k) + d); }
    offer(std::numeric_limits<int>::max()); offer(std::numeric_limits<int>::min());
}

// -------------------------------------------------------------------------------------------- exceptions
namespace {
template <typename E, typename Other>
void exception_with(const std::string& text)
{
    const std::string want = text.c_str();
    for (int how = 0; how < 3; ++how)
    {
        en::begin(mc::str("exception ", how, " ", en::q(text)));
        Formatter f; f << text;
        E* e = how == 0 ? new E(text.c_str()) : how == 1 ? new E(text) : new E(f);
        E copy(*e), assigned("something else"); assigned = *e;
        mc::check(e->what() == want, "what");
        delete e;
        mc::check(copy.what() == want && assigned.what() == want, "copies");
        int caught = 0;
        try { throw copy; } catch (const Other&) { caught = 100; } catch (const E& x) { caught += x.what() == want; }
        try { throw copy; } catch (const Exception& x) { caught += x.what() == want && typeid(x) == typeid(E); }
        try { throw copy; } catch (const std::exception& x) { caught += x.what() == want; }
        mc::check(caught == 3, "caught as its type and its bases, with its text");
    }
}
struct None {};
template <typename E, typename Other>
void exceptions()
{
    const int max = mc::thorough() ? 5 : 3;
    en::strings("aZ %\n", 0, max, [&](const std::string& s) { exception_with<E, Other>(s); });
    for (size_t n : {14, 15, 16, 17, 31, 32, 255, 4096}) exception_with<E, Other>(std::string(n, 'x') + "y");
}
}
MC_SCENARIO("C36", "exception") { exceptions<Exception, None>(); }
MC_SCENARIO("C36", "exception_configuration") { exceptions<ConfigurationException, DNSException>(); }
MC_SCENARIO("C36", "exception_dns") { exceptions<DNSException, DisabledException>(); }
MC_SCENARIO("C36", "exception_disabled") { exceptions<DisabledException, TimeoutException>(); }
MC_SCENARIO("C36", "exception_inconsistency") { exceptions<InconsistencyException, InitializationException>(); }
MC_SCENARIO("C36", "exception_initialization") { exceptions<InitializationException, ConfigurationException>(); }
MC_SCENARIO("C36", "exception_precondition") { exceptions<PreconditionNotMet, ValueNotAllowedException>(); }
MC_SCENARIO("C36", "exception_timeout") { exceptions<TimeoutException, DisabledException>(); }
MC_SCENARIO("C36", "exception_unsupported") { exceptions<UnsupportedException, ValueAccessException>(); }
MC_SCENARIO("C36", "exception_access") { exceptions<ValueAccessException, ValueNotAllowedException>(); }
MC_SCENARIO("C36", "exception_not_allowed") { exceptions<ValueNotAllowedException, ValueAccessException>(); }

// --------------------------------------------------------------------------------------------- formatter
namespace {
struct Point { int x, y; };
std::ostream& operator<<(std::ostream& os, const Point& p) { return os << "(" << p.x << ";" << p.y << ")"; }
void piece(int op, Formatter& f, std::string& s, bool& hex)
{
    switch (op)
    {
        case 0: f << "text"; s += "text"; break;
        case 1: f << std::string(40, 's'); s += std::string(40, 's'); break;
        case 2: f << ""; f << std::string(); break;
        case 3: f << 'c'; s += 'c'; break;
        case 4: f << 43; s += hex ? "2b" : "43"; break;
        case 5: f << 255u; s += hex ? "ff" : "255"; break;
        case 6: f << 2.5; s += "2.5"; break;
        case 7: f << true << false; s += "10"; break;
        case 8: f << Point{3, 4}; s += "(3;4)"; break;
        case 9: { Formatter g; g << "in" << 1 << "ner"; f << g; s += "in1ner"; break; }
        case 10: f << std::hex; hex = true; break;
        case 11: f << std::dec; hex = false; break;
        case 12: f << std::string("a\0b", 3); s += std::string("a\0b", 3); break;
        case 13: f << '\n' << " \t"; s += "\n \t"; break;
        case 14: f << std::numeric_limits<unsigned long long>::max(); s += hex ? "ffffffffffffffff" : "18446744073709551615"; break;
        case 15: { std::string was = f; if (was != s) mc::fail("the text so far"); f << was; s += s; break; }   // its own text
    }
}
}
MC_SCENARIO("C36", "formatter")
{
    en::sequences(16, 0, mc::thorough() ? 6 : 5, [&](const std::vector<int>& v) {
        if (v.size() < 4) en::begin(en::q(v)); else mc::count("cases");
        Formatter f; std::string s; bool hex = false;
        for (int op : v) piece(op, f, s, hex);
        std::string conv = f;
        if (f.to_string() != s || conv != s) { mc::ctx(en::q(v)); en::same(f.to_string(), s, "text"); en::same(conv, s, "conversion"); }
        if (v.size() < 4) { std::ostringstream os; os << "<" << f << ">"; en::same(os.str(), "<" + s + ">", "operator<<"); en::same(std::string(STR_ENTRY << f << s), s + s, "in place"); }
    });
}

MC_SCENARIO("C36", "formatter_long")
{
    // long texts: each single piece repeated, and each pair in turn
    for (int a = 0; a < 15; ++a) for (int b = 0; b < 15; ++b) for (int n : {50, 300})
    {
        en::begin(mc::str("pieces ", a, " and ", b, ", ", n, " times"));
        Formatter f; std::string s; bool hex = false;
        for (int i = 0; i < n; ++i) { piece(a, f, s, hex); piece(b, f, s, hex); }
        std::string conv = f;
        mc::check(f.to_string() == s && conv == s, "text");
        std::ostringstream os; os << f << f; mc::check(os.str() == s + s, "operator<<");
        Exception e(f); mc::check(std::string(e.what()) == s.c_str(), "as the text of an exception");
    }
    for (size_t n : {1023, 1024, 1025, 4095, 4096, 65536, 200000})
    {
        en::begin(mc::str(n, " characters"));
        std::string s(n, 'x'); s += 'y';
        mc::check(std::string(Formatter() << s << 1) == s + "1" && std::string(Formatter() << s.c_str() << "|" << s) == s + "|" + s, "text");
        mc::check(std::string(InitializationException(Formatter() << s).what()) == s && std::string(Exception(s.c_str()).what()) == s, "as the text of an exception");
    }
}
