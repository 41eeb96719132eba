// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <cpp_utils/utils.hpp>
#include <cmath>
using namespace eprosima::utils;

namespace {
typedef unsigned __int128 u128;
const struct { const char* name; uint64_t f; } UNITS[] = {
    {"B", 1}, {"KB", 1000}, {"MB", 1000000}, {"GB", 1000000000ull}, {"TB", 1000000000000ull}, {"PB", 1000000000000000ull},
    {"KIB", 1ull << 10}, {"MIB", 1ull << 20}, {"GIB", 1ull << 30}, {"TIB", 1ull << 40}, {"PIB", 1ull << 50}};
//! decimal expansion without leading or trailing zeros
bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
bool digit(char c) { return c >= '0' && c <= '9'; }
//! the exact size, or false when the text must be refused
bool ideal(const std::string& s, uint64_t& out)
{
    size_t p = 0;
    std::string in, fr;
    while (p < s.size() && digit(s[p])) in += s[p++];
    if (in.empty()) return false;
    if (p < s.size() && s[p] == '.')
    {
        ++p;
        while (p < s.size() && digit(s[p])) fr += s[p++];
        if (fr.empty()) return false;
    }
    while (p < s.size() && blank(s[p])) ++p;
    std::string u;
    for (; p < s.size(); ++p) { char c = s[p]; if (c >= 'a' && c <= 'z') c -= 32; if (c < 'A' || c > 'Z') return false; u += c; }
    for (auto& x : UNITS) if (u == x.name)
    {
        const u128 LIM = (u128)1 << 64;
        u128 n = 0;
        for (char c : in) { n = n * 10 + (c - '0'); if (n >= LIM) return false; }
        u128 num = 0, den = 1;
        for (size_t i = 0; i < fr.size() && i < 19; ++i) { num = num * 10 + (fr[i] - '0'); den *= 10; }
        n = n * x.f + num * x.f / den;
        if (n >= LIM) return false;
        out = (uint64_t)n;
        return true;
    }
    return false;
}
void offer(const std::string& s)
{
    en::begin(en::q(s));
    uint64_t want = 0, got = 0;
    bool ok = ideal(s, want), accepted = true;
    try { got = to_bytes(s); } catch (const std::exception&) { accepted = false; }
    if (!mc::check(accepted == ok, ok ? "a byte quantity was refused" : "a text that is no byte quantity, or does not fit, was accepted")) return;
    if (ok) mc::check(got == want, [&] { return mc::str("gave ", got, ", expected ", want); });
}
std::string dec(u128 v) { std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
void back(uint64_t b)
{
    en::begin(mc::str(b, " bytes"));
    std::string got = from_bytes(b);
    if (b == 0) { en::same(got, "0B", "from_bytes"); return; }
    int u = 0;
    while (u < 5 && b >= UNITS[u + 1].f) ++u;
    uint64_t f = UNITS[u].f, n = b / f, r = b % f;
    std::vector<std::string> ok;
    // negligible decimals: less than a hundredth (at exactly a hundredth, and within floating point accuracy of it, either way)
    double eps = 1e-11 * (double)f, edge = (double)f / 100;
    if ((double)r < edge + eps) ok.push_back(dec(n) + UNITS[u].name);
    if ((double)(f - r) < eps) ok.push_back(dec(n + 1) + UNITS[u].name);
    if ((double)r > edge - eps && r)
    {
        // two decimals, correctly rounded; an exact half may go either way
        u128 h = (u128)b * 1000 / f; double off = (double)((u128)b * 100 % f) - (double)f / 2; bool half = off < 1e-9 * (double)f && -off < 1e-9 * (double)f;
        auto two = [&](u128 c) { std::string x = dec(c % 100); return dec(c / 100) + "." + (x.size() < 2 ? "0" : "") + x + UNITS[u].name; };
        u128 c = h / 10;
        if (off >= 0 || half) ok.push_back(two(c + 1));
        if (off < 0 || half) ok.push_back(two(c));
    }
    bool good = false;
    for (auto& x : ok) good = good || x == got;
    mc::check(good, [&] { return "from_bytes gave " + en::q(got) + ", expected " + en::qv(ok); });
}
}
// every short text, by its first character (each conversion compiles a regular expression: slow)
namespace {
const std::string ALPHA = "10. kKbI";
struct Texts { Texts() { for (size_t k = 0; k < ALPHA.size(); ++k) new mc::Registrar("C28", mc::str("texts_", k), mc::Options(), [k] {
    if (!k) offer("");
    en::strings(ALPHA, 0, mc::thorough() ? 5 : 4, [&](const std::string& s) { offer(ALPHA[k] + s); });
}); } } texts;
}
// every unit in every letter case, every shape of number, blanks
namespace {
struct Units { Units() { for (int k = 0; k < 11; ++k) new mc::Registrar("C28", mc::str("units_", UNITS[k].name), mc::Options(), [k] {
    static const char* const NUMS[] = {"0", "1", "7", "0010", "999", "12345", "0.5", "0.001", "1.005", "0.29", "4.35", "2.675", "8.2", "0.999999999999", "123.456789", "3.000000000000001",
        "0.000000000000001", "18446744073709551615", "18446744073709551616", "9007199254740993", "4503599627370497.5", "99999999999999999999999", "1e3", "-1", "+1", " 1", ".5", "1.", "1,5", "0x10", "1.5.5", "", "inf", "nan", "1_000"};
    static const std::string GAPS[] = {"", " ", "  ", "\t", " \t ", "\n", ".", "_", std::string(1, '\0')};
    std::string u = UNITS[k].name;
    for (unsigned m = 0; m < (1u << u.size()); ++m)
    {
        std::string v = u; for (size_t i = 0; i < v.size(); ++i) if (m >> i & 1) v[i] = (char)tolower(v[i]);
        int few = 0;
        for (auto n : NUMS) for (auto& g : GAPS)
        {
            if (!mc::thorough() && m && (few++ + m) % 5) continue;
            offer(n + g + v);
            if (m == 0) { offer(n + g + v + "s"); offer(n + g + v + " "); offer(n + g + v.substr(1)); }
        }
    }
}); } } units;
}
MC_SCENARIO("C28", "no_units") { en::strings("bikmgtpsEZ", 1, mc::thorough() ? 4 : 3, [](const std::string& u) { offer("1" + u); }); }
namespace {
struct Limits { Limits() { for (int k = 0; k < 11; ++k)
{
    new mc::Registrar("C28", mc::str("overflow_", UNITS[k].name), mc::Options(), [k] {
        auto& x = UNITS[k];
        u128 lim = ((u128)1 << 64) / x.f;
        int D = mc::thorough() ? 300 : 12;
        for (int d = -D; d <= D; ++d)
        {
            u128 n = lim + d;
            offer(dec(n) + x.name);
            for (const char* fr : {".0", ".5", ".999", ".000000001", ".551615", ".551616", ".709551615", ".709551616", ".073709551615", ".073709551616", ".744073709551615", ".744073709551616"}) offer(dec(n) + fr + x.name);
        }
        // every power of two and of ten
        for (int i = 0; i < 70; ++i) for (int d = -1; d <= 1; ++d) { u128 n = ((u128)1 << i); offer(dec(n + d) + x.name); }
        std::string t = "1"; for (int i = 0; i < 40; ++i, t += "0") { offer(t + x.name); offer(t + ".5" + x.name); }
        for (int len = 1; len < 300; len += mc::thorough() ? 13 : 57) { offer(std::string(len, '9') + x.name); offer("0." + std::string(len, '0') + "1" + x.name); offer("1." + std::string(len, '9') + x.name); offer(std::string(len, '0') + "1" + x.name); }
    });
    // every number of thousandths of each unit
    new mc::Registrar("C28", mc::str("fractions_", UNITS[k].name), mc::Options(), [k] {
        for (int n = 0; n < (mc::thorough() ? 20000 : 2000); ++n)
        {
            std::string f = std::to_string(n % 1000); f = std::string(3 - f.size(), '0') + f;
            offer(std::to_string(n / 1000) + "." + f + UNITS[k].name);
        }
    });
} } } limits;
}
MC_SCENARIO("C28", "from_bytes")
{
    uint64_t K = mc::thorough() ? 6000000 : 300000;
    for (uint64_t b = 0; b < K; ++b) back(b);
    for (int u = 1; u < 6; ++u)
    {
        uint64_t f = UNITS[u].f;
        for (uint64_t m : {1ull, 2ull, 3ull, 9ull, 10ull, 99ull, 100ull, 500ull, 999ull, 1000ull, 18446ull})
        {
            u128 base = (u128)f * m; if (base > (((u128)1) << 64) - 1) continue;
            for (int h = 0; h <= 100; ++h) for (int d = -20; d <= 20; ++d)
            {
                u128 v = base + f / 100 * h + d;
                if (v < ((u128)1 << 64)) back((uint64_t)v);
                v = base + f / 200 * (2 * h + 1) + d;
                if (v < ((u128)1 << 64)) back((uint64_t)v);
            }
        }
    }
    for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) back((1ull << k) + d);
    for (uint64_t d = 0; d < 1000; ++d) back(~0ull - d);
}
