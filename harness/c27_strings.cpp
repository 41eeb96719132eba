// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <cctype>
#include <limits>
#include <cpp_utils/utils.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
using namespace eprosima::utils;

namespace {
typedef std::vector<std::string> Strs;
// References, character by character
bool at(const std::string& s, size_t i, const std::string& p)
{
    if (i + p.size() > s.size()) return false;
    for (size_t k = 0; k < p.size(); ++k) if (s[i + k] != p[k]) return false;
    return true;
}
Strs split(const std::string& s, const std::string& d)
{
    Strs out{""};
    for (size_t i = 0; i < s.size();)
        if (!d.empty() && at(s, i, d)) { out.push_back(""); i += d.size(); }
        else out.back() += s[i++];
    return out;
}
std::string join(const Strs& v, const std::string& d)
{
    std::string o;
    for (size_t i = 0; i < v.size(); ++i) o += (i ? d : "") + v[i];
    return o;
}
unsigned replace(std::string& s, const std::string& p, const std::string& r)
{
    std::string o; unsigned n = 0;
    for (size_t i = 0; i < s.size();)
        if (!p.empty() && at(s, i, p)) { o += r; i += p.size(); ++n; }
        else o += s[i++];
    s = o;
    return n;
}
bool first(std::string& s, const std::string& p, const std::string& r)
{
    for (size_t i = 0; i + p.size() <= s.size(); ++i) if (at(s, i, p)) { s = s.substr(0, i) + r + s.substr(i + p.size()); return true; }
    return false;
}
bool same_list(const Strs& got, const Strs& want, const char* what)
{
    return mc::check(got == want, [&] { return std::string(what) + ": got " + en::qv(got) + ", expected " + en::qv(want); });
}
}

MC_SCENARIO("C27", "split")
{
    int S = mc::thorough() ? 10 : 8;
    std::vector<std::string> delims;
    en::strings("ab,", 0, 3, [&](const std::string& d) { delims.push_back(d); });
    en::strings("ab,", 0, S, [&](const std::string& s) {
        for (auto& d : delims)
        {
            en::begin(en::q(s) + " by " + en::q(d));
            Strs got = split_string(s, d);
            if (!same_list(got, split(s, d), "split_string")) return;
            mc::check(join(got, d) == s, "joining the pieces does not give the text back");
        }
    });
}
MC_SCENARIO("C27", "split_lists_and_sets")
{
    Strs pool; en::strings("ab", 0, 2, [&](const std::string& s) { pool.push_back(s); });
    pool.push_back("aba"); pool.push_back("abab");
    Strs delims; en::strings("ab", 0, 2, [&](const std::string& s) { delims.push_back(s); });
    en::sequences((int)pool.size(), 0, mc::thorough() ? 4 : 3, [&](const std::vector<int>& v) {
        Strs src; for (int i : v) src.push_back(pool[i]);
        for (auto& d : delims)
        {
            en::begin(en::qv(src) + " by " + en::q(d));
            Strs want; for (auto& s : src) for (auto& p : split(s, d)) want.push_back(p);
            same_list(split_string(src, d), want, "split_string of a list");
        }
    });
    // sets of delimiters: all subsets of up to three of them, every text
    for (unsigned m = 0; m < (1u << delims.size()); ++m)
    {
        std::set<std::string> ds; for (size_t i = 0; i < delims.size(); ++i) if (m >> i & 1) ds.insert(delims[i]);
        if (ds.size() > 3) continue;
        en::strings("abc", 0, mc::thorough() ? 8 : 6, [&](const std::string& s) {
            en::begin(en::q(s) + " by " + en::qv(ds));
            Strs want{s};
            for (auto& d : ds) { Strs n; for (auto& x : want) for (auto& p : split(x, d)) n.push_back(p); want = n; }
            same_list(split_string(s, ds), want, "split_string by a set");
        });
    }
}
MC_SCENARIO("C27", "replace")
{
    Strs pats, reps;
    en::strings("ab", 0, 3, [&](const std::string& s) { pats.push_back(s); reps.push_back(s); });
    reps.push_back("aaaa"); reps.push_back("c"); reps.push_back("bacab");
    en::strings("abc", 0, mc::thorough() ? 8 : 6, [&](const std::string& s) {
        for (auto& p : pats) for (auto& r : reps)
        {
            en::begin(en::q(s) + " replace " + en::q(p) + " by " + en::q(r));
            std::string x = s, w = s;
            unsigned n = replace_all(x, p, r), m = replace(w, p, r);
            en::same(x, w, "replace_all");
            mc::check(n == m, [&] { return mc::str("replace_all counted ", n, " replacements, expected ", m); });
            x = w = s;
            bool a = replace_first(x, p, r), b = first(w, p, r);
            en::same(x, w, "replace_first");
            mc::check(a == b, "replace_first result");
        }
    });
}
MC_SCENARIO("C27", "very_many")
{
    // tens of thousands of occurrences, parts, characters
    for (unsigned n : {255u, 256u, 32768u, 65535u, 65537u, 70000u})
    {
        en::begin(mc::str(n, " occurrences"));
        std::string x, w; for (unsigned i = 0; i < n; ++i) { x += "a;"; w += "bcd;"; }
        std::string y = x;
        mc::check(replace_all(y, "a", "bcd") == n, "replace_all count"); mc::check(y == w, "replace_all");
        auto parts = split_string(x, ";");
        mc::check(parts.size() == n + 1 && parts[n - 1] == "a" && parts[n].empty() && parts[0] == "a", "split_string");
        y = x; to_uppercase(y); mc::check(y.size() == x.size() && y[2 * n - 2] == 'A' && y[0] == 'A', "to_uppercase");
        to_lowercase(y); mc::check(y == x, "to_lowercase");
    }
}
MC_SCENARIO("C27", "very_long")
{
    // long texts between, before and after what is looked for
    for (size_t n : {255u, 256u, 1023u, 1025u, 4097u, 65536u, 70001u}) for (size_t m : {0u, 1u, 1500u, 66000u})
    {
        en::begin(mc::str("parts of ", n, " and ", m, " characters"));
        std::string a, b; for (size_t i = 0; i < n; ++i) a += (char)('a' + i % 23); for (size_t i = 0; i < m; ++i) b += (char)('A' + i % 21);
        auto parts = split_string(a + ";" + b + ";" + a, ";");
        mc::check(parts == std::vector<std::string>({a, b, a}), "split_string");
        parts = split_string(a + b + a, a);
        mc::check(parts == std::vector<std::string>({"", b, ""}), "split_string by a long separator");
        std::string x = a + "\x01" + b + "\x01";
        mc::check(replace_all(x, "\x01", b) == 2, "replace_all count"); mc::check(x == a + b + b + b, "replace_all");
        x = b + "\x01" + a; mc::check(replace_first(x, "\x01", a), "replace_first"); mc::check(x == b + a + a, "replace_first");
        x = "<" + a + ">"; mc::check(replace_all(x, a, b) == 1, "replace_all of a long text"); mc::check(x == "<" + b + ">", "replace_all of a long text");
        x = a; to_uppercase(x); std::string w; for (char c : a) w += (char)(c - 32); mc::check(x == w, "to_uppercase");
        to_lowercase(x); mc::check(x == a, "to_lowercase");
    }
    for (int n : {20, 63, 65, 127, 129, 255, 257, 1000, 4096})
        for (int v : {0, 7, 123456})
        {
            en::begin(mc::str(v, " with ", n, " digits"));
            std::string d = std::to_string(v);
            en::same(number_trailing_zeros_format(v, n), std::string(n - d.size(), '0') + d, "number_trailing_zeros_format");
        }
}
MC_SCENARIO("C27", "replace_self")
{
    // the text itself, or a part of it, as pattern or replacement
    en::strings("ab", 0, mc::thorough() ? 8 : 6, [&](const std::string& s) {
        en::begin(en::q(s) + " by itself");
        std::string x = s, p = s;
        mc::check(replace_all(x, p, s + s) == (s.empty() ? 0u : 1u), "count"); en::same(x, s.empty() ? "" : s + s, "replace_all");
        x = s; mc::check(replace_all(x, x + "a", "b") == 0u, "longer pattern"); en::same(x, s, "replace_all");
        mc::check(!replace_first(x, x + "b", ""), "longer pattern"); en::same(x, s, "replace_first");
    });
}
MC_SCENARIO("C27", "strip")
{
    Strs pool; en::strings("ab\n", 1, 2, [&](const std::string& s) { pool.push_back(s); });
    std::vector<std::set<std::string>> sets{{}, {""}, {"", "a"}};
    for (size_t i = 0; i < pool.size(); ++i) for (size_t j = i; j < pool.size(); ++j) sets.push_back({pool[i], pool[j]});
    en::strings("ab\n\r", 0, mc::thorough() ? 7 : 5, [&](const std::string& s) {
        en::begin(en::q(s) + " stripped");
        std::string x = s, w = s;
        unsigned n = strip_str(x), m = replace(w, "\n", "") + replace(w, "\r", "");
        en::same(x, w, "strip_str"); mc::check(n == m, "strip_str count");
        for (auto& set : sets) for (const char* r : {"", "c", "a"})
        {
            en::begin(en::q(s) + " without " + en::qv(set) + " replaced by " + r);
            x = w = s; m = 0;
            n = strip_str(x, r, set);
            for (auto& u : set) m += replace(w, u, r);
            en::same(x, w, "strip_str"); mc::check(n == m, "strip_str count");
        }
    });
}
MC_SCENARIO("C27", "case_change")
{
    auto one = [&](const std::string& s) {
        en::begin(en::q(s));
        std::string lo = s, up = s, wl = s, wu = s;
        to_lowercase(lo); to_uppercase(up);
        for (char& c : wl) if (c >= 'A' && c <= 'Z') c += 32;
        for (char& c : wu) if (c >= 'a' && c <= 'z') c -= 32;
        en::same(lo, wl, "to_lowercase"); en::same(up, wu, "to_uppercase");
    };
    for (int a = 0; a < 256; ++a) { one(std::string(1, (char)a)); for (int b = 0; b < 256; ++b) one(std::string{(char)a, (char)b}); }
    en::strings("aAzZ@[`{5", 0, mc::thorough() ? 6 : 5, one);
}
MC_SCENARIO("C27", "number_format")
{
    auto ideal = [](long long v, unsigned n) {
        std::string d; unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v;
        do { d.insert(d.begin(), (char)('0' + u % 10)); u /= 10; } while (u);
        std::string sign = v < 0 ? "-" : "";
        while (sign.size() + d.size() < n) d.insert(d.begin(), '0');
        return sign + d;
    };
    auto one = [&](int v, unsigned n) {
        en::begin(mc::str(v, " in ", n, " characters"));
        std::string w = ideal(v, n);
        en::same(number_trailing_zeros_format(v, n), w, "number_trailing_zeros_format");
        en::same(number_trailing_zeros_format(v, n, true), w, "number_trailing_zeros_format, allowing more");
        if (w.size() > n && !(n == 0 && v == 0))
            mc::check(en::throws<PreconditionNotMet>([&] { number_trailing_zeros_format(v, n, false); }), "a number that does not fit was accepted");
        else if (w.size() <= n)
            en::same(number_trailing_zeros_format(v, n, false), w, "number_trailing_zeros_format, not allowing more");
    };
    int K = mc::thorough() ? 200000 : 12000;
    for (int v = -K; v <= K; ++v) for (unsigned n = 0; n < 8; ++n) one(v, n);
    for (long long p = 1; p <= 1000000000; p *= 10) for (int d = -2; d <= 2; ++d) for (int s : {1, -1}) for (unsigned n = 0; n < 16; ++n) one((int)(s * (p + d)), n);
    for (int v : {std::numeric_limits<int>::max(), std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::min(), std::numeric_limits<int>::min() + 1, -2000000000, 2000000000})
        for (unsigned n = 0; n < 40; ++n) one(v, n);
}

MC_SCENARIO("C27", "long_texts")
{
    // texts, patterns, replacements and lists far longer than the exhaustive ones
    for (int n : {15, 16, 17, 63, 64, 255, 256, 1000, 4096, 70000}) for (const char* d : {",", "ab", "aab", "aaaaaaaaaaaaaaaaaaaaaab"}) for (int step : {1, 3, 10, 97, 100000})
    {
        en::begin(mc::str("text of ", n, ", ", d, " every ", step));
        std::string t; int pieces = 0;
        while ((int)t.size() < n) { t += "aa"[pieces & 1]; if (++pieces % step == 0) t += d; }
        same_list(split_string(t, d), split(t, d), "split_string");
        for (const std::string& r : {std::string(), std::string("x"), std::string("b") + d + d, std::string(300, 'y')})
        {
            if ((double)n / step * r.size() > 3e6) continue;
            std::string x = t, w = t;
            unsigned k = replace_all(x, d, r), m = replace(w, d, r);
            mc::check(x == w && k == m, "replace_all");
            x = w = t;
            mc::check(replace_first(x, d, r) == first(w, d, r) && x == w, "replace_first");
            x = w = t + "\r\n";
            k = strip_str(x, r, {"\n", d}); m = replace(w, "\n", r) + replace(w, d, r);
            if (r.empty() || r == "x" || r.size() > 200) mc::check(x == w && k == m, "strip_str");
        }
        std::string lo = t + "Zz", up = t + "Zz", wl = lo, wu = up;
        to_lowercase(lo); to_uppercase(up);
        for (char& c : wl) if (c >= 'A' && c <= 'Z') c += 32;
        for (char& c : wu) if (c >= 'a' && c <= 'z') c -= 32;
        mc::check(lo == wl && up == wu, "case change");
    }
}
