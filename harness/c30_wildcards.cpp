// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;

namespace {
//! reads a bracket set at p[i] == '['; false when it is not one (no closing bracket)
bool set_at(const std::string& p, size_t i, std::set<char>& chars, bool& neg, size_t& end)
{
    size_t k = i + 1;
    neg = k < p.size() && (p[k] == '!' || p[k] == '^');
    if (neg) ++k;
    size_t b = k;
    for (;; )
    {
        if (k >= p.size()) return false;
        if (p[k] == ']' && k > b) { end = k + 1; return true; }
        if (k + 2 < p.size() && p[k + 1] == '-' && p[k + 2] != ']') { for (int c = (unsigned char)p[k]; c <= (unsigned char)p[k + 2]; ++c) chars.insert((char)c); k += 3; }
        else chars.insert(p[k++]);
    }
}
//! a bracket that is not closed: what it means is not specified
bool open_bracket(const std::string& p)
{
    for (size_t i = 0; i < p.size();)
    {
        std::set<char> cs; bool neg; size_t end;
        if (p[i] != '[') { ++i; continue; }
        if (!set_at(p, i, cs, neg, end)) return true;
        i = end;
    }
    return false;
}
bool match(const std::string& p, const std::string& t)
{
    // ok[j]: the pattern until i matches the first j characters
    std::vector<bool> ok(t.size() + 1, false); ok[0] = true;
    for (size_t i = 0; i < p.size();)
    {
        std::vector<bool> n(t.size() + 1, false);
        std::set<char> cs; bool neg; size_t end;
        if (p[i] == '*') { bool any = false; for (size_t j = 0; j <= t.size(); ++j) { any = any || ok[j]; n[j] = any; } ++i; }
        else if (p[i] == '[' && set_at(p, i, cs, neg, end)) { for (size_t j = 0; j < t.size(); ++j) n[j + 1] = ok[j] && (cs.count(t[j]) != 0) != neg; i = end; }
        else { for (size_t j = 0; j < t.size(); ++j) n[j + 1] = ok[j] && (p[i] == '?' || p[i] == t[j]); ++i; }
        ok = n;
    }
    return ok[t.size()];
}
std::vector<std::string> all(const std::string& a, int hi) { std::vector<std::string> v; en::strings(a, 0, hi, [&](const std::string& s) { v.push_back(s); }); return v; }
void one(const std::string& p, const std::string& t)
{
    mc::count("cases");
    bool m = match_pattern(p, t);
    if (m != match(p, t)) { mc::ctx(en::q(t) + " against " + en::q(p)); mc::fail(m ? "matched, but must not" : "did not match, but must"); }
}
}
MC_SCENARIO("C30", "stars")
{
    auto texts = all("ab", mc::thorough() ? 7 : 6);
    en::strings("ab*?", 0, mc::thorough() ? 7 : 6, [&](const std::string& p) { mc::ctx(en::q(p)); for (auto& t : texts) one(p, t); });
}
MC_SCENARIO("C30", "names")
{
    auto texts = all("a./\\", mc::thorough() ? 6 : 4);
    en::strings("a*?./\\", 0, mc::thorough() ? 6 : 5, [&](const std::string& p) { mc::ctx(en::q(p)); for (auto& t : texts) one(p, t); });
}
MC_SCENARIO("C30", "sets")
{
    auto texts = all("ab]-[!", 3);
    en::strings("ab*[]!-", 0, mc::thorough() ? 7 : 5, [&](const std::string& p) {
        mc::ctx(en::q(p));
        if (open_bracket(p)) { for (auto& t : texts) { mc::count("unspecified"); match_pattern(p, t); } return; }
        for (auto& t : texts) one(p, t);
    });
}
MC_SCENARIO("C30", "long")
{
    // many stars against long texts: no blow-up either
    for (int n = 0; n <= (mc::thorough() ? 60 : 30); ++n) for (int k = 0; k <= 6; ++k)
    {
        std::string t(n, 'a'), p; for (int i = 0; i < k; ++i) p += "a*";
        mc::ctx(en::q(p)); one(p, t); one(p + "b", t); one(p + "b", t + "b"); one("*" + p, t); one("*" + p + "b*a", t + "ba"); one(p + "?", t);
    }
    for (int c = 1; c < 128; ++c) for (int d = 1; d < 128; ++d) { std::string a(1, (char)c), b(1, (char)d); mc::ctx(en::q(a)); one("x" + a + "y", "x" + b + "y"); one("?" + a, b + b); one("*" + a, b + b); }
    for (const char* s : {"rt/chatter", "HelloWorldTopic", "std_msgs::msg::dds_::String_", "/a/b/c", ".hidden", ""}) for (const char* p : {"*", "rt/*", "*Topic", "std_msgs::*::String_", "*/*", ".*", "?*", "", "**", "Hello?orld*", "/*/?/*", "*a*"}) { mc::ctx(p); one(p, s); }
}

MC_SCENARIO("C30", "very_long")
{
    // texts and patterns of hundreds of characters: a difference at any place is seen
    for (int n : {100, 255, 256, 257, 511, 1000, 1025}) 
    {
        std::string t; for (int i = 0; i < n; ++i) t += (char)("abcdefgh/._"[(i * 7 + i / 11) % 11]);
        for (int cut = 0; cut <= n; cut += 1 + n / (mc::thorough() ? 60 : 25))
        {
            mc::ctx(mc::str(n, " characters, place ", cut));
            std::string head = t.substr(0, cut), tail = t.substr(cut), bad = t;
            one(t, t); one(head + "*", t); one("*" + tail, t); one(head + "*" + tail, t); one(head, t); one(tail, t);
            one("*" + head + "*", t); one(head + "**" + tail, t);
            if (cut == n) continue;
            bad[cut] = 'Z';
            one(t, bad); one(bad, t); one(head + "?" + t.substr(cut + 1), bad); one(head + "[!Z]" + t.substr(cut + 1), bad); one(head + "[Y-Z]" + t.substr(cut + 1), bad);
            one(head + "*" + tail, bad); one("*Z*", bad); one("*Z*", t); one(t + "x", t); one(t, t + "x");
        }
    }
}
