// Helpers of the sequential checks: complete enumerations of small spaces.
#pragma once
#include "../mc/mc.hpp"
#include <cstdio>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace en {

//! f(s) for every string over `alphabet` with lengths lo..hi
template <typename F>
void strings(const std::string& alphabet, int lo, int hi, F f)
{
    for (int n = lo; n <= hi; ++n)
    {
        std::vector<int> ix(n, 0);
        std::string s(n, alphabet[0]);
        for (;;)
        {
            f(static_cast<const std::string&>(s));
            int i = n - 1;
            for (; i >= 0; --i)
            {
                if (++ix[i] < (int)alphabet.size()) { s[i] = alphabet[ix[i]]; break; }
                ix[i] = 0; s[i] = alphabet[0];
            }
            if (i < 0) break;
        }
    }
}
//! f(v) for every vector of exactly n digits below base
template <typename F>
void tuples(int base, int n, F f)
{
    std::vector<int> v(n, 0);
    if (base <= 0 && n > 0) return;
    for (;;)
    {
        f(static_cast<const std::vector<int>&>(v));
        int i = n - 1;
        for (; i >= 0; --i)
        {
            if (++v[i] < base) break;
            v[i] = 0;
        }
        if (i < 0) return;
    }
}
//! f(v) for every vector of lo..hi digits below base
template <typename F>
void sequences(int base, int lo, int hi, F f) { for (int n = lo; n <= hi; ++n) tuples(base, n, f); }
inline std::string q(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline std::string q(const std::vector<int>& v)
{
    std::string o;
    for (int x : v) o += (o.empty() ? "" : " ") + std::to_string(x);
    return "[" + o + "]";
}
template <typename T>
std::string qv(const T& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : ", ") + q(x); return "{" + o + "}"; }
//! one case: describe it (lazily expensive parts are the caller's affair), count it
inline void begin(const std::string& what) { mc::ctx(what); mc::count("cases"); }
template <typename E, typename F>
bool throws(F f) { try { f(); } catch (const E&) { return true; } return false; }
//! no exception at all may leave f
template <typename F>
bool quiet(F f, const char* what)
{
    try { f(); }
    catch (const std::exception& e) { mc::fail(std::string(what) + " threw: " + e.what()); return false; }
    catch (...) { mc::fail(std::string(what) + " threw"); return false; }
    return true;
}
template <typename A, typename B>
bool same(const A& got, const B& want, const char* what)
{
    return mc::check(got == want, [&] { return mc::str(what, ": got ", got, ", expected ", want); });
}
inline bool same(const std::string& got, const std::string& want, const char* what)
{
    return mc::check(got == want, [&] { return std::string(what) + ": got " + q(got) + ", expected " + q(want); });
}

} // namespace en
