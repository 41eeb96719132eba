// Functions without state, used from two threads at the same time: nothing they share may be written,
// and each gives what it gives alone.
#pragma once
#include "lin.hpp"
#include <functional>
#include <locale>
#include <string>
#include <vector>

namespace pure {
typedef std::function<std::string(int)> Fun;
//! f(who) from two threads; the results are compared with those of one thread afterwards
inline void both(const Fun& f)
{
    {
        // the C++ library's own caches of characters, filled without a lock by whoever comes first
        mc::Quiet q;
        auto& c = std::use_facet<std::ctype<char>>(std::locale());
        for (int i = 0; i < 256; ++i) { c.narrow((char)i, 0); c.widen((char)i); }
    }
    std::string got[2];
    {
        h::Threads th;
        auto* g = got; auto* p = &f;
        th.add([=] { std::string s = (*p)(0); mc::Quiet q; g[0] = s; });
        std::string s = f(1); mc::Quiet q; got[1] = s;
    }
    for (int i = 0; i < 2; ++i) { std::string s = f(i); mc::check(s == got[i], [&] { return "used by two threads at once: " + got[i] + ", alone: " + s; }); }
}
inline std::string text(std::initializer_list<std::string> l) { std::string o; for (auto& s : l) o += s + "|"; return o; }
template <typename C> std::string all(const C& c) { std::string o; for (auto& s : c) o += s + "|"; return o; }
} // namespace pure
