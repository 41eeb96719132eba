// engine: seq
// sources: exception/Exception
#include "enum.hpp"
#include <algorithm>
#include <cstdio>
#include <sstream>
#include <unistd.h>
#include <optionparser/optionparser.h>

namespace {
typedef std::vector<std::string> Strs;
option::ArgStatus none(const option::Option&, bool) { return option::ARG_NONE; }

Strs split(const std::string& s, char c)
{
    Strs r(1); for (char x : s) if (x == c) r.emplace_back(); else r.back() += x;
    return r;
}
//! characters with the screen columns they take
struct Ch { std::string bytes; int wide; };
std::vector<Ch> chars(const std::string& s)
{
    std::vector<Ch> r;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        unsigned v = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 0xf : c & 7;
        for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 0x3f);
        // the ranges documented
        bool w = v != 0x303f && ((v >= 0x1100 && v <= 0x115f) || v == 0x2329 || v == 0x232a || (v >= 0x2e80 && v <= 0xa4c6) || (v >= 0xa960 && v <= 0xa97c)
                || (v >= 0xac00 && v <= 0xd7fb) || (v >= 0xf900 && v <= 0xfaff) || (v >= 0xfe10 && v <= 0xfe6b) || (v >= 0xff01 && v <= 0xff60)
                || (v >= 0xffe0 && v <= 0xffe6) || v >= 0x1b000);
        r.push_back({s.substr(i, n), w ? 2 : 1}); i += n;
    }
    return r;
}
int width(const std::string& s) { int w = 0; for (auto& c : chars(s)) w += c.wide; return w; }
//! the lines of a text in a column: broken at the last space that leaves a line that fits, else in the middle of a word
Strs wrap(const std::string& s, int w)
{
    Strs r; if (w < 2) w = 2;
    std::vector<Ch> c = chars(s);
    while (!c.empty())
    {
        size_t fit = 0; int x = 0;
        while (fit < c.size() && x + c[fit].wide <= w) x += c[fit++].wide;
        size_t cut = fit, next = fit;
        if (fit < c.size())
            for (size_t i = fit + 1; i-- > 0;) if (c[i].bytes == " ") { cut = i; next = i + 1; break; }
        std::string l; for (size_t i = 0; i < cut; ++i) l += c[i].bytes;
        r.push_back(l); c.erase(c.begin(), c.begin() + next);
    }
    return r;
}
std::string pad(std::string s, int x) { int w = width(s); if (w < x) s += std::string(x - w, ' '); return s; }
std::string strip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

struct Layout { int width, min_percent, own_percent; };
//! the lines of one table; false: how far it sticks out is not determined (then only the text is compared)
bool table(const Strs& helps, const Layout& y, Strs& out)
{
    std::vector<std::vector<Strs>> rows;      // row, cell, line of the cell
    size_t last = 0;
    for (auto& h : helps) for (auto& r : split(h, '\n'))
    {
        rows.emplace_back(); for (auto& c : split(r, '\t')) rows.back().push_back(split(c, '\v'));
        if (rows.back().size() > 8) rows.back().resize(8);       // no more than eight columns
        last = std::max(last, rows.back().size() - 1);
    }
    auto plain = [](const std::vector<Strs>& r) { return r.size() == 1 && r[0].size() == 1; };
    std::vector<int> w(last + 1, 0), tab(last + 1, 0);
    // cells on the left that are too wide stick out: the widest do not count until the others fit
    for (int limit = 10000;;)
    {
        for (auto& x : w) x = 0;
        for (auto& r : rows) if (!plain(r)) for (size_t c = 0; c < r.size(); ++c) for (auto& l : r[c]) if (width(l) < limit) w[c] = std::max(w[c], width(l));
        for (size_t c = 1; c <= last; ++c) tab[c] = tab[c - 1] + w[c - 1];
        if (tab[last] <= y.width) break;
        mc::count("too long on the left");
        limit = last ? *std::max_element(w.begin(), w.begin() + last) : 0;
    }
    int right = y.width - tab[last], min = (y.width * y.min_percent + 50) / 100, own_max = std::max(1, (y.width * y.own_percent + 50) / 100);
    bool own = last > 0 && right < min && (w[last] == 0 || right < w[last]);
    if (own) right = own_max;
    for (auto& r : rows)
    {
        if (plain(r)) { Strs l = wrap(r[0][0], y.width); if (l.empty()) l.push_back(""); out.insert(out.end(), l.begin(), l.end()); continue; }
        size_t lines = 0; for (auto& c : r) lines = std::max(lines, c.size());
        Strs queue; size_t q = 0;
        // a table of one column: every line of the cell is wrapped
        for (size_t i = 0; i < lines; ++i)
        {
            std::string l;
            for (size_t c = 0; c < r.size(); ++c)
            {
                if (width(l) > tab[c])
                {
                    if (tab[c] == 0) return false;
                    out.push_back(l); l = "";
                }
                l = pad(l, tab[c]);
                std::string part = i < r[c].size() ? r[c][i] : "";
                if (c < last) l += part;
                else if (!own) { for (auto& s : wrap(part, right)) queue.push_back(s); if (q < queue.size()) l += queue[q++]; }
            }
            out.push_back(l);
        }
        if (own && r.size() == last + 1)
            for (size_t i = 0; i < lines; ++i)
            {
                for (auto& s : wrap(i < r[last].size() ? r[last][i] : "", right)) queue.push_back(s);
                out.push_back(std::string(y.width - right, ' ') + (q < queue.size() ? queue[q++] : ""));
            }
        while (q < queue.size()) out.push_back(std::string(y.width - right, ' ') + queue[q++]);
    }
    return true;
}
std::string g_out;
void by_function(const char* s, int n) { g_out.append(s, n); }
long by_syscall(int fd, const char* s, int n) { g_out.append(s, n); return fd; }
size_t by_stream(const void* s, size_t n, size_t k, std::string* to) { to->append((const char*)s, n * k); return k; }
struct Temp { void write(const char* s, size_t n) const { g_out.append(s, n); } };
struct Functor { void operator()(const char* s, int n) { g_out.append(s, n); } };

struct Usage
{
    std::vector<option::Descriptor> d;
    Usage(const std::vector<const char*>& helps) { d.reserve(helps.size() + 1); for (auto h : helps) d.push_back({0, 0, "", "", none, h}); d.push_back({0, 0, 0, 0, 0, 0}); }
};
//! the texts with 0 as the end of a table
void print(const std::vector<const char*>& helps, const Layout& y, int how)
{
    std::string what; for (auto h : helps) what += h ? en::q(std::string(h)) + " " : "/ ";
    en::begin(what + mc::str(" width ", y.width, " last column ", y.min_percent, "% own line ", y.own_percent, "%"));
    Usage u(helps); g_out.clear(); Functor f;
    const Layout z = y;
    switch (how)
    {
        case 0: option::printUsage(by_function, u.d.data(), y.width, y.min_percent, y.own_percent); break;
        case 1: { std::ostringstream o; option::printUsage(o, u.d.data(), y.width, y.min_percent, y.own_percent); g_out = o.str(); break; }
        case 2: option::printUsage(Temp(), u.d.data(), y.width, y.min_percent, y.own_percent); break;
        case 3: option::printUsage(&f, u.d.data(), y.width, y.min_percent, y.own_percent); break;
        case 4: option::printUsage(by_syscall, 1, u.d.data(), y.width, y.min_percent, y.own_percent); break;
        case 5: option::printUsage(by_stream, &g_out, u.d.data(), y.width, y.min_percent, y.own_percent); break;
        case 6: { Temp t; option::printUsage(t, u.d.data(), y.width, y.min_percent, y.own_percent); break; }
        case 7: option::printUsage(by_function, u.d.data()); break;
        case 8: { std::ostringstream o; option::printUsage(o, u.d.data()); g_out = o.str(); break; }
        case 9: option::printUsage(Temp(), u.d.data()); break;
        case 10: option::printUsage(by_syscall, 1, u.d.data()); break;
        case 11: option::printUsage(by_stream, &g_out, u.d.data()); break;
    }
    Strs want, part; bool exact = true;
    for (size_t i = 0; i <= helps.size(); ++i)
    {
        if (i < helps.size() && helps[i]) { part.push_back(helps[i]); continue; }
        if (!part.empty()) exact = table(part, z, want) && exact;
        part.clear();
    }
    if (exact)
    {
        Strs got; if (!g_out.empty()) { mc::check(g_out.back() == '\n', "the last line is not ended"); got = split(g_out.substr(0, g_out.size() - 1), '\n'); }
        for (auto& l : got) l = strip(l);
        for (auto& l : want) l = strip(l);
        mc::check(got == want, [&] { return "printed " + en::qv(got) + ", expected " + en::qv(want); });
    }
    else
    {
        // something on the left is too long: it may stick out, but all of the text is there
        mc::count("text only");
        std::string all, got;
        for (auto h : helps) if (h) for (auto& r : split(h, '\n'))
        {
            Strs cells = split(r, '\t'); if (cells.size() > 8) cells.resize(8);
            for (auto& c : cells) for (char x : c) if (x != ' ' && x != '\v') all += x;
        }
        for (char c : g_out) if (c != ' ' && c != '\n') got += c;
        std::sort(all.begin(), all.end()); std::sort(got.begin(), got.end());
        en::same(got, all, "the characters printed");
    }
}
const Layout L[] = {{80, 50, 75}, {20, 50, 75}, {10, 50, 75}, {7, 50, 75}, {5, 50, 60}, {4, 25, 50}, {3, 0, 100}, {2, 50, 75}, {1, 50, 75}, {10, 100, 30}, {10, 0, 100}, {9, 75, 33}, {6, 75, 50}, {6, 50, 34}, {12, 60, 50}};
}
//! every text made of a few pieces
static mc::Registrar r_texts("C44", "texts", {}, []
{
    const char* P[] = {"\t", "ab", " ", "\v", "\n", "cdefg", "\xc3\xa9", "\xe6\x97\xa5"};
    en::sequences(6, 0, mc::thorough() ? 7 : 5, [&](const std::vector<int>& v) {
        std::string s; for (int i : v) s += P[i];
        for (auto& y : L) print({s.c_str()}, y, 0);
    });
    en::sequences(8, 0, mc::thorough() ? 5 : 4, [&](const std::vector<int>& v) {
        std::string s; for (int i : v) s += P[i];
        for (auto& y : L) print({s.c_str()}, y, 0);
    });
});
//! every combination of rows
static mc::Registrar r_tables("C44", "tables", {}, []
{
    const char* R[] = {"-a  \tShort.", "--long-one  \tDoes something long with words.", "plain words over the whole width", nullptr, "-c,\v--create  \tCreates\vsomething.",
                       "a\tb\tthird column here", "", "x\v\vy\t\v1 2 3 4 5 6 7", "\t\t", "a\tb", "r1\trow one\nr2\trow two is longer", "only\vlines"};
    const int N = sizeof R / sizeof *R;
    en::sequences(N, 0, mc::thorough() ? 4 : 3, [&](const std::vector<int>& v) {
        std::vector<const char*> h; for (int i : v) h.push_back(R[i]);
        for (auto& y : L) print(h, y, 0);
    });
});
//! every width
static mc::Registrar r_widths("C44", "widths", {}, []
{
    const std::vector<std::vector<const char*>> U = {
        {"Usage: program [options] file...", "Options:", "-h, --help  \tPrint this and exit.", "-f, --file <name>  \tThe file to read; without it, standard input is read until its end."},
        {"-a\t\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e \xe6\x97\xa5\xe6\x9c\xac x\xe8\xaa\x9ey", "\xc3\xa9\xc3\xa9\t\xc3\xa0 \xc3\xa0\xc3\xa0 \xc3\xa0\xc3\xa0\xc3\xa0"},
        {"a\vb\vc\tone two three four five six seven eight nine ten\tand\vso on and so forth"},
        {"1\t2\t3\t4\t5\t6\t7\t8 eight words are too many for this\t9 dropped\t10"},
        {"", nullptr, nullptr, "x\ty", nullptr}};
    const int step = mc::thorough() ? 2 : 10;
    for (auto& h : U) for (int w = 1; w <= (mc::thorough() ? 130 : 90); ++w) for (int a = 0; a <= 100; a += step) for (int b = 0; b <= 100; b += step * 2) print(h, {w, a, b}, 0);
});
//! every way to be given the text
static mc::Registrar r_writers("C44", "writers", {}, []
{
    for (int how = 0; how < 7; ++how) for (auto& y : L)
    {
        print({"-a  \tShort.", "words", nullptr, "--long-one  \tDoes something long with words."}, y, how);
        print({}, y, how); print({nullptr}, y, how);
    }
    // 80, 50 and 75 unless told otherwise
    for (int how = 7; how < 12; ++how)
    {
        print({"-a  \tShort, but with a text that is longer than a line of eighty characters, so that it is wrapped.", "w"}, {80, 50, 75}, how);
        for (int left = 1; left < 78; ++left) for (int n = 20; n < 100; n += 1)
        {
            std::string l(left, 'x'), r; for (int i = 0; i < n; ++i) r += i % 2 ? ' ' : 'y';
            print({(l + "\t" + r).c_str()}, {80, 50, 75}, how);
        }
    }
});
//! a text of many lines in the last column, and many rows
static mc::Registrar r_long("C44", "long", {}, []
{
    for (int n = 1; n <= (mc::thorough() ? 300 : 80); ++n) for (auto& y : L)
    {
        std::string words; for (int i = 0; i < n; ++i) words += mc::str(i ? " " : "", "w", i % 10);
        print({("-a\t" + words).c_str()}, y, 0);
        print({words.c_str(), "-a  \tx"}, y, 0);
        std::vector<const char*> many(n, "-a  \tone two three"); print(many, y, 0);
        // lines given one by one, none of which has to be broken
        std::string lines; for (int i = 0; i < n; ++i) lines += mc::str(i ? "\v" : "", "l", i % 10);
        print({(lines + "\t" + lines).c_str()}, y, 0);
    }
});
//! every character, wide or not
static mc::Registrar r_chars("C44", "characters", {}, []
{
    for (unsigned c = 0x20; c < (mc::thorough() ? 0x110000u : 0x20000u); ++c)
    {
        if (c == 0x7f || (c >= 0xd800 && c < 0xe000) || c == ' ') continue;
        std::string s;
        if (c < 0x80) s += (char)c;
        else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 0x3f)); }
        else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 0x3f)); s += (char)(0x80 | (c & 0x3f)); }
        else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 0x3f)); s += (char)(0x80 | ((c >> 6) & 0x3f)); s += (char)(0x80 | (c & 0x3f)); }
        print({(s + "\t" + s + s).c_str()}, {4, 50, 50}, 0);
    }
});
