// engine: seq
// sources: Formatter exception/Exception
#include "enum.hpp"
#include <sstream>
#include <limits>
#include <cpp_utils/types/Fuzzy.hpp>
using namespace eprosima::utils;

namespace {
const int L[] = {-32768, -21, -20, -19, -1, 0, 1, 19, 20, 21, 39, 40, 41, 59, 60, 61, 32767};
const int NL = sizeof L / sizeof *L;
struct Ideal { int level; int value; bool valid() const { return level >= 0; } bool set() const { return level >= 20; } };
bool equal(const Ideal& a, const Ideal& b) { return (!a.set() && !b.set()) || (a.level == b.level && a.value == b.value); }
std::string val(int v, std::string*) { return v ? std::string(40, (char)('a' + v)) : ""; }
int val(int v, int*) { return v; }
struct Obj { int x = 0; int* heap = new int(0); Obj() {} Obj(int v) : x(v) { *heap = v; } Obj(const Obj& o) : Obj(o.x) {} Obj(Obj&& o) : x(o.x), heap(o.heap) { o.heap = new int(-1); o.x = -1; }
    Obj& operator=(const Obj& o) { x = o.x; *heap = o.x; return *this; } Obj& operator=(Obj&& o) { std::swap(heap, o.heap); x = o.x; return *this; } ~Obj() { delete heap; } bool operator==(const Obj& o) const { return x == o.x && *heap == *o.heap; } };
std::ostream& operator<<(std::ostream& os, const Obj& o) { return os << "obj" << o.x; }
Obj val(int v, Obj*) { return Obj(v); }
template <typename T> T V(int v) { return val(v, (T*)nullptr); }

template <typename T>
void agree(const Fuzzy<T>& f, const Ideal& i, const char* what)
{
    const Fuzzy<T>& c = f;
    bool ok = f.get_level() == i.level && f.is_valid() == i.valid() && f.is_set() == i.set() && f.get_value() == V<T>(i.value)
            && f.get_reference() == V<T>(i.value) && *c.operator->() == V<T>(i.value) && &f.get_reference() == c.operator->();
    mc::check(ok, [&] { return mc::str(what, ": level ", f.get_level(), ", expected ", i.level, " value ", i.value); });
    for (int v = 0; v < 3; ++v)
    {
        mc::check((f == V<T>(v)) == (i.valid() && i.value == v), "comparison with a value");
        mc::check((f != V<T>(v)) == !(i.valid() && i.value == v), "inequality with a value");
    }
    mc::check(f == f && !(f != f), "a fuzzy differs from itself");
}
template <typename T>
void pairs()
{
    for (int a = 0; a < NL; ++a) for (int b = 0; b < NL; ++b) for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y)
    {
        en::begin(mc::str("levels ", L[a], " ", L[b], " values ", x, " ", y));
        Ideal i{L[a], x}, j{L[b], y};
        const T xv = V<T>(x);
        Fuzzy<T> f(xv, (FuzzyLevelType)L[a]), g(V<T>(y), (FuzzyLevelType)L[b]);
        agree(f, i, "constructed"); agree(g, j, "constructed from a temporary");
        mc::check((f == g) == equal(i, j) && (g == f) == equal(i, j), "equality");
        mc::check((f != g) == !equal(i, j) && (g != f) == !equal(i, j), "inequality");
        Fuzzy<T> c(f); agree(c, i, "copy"); c = g; agree(c, j, "assigned"); agree(g, j, "assigned from"); agree(f, i, "copied from");
        Fuzzy<T> m(std::move(c)); agree(m, j, "moved"); m = std::move(f); agree(m, i, "move-assigned");
    }
}
// every sequence of operations
template <typename T>
void histories(int depth)
{
    static const int SL[] = {-20, 0, 20, 60};
    enum { OPS = 1 + 2 + 4 + 1 + 8 + 3 + 2 };
    en::sequences(OPS, 0, depth, [&](const std::vector<int>& v) {
        en::begin(en::q(v));
        Fuzzy<T> f, g(V<T>(2), 20); Ideal i{0, 0}, j{20, 2};
        agree(f, i, "default");
        for (int op : v)
        {
            if (op == 0) { f.unset(); i.level = -20; }
            else if (op < 3) { f.set_value(V<T>(op)); i = {40, op}; }
            else if (op < 7) { f.set_level((FuzzyLevelType)SL[op - 3]); i.level = SL[op - 3]; }
            else if (op == 7) { f.set_level(); i.level = 40; }
            else if (op < 16) { f.set_value(V<T>((op - 8) % 2), (FuzzyLevelType)SL[(op - 8) / 2]); i = {SL[(op - 8) / 2], (op - 8) % 2}; }
            else if (op == 16) { f = V<T>(1); i = {40, 1}; }
            else if (op == 17) { f = g; i = j; }
            else if (op == 18) { std::swap(f, g); std::swap(i, j); }
            else if (op == 19) { f.get_reference() = V<T>(1); i.value = 1; }
            else { *f.operator->() = V<T>(2); i.value = 2; }
            agree(f, i, "after an operation"); agree(g, j, "the other, after an operation");
            mc::check((f == g) == equal(i, j), "equality");
        }
    });
}
}
MC_SCENARIO("C34", "pairs_int") { pairs<int>(); }
MC_SCENARIO("C34", "pairs_string") { pairs<std::string>(); }
MC_SCENARIO("C34", "pairs_object") { pairs<Obj>(); }
MC_SCENARIO("C34", "histories_int") { histories<int>(mc::thorough() ? 5 : 4); }
MC_SCENARIO("C34", "histories_string") { histories<std::string>(mc::thorough() ? 4 : 3); }
MC_SCENARIO("C34", "histories_object") { histories<Obj>(mc::thorough() ? 4 : 3); }
MC_SCENARIO("C34", "every_level")
{
    std::map<int, std::string> names{{-20, "UNSET"}, {0, "DEFAULT"}, {20, "FUZZY"}, {40, "SET"}, {60, "HARD"}};
    mc::check(fuzzy_level_unset == -20 && fuzzy_level_default == 0 && fuzzy_level_fuzzy == 20 && fuzzy_level_set == 40 && fuzzy_level_hard == 60, "the levels");
    for (int l = -32768; l <= 32767; ++l)
    {
        en::begin(mc::str("level ", l));
        Fuzzy<int> f(7, (FuzzyLevelType)l);
        mc::check(f.get_level() == l && f.is_valid() == (l >= 0) && f.is_set() == (l >= 20), "level");
        en::same(f.get_level_as_str(), names.count(l) ? names[l] : "", "name of the level");
        std::ostringstream os; os << f; en::same(os.str(), "Fuzzy{Level(" + (names.count(l) ? names[l] : "") + ") 7}", "operator<<");
        mc::check((f == 7) == (l >= 0), "comparison");
        for (int k : {-20, 0, 19, 20, 40, l}) { Fuzzy<int> g(7, (FuzzyLevelType)k); mc::check((f == g) == ((l < 20 && k < 20) || l == k), "equality"); }
    }
}
MC_SCENARIO("C34", "conversions")
{
    for (int v = -100; v < 100; ++v)
    {
        en::begin(mc::str("value ", v));
        Fuzzy<int> f; f = v; const Fuzzy<int> c(v);
        int& r = f; mc::check(r == v && f.is_set(), "reference"); r = v + 1; mc::check(f.get_value() == v + 1, "reference");
        int x = c; mc::check(x == v, "conversion to a value");
    }
}
// A value given without a level is set.
MC_SCENARIO("C34", "default_level")
{
    for (int way = 0; way < 7; ++way)
    {
    using F = Fuzzy<std::string>;
    std::string s = "a value";
    en::begin(mc::str("way ", way));
    F f;
    mc::check(f.get_level() == FuzzyLevelValues::fuzzy_level_default && f.is_valid() && !f.is_set() && f.get_value().empty(), "a fuzzy without value has the default level");
    switch (way)
    {
        case 0: f = F(s); break;
        case 1: f = F(std::string("a value")); break;
        case 2: f.set_value(s); break;
        case 3: f.set_value("a value"); break;
        case 4: f.set_value(s, FuzzyLevelValues::fuzzy_level_default); f.set_level(); break;
        case 5: f = s; break;
        default: f = std::string("a value"); break;
    }
    mc::check(f.get_level() == FuzzyLevelValues::fuzzy_level_set && f.get_value() == s && f.is_set(), [&] { return mc::str("the level is ", (int)f.get_level(), " and the value ", f.get_value()); });
    }
}
