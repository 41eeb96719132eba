// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <sstream>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;

namespace {
//! an element compared by its first part only
struct Elem { int v, tag; std::string heap; Elem(int v, int tag = 0) : v(v), tag(tag), heap(30, (char)('a' + v)) {} bool operator==(const Elem& o) const { return v == o.v; } };
std::ostream& operator<<(std::ostream& os, const Elem& e) { return os << "e" << e.v; }
typedef std::shared_ptr<Elem> P;
typedef std::set<P> Set;
// a fixed stock of pointers: three for each of four values, and null
const int STOCK = 13;
std::vector<P>& stock() { static std::vector<P> s = [] { std::vector<P> v; for (int i = 0; i < 12; ++i) v.push_back(std::make_shared<Elem>(i / 3, i)); v.push_back(nullptr); return v; }(); return s; }
int value(int i) { return i == 12 ? -1 : i / 3; }
Set pick(const std::vector<int>& ids) { Set s; for (int i : ids) s.insert(stock()[i]); return s; }
void subsets(int max, const std::function<void(const std::vector<int>&)>& f)
{
    std::vector<int> v;
    std::function<void(int)> go = [&](int from) { f(v); if ((int)v.size() < max) for (int i = from; i < STOCK; ++i) { v.push_back(i); go(i + 1); v.pop_back(); } };
    go(0);
}
}
MC_SCENARIO("C39", "contains")
{
    subsets(mc::thorough() ? 6 : 4, [&](const std::vector<int>& ids) {
        en::begin(en::q(ids));
        Set s = pick(ids);
        std::set<int> values; for (int i : ids) values.insert(value(i));
        for (int i = 0; i < STOCK; ++i) if (set_of_ptr_contains<Elem>(s, stock()[i]) != (values.count(value(i)) != 0)) mc::fail(mc::str("contains ", i));
        if (set_of_ptr_contains<Elem>(s, std::make_shared<Elem>(7))) mc::fail("contains a value it has not");
        if (set_of_ptr_contains<Elem>(s, std::make_shared<Elem>(2, 99)) != (values.count(2) != 0)) mc::fail("contains the value of a new pointer");
    });
}
static struct Equal
{
    Equal()
    {
        for (int k = 0; k < 8; ++k)
        {
            static const char* const names[] = {"equal_0", "equal_1", "equal_2", "equal_3", "equal_4", "equal_5", "equal_6", "equal_7"};
            new mc::Registrar("C39", names[k], mc::Options(), [k] {
                std::vector<std::vector<int>> all;
                std::vector<Set> sets;
                subsets(mc::thorough() ? 4 : 3, [&](const std::vector<int>& v) { all.push_back(v); sets.push_back(pick(v)); });
                for (size_t a = k; a < all.size(); a += 8) for (size_t b = 0; b <= a; ++b)
                {
                    mc::count("cases");
                    std::multiset<int> va, vb; for (int i : all[a]) va.insert(value(i)); for (int i : all[b]) vb.insert(value(i));
                    std::set<int> da(va.begin(), va.end()), db(vb.begin(), vb.end());
                    bool ab = are_set_of_ptr_equal<Elem>(sets[a], sets[b]), ba = are_set_of_ptr_equal<Elem>(sets[b], sets[a]);
                    bool bad = ab != ba || ab != (va.size() == vb.size() && da == db);
                    if (bad) { mc::ctx(en::q(all[a]) + " and " + en::q(all[b]) + " (three pointers for each value)"); mc::fail(mc::str("equality is ", ab, ", the other way round ", ba)); }
                }
            });
        }
    }
} g_equal;

// ------------------------------------------------------------------------------------------- to a stream
MC_SCENARIO("C39", "to_stream")
{
    en::sequences(4, 0, mc::thorough() ? 8 : 6, [&](const std::vector<int>& v) {
        en::begin(en::q(v));
        for (const char* sep : {";", "", ", ", "{}", "\n"})
        {
            std::string want = "{", ewant = "{", swant = "{", uwant = "{";
            std::vector<std::string> strs; std::vector<P> ptrs; std::vector<Elem> elems; std::vector<const Elem*> raw;
            std::set<int> once(v.begin(), v.end());
            for (size_t i = 0; i < v.size(); ++i)
            {
                const char* s = i ? sep : "";
                want += s + std::to_string(v[i]); ewant += s + mc::str("e", v[i]); swant += s + std::string(v[i], 'x');
                strs.push_back(std::string(v[i], 'x')); ptrs.push_back(stock()[v[i] * 3 + i % 3]); elems.push_back(Elem(v[i])); raw.push_back(ptrs.back().get());
            }
            for (auto it = once.begin(); it != once.end(); ++it) uwant += (it == once.begin() ? "" : sep) + std::to_string(*it);
            auto text = [&](const std::function<std::ostream&(std::ostream&)>& f) { std::ostringstream os; os << "<"; std::ostream& r = f(os); r << ">"; return os.str(); };
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<int>(os, v, sep); }), "<" + want + "}>", "vector of numbers");
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<int>(os, once, sep); }), "<" + uwant + "}>", "set of numbers");
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<std::string>(os, strs, sep); }), "<" + swant + "}>", "vector of texts");
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<Elem>(os, elems, sep); }), "<" + ewant + "}>", "vector of objects");
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<P, true>(os, ptrs, sep); }), "<" + ewant + "}>", "vector of shared pointers");
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<const Elem*, true>(os, raw, sep); }), "<" + ewant + "}>", "vector of pointers");
            if (sep[0] == ';') en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream(os, v); }), "<" + want + "}>", "default separator");
            if (sep[0] == ';') en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream(os, once); }), "<" + uwant + "}>", "default separator of a set");
            Set set(ptrs.begin(), ptrs.end()); std::string pwant; for (auto& p : set) pwant += (pwant.empty() ? "" : sep) + mc::str("e", p->v);
            en::same(text([&](std::ostream& os) -> std::ostream& { return container_to_stream<P, true>(os, set, sep); }), "<{" + pwant + "}>", "set of shared pointers");
        }
        for (int x : v) { en::same(generic_to_string(x), std::to_string(x), "number"); en::same(generic_to_string(Elem(x)), mc::str("e", x), "object"); en::same(generic_to_string(std::string(x, 'x')), std::string(x, 'x'), "text"); }
    });
}
// ----------------------------------------------------------------------------------- keys, copies, casts
MC_SCENARIO("C39", "keys")
{
    en::sequences(5, 0, mc::thorough() ? 7 : 6, [&](const std::vector<int>& v) {
        en::begin(en::q(v));
        std::map<int, std::string> m; std::unordered_map<int, std::string> u; std::map<std::string, int> t; std::unordered_map<std::string, int> w;
        std::set<int> want; std::set<std::string> twant;
        for (size_t i = 0; i < v.size(); ++i) { m[v[i]] = u[v[i]] = std::to_string(i); std::string k(v[i] * 5, 'k'); t[k] = w[k] = 1; want.insert(v[i]); twant.insert(k); }
        mc::check(get_keys(m) == want && get_keys(u) == want && get_keys(t) == twant && get_keys(w) == twant, "keys");
        mc::check(m.size() == want.size() && u.size() == want.size(), "the map changed");
    });
}
namespace {
int g_alive;
struct Parent { int v; explicit Parent(int v) : v(v) { ++g_alive; } Parent(const Parent& o) : v(o.v) { ++g_alive; } virtual ~Parent() { --g_alive; } virtual int kind() const { return 0; } bool operator<(const Parent& o) const { return v < o.v; } };
struct Child : Parent { std::string heap; explicit Child(int v) : Parent(v), heap(40, (char)('a' + v)) {} int kind() const override { return 1; } };
struct Other { virtual ~Other() {} };
struct Both : Other, Child { explicit Both(int v) : Child(v) {} int kind() const override { return 2; } };
template <typename P_, typename C>
void to_shared(const std::vector<int>& v, int kind)
{
    {
        std::set<C> in; for (int x : v) in.insert(C(x));
        auto out = convert_set_to_shared<P_, C>(in);
        std::multiset<int> got; for (auto& p : out) { got.insert(p->v); mc::check(p->kind() == kind && p.use_count() == 1, "kind of an element"); }
        std::multiset<int> want; for (auto& e : in) want.insert(e.v);
        mc::check(got == want && in.size() == std::set<int>(v.begin(), v.end()).size(), "elements");
        in.clear();
        for (auto& p : out) mc::check(p->kind() == kind, "an element depends on the set it was converted from");
    }
    mc::check(g_alive == 0, "elements left behind, or destroyed twice");
}
}
MC_SCENARIO("C39", "sets_to_shared")
{
    en::sequences(5, 0, 6, [&](const std::vector<int>& v) { en::begin(en::q(v)); g_alive = 0; to_shared<Parent, Child>(v, 1); to_shared<Parent, Parent>(v, 0); to_shared<Child, Child>(v, 1); to_shared<Parent, Both>(v, 2); to_shared<Child, Both>(v, 2); });
}
MC_SCENARIO("C39", "untyped_pointers")
{
    for (int v = 0; v < 4; ++v)
    {
        en::begin(mc::str("casts ", v));
        const Child c(v); const Both b(v); const Parent p(v);
        mc::check(cast_to_void_ptr(&c) == (const void*)&c && cast_to_void_ptr(&b) == (const void*)&b && cast_to_void_ptr<Child>(&b) == (const void*)static_cast<const Child*>(&b), "address");
        const Parent& cp = c; const Parent& bp = b; const Other& bo = b; const Child& bc = b;
        mc::check(can_cast<Child>(cp) && can_cast<Child>(bp) && !can_cast<Child>(p) && can_cast<Both>(bp) && !can_cast<Both>(cp) && !can_cast<Both>(p) && can_cast<Parent>(p), "cast to a child");
        mc::check(can_cast<Other>(bp) && !can_cast<Other>(cp) && can_cast<Parent>(bo) && can_cast<Both>(bo) && can_cast<Both>(bc) && !can_cast<Other>(p), "cast across");
        mc::check(static_cast<const Child*>(cast_to_void_ptr(&c))->v == v, "and back");
    }
    // copies of every size at every offset, bounds watched by the address sanitizer
    for (size_t n = 1; n <= (mc::thorough() ? 300 : 80); ++n)
    {
        en::begin(mc::str("copy of ", n));
        std::unique_ptr<unsigned char[]> src(new unsigned char[n]);
        for (size_t i = 0; i < n; ++i) src[i] = (unsigned char)(i * 37 + n);
        unsigned char* out = static_cast<unsigned char*>(copy_to_void_ptr<unsigned char>(src.get(), n));
        mc::check(out != src.get() && std::memcmp(out, src.get(), n) == 0, "copy");
        out[n - 1] ^= 255; mc::check(src[n - 1] == (unsigned char)((n - 1) * 37 + n), "the copy is not independent");
        std::free(out);
    }
    struct Pod { int a; double b; char c[5]; } pod{7, 2.5, "abcd"};
    en::begin("copy of a struct");
    Pod* q = static_cast<Pod*>(copy_to_void_ptr(&pod));
    pod.a = 8;
    mc::check(q->a == 7 && q->b == 2.5 && std::string(q->c) == "abcd", "copy");
    std::free(q);
}

MC_SCENARIO("C39", "large_sets")
{
    auto fresh = [](int n, int each) { Set s; for (int i = 0; i < n; ++i) for (int k = 0; k < each; ++k) s.insert(std::make_shared<Elem>(i % 20 + i / 20 * 1000, k)); return s; };
    for (int n : {1, 2, 16, 33, 100, 200}) for (int each : {1, 3})
    {
        en::begin(mc::str(n, " values, ", each, " pointers each"));
        Set a = fresh(n, each), b = fresh(n, each), c = fresh(n + 1, each), d = fresh(n, each);
        P gone = *std::next(d.begin(), n / 2); d.erase(gone); d.insert(std::make_shared<Elem>(77));
        mc::check(are_set_of_ptr_equal<Elem>(a, b) && are_set_of_ptr_equal<Elem>(b, a) && are_set_of_ptr_equal<Elem>(a, a), "equal sets differ");
        mc::check(!are_set_of_ptr_equal<Elem>(a, c) && !are_set_of_ptr_equal<Elem>(c, a), "sets of different sizes are equal");
        mc::check(!are_set_of_ptr_equal<Elem>(a, d) && !are_set_of_ptr_equal<Elem>(d, a), "sets with a different value are equal");
        for (auto& p : a) mc::check(set_of_ptr_contains<Elem>(b, p) && set_of_ptr_contains<Elem>(c, p), "contains");
        mc::check(!set_of_ptr_contains<Elem>(a, std::make_shared<Elem>(77)) && set_of_ptr_contains<Elem>(d, std::make_shared<Elem>(77)), "contains");
    }
}
MC_SCENARIO("C39", "large_containers")
{
    for (int n : {20, 64, 65, 128, 500, 3000})
    {
        en::begin(mc::str(n, " elements"));
        std::vector<int> v; std::vector<std::string> t; std::string want = "{", twant = "{", pwant = "{"; std::vector<P> ptrs;
        std::map<int, int> m; std::unordered_map<std::string, int> u; std::set<int> keys; std::set<std::string> ukeys;
        for (int i = 0; i < n; ++i)
        {
            v.push_back(i * 31 % 977 - 100); t.push_back(std::string(i % 50, (char)('a' + i % 26))); ptrs.push_back(stock()[i % 12]);
            if (i) { want += ", "; twant += ", "; pwant += ", "; }
            want += std::to_string(v.back()); twant += t.back(); pwant += mc::str("e", i % 12 / 3);
            m[v.back()] = i; keys.insert(v.back()); std::string k = t.back() + std::to_string(i); u[k] = i; ukeys.insert(k);
        }
        std::ostringstream a, b, c;
        container_to_stream<int>(a, v, ", "); container_to_stream<std::string>(b, t, ", "); container_to_stream<P, true>(c, ptrs, ", ");
        mc::check(a.str() == want + "}" && b.str() == twant + "}" && c.str() == pwant + "}", "container_to_stream");
        mc::check(get_keys(m) == keys && get_keys(u) == ukeys, "keys");
        g_alive = 0; to_shared<Parent, Child>(v, 1); to_shared<Parent, Both>(v, 2);
    }
    for (size_t n : {1000, 4096, 65537, 1000000})
    {
        en::begin(mc::str("copy of ", n));
        std::vector<unsigned char> src(n); for (size_t i = 0; i < n; ++i) src[i] = (unsigned char)(i * 37 + i / 251);
        unsigned char* out = static_cast<unsigned char*>(copy_to_void_ptr<unsigned char>(src.data(), n));
        mc::check(std::memcmp(out, src.data(), n) == 0, "copy"); std::free(out);
    }
}
