// engine: mc
// sources: Formatter exception/Exception
#include "lin.hpp"
#include <cpp_utils/types/Singleton.hpp>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace h;
using namespace eprosima::utils;

namespace {
int g_made, g_dead;
void fresh() { mc::Quiet q; g_made = g_dead = 0; }
int made() { mc::Quiet q; return g_made; }
struct V
{
    int v; int w = 9;
    V() : V(0) {}
    explicit V(int x) : v(x) { { mc::Quiet q; ++g_made; } mc::point(); w = 1; }
    V(int x, std::string s) : V(x + (int)s.size()) {}
    ~V() { mc::Quiet q; ++g_dead; }
};
struct W { int v = 4; };
//! at most one instance per thread: keep who saw what
struct Seen { V* p[8]; int n; Seen() : n(0) {} void add(V* x) { mc::check(!x || x->w == 1, "an instance still under construction"); mc::Quiet q; p[n++] = x; } };
//! the state of a safe singleton: -1 nothing, or the value
struct St { int v; };
template <int I>
struct Safe
{
    using S = SafeInitializableSingleton<V, I>;
    History<St> h; std::vector<V*> seen;
    void init(int v)
    {
        int id = h.begin(mc::str("initialize ", v));
        bool r = S::initialize(v);
        h.end(id, r ? "true" : "false", [r, v](St& s) { if (s.v >= 0) return !r; s.v = v; return r; });
    }
    void get(bool create, int how = 0)
    {
        int id = h.begin(mc::str("get_instance ", create));
        V* p = how ? (create ? S::get_shared_instance() : S::get_shared_instance(false)).get() : create ? S::get_instance() : S::get_instance(false);
        int v = p ? p->v : -1;
        mc::check(!p || p->w == 1, "an instance still under construction");
        { mc::Quiet q; if (p) { for (auto x : seen) mc::check(x == p, "two instances of a safe singleton"); seen.push_back(p); } }
        h.end(id, mc::str(v), [v, create](St& s) { if (s.v < 0 && create) s.v = 0; return s.v == v; });
    }
    void op(int k) { if (k < 2) init(k + 1); else get(k != 3, k == 4); }
    void end() { mc::Quiet q; h.require({-1}, "no order of the calls explains the results"); mc::check(g_made <= 1, "more than one object was constructed"); }
};
}
#define SC(name, b, bt) MC_SCENARIO("C19", name, o.budget_quick = b; o.budget_thorough = bt; o.fork_each = true)

SC("singleton", 3, 5)
{
    fresh();
    Seen s; Threads th; int how = mc::choose(2);
    mc::check(made() == 0, "created before it was asked for");
    th.add([&] { s.add(Singleton<V>::get_instance()); });
    th.add([&] { s.add(how ? Singleton<V>::get_shared_instance().get() : Singleton<V>::get_instance()); });
    s.add(Singleton<V, 0>::get_instance());
    th.join();
    s.add(Singleton<V>::get_shared_instance().get());
    mc::Quiet q;
    for (int i = 0; i < s.n; ++i) mc::check(s.p[i] && s.p[i] == s.p[0], "two instances of one singleton");
    mc::check(g_made == 1 && g_dead == 0, "the singleton was not constructed exactly once");
}
SC("singleton_indices", 3, 5)
{
    fresh();
    Threads th; V* p[4]; V** pp = p; W* w[2]; W** ww = w;
    th.add([=] { V* x = Singleton<V, 1>::get_instance(); W* y = Singleton<W, 1>::get_instance(); x->v = 11; mc::Quiet q; pp[0] = x; ww[0] = y; });
    th.add([=] { V* x = Singleton<V, 2>::get_instance(); W* y = Singleton<W, 2>::get_instance(); x->v = 12; mc::Quiet q; pp[1] = x; ww[1] = y; });
    V* z = Singleton<V>::get_instance(); z->v = 10;
    th.join();
    mc::check(p[0] != p[1] && p[0] != z && p[1] != z && w[0] != w[1] && p[0] && p[1] && z, "different indices share an instance");
    mc::check(p[0]->v == 11 && p[1]->v == 12 && z->v == 10 && w[0]->v == 4 && (Singleton<V, 1>::get_instance() == p[0]), "instance");
    mc::check(made() == 3, "not one object per index");
}
SC("singleton_shared_ownership", 2, 3)
{
    fresh();
    auto a = Singleton<V, 5>::get_shared_instance();
    std::weak_ptr<V> w = a;
    a.reset();
    mc::check(!w.expired() && w.lock().get() == Singleton<V, 5>::get_instance() && made() == 1, "the singleton went away with a user");
}
SC("safe_initialize_race", 2, 4)
{
    fresh();
    Safe<0>* s = new Safe<0>; Threads th; int k = mc::choose(3);
    th.add([=] { s->init(1); if (k == 1) s->get(false); });
    th.add([=] { s->init(2); s->get(true); });
    if (k == 2) s->init(3); else s->get(k == 1);
    th.join(); s->get(false); s->end();
    delete s;
}
SC("safe_all_pairs", 1, 2)
{
    // every pair of operations of two threads, followed by every operation
    fresh();
    Safe<1>* s = new Safe<1>; Threads th; int c = mc::choose(25), a = c / 5, b = c % 5, d = mc::choose(5);
    th.add([=] { s->op(a); s->get(false); });
    th.add([=] { s->op(b); });
    s->op(d);
    th.join(); s->end(); delete s;
}
SC("safe_indices", 3, 4)
{
    fresh();
    using A = SafeInitializableSingleton<V, 10>; using B = SafeInitializableSingleton<V, 11>;
    Threads th;
    mc::check(!A::get_instance(false) && !B::get_shared_instance(false), "an instance before initialisation");
    th.add([] { A::initialize(3); });
    th.add([] { B::initialize(4, std::string("ab")); });
    th.join();
    mc::check(A::get_instance(false)->v == 3 && B::get_instance()->v == 6 && A::get_instance() != B::get_instance(), "indices");
    mc::check(!A::initialize(8) && A::get_instance()->v == 3 && made() == 2, "a second initialisation");
}
MC_SCENARIO("C19", "initializable_sequences", o.budget_quick = 0; o.fork_each = true; o.hbcache = false)
{
    // every sequence of calls on two indices
    fresh();
    using A = InitializableSingleton<V, 0>; using B = InitializableSingleton<V, 7>;
    int want[2] = {-1, -1};
    std::shared_ptr<V> held;
    int heldv = -1;
    int n = mc::thorough() ? 6 : 5;
    for (int i = 0; i < n; ++i)
    {
        switch (mc::choose(5))
        {
            case 0: mc::check(A::initialize(5), "initialize returned false"); want[0] = 5; break;
            case 1: mc::check(A::initialize(6, std::string("x")), "initialize returned false"); want[0] = 7; break;
            case 2: mc::check(B::initialize(), "initialize returned false"); want[1] = 0; break;
            case 3: held = A::get_shared_instance(); heldv = want[0]; break;
            case 4: held = B::get_shared_instance(); heldv = want[1]; break;
        }
        V* a = A::get_instance(); V* b = B::get_instance();
        mc::check((a ? a->v : -1) == want[0] && A::get_shared_instance().get() == a, "the value of the first index");
        mc::check((b ? b->v : -1) == want[1] && B::get_shared_instance().get() == b, "the value of the second index");
        mc::check((held ? held->v : -1) == heldv, "the object held by a user");
        mc::check(made() - g_dead <= 3, "an old instance is never released");
    }
}
MC_SCENARIO("C19", "safe_sequences", o.budget_quick = 0; o.fork_each = true; o.hbcache = false)
{
    fresh();
    Safe<3>* s = new Safe<3>;
    int n = mc::thorough() ? 6 : 5;
    for (int i = 0; i < n; ++i) s->op(mc::choose(5));
    s->end(); delete s;
}
