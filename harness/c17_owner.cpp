// engine: mc
// sources: Formatter exception/Exception
#include "lin.hpp"
#include <cpp_utils/memory/owner_ptr.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
using namespace h;
using namespace eprosima::utils;

namespace {
int g_made, g_dead, g_deleter;
void fresh() { mc::Quiet q; g_made = g_dead = g_deleter = 0; }
int dead() { mc::Quiet q; return g_dead; }
struct D
{
    int id; long magic = 77; int guards = 0;
    explicit D(int i) : id(i) { mc::Quiet q; ++g_made; }
    ~D() { { mc::Quiet q; ++g_dead; mc::check(guards == 0, "the data is destroyed while it is being used under a guard"); } magic = 0; }
    //! use the data: it must live all along
    int use()
    {
        { mc::Quiet q; ++guards; }
        mc::mark(0xB00 + id);
        mc::check(magic == 77, "dead data");
        mc::point();
        mc::check(magic == 77, "dead data");
        mc::mark(0xB80 + id);
        mc::Quiet q; --guards;
        return id;
    }
};
using O = OwnerPtr<D>; using L = LesseePtr<D>; using G = GuardedPtr<D>;
//! Take a guard, if there is one use it twice
bool use(const L& l, int id)
{
    auto g = l.lock();
    if (!g) { mc::check(g == nullptr && nullptr == g, "comparison with null"); return false; }
    mc::check(g->use() == id && (*g).use() == id && g.get()->id == id, "another datum");
    return true;
}
bool arrow(const L& l, int id)
{
    try { mc::check(l->use() == id, "another datum"); return true; }
    catch (const ValueAccessException&) { return false; }
}
bool except(const L& l, int id)
{
    try { auto g = l.lock_with_exception(); mc::check(g->use() == id, "another datum"); return true; }
    catch (const ValueAccessException&) { return false; }
}
bool by(int how, const L& l, int id) { return how == 0 ? use(l, id) : how == 1 ? arrow(l, id) : except(l, id); }
std::function<void(D*)> del() { return [](D* d) { { mc::Quiet q; ++g_deleter; } delete d; }; }
}
#define SC(name, b, bt) MC_SCENARIO("C17", name, o.budget_quick = b; o.budget_thorough = bt)

SC("reset_against_user", 4, 6)
{
    fresh();
    int how = mc::choose(3), end = mc::choose(4);
    std::unique_ptr<O> o(new O(new D(1), del()));
    L l = o->lease();
    Threads th; bool started = false;
    th.add([&] { bool r = by(how, l, 1); if (!r) { mc::Quiet q; mc::check(started, "no access although the owner kept the data"); } });
    { mc::Quiet q; started = true; }
    mc::mark(0xC00);
    if (end == 0) o->reset(); else if (end == 1) o.reset(); else if (end == 2) o->reset(new D(2)); else { O p(new D(2)); *o = std::move(p); }
    mc::check(dead() == 1, "the data was not destroyed by the end of reset");
    mc::check(!use(l, 1), "a guard to data that is gone");
    th.join();
    mc::check(!l && !use(l, 1), "a lessee of data that is gone");
    if (end == 2 || end == 3) mc::check(o->lease().lock()->id == 2, "new data");
    o.reset();
    { mc::Quiet q; mc::check(g_made == g_dead, "data destroyed twice or never"); mc::check(g_deleter == 1, "the deleter was not called exactly once"); }
}
SC("two_users", 3, 4)
{
    fresh();
    int a = mc::choose(3), b = mc::choose(2);
    O o(new D(1));
    L l = o.lease(), m(l);
    Threads th; int n = 0;
    th.add([&] { bool r = by(a, l, 1); bool s = use(l, 1); mc::check(r || !s, "data came back"); });
    th.add([&] { L mm(m); bool r = by(b, mm, 1); mc::Quiet q; n += r; });
    o.reset();
    mc::check(dead() == 1 && !o, "the data was not destroyed by the end of reset");
    th.join();
}
SC("asking_validity", 3, 5)
{
    fresh();
    O o(new D(1));
    L l = o.lease();
    Threads th;
    th.add([&] { bool a = l; bool b = l; mc::check(a || !b, "data came back"); if (!a) mc::check(!l.lock(), "not valid, but it can be locked"); });
    th.add([&] { auto g = l.lock(); bool v = g; mc::point(); mc::check(v == (bool)g, "validity of a guard changed"); });
    o.reset();
    mc::check(!l, "valid after reset");
    th.join();
}
SC("guard_moves", 4, 6)
{
    // a guard keeps the data alive wherever it is moved to; assigning to it lets the former datum go
    fresh();
    O o(new D(1)), p(new D(2));
    L l = o.lease(), m = p.lease();
    Threads th;
    int how = mc::choose(5);
    if (how == 4)
    {
        // two guards of one datum become one: it is held by that one only
        bool gone = false;
        {
            G k = l.lock();
            { G h = l.lock(); k = std::move(h); mc::check(!h, "moved guard"); }
            th.add([&] { o.reset(); mc::check(dead() == 1, "data not destroyed"); mc::Quiet q; gone = true; });
            mc::check(k->use() == 1, "guarded data");
            mc::Quiet q; mc::check(!gone, "the owner let the data go while a guard was held");
        }
        th.join();
        return;
    }
    {
        G g = l.lock();
        G k(std::move(g));
        mc::check(!g && k->use() == 1, "moved guard");
        if (how == 0)
        {
            th.add([&] { o.reset(); });
            mc::check(k->use() == 1, "guarded data");
        }
        else if (how == 3)
        {
            G& self = k;
            k = std::move(self);
            th.add([&] { o.reset(); p.reset(); });
            mc::check(!!k && k->use() == 1, "guarded data");
        }
        else if (how == 1)
        {
            k = m.lock();                   // the first datum is free from here on
            o.reset();
            mc::check(dead() == 1 && k->use() == 2, "assigned guard");
            th.add([&] { p.reset(); });
            mc::check(k->use() == 2, "guarded data");
        }
        else
        {
            L none;
            k = none.lock();
            mc::check(!k, "a guard of nothing");
            o.reset();
            p.reset();
            mc::check(dead() == 2, "data not destroyed");
        }
    }
    th.join();
    mc::check(dead() == (how ? 2 : 1), "data destroyed");
}
SC("guards_outlive", 4, 6)
{
    // the guard outlives lessees and copies of them; the owner waits for it only
    fresh();
    std::unique_ptr<O> o(new O(new D(1)));
    std::unique_ptr<L> l(new L(o->lease()));
    Threads th; bool gone = false;
    {
        G g = l->lock();
        l.reset();
        th.add([&] { o.reset(); mc::check(dead() == 1, "destroyed owner, living data"); mc::Quiet q; gone = true; });
        mc::check(g->use() == 1, "guarded data");
        { mc::Quiet q; mc::check(!gone, "the owner was destroyed while a guard was held"); }
        mc::mark(0xC01);
    }
    th.join();
}
SC("two_owners_swap_data", 3, 5)
{
    fresh();
    O a(new D(1)), b(new D(2));
    L l = a.lease(), m = b.lease();
    Threads th;
    th.add([&] { use(l, 1); });
    th.add([&] { mc::check(use(m, 2), "moved data must stay alive"); });
    a = std::move(b);
    mc::check(dead() == 1 && !b && a && a->id == 2, "moved owner");
    th.join();
    mc::check(!use(l, 1) && use(m, 2), "lessees after the move");
}
SC("star_operator", 3, 3)
{
    fresh();
    O o(new D(1));
    L l = o.lease();
    Threads th;
    th.add([&] { try { D& d = *l; (void)d; mc::point(); mc::check(dead() == 0, "the data was destroyed while the reference given by operator * was in use"); } catch (const ValueAccessException&) {} });
    o.reset();
    th.join();
}
SC("construction", 0, 0)
{
    fresh();
    bool t = false;
    { O o; mc::check(!o && o == nullptr && nullptr == o, "empty owner"); L l = o.lease(); mc::check(!l && !l.lock(), "lessee of nothing"); o.reset(); }
    try { O o(nullptr); } catch (const InitializationException&) { t = true; }
    mc::check(t, "an owner of a null pointer was accepted");
    O o(new D(1), del());
    t = false;
    try { o.reset(nullptr); } catch (const InitializationException&) { t = true; }
    mc::check(t, "an owner of a null pointer was accepted");
    o.reset(new D(3));
    L l(o), n;
    mc::check(use(l, 3) && !use(n, 0), "lessee made of its owner");
    t = false;
    try { n.lock_with_exception(); } catch (const ValueAccessException&) { t = true; }
    mc::check(t, "no exception");
    t = false;
    try { n->use(); } catch (const ValueAccessException&) { t = true; }
    mc::check(t, "no exception");
    mc::check((*o).id == 3 && o->id == 3 && o.get()->id == 3, "access by the owner");
    mc::check((*l).id == 3, "access by the lessee");
}
MC_SCENARIO("C17", "sequences", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    // two owners, two lessees, two guards; a reset is made only when no guard of that datum is held
    fresh();
    std::unique_ptr<O> o[2]; std::unique_ptr<L> l[2]; std::unique_ptr<G> g[2];
    for (int i = 0; i < 2; ++i) { o[i].reset(new O()); l[i].reset(new L()); }
    int od[2] = {0, 0}, ld[2] = {0, 0}, gd[2] = {0, 0};
    std::set<int> alive; int next = 1;
    auto held = [&](int d) { return d && (gd[0] == d || gd[1] == d); };
    auto kill = [&](int d) { if (d) alive.erase(d); };
    int depth = mc::thorough() ? 6 : 5;
    auto look = [&]
            {
                for (int i = 0; i < 2; ++i)
                {
                    mc::check((bool)*o[i] == (od[i] != 0), "validity of an owner");
                    if (od[i]) mc::check((*o[i])->id == od[i], "datum of an owner");
                    mc::check((bool)*l[i] == (alive.count(ld[i]) > 0), "validity of a lessee");
                    { auto x = l[i]->lock(); mc::check((bool)x == (alive.count(ld[i]) > 0), "lock of a lessee"); if (x) mc::check(x->id == ld[i], "datum of a lessee"); }
                    if (g[i]) { mc::check((bool)*g[i] == (gd[i] != 0), "validity of a guard"); if (gd[i]) mc::check((*g[i])->magic == 77 && (*g[i])->id == gd[i], "datum of a guard"); }
                }
                mc::check(g_made - g_dead == (int)alive.size(), [&] { return mc::str(g_made - g_dead, " data alive, expected ", alive.size()); });
            };
    for (int i = 0; i < depth; ++i)
    {
        int op = i == 0 ? 0 : mc::choose(9);
        int k = i == 0 ? 0 : mc::choose(2);
        switch (op)
        {
            case 0: if (held(od[k])) break; o[k]->reset(new D(next), del()); kill(od[k]); od[k] = next; alive.insert(next++); break;
            case 1: if (held(od[k])) break; o[k]->reset(); kill(od[k]); od[k] = 0; break;
            case 2: if (held(od[k])) break; *o[k] = std::move(*o[1 - k]); kill(od[k]); od[k] = od[1 - k]; od[1 - k] = 0; break;
            case 3: { int j = i & 1; *l[j] = o[k]->lease(); ld[j] = od[k]; break; }
            case 4: if (i & 1) { *l[k] = *l[1 - k]; ld[k] = ld[1 - k]; } else { *l[k] = std::move(*l[1 - k]); ld[k] = ld[1 - k]; ld[1 - k] = 0; } break;
            case 5: g[k].reset(new G(l[1 - k]->lock())); gd[k] = alive.count(ld[1 - k]) ? ld[1 - k] : 0; break;
            case 6: g[k].reset(); gd[k] = 0; break;
            case 7: if (g[0] && g[1]) { *g[k] = std::move(*g[1 - k]); gd[k] = gd[1 - k]; gd[1 - k] = 0; } break;
            case 8: if (held(od[k])) break; if (i & 1) { O t(std::move(*o[k])); kill(od[k]); od[k] = 0; } else { o[k].reset(new O()); kill(od[k]); od[k] = 0; } break;
        }
        look();
    }
    g[0].reset(); g[1].reset(); o[0].reset(); o[1].reset();
    mc::check(g_made == g_dead, "data destroyed twice or never");
    mc::check(g_deleter == g_dead, "the deleter given was not the one called");
}
