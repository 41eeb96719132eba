// engine: mc
// sources: math/random/TSafeRandomManager math/random/RandomManager
// uses: public
#include "lin.hpp"
#include <random>
#include <shared_mutex>
#include <cpp_utils/types/Atomicable.hpp>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace h;
using namespace eprosima::utils;

namespace {
struct Foo
{
    Foo() {}
    Foo(int x, int y) : a(x), b(y) {}
    int a = 0, b = 0;
};
int g_ex, g_sh;
void fresh() { mc::Quiet q; g_ex = g_sh = 0; }
struct Ex
{
    Ex() { mc::Quiet q; mc::check(++g_ex == 1 && g_sh == 0, "an exclusive holder is not alone"); }
    ~Ex() { mc::Quiet q; --g_ex; }
};
struct Sh
{
    Sh() { mc::Quiet q; ++g_sh; mc::check(g_ex == 0, "a shared holder together with an exclusive one"); }
    ~Sh() { mc::Quiet q; --g_sh; }
};
//! change both halves; nobody may see one without the other
template <typename A>
void change(A& f) { Ex e; int v = f.a; mc::point(); f.a = v + 1; mc::point(); f.b = v + 1; }
template <typename A>
int look(A& f) { int a = f.a; mc::point(); mc::check(a == f.b, "half of a change was seen"); return a; }

struct Seq { unsigned seed; int pos; };
//! the numbers of the plain manager, computed before any thread exists
const unsigned SEEDS[] = {0, 1, 2, 3, 5, 7, 9, 11, 0xffffffffu};
struct Table
{
    unsigned v[9][8];
    unsigned many[2000];      // of seed 3
    Table() { for (int i = 0; i < 9; ++i) { RandomManager m(SEEDS[i]); for (auto& x : v[i]) x = m.sequence_rand(); } RandomManager m(3); for (auto& x : many) x = m.sequence_rand(); }
} T;
unsigned memo(unsigned seed, int pos) { for (int i = 0; i < 9; ++i) if (SEEDS[i] == seed) return T.v[i][pos]; std::abort(); }
struct Rand
{
    TSafeRandomManager r; History<Seq> h; unsigned s0;
    Rand(unsigned s) : r(s), s0(s) {}
    void draw(int how)
    {
        int id = h.begin("sequence_rand");
        unsigned v = how ? r.rand<false>() : r.sequence_rand();
        h.end(id, mc::str(v), [v](Seq& q) { return memo(q.seed, q.pos++) == v; });
    }
    void seed(unsigned s) { int id = h.begin(mc::str("seed ", s)); r.seed(s); h.end(id, "", [s](Seq& q) { q = {s, 0}; return true; }); }
    void seeded(unsigned s, int how)
    {
        unsigned v = how ? r.rand(s) : r.seeded_rand(s);
        mc::Quiet q; mc::check(v == memo(s, 0), "the number of a seed is not the one of the plain manager");
    }
    void end() { mc::Quiet q; h.require({s0, 0}, "the numbers handed out are not consecutive numbers of the sequence"); }
};
}
#define SC(name, b, bt) MC_SCENARIO("C18", name, o.budget_quick = b; o.budget_thorough = bt)

SC("exclusive", 6, 9)
{
    fresh();
    Atomicable<Foo> f(3, 3); Threads th;
    for (int i = 0; i < 2; ++i) th.add([&, i] {
        if (i == 0) { std::unique_lock<Atomicable<Foo>> l(f); change(f); l.unlock(); l.lock(); look(f); }
        else { std::lock_guard<Atomicable<Foo>> l(f); change(f); } });
    { std::unique_lock<Atomicable<Foo>> l(f, std::try_to_lock); if (l.owns_lock()) { Ex e; look(f); } }
    th.join();
    std::lock_guard<Atomicable<Foo>> l(f);
    mc::check(f.a == 5 && f.b == 5, "a change was lost");
}
SC("shared", 6, 9)
{
    fresh();
    SharedAtomicable<Foo> f; Threads th;
    th.add([&] { std::unique_lock<SharedAtomicable<Foo>> l(f); change(f); });
    th.add([&] { std::shared_lock<SharedAtomicable<Foo>> l(f); Sh s; look(f); });
    { std::shared_lock<SharedAtomicable<Foo>> l(f); Sh s; look(f); }
    th.join();
    std::lock_guard<SharedAtomicable<Foo>> l(f);
    mc::check(f.a == 1 && f.b == 1, "a change was lost");
}
SC("shared_holders_together", 5, 8)
{
    // two shared holders may hold at once: neither may need the other to leave
    fresh();
    SharedAtomicable<Foo> f; Threads th;
    bool in = false;
    std::shared_lock<SharedAtomicable<Foo>> l(f);
    Sh s;
    th.add([&] { std::shared_lock<SharedAtomicable<Foo>> k(f); { Sh t; look(f); } mc::Quiet q; in = true; mc::mark(0xD1); });
    mc::wait_until([&] { return in; }, "the second shared holder");
    mc::check(!f.try_lock(), "exclusive access while it is shared");
    l.unlock();
    th.join();
}
SC("shared_timed", 5, 8)
{
    fresh();
    SharedAtomicable<Foo> f; Threads th;
    th.add([&] { std::lock_guard<SharedAtomicable<Foo>> l(f); change(f); });
    th.add([&] { if (f.try_lock_shared_for(std::chrono::milliseconds(5))) { { Sh s; look(f); } f.unlock_shared(); } });
    if (f.try_lock_for(std::chrono::milliseconds(5))) { change(f); f.unlock(); }
    th.join();
}
SC("recursive", 5, 8)
{
    fresh();
    Atomicable<Foo, std::recursive_mutex> f; Threads th;
    for (int i = 0; i < 2; ++i) th.add([&] {
        std::lock_guard<Atomicable<Foo, std::recursive_mutex>> l(f);
        { std::lock_guard<Atomicable<Foo, std::recursive_mutex>> m(f); change(f); }
        look(f); });
    th.join();
    mc::check(f.a == 2 && f.b == 2, "a change was lost");
}
SC("draws", 5, 8)
{
    Rand* r = new Rand(mc::choose(3)); Threads th;
    th.add([=] { r->draw(0); r->draw(1); });
    th.add([=] { r->draw(0); });
    r->draw(1);
    th.join(); r->end(); delete r;
}
SC("draws_and_seed", 5, 8)
{
    Rand* r = new Rand(1); Threads th; int s = mc::choose(2) ? 7 : 1;
    th.add([=] { r->draw(0); r->draw(0); });
    th.add([=] { r->seed(s); r->draw(1); });
    r->draw(0);
    th.join(); r->end(); delete r;
}
SC("two_seeds", 5, 8)
{
    Rand* r = new Rand(1); Threads th;
    th.add([=] { r->seed(0); r->draw(0); });
    th.add([=] { r->seed(0xffffffffu); });
    r->draw(0);
    th.join(); r->end(); delete r;
}
SC("seeded", 5, 8)
{
    // numbers of a seed, also the same one twice at once, leave the sequence alone
    Rand* r = new Rand(5); Threads th; int how = mc::choose(2);
    th.add([=] { r->seeded(1, how); r->draw(0); r->seeded(2, 0); });
    th.add([=] { r->seeded(how ? 1 : 9, 0); });
    r->draw(0); r->seeded(0, how);
    th.join(); r->end(); delete r;
}
SC("pure", 5, 8)
{
    Rand* r = new Rand(1); Threads th;
    th.add([=] { r->r.pure_rand(); r->draw(0); });
    th.add([=] { r->r.rand<true>(); r->seeded(3, 0); });
    r->draw(0); r->r.pure_rand();
    th.join(); r->end(); delete r;
}
SC("global", 4, 6)
{
    Threads th;
    unsigned v[2];
    unsigned* p = v;
    GlobalRandomManager::get_instance()->seed(11);
    for (int i = 0; i < 2; ++i) th.add([=] { unsigned x = GlobalRandomManager::get_instance()->sequence_rand(); mc::Quiet q; p[i] = x; });
    th.join();
    mc::Quiet q;
    unsigned a = memo(11, 0), b = memo(11, 1);
    mc::check((v[0] == a && v[1] == b) || (v[0] == b && v[1] == a), "the numbers of the global manager");
}

// long sequences: across every refill of the generator's state
SC("long_sequence", 0, 0)
{
    TSafeRandomManager* r = new TSafeRandomManager(3);
    int n = 1 + mc::choose(2), noise = mc::choose(3);
    Threads th;
    int* at = new int(0);
    if (n == 2) th.add([=] { mc::wait_until([=] { return *at >= 700; }, "half of the numbers"); for (int i = 0; i < 5; ++i) r->seeded_rand(i); });
    for (int i = 0; i < 2000; ++i)
    {
        if (noise == 1 && i % 7 == 0) r->seeded_rand(i);
        if (noise == 2 && i % 97 == 0) r->pure_rand();
        unsigned v = i % 3 ? r->sequence_rand() : r->rand<>();
        mc::check(v == T.many[i], [&] { return mc::str("number ", i, " of the sequence"); });
        mc::Quiet q; *at = i;
    }
    th.join();
    if (mc::choose(2)) { r->seed(3); for (int i = 0; i < 700; ++i) mc::check(r->sequence_rand() == T.many[i], [&] { return mc::str("number ", i, " after seeding again"); }); }
    delete r; delete at;
}
SC("draws_at_refill", 5, 8)
{
    // the numbers around the one where the generator computes its state anew
    int before = 620 + mc::choose(4);
    TSafeRandomManager* r = new TSafeRandomManager(3); Threads th;
    unsigned* v = new unsigned[4]();
    for (int i = 0; i < before; ++i) r->sequence_rand();
    for (int k = 0; k < 2; ++k) th.add([=] { for (int i = 0; i < 2; ++i) { unsigned x = r->sequence_rand(); mc::Quiet q; v[2 * k + i] = x; } });
    th.join();
    {
        mc::Quiet q;
        std::vector<unsigned> got(v, v + 4), want(T.many + before, T.many + before + 4);
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        mc::check(got == want, "numbers lost, doubled or invented");
    }
    mc::check(r->sequence_rand() == T.many[before + 4], "the next number");
    delete r; delete[] v;
}
