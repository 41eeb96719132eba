// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <cpp_utils/pool/IPool.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
using namespace eprosima::utils;

namespace {
int g_live, g_made;
struct E
{
    int resets = 0, dirty = 0; long magic = 0x5a5a;
    E() { ++g_live; ++g_made; }
    ~E() { magic = 0; --g_live; }
};
struct Boom {};
struct Pool : UnboundedPool<E>
{
    int resets = 0, throw_at = -1, news = 0;
    Pool(PoolConfiguration c, int t = -1) : UnboundedPool<E>(c), throw_at(t) { initialize_vector_(); }
    E* new_element_() override { if (++news == throw_at) throw Boom(); return new E(); }
    void reset_element_(E* e) override { ++resets; ++e->resets; e->dirty = 0; }
};
//! an ideal pool next to the real one
struct Ideal
{
    Pool p; int batch, created; std::set<E*> known, loaned; std::map<E*, int> resets; int returned = 0;
    Ideal(int init, int max, int b) : p(PoolConfiguration(init, max, b)), batch(b), created(init)
    { mc::check(g_made == init, "the initial elements"); }
    std::vector<E*> order;
    void loan()
    {
        E* e = nullptr; int before = g_made; bool none_free = (int)loaned.size() == created;
        mc::check(p.loan(e), "loan failed");
        if (!mc::check(e != nullptr && !loaned.count(e), "an element handed out twice")) return;
        mc::check(e->magic == 0x5a5a && !e->dirty, "a loaned element is not as new");
        created += none_free ? batch : 0;
        mc::check(g_made - before == (none_free ? batch : 0), "the pool grew by another amount than its batch");
        // an element seen for the first time must never have been handed out before; a known one must have come back reset
        mc::check(e->resets == resets[e], "an element was not reset once per return");
        known.insert(e); loaned.insert(e); order.push_back(e); e->dirty = 1;
        mc::check((int)known.size() <= created, "more elements than created");
    }
    void give(int k)
    {
        E* e = order[k]; order.erase(order.begin() + k); loaned.erase(e); ++resets[e]; ++returned;
        mc::check(p.return_loan(e), "return failed");
        mc::check(p.resets == returned, "returned elements are not reset exactly once");
    }
    void over()
    {
        E x;
        int before = p.resets;
        mc::check(en::throws<InconsistencyException>([&] { p.return_loan(&x); }), "more elements returned than loaned were accepted");
        mc::check(p.resets == before, "a refused element was used");
        --g_made;
    }
    void end() { while (!order.empty()) give((int)order.size() - 1); }
};
void run(int init, int max, int batch, const std::vector<int>& v)
{
    g_live = g_made = 0;
    {
        Ideal d(init, max, batch);
        for (int op : v)
        {
            mc::count("ops");
            if (op == 0) d.loan();
            else if (op <= 3)
            {
                if (d.order.empty()) d.over();
                else d.give(op == 1 ? 0 : op == 2 ? (int)d.order.size() - 1 : (int)d.order.size() / 2);
            }
        }
        d.end();
        mc::check(g_live == g_made && g_live == d.created, "elements destroyed while the pool lives");
    }
    mc::check(g_live == 0, "elements not destroyed exactly once with the pool");
}
}

MC_SCENARIO("C20", "sequences")
{
    int n = mc::thorough() ? 9 : 7;
    for (int init = 0; init < 4; ++init) for (int batch = 1; batch < 4; ++batch)
        en::tuples(mc::thorough() ? 4 : 3, n, [&](const std::vector<int>& v)
        {
            en::begin(mc::str("initial ", init, " batch ", batch, " sequence ", en::q(v)));
            run(init, 0, batch, v);
        });
}
MC_SCENARIO("C20", "long_runs")
{
    // n loans, all returned in every of several orders, n + 1 loans: whatever the sizes
    int top = mc::thorough() ? 40 : 24;
    for (int init = 0; init < 6; ++init) for (int batch = 1; batch < 7; ++batch) for (int max : {0, 1, 5}) for (int n = 0; n < top; ++n) for (int o = 1; o < 4; ++o)
    {
        en::begin(mc::str("initial ", init, " maximum ", max, " batch ", batch, " elements ", n, " order ", o));
        std::vector<int> v(n, 0);
        v.insert(v.end(), n + 1, o);        // one more than loaned: it must be refused
        v.insert(v.end(), n + 1, 0);
        v.insert(v.end(), n, o);
        run(init, max, batch, v);
    }
}
MC_SCENARIO("C20", "hundreds")
{
    for (int init : {0, 1, 65, 101, 300}) for (int batch : {1, 33, 101, 257}) for (int n : {10, 70, 300, 700}) for (int o = 1; o < 4; ++o)
    {
        en::begin(mc::str("initial ", init, " batch ", batch, " elements ", n, " order ", o));
        std::vector<int> v(n, 0);
        v.insert(v.end(), n + 1, o);
        v.insert(v.end(), n + 1, 0);
        v.insert(v.end(), n, o);
        run(init, 0, batch, v);
    }
}
MC_SCENARIO("C20", "thousands")
{
    for (int init : {0, 1500, 5000, 70000}) for (int batch : {1, 1500, 70000}) for (int n : {1499, 1500, 5001, 70001}) for (int o = 1; o < 4; ++o)
    {
        // the oldest first only where it is cheap
        if (o != 2 && n > 6000) continue;
        en::begin(mc::str("initial ", init, " batch ", batch, " elements ", n, " order ", o));
        std::vector<int> v(n, 0);
        v.insert(v.end(), n + 1, o);
        v.insert(v.end(), n, 0);
        v.insert(v.end(), n, 2);
        run(init, 0, batch, v);
    }
}
MC_SCENARIO("C20", "configuration")
{
    for (int i = 0; i < 3; ++i) for (int m = 0; m < 3; ++m) for (int b = 0; b < 4; ++b)
    {
        en::begin(mc::str("configuration ", i, " ", m, " ", b));
        PoolConfiguration c(i, m, b);
        mc::check((int)c.initial_size == i && (int)c.maximum_size == m && (int)c.batch_size == b, "the configuration given");
        PoolConfiguration d;
        mc::check(d.initial_size == 0 && d.maximum_size == 0 && d.batch_size == 1, "the default configuration");
        g_live = g_made = 0;
        bool thrown = en::throws<InitializationException>([&] { Pool p(c); });
        mc::check(thrown == (b < 1), "a batch size below one must be rejected, and no other");
        mc::check(g_live == 0, "elements not destroyed");
        if (b < 1)
        {
            mc::check(en::throws<InitializationException>([&] { std::unique_ptr<IPool<E>> p(create_pool<E>(c)); }) && g_live == 0, "a pool created with a batch size below one");
            continue;
        }
        {
            std::unique_ptr<IPool<E>> p(create_pool<E>(c));
            E* e = nullptr; E* f = nullptr;
            mc::check(p->loan(e) && p->loan(f) && e && f && e != f, "a created pool");
            e->dirty = 1;
            mc::check(p->return_loan(e) && p->return_loan(f), "a created pool");
        }
        mc::check(g_live == 0, "elements not destroyed");
    }
}
MC_SCENARIO("C20", "left_as_returned")
{
    // a pool that says nothing about resetting hands an element out again as it was returned
    for (int init = 0; init < 4; ++init) for (int batch = 1; batch < 4; ++batch) for (int n = 1; n < 6; ++n) for (int back = 1; back <= n; ++back)
    {
        en::begin(mc::str("initial ", init, " batch ", batch, " elements ", n, " returned ", back));
        g_live = g_made = 0;
        {
            std::unique_ptr<IPool<E>> p(create_pool<E>(PoolConfiguration(init, 0, batch)));
            std::vector<E*> v;
            for (int i = 0; i < n; ++i) { E* e = nullptr; mc::check(p->loan(e) && e && e->dirty == 0 && e->magic == 0x5a5a, "a new element"); e->dirty = i + 1; e->magic = 100 + i; v.push_back(e); }
            std::map<E*, int> was;
            for (int i = 0; i < back; ++i) { E* e = v[i]; was[e] = i + 1; mc::check(p->return_loan(e), "returned"); }
            for (int i = 0; i < 12; ++i)
            {
                E* e = nullptr;
                mc::check(p->loan(e) && e, "loaned");
                auto w = was.find(e);
                mc::check(w == was.end() ? e->dirty == 0 && e->magic == 0x5a5a : e->dirty == w->second && e->magic == 99 + w->second, "an element of a pool that resets nothing is not as it was returned");
                if (w != was.end()) was.erase(w);
                v.push_back(e);
            }
            mc::check(was.empty(), "returned elements not used again");
        }
    }
}
MC_SCENARIO("C20", "creation_throws")
{
    // an element that cannot be created: the pool keeps those it has, each handed out once and accepted back
    for (int init = 0; init < 3; ++init) for (int batch = 1; batch < 4; ++batch) for (int t = init + 1; t < init + 8; ++t)
    {
        en::begin(mc::str("initial ", init, " batch ", batch, " creation ", t, " throws"));
        g_live = g_made = 0;
        {
            Pool p(PoolConfiguration(init, 0, batch), t);
            std::set<E*> out;
            int thrown = 0;
            for (int k = 0; k < 9; ++k)
            {
                E* e = nullptr;
                try { p.loan(e); mc::check(e && out.insert(e).second, "an element handed out twice"); }
                catch (const Boom&) { ++thrown; }
            }
            mc::check(thrown == 1, "the exception of the creation must reach the user once");
            for (auto e : out) mc::check(!en::throws<InconsistencyException>([&] { p.return_loan(e); }), "a loaned element was not accepted back");
        }
        mc::check(g_live == 0, "elements not destroyed exactly once");
    }
}
