// engine: mc
// sources: Formatter
#include "lin.hpp"
#include <stdexcept>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace h;
using namespace eprosima::utils;

namespace {
const char* EXPL = "the results have no sequential explanation as operations on one map";
using Map = std::map<int, int>;
std::string val(int v) { return mc::str("value-long-enough-to-be-on-the-heap-", v); }
int num(const std::string& s) { return atoi(s.c_str() + 36); }
std::string text(const Map& m) { std::string s; for (auto& p : m) s += mc::str(p.first, "=", p.second, " "); return s; }

struct Run
{
    SafeDatabase<int, std::string> db;
    History<Map> hist;
    Map init;

    void fill(int mask) { for (int k = 0; k < 3; ++k) if (mask >> k & 1) { db.add(k, val(k)); init[k] = k; } }

    void add(int k, int v, bool copy = false)
    {
        int id = hist.begin(mc::str("add ", k, "=", v));
        const int ck = k; const std::string cv = val(v);
        bool r;
        if (copy) { r = db.add(ck, cv); mc::check(num(cv) == v, "the value given was changed"); } else { int kk = k; std::string s = cv; r = db.add(std::move(kk), std::move(s)); }
        hist.end(id, r ? "added" : "present", [k, v, r](Map& m) { if (m.count(k) == (size_t)r) return false; if (r) m[k] = v; return true; });
    }
    void modify(int k, int v)
    {
        int id = hist.begin(mc::str("modify ", k, "=", v));
        bool r = db.modify(k, val(v));
        hist.end(id, r ? "modified" : "absent", [k, v, r](Map& m) { if (m.count(k) != (size_t)r) return false; if (r) m[k] = v; return true; });
    }
    void add_or_modify(int k, int v, bool copy = false)
    {
        int id = hist.begin(mc::str("add_or_modify ", k, "=", v));
        const int ck = k; const std::string cv = val(v);
        bool r;
        if (copy) { r = db.add_or_modify(ck, cv); mc::check(num(cv) == v, "the value given was changed"); } else { int kk = k; std::string s = cv; r = db.add_or_modify(std::move(kk), std::move(s)); }
        hist.end(id, r ? "added" : "modified", [k, v, r](Map& m) { if (m.count(k) == (size_t)r) return false; m[k] = v; return true; });
    }
    void erase(int k)
    {
        int id = hist.begin(mc::str("erase ", k));
        bool r = db.erase(k);
        hist.end(id, r ? "erased" : "absent", [k, r](Map& m) { return m.erase(k) == (size_t)r; });
    }
    void is(int k)
    {
        int id = hist.begin(mc::str("is ", k));
        bool r = db.is(k);
        hist.end(id, r ? "yes" : "no", [k, r](Map& m) { return m.count(k) == (size_t)r; });
    }
    void at(int k)
    {
        int id = hist.begin(mc::str("at ", k));
        try { int v = num(db.at(k)); hist.end(id, mc::str(v), [k, v](Map& m) { return m.count(k) && m[k] == v; }); }
        catch (const std::out_of_range&) { hist.end(id, "out_of_range", [k](Map& m) { return !m.count(k); }); }
    }
    void size()
    {
        int id = hist.begin("size");
        unsigned n = db.size();
        hist.end(id, mc::str(n), [n](Map& m) { return m.size() == n; });
    }
    void find(int k)
    {
        int id = hist.begin(mc::str("find ", k));
        auto it = db.find(k);
        auto e = db.end();
        if (it == e) hist.end(id, "end", [k](Map& m) { return !m.count(k); });
        else
        {
            int v = num(it->second);
            mc::check(it->first == k, "find gave another key");
            hist.end(id, mc::str(v), [k, v](Map& m) { return m.count(k) && m[k] == v; });
            mc::check(num(it->second) == v, "the value changed while an iterator was held");
        }
    }
    void iterate()
    {
        int id = hist.begin("iterate");
        Map got;
        {
            auto e = db.end();
            int last = -1;
            for (auto it = db.begin(); it != e; ++it)
            {
                mc::check(it->first > last, "iteration out of order");
                last = it->first;
                got[it->first] = num(it->second);
            }
        }
        hist.end(id, text(got), [got](Map& m) { return m == got; });
    }
    void iterate_range()
    {
        int id = hist.begin("iterate");
        Map got;
        for (auto& p : db) got[p.first] = num(p.second);
        hist.end(id, text(got), [got](Map& m) { return m == got; });
    }
    enum { NOPS = 12 };
    void op(int i, int k, int v)
    {
        switch (i)
        {
            case 0: add(k, v); break;
            case 1: add_or_modify(k, v); break;
            case 2: modify(k, v); break;
            case 3: erase(k); break;
            case 4: iterate_range(); break;
            case 5: find(k); break;
            case 6: at(k); break;
            case 7: is(k); break;
            case 8: size(); break;
            case 9: add(k, v, true); break;
            case 10: add_or_modify(k, v, true); break;
            case 11: iterate(); break;
        }
    }
    void finish()
    {
        iterate_range();
        size();
        hist.require(init, EXPL);
    }
};
}
#define SC(name, b, bt) MC_SCENARIO("C16", name, o.budget_quick = b; o.budget_thorough = bt)

SC("pairs_of_operations", 2, 4)
{
    Run r; Threads th;
    r.fill(mc::choose(2) ? 0 : 1);
    int a = mc::choose(Run::NOPS), b = mc::choose(Run::NOPS);
    th.add([&] { r.op(b, 0, 20); });
    r.op(a, 0, 10);
    th.join();
    r.finish();
}
SC("two_writers_one_reader", 2, 3)
{
    Run r; Threads th;
    r.fill(2);
    int a = mc::choose(4), b = mc::choose(4), c = 4 + mc::choose(5);
    th.add([&] { r.op(a, 0, 10); });
    th.add([&] { r.op(b, 0, 20); });
    r.op(c, 0, 0);
    th.join();
    r.finish();
}
SC("two_operations_each", 1, 2)
{
    Run r; Threads th;
    r.fill(1);
    int a = mc::choose(4), b = mc::choose(5), c = mc::choose(4), d = mc::choose(5);
    th.add([&] { r.op(a, 0, 10); r.op(b, 1, 11); });
    r.op(c, 0, 20);
    r.op(d, 1, 21);
    th.join();
    r.finish();
}
SC("iterator_holds", 2, 3)
{
    // while an iterator is held nothing changes; once it goes away writers go on
    Run r; Threads th;
    r.fill(7);
    int w = mc::choose(4), how = mc::choose(4);
    {
        auto it = how == 0 ? r.db.begin() : how == 1 ? r.db.find(1) : how == 2 ? r.db.end() : r.db.find(9);
        int held = 1;
        th.add([&] { { r.op(w, 1, 50); } });
        th.add([&] { r.find(1); });
        if (how < 2) mc::check(num(it->second) == it->first, "wrong element");
        mc::check(r.db.size() == 3 && r.db.is(1) && num(r.db.at(1)) == 1, "the contents changed while an iterator was held");
        int me = mc::tid();
        mc::wait_until([me] { for (int t = 0; t < mc::threads_created(); ++t) if (t != me && !mc::finished(t) && !mc::blocked(t)) return false; return true; }, "idle");
        mc::check(r.hist.pending() == 1, "a writer went on while an iterator was held, or a reader did not");
        if (how < 2) mc::check(num(it->second) == it->first, "the element changed while an iterator was held");
        (void)held;
    }
    th.join();
    r.finish();
}
SC("iterator_copies", 2, 3)
{
    // copies hold the lock of their own
    Run r; Threads th;
    r.fill(3);
    using It = SafeDatabaseIterator<int, std::string>;
    int how = mc::choose(3);
    {
        std::unique_ptr<It> a(new It(r.db.begin())), b(new It(*a));
        th.add([&] { r.erase(0); });
        th.add([&] { r.iterate(); });
        if (how == 0) a.reset();
        else if (how == 1) { It c(*b); mc::check(c == *a && c->first == 0, "copy"); }
        else { std::unique_ptr<It> c(new It(std::move(*a))); a.reset(); b.reset(); b = std::move(c); }
        mc::check((*b)->first == 0 && num((*b)->second) == 0, "the element changed while a copy of its iterator was held");
        mc::check(r.db.size() == 2, "the contents changed while a copy of an iterator was held");
    }
    th.join();
    r.finish();
}
SC("nested_iterations", 2, 3)
{
    Run r; Threads th;
    r.fill(3);
    th.add([&] { r.iterate_range(); });
    th.add([&] { r.add(2, 9); });
    int id = r.hist.begin("iterate twice");
    int n = 0, o = 0;
    for (auto& p : r.db) { ++o; for (auto& q : r.db) { n += 1; (void)q; } (void)p; }
    r.hist.end(id, mc::str(o, " x ", n), [o, n](Map& m) { return (int)m.size() == o && o * o == n; });
    th.join();
    r.finish();
}
MC_SCENARIO("C16", "sequences", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    Run r;
    int depth = mc::thorough() ? 5 : 4;
    Map m;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(9), k = op < 4 || (op > 4 && op < 8) ? mc::choose(2) : 0;
        r.op(op == 4 ? 4 : op == 8 ? 8 : op, k, 10 * (i + 1));
    }
    r.finish();
}
// a value type that can only be moved, and a key that is not a number
struct Only { std::unique_ptr<int> p; Only(int v = 0) : p(new int(v)) {} Only(Only&&) = default; Only& operator =(Only&&) = default; };
SC("move_only_values", 2, 3)
{
    SafeDatabase<std::string, Only> db;
    IModificableDatabase<std::string, Only, SafeDatabaseIterator<std::string, Only>>& i = db;
    Threads th;
    int n = 0;
    th.add([&] { bool r = i.add("k", Only(1)); mc::Quiet q; n += r; });
    bool r = i.add("k", Only(2));
    th.join();
    mc::check(n + r == 1, "add succeeded twice or never for one key");
    { auto it = i.find("k"); mc::check(*it->second.p == (r ? 2 : 1), "value of the loser stored"); }
    mc::check(i.modify("k", Only(7)) && !i.add_or_modify("k", Only(8)) && i.add_or_modify("j", Only(9)), "results");
    { auto it = i.find("k"); mc::check(*it->second.p == 8, "value"); }
    mc::check(i.erase("k") && !i.erase("k") && !i.is("k") && i.is("j") && db.size() == 1, "erase");
}

// a value that cannot be copied or moved at the moment: the operation did nothing, and the others go on, in every thread
namespace {
bool g_fail;
struct Boom {};
struct F
{
    int v;
    F(int x = 0) : v(x) {}
    F(const F& o) : v(o.v) { if (g_fail) throw Boom(); }
    F(F&& o) : v(o.v) { if (g_fail) throw Boom(); }
    F& operator =(const F& o) { if (g_fail) throw Boom(); v = o.v; return *this; }
    F& operator =(F&& o) { if (g_fail) throw Boom(); v = o.v; return *this; }
};
}
MC_SCENARIO("C16", "failing_values", o.budget_quick = 0; o.budget_thorough = 1; o.hbcache = false)
{
    { mc::Quiet x; g_fail = false; }
    SafeDatabase<int, F> db; Map m;
    int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        int op = mc::choose(6), k = mc::choose(2), fail = mc::choose(2);
        bool thrown = false, r = false;
        Map was = m;
        bool there = m.count(k);
        const int ck = k; const F cv(10 * (i + 1)); F mv(10 * (i + 1));
        { mc::Quiet x; g_fail = fail; }
        try
        {
            switch (op)
            {
                case 0: r = db.add(ck, cv); mc::check(r == !there, "add"); if (r) m[k] = cv.v; break;
                case 1: r = db.add(int(k), std::move(mv)); mc::check(r == !there, "add"); if (r) m[k] = cv.v; break;
                case 2: r = db.modify(ck, std::move(mv)); mc::check(r == there, "modify"); if (r) m[k] = cv.v; break;
                case 3: r = db.add_or_modify(ck, cv); mc::check(r == !there, "add_or_modify"); m[k] = cv.v; break;
                case 4: r = db.add_or_modify(int(k), std::move(mv)); mc::check(r == !there, "add_or_modify"); m[k] = cv.v; break;
                default: { F x = db.at(ck); mc::check(there && x.v == m[k], "at"); }
            }
        }
        catch (const Boom&) { thrown = true; }
        catch (const std::out_of_range&) { mc::check(op == 5 && !there, "out of range"); }
        { mc::Quiet x; g_fail = false; }
        if (thrown) { mc::check(fail, "an exception from nowhere"); m = was; }
        // another thread finds it usable, and as the model says
        Threads th;
        th.add([&] { db.add(7, F(7)); db.erase(7); });
        th.join();
        mc::check(db.size() == m.size(), "size after a failure");
        for (int j = 0; j < 2; ++j) { mc::check(db.is(j) == (m.count(j) > 0), "keys after a failure"); if (m.count(j)) mc::check(db.at(j).v == m[j], "value after a failure"); }
    }
}
// many keys
MC_SCENARIO("C16", "many_keys", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 1000000)
{
    static const int STEP[] = {1, 37, 1000003};
    int n = 60, step = STEP[mc::choose(3)], drop = 2 + mc::choose(3);
    SafeDatabase<int, std::string> db;
    Map m;
    auto key = [&](int i) { return (int)((long long)i * step % 2000000011LL) - 1000; };
    auto same = [&]
            {
                mc::check(db.size() == m.size(), "size");
                Map seen; size_t steps = 0;
                for (auto& p : db) { seen[p.first] = num(p.second); ++steps; }
                mc::check(seen == m && steps == m.size(), "iteration");
                for (int i = -1; i <= n; ++i)
                {
                    int k = key(i);
                    mc::check(db.is(k) == (m.count(k) == 1), "is");
                    if (m.count(k)) mc::check(num(db.at(k)) == m[k] && num(db.find(k)->second) == m[k], "value");
                    else { mc::check(db.find(k) == db.end(), "found what is absent"); bool t = false; try { db.at(k); } catch (const std::exception&) { t = true; } mc::check(t, "at of an absent key"); }
                }
            };
    for (int i = 0; i < n; ++i) { mc::check(db.add(key(i), val(i)), "add"); m[key(i)] = i; }
    for (int i = 0; i < n; ++i) mc::check(!db.add(key(i), val(1000 + i)), "add of a present key");
    same();
    for (int i = 0; i < n; i += drop) { mc::check(db.erase(key(i)) && !db.erase(key(i)), "erase"); m.erase(key(i)); }
    same();
    for (int i = 0; i < n; ++i)
    {
        bool p = m.count(key(i));
        if (i & 1) { mc::check(db.add_or_modify(key(i), val(2000 + i)) == !p, "add_or_modify"); m[key(i)] = 2000 + i; }
        else { mc::check(db.modify(key(i), val(3000 + i)) == p, "modify"); if (p) m[key(i)] = 3000 + i; }
    }
    same();
}
// a value is only ever assigned to, moved from or copied while it exists
namespace {
struct Cell
{
    const Cell* self; int v;
    Cell(int x = 0) : self(this), v(x) {}
    Cell(const Cell& o) : self(this), v(o.get()) {}
    Cell(Cell&& o) : self(this), v(o.get()) {}
    ~Cell() { get(); self = nullptr; }
    Cell& operator =(const Cell& o) { get(); v = o.get(); return *this; }
    Cell& operator =(Cell&& o) { get(); v = o.get(); return *this; }
    int get() const { mc::check(self == this, "a value that does not exist was used"); return v; }
};
}
SC("values_that_exist", 2, 4)
{
    SafeDatabase<int, Cell> db;
    Threads th;
    bool two = mc::choose(2);
    db.add(0, Cell(1)); if (two) db.add(1, Cell(2));
    int a = mc::choose(4), b = mc::choose(2);
    th.add([&] { db.erase(0); if (b) db.add(0, Cell(5)); });
    if (a == 0) db.add_or_modify(0, Cell(3));
    else if (a == 1) db.modify(0, Cell(3));
    else if (a == 2) db.add(0, Cell(3));
    else try { int x = db.at(0).get(); mc::check(x == 1 || x == 5, "value"); } catch (const std::out_of_range&) {}
    th.join();
    for (auto& p : db) mc::check(p.second.get() > 0 && p.second.get() < 6, "value");
    if (a == 0) mc::check(db.is(0) == (b || db.size() > unsigned(two)), "presence");
}
MC_SCENARIO("C16", "very_many_keys", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false; o.max_steps = 100000000)
{
    SafeDatabase<int, int> db;
    const unsigned n = mc::thorough() ? 140000 : 70000;
    for (unsigned i = 0; i < n; ++i)
    {
        db.add((int)i, (int)i + 1);
        if (i < 300 || (i & 0xFFFF) < 2) mc::check(db.size() == i + 1, "size");
    }
    unsigned k = 0;
    for (auto& p : db) { mc::check(p.first == (int)k && p.second == (int)k + 1, "iteration"); ++k; }
    mc::check(k == n && db.size() == n, "size");
}
