// engine: seq
// sources: Formatter exception/Exception
#include "enum.hpp"
#include <sstream>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/memory/Heritable.hpp>
using namespace eprosima::utils;

namespace {
// -------------------------------------------------------------------------------------------------- trees
struct Shape { int info; std::vector<Shape> kids; };
template <typename I> I info(int i);
template <> int info<int>(int i) { return i; }
template <> std::string info<std::string>(int i) { return std::string(30, (char)('a' + i)); }
int depth(const Shape& s) { int d = 0; for (auto& k : s.kids) d = std::max(d, 1 + depth(k)); return d; }
void below(const Shape& s, std::multiset<int>& out) { for (auto& k : s.kids) { out.insert(k.info); below(k, out); } }
//! every ordered tree with n nodes, its nodes numbered in order from `next`
void trees(int n, int next, const std::function<void(const Shape&)>& f);
void forests(int n, int next, const std::function<void(const std::vector<Shape>&)>& f)
{
    if (n == 0) { f({}); return; }
    for (int k = 1; k <= n; ++k) trees(k, next, [&](const Shape& t) { forests(n - k, next + k, [&](const std::vector<Shape>& r) { std::vector<Shape> v{t}; v.insert(v.end(), r.begin(), r.end()); f(v); }); });
}
void trees(int n, int next, const std::function<void(const Shape&)>& f) { forests(n - 1, next + 1, [&](const std::vector<Shape>& r) { f(Shape{next, r}); }); }
std::string text(const Shape& s) { std::string o = "("; for (auto& k : s.kids) o += text(k); return o + ")"; }

//! builds it: how = 0 nodes copied in when complete, 1 moved in, 2 mixed; leaves by info
template <typename I>
TreeNode<I> make(const Shape& s, int how)
{
    TreeNode<I> t(info<I>(s.info));
    for (auto& k : s.kids)
    {
        if (k.kids.empty() && how != 1) { if (how) t.add_branch(info<I>(k.info)); else { const I c = info<I>(k.info); t.add_branch(c); } }
        else if (how == 1 || (how == 2 && k.info % 2)) t.add_branch(make<I>(k, how));
        else { const TreeNode<I> n = make<I>(k, how); t.add_branch(n); }
    }
    return t;
}
template <typename I>
bool same(const TreeNode<I>& t, const Shape& s)
{
    if (!(t.info == info<I>(s.info)) || t.branches().size() != s.kids.size() || t.leaf() != s.kids.empty() || (int)t.depth() != depth(s)) return false;
    auto it = t.branches().begin();
    for (auto& k : s.kids) if (!same(*it++, k)) return false;
    return true;
}
template <typename I>
void whole(const TreeNode<I>& t, const Shape& s)
{
    mc::check((int)t.depth() == depth(s), [&] { return mc::str("depth ", t.depth(), ", expected ", depth(s)); });
    mc::check(same(t, s), "the branches are not those that were added, in order");
    std::multiset<int> ids; below(s, ids);
    std::multiset<I> want, got; for (int i : ids) want.insert(info<I>(i));
    for (auto& n : t.all_nodes()) got.insert(n.info);
    mc::check(got == want, "all_nodes does not give each node below once");
}
template <typename I>
void all_trees(int max)
{
    for (int n = 1; n <= max; ++n) trees(n, 0, [&](const Shape& s) {
        for (int how = 0; how < 3; ++how)
        {
            en::begin(mc::str(text(s), " how ", how));
            TreeNode<I> t = make<I>(s, how);
            whole<I>(t, s);
            TreeNode<I> c(t); whole<I>(c, s);
            // what is added to a copy does not reach the original
            const I nine = info<I>(9);
            c.add_branch(nine); whole<I>(t, s);
            Shape s2 = s; s2.kids.push_back({9, {}}); whole<I>(c, s2);
            // a tree as a branch of itself: a copy of what it was
            const TreeNode<I>& alias = t;
            t.add_branch(alias); s2 = s; s2.kids.push_back(s); whole<I>(t, s2);
            TreeNode<I> m(std::move(t)); whole<I>(m, s2);
        }
    });
}

// ---------------------------------------------------------------------------------------------- heritable
std::set<const void*> g_alive; int g_bad;
struct Base { int x; explicit Base(int x = 0) : x(x) { g_alive.insert(this); } Base(const Base& o) : x(o.x) { g_alive.insert(this); } virtual ~Base() { if (!g_alive.erase(this)) ++g_bad; }
    virtual int kind() const { return 0; } bool operator==(const Base& o) const { return x == o.x; } bool operator<(const Base& o) const { return x < o.x; } };
struct Left : Base { std::string s; explicit Left(int x = 0) : Base(x), s(50, 'l') {} int kind() const override { return 1; } };
struct Deep : Left { std::string t; explicit Deep(int x = 0) : Left(x), t(50, 'd') {} int kind() const override { return 2; } };
struct Right : Base { std::string s; explicit Right(int x = 0) : Base(x), s(60, 'r') {} int kind() const override { return 3; } };
std::ostream& operator<<(std::ostream& os, const Base& b) { return os << b.kind() << ":" << b.x; }
//! polymorphic, but without a virtual destructor
struct Plain { int x; explicit Plain(int x = 0) : x(x) {} virtual int kind() const { return 0; } bool operator==(const Plain& o) const { return x == o.x; } };
struct PlainChild : Plain { std::string s; explicit PlainChild(int x = 0) : Plain(x), s(70, 'p') {} int kind() const override { return 1; } };

template <typename H>
void casts(const H& h, int kind)
{
    mc::check(h->kind() == kind && (*h).kind() == kind && h.get_reference().kind() == kind, "dynamic type");
    mc::check(h.template can_cast<Base>(), "cast to the base");
    mc::check(h.template can_cast<Left>() == (kind == 1 || kind == 2) && h.template can_cast<Deep>() == (kind == 2) && h.template can_cast<Right>() == (kind == 3), "can_cast");
    mc::check(en::throws<std::bad_cast>([&] { h.template dyn_cast<Deep>(); }) == (kind != 2) && en::throws<std::bad_cast>([&] { h.template dyn_cast<Right>(); }) == (kind != 3)
            && en::throws<std::bad_cast>([&] { h.template dyn_cast<Left>(); }) == (kind != 1 && kind != 2), "dyn_cast");
    if (kind == 2) mc::check(&h.template dyn_cast<Deep>() == &*h && h.template dyn_cast<Deep>().t == std::string(50, 'd'), "dyn_cast gave another object");
    if (kind == 3) mc::check(&h.template dyn_cast<Right>() == &*h && h.template dyn_cast<Right>().s == std::string(60, 'r'), "dyn_cast gave another object");
}
struct Slot { Heritable<Base> h; int obj; };
}
MC_SCENARIO("C35", "trees_of_numbers") { all_trees<int>(mc::thorough() ? 9 : 8); }
MC_SCENARIO("C35", "trees_of_texts") { all_trees<std::string>(mc::thorough() ? 8 : 7); }
MC_SCENARIO("C35", "tree_operations")
{
    // any sequence of additions at any node
    en::sequences(4, 0, mc::thorough() ? 9 : 7, [&](const std::vector<int>& v) {
        en::begin(en::q(v));
        Shape s{0, {}}; TreeNode<std::string> t(info<std::string>(0));
        std::vector<Shape> stack; std::vector<TreeNode<std::string>> nodes;
        for (int op : v)
        {
            int id = (int)(op + s.kids.size()) % 8;
            if (op == 0) { s.kids.push_back({id, {}}); t.add_branch(info<std::string>(id)); }
            else if (op == 1) { stack.push_back(s); nodes.push_back(t); s = {id, {}}; t = TreeNode<std::string>(info<std::string>(id)); }
            else if (op == 2 && !stack.empty()) { stack.back().kids.push_back(s); nodes.back().add_branch(std::move(t)); s = stack.back(); t = nodes.back(); stack.pop_back(); nodes.pop_back(); }
            else if (op == 3) { const TreeNode<std::string> c(t); Shape k = s; s.kids.push_back(k); t.add_branch(c); }
            whole<std::string>(t, s);
            if (s.kids.size() > 6 || depth(s) > 5) return;
        }
    });
}
MC_SCENARIO("C35", "heritable_histories")
{
    enum { OPS = 4 + 9 + 6 + 2 + 2 };
    en::sequences(OPS, 0, mc::thorough() ? 5 : 4, [&](const std::vector<int>& v) {
        en::begin(en::q(v));
        g_alive.clear(); g_bad = 0;
        {
            int next = 1;
            std::vector<int> kinds, values;
            auto fresh = [&](int k) { kinds.push_back(k); values.push_back(next++); return (int)kinds.size() - 1; };
            std::vector<const void*> where;
            std::vector<Slot> slot;
            slot.reserve(3);
            auto make = [&](int k) -> Heritable<Base> {
                int id = fresh(k), x = values[id];
                Heritable<Base> h = k == 0 ? Heritable<Base>::make_heritable(x) : k == 1 ? Heritable<Base>(new Left(x)) : k == 2 ? Heritable<Base>(Heritable<Left>(new Deep(x))) : Heritable<Base>(Heritable<Right>::make_heritable(x));
                where.push_back(&*h);
                return h;
            };
            for (int i = 0; i < 3; ++i) { Heritable<Base> h = make(i); slot.push_back({h, i}); }
            size_t step = 0;
            for (int op : v)
            {
                ++step;
                if (op < 4) { slot[0].h = make(op); slot[0].obj = (int)kinds.size() - 1; }
                else if (op < 13) { int a = (op - 4) / 3, b = (op - 4) % 3; slot[a].h = static_cast<const Heritable<Base>&>(slot[b].h); slot[a].obj = slot[b].obj; }
                else if (op < 19) { int a = (op - 13) / 2, b = (a + 1 + (op - 13) % 2) % 3; Heritable<Base> c(slot[b].h); slot[a].h = std::move(c); slot[a].obj = slot[b].obj; }
                else if (op == 19) { Heritable<Base> c(std::move(slot[1].h)); slot[1].h = std::move(slot[2].h); slot[2].h = std::move(c); std::swap(slot[1].obj, slot[2].obj); }
                else if (op == 20) { std::swap(slot[0], slot[1]); }
                else if (op == 21) { slot[1].h->x = values[slot[1].obj] = 100 + next; }        // what one holder changes, all of that object see
                else { Heritable<Left> l(new Deep(next)); slot[2].obj = fresh(2); where.push_back(&*l); slot[2].h = l; }
                if (step < v.size()) continue;      // every shorter sequence is a case of its own
                std::set<const void*> held;
                for (auto& s : slot)
                {
                    held.insert(where[s.obj]);
                    mc::check(&*s.h == where[s.obj] && s.h->x == values[s.obj], "a holder has another object than the one it was given");
                    if (v.size() < 4 && &*s.h == where[s.obj]) casts(s.h, kinds[s.obj]);
                }
                for (auto& a : slot) for (auto& b : slot)
                {
                    int x = values[a.obj], y = values[b.obj];
                    mc::check((a.h == b.h) == (x == y) && (a.h < b.h) == (x < y) && (a.h == *b.h) == (x == y) && (a.h < *b.h) == (x < y), "comparison");
                }
                std::ostringstream os; os << slot[0].h; en::same(os.str(), mc::str("{", kinds[slot[0].obj], ":", values[slot[0].obj], "}"), "operator<<");
                mc::check(g_alive == held, "an object nobody holds is alive, or a held one is gone");
            }
        }
        mc::check(g_alive.empty() && g_bad == 0, "an object was not destroyed exactly once");
    });
}
MC_SCENARIO("C35", "heritable_plain_classes")
{
    // also without virtual destructors an object is destroyed as what it is
    for (int how = 0; how < 4; ++how)
    {
        en::begin(mc::str("how ", how));
        Heritable<Plain> h = how == 0 ? Heritable<Plain>(new PlainChild(3)) : how == 1 ? Heritable<Plain>(Heritable<PlainChild>(new PlainChild(3))) : how == 2 ? Heritable<Plain>(Heritable<PlainChild>::make_heritable(3)) : Heritable<Plain>(new Plain(3));
        Heritable<Plain> c(h); c = h;
        mc::check(c->x == 3 && c == h && c->kind() == (how < 3), "plain");
    }
}

namespace {
template <typename I> struct Big
{
    static void run()
    {
        for (int n : {60, 255, 256, 300, 1000})
        {
            en::begin(mc::str("chain of ", n));
            Shape chain{n % 20, {}}; TreeNode<I> t(info<I>(n % 20));
            for (int i = 1; i <= n; ++i)
            {
                Shape up{(n + i) % 20, {}}; up.kids.push_back(std::move(chain)); chain = std::move(up);
                TreeNode<I> u(info<I>((n + i) % 20)); u.add_branch(std::move(t)); t = std::move(u);
            }
            mc::check((int)t.depth() == n, "depth");
            if (n <= 300) { whole<I>(t, chain); TreeNode<I> c(t); c.add_branch(info<I>(3)); whole<I>(t, chain); chain.kids.push_back({3, {}}); whole<I>(c, chain); }
            en::begin(mc::str("wide ", n));
            Shape w{0, {}}; TreeNode<I> x(info<I>(0));
            for (int i = 0; i < n; ++i)
            {
                Shape k{i % 20, {}}; TreeNode<I> y(info<I>(i % 20));
                for (int j = 0; j < i % 4; ++j) { k.kids.push_back({j, {}}); y.add_branch(info<I>(j)); }
                w.kids.push_back(k);
                if (i % 2) x.add_branch(y); else x.add_branch(std::move(y));
            }
            whole<I>(x, w); TreeNode<I> c(x); whole<I>(c, w); TreeNode<I> m(std::move(x)); whole<I>(m, w);
        }
    }
};
}
MC_SCENARIO("C35", "large_trees_of_numbers") { Big<int>::run(); }
MC_SCENARIO("C35", "large_trees_of_texts") { Big<std::string>::run(); }
