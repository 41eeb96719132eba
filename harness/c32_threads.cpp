// engine: mc
// sources: math/random/RandomManager math/random/TSafeRandomManager
#include "lin.hpp"
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace h;
using namespace eprosima::utils;

namespace {
struct Numbers { std::vector<unsigned> one, seven; unsigned seeded[3]; Numbers() { std::mt19937 a(1), b(7); for (int i = 0; i < 8; ++i) { one.push_back(a()); seven.push_back(b()); } for (unsigned s = 0; s < 3; ++s) { std::mt19937 g(s); seeded[s] = g(); } } } const N;
}
// threads drawing from one sequence get each of its numbers once, whatever seeded draws go on
MC_SCENARIO("C32", "threads_draw", o.budget_quick = 2; o.budget_thorough = 3)
{
    int k = mc::choose(3);
    std::vector<unsigned> got[2];
    {
        TSafeRandomManager m(1);
        Threads th;
        auto* g = got; auto* p = &m;
        th.add([=] { unsigned a = p->sequence_rand(); if (k) mc::check(p->seeded_rand(1) == N.seeded[1], "seeded_rand disturbed"); unsigned b = p->rand(); mc::Quiet q; g[1] = {a, b}; });
        unsigned a = m.sequence_rand();
        if (k == 2) mc::check(m.seeded_rand(2) == N.seeded[2], "seeded_rand disturbed");
        unsigned b = m.sequence_rand();
        mc::Quiet q; got[0] = {a, b};
    }
    std::multiset<unsigned> all(got[0].begin(), got[0].end()); all.insert(got[1].begin(), got[1].end());
    mc::check(all == std::multiset<unsigned>(N.one.begin(), N.one.begin() + 4), "the threads did not get the numbers of the sequence, each once");
    auto pos = [](unsigned x) { return std::find(N.one.begin(), N.one.end(), x) - N.one.begin(); };
    mc::check(pos(got[0][0]) < pos(got[0][1]) && pos(got[1][0]) < pos(got[1][1]), "a thread got numbers out of order");
}
MC_SCENARIO("C32", "threads_seed", o.budget_quick = 2; o.budget_thorough = 3)
{
    unsigned got[2];
    {
        TSafeRandomManager m(1);
        Threads th;
        auto* p = &m;
        th.add([=] { p->seed(7); });
        got[0] = m.sequence_rand();
        got[1] = m.sequence_rand();
    }
    mc::Quiet q;
    bool ok = (got[0] == N.one[0] && (got[1] == N.one[1] || got[1] == N.seven[0])) || (got[0] == N.seven[0] && got[1] == N.seven[1]);
    mc::check(ok, "numbers of no sequence");
}
