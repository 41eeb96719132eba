// engine: seq
// sources: math/math_extension math/random/RandomManager math/random/TSafeRandomManager
#include "enum.hpp"
#include <random>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/math/math_extension.hpp>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace eprosima::utils;

namespace {
typedef unsigned __int128 u128;
std::vector<unsigned> interesting(unsigned around)
{
    std::set<unsigned> s;
    for (int k = 0; k < 32; ++k) for (unsigned d = 0; d <= around; ++d) { s.insert((1u << k) + d); s.insert((1u << k) - d); }
    for (unsigned d = 0; d <= 3 * around; ++d) { s.insert(d); s.insert(~0u - d); }
    for (unsigned x = 1; x < 4000000000u / 10; x *= 10) s.insert(x);
    for (unsigned x = 1; x < 4000000000u / 3; x *= 3) s.insert(x);
    return std::vector<unsigned>(s.begin(), s.end());
}
void unary(unsigned n)
{
    mc::count("cases");
    if (is_even(n) != (n % 2 == 0)) { mc::ctx(mc::str(n)); mc::fail("is_even"); }
    bool p = false;
    for (int k = 0; k < 32; ++k) p = p || n == 1u << k;
    if (is_power_of_2(n) != p) { mc::ctx(mc::str(n)); mc::fail("is_power_of_2"); }
}
void binary(unsigned a, unsigned b)
{
    mc::count("cases");
    unsigned q = fast_division(a, b), r = fast_module(a, b);
    if (q != a / b || r != a % b || (u128)q * b + r != a || r >= b) { mc::ctx(mc::str(a, " by ", b)); mc::fail(mc::str("quotient ", q, " remainder ", r)); }
}
void power(unsigned a, unsigned e)
{
    u128 v = 1;
    for (unsigned i = 0; i < e && v <= ~0u && (a > 1 || !i); ++i) v *= a;
    unsigned got = fast_exponential(a, e);      // always defined; exact when it fits
    mc::count("cases");
    if (v <= ~0u && got != (unsigned)v) { mc::ctx(mc::str(a, " to the ", e)); mc::fail(mc::str("gave ", got)); }
}
void sum(unsigned lo, unsigned iv, unsigned n)
{
    // lo + (lo + iv) + ... : exact when it fits
    u128 v = (u128)lo * n + (u128)iv * ((u128)n * (n - 1) / 2);
    unsigned got = arithmetic_progression_sum(lo, iv, n);
    mc::count("cases");
    if (v <= ~0u && got != (unsigned)v) { mc::ctx(mc::str(n, " steps of ", iv, " from ", lo)); mc::fail(mc::str("gave ", got, ", expected ", (unsigned)v)); }
}
}
MC_SCENARIO("C32", "unary")
{
    for (unsigned n = 0; n < (mc::thorough() ? 1u << 26 : 1u << 20); ++n) unary(n);
    for (unsigned n : interesting(300)) unary(n);
}
MC_SCENARIO("C32", "division")
{
    unsigned K = mc::thorough() ? 8192 : 2048;
    for (unsigned a = 0; a < K; ++a) for (unsigned b = 1; b < K; ++b) binary(a, b);
    auto v = interesting(mc::thorough() ? 12 : 4);
    for (unsigned a : v) for (unsigned b : v) if (b) binary(a, b);
}
MC_SCENARIO("C32", "power")
{
    for (unsigned a = 0; a < (mc::thorough() ? 1u << 20 : 70000u); ++a) for (unsigned e = 0; e < 6; ++e) power(a, e);
    for (unsigned a = 0; a < 2000; ++a) for (unsigned e = 0; e < 40; ++e) power(a, e);
    for (unsigned a : interesting(5)) for (unsigned e : {0u, 1u, 2u}) power(a, e);
    for (unsigned e : interesting(2)) for (unsigned a : {0u, 1u, 2u}) power(a, e);
}
MC_SCENARIO("C32", "progression")
{
    unsigned K = mc::thorough() ? 300 : 120;
    for (unsigned lo = 0; lo < K; ++lo) for (unsigned iv = 1; iv < K; ++iv) for (unsigned n = 1; n < K; ++n) sum(lo, iv, n);
    auto v = interesting(mc::thorough() ? 3 : 1);
    for (unsigned lo : v) for (unsigned iv : v) for (unsigned n : v) if (n && iv) sum(lo, iv, n);
}

namespace {
// what the generators must give: a Mersenne twister written out here
struct Twister
{
    uint32_t x[624]; int i;
    explicit Twister(uint32_t s) { x[0] = s; for (int k = 1; k < 624; ++k) x[k] = 1812433253u * (x[k - 1] ^ (x[k - 1] >> 30)) + k; i = 624; }
    uint32_t operator()()
    {
        if (i == 624)
        {
            for (int k = 0; k < 624; ++k) { uint32_t y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu); x[k] = x[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0); }
            i = 0;
        }
        uint32_t y = x[i++];
        y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u;
        return y ^ (y >> 18);
    }
};
const unsigned SEEDS[] = {0, 1, 2, 42, 0xffffffffu};
template <typename M>
void histories(int depth)
{
    // operations: next / rand() / seed(s) / seeded_rand(s) / rand(s) / pure
    enum { OPS = 2 + 3 + 5 + 2 + 1 };
    for (int first = -1; first < 5; ++first) en::sequences(OPS, 0, depth, [&](const std::vector<int>& v) {
        en::begin(mc::str("first ", first, " ", en::q(v)));
        std::unique_ptr<M> m(first < 0 ? new M() : new M(SEEDS[first]));
        Twister seq(first < 0 ? 1 : SEEDS[first]);
        for (int op : v)
        {
            if (op == 0) mc::check(m->sequence_rand() == seq(), "sequence_rand is not the next number of the sequence");
            else if (op == 1) mc::check(m->rand() == seq(), "rand is not the next number of the sequence");
            else if (op < 5) { m->seed(SEEDS[op - 2]); seq = Twister(SEEDS[op - 2]); }
            else if (op < 10) mc::check(m->seeded_rand(SEEDS[op - 5]) == Twister(SEEDS[op - 5])(), "seeded_rand depends on more than its seed");
            else if (op < 12) mc::check(m->rand(SEEDS[op - 9]) == Twister(SEEDS[op - 9])(), "rand(seed) depends on more than its seed");
            else m->template rand<true>();
        }
        for (int i = 0; i < 3; ++i) mc::check(m->sequence_rand() == seq(), "the sequence went astray");
    });
}
}
MC_SCENARIO("C32", "random") { histories<RandomManager>(mc::thorough() ? 4 : 3); }
MC_SCENARIO("C32", "random_shared") { histories<TSafeRandomManager>(mc::thorough() ? 4 : 3); }
MC_SCENARIO("C32", "long_sequences")
{
    for (unsigned s = 0; s < (mc::thorough() ? 3000u : 300u); ++s)
    {
        unsigned seed = s < 100 ? s : s * 2654435761u;
        en::begin(mc::str("seed ", seed));
        RandomManager m(seed); TSafeRandomManager t(seed); Twister w(seed);
        for (int i = 0; i < 1500; ++i) { uint32_t x = w(); mc::check(m.sequence_rand() == x && t.sequence_rand() == x, "sequence"); if (i % 100 == 50) m.seeded_rand(i); }
    }
}

MC_SCENARIO("C32", "maximum_and_minimum")
{
    for (int a = -6; a <= 6; ++a) for (int b = -6; b <= 6; ++b)
    {
        en::begin(mc::str(a, " ", b));
        const int big = std::max(a, b), small = std::min(a, b);
        mc::check(MAX(a, b) == big && MIN(a, b) == small, "alone");
        for (int c = -6; c <= 6; ++c)
        {
            mc::check(c + MAX(a, b) == c + big && c - MIN(a, b) == c - small && MAX(a, b) * c == big * c && MIN(a, b) + c == small + c, "in a sum");
            mc::check(MAX(a & c, b) == std::max(a & c, b) && MIN(a, b ^ c) == std::min(a, b ^ c) && MAX(a, MIN(b, c)) == std::max(a, std::min(b, c)), "of expressions");
            mc::check(MIN(MAX(a, b), c) == std::min(big, c) && (MAX(a, b) < c) == (big < c) && !MAX(a, b) == !big && -MIN(a, b) == -small, "nested");
        }
        mc::check(MAX(a + 0.5, b) == std::max(a + 0.5, (double)b), "mixed");
    }
}
