// engine: seq
// sources: Formatter exception/Exception
// uses: public
#include "enum.hpp"
#include <sstream>
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
using namespace eprosima::utils;

namespace {
// enumerations of every size
ENUMERATION_BUILDER(E1, alpha);
ENUMERATION_BUILDER(E2, alpha, beta);
ENUMERATION_BUILDER(E3, alpha, beta, Gamma);
ENUMERATION_BUILDER(E4, alpha, beta, Gamma, d_1);
ENUMERATION_BUILDER(E5, alpha, beta, Gamma, d_1, e);
ENUMERATION_BUILDER(E6, alpha, beta, Gamma, d_1, e, ff);
ENUMERATION_BUILDER(E7, alpha, beta, Gamma, d_1, e, ff, GG);
ENUMERATION_BUILDER(E8, alpha, beta, Gamma, d_1, e, ff, GG, h2);
ENUMERATION_BUILDER(E9, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota);
ENUMERATION_BUILDER(E10, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay);
ENUMERATION_BUILDER(E11, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K);
ENUMERATION_BUILDER(E12, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda);
ENUMERATION_BUILDER(E13, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda, mu);
ENUMERATION_BUILDER(E14, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda, mu, n0);
ENUMERATION_BUILDER(E15, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda, mu, n0, omi);
ENUMERATION_BUILDER(E16, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda, mu, n0, omi, pi);
ENUMERATION_BUILDER(E17, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda, mu, n0, omi, pi, q_);
ENUMERATION_BUILDER(E18, alpha, beta, Gamma, d_1, e, ff, GG, h2, iota, jay, K, lambda, mu, n0, omi, pi, q_, r18);
ENUMERATION_BUILDER(Fruit, apple, pear, fig);
eProsima_ENUMERATION_BUILDER(FruitBuilder, Fruit, { { Fruit::apple COMMA { "apple" COMMA "a" } } COMMA { Fruit::fig COMMA { "fig" COMMA "" COMMA "Fig tree" } } });
const std::vector<std::string> ALL{"alpha", "beta", "Gamma", "d_1", "e", "ff", "GG", "h2", "iota", "jay", "K", "lambda", "mu", "n0", "omi", "pi", "q_", "r18"};

template <typename E, typename Names, typename Values, typename From, typename Vec, typename Str, typename All>
void enumeration(unsigned n, const char* name, const Names& names, const Values& values, unsigned count, From from, Vec vec, Str str, All all)
{
    std::vector<std::string> want(ALL.begin(), ALL.begin() + n);
    en::begin(mc::str("enumeration of ", n));
    mc::check(count == n && names.size() == n && values.size() == n && all().size() == n, "number of values");
    mc::check(std::vector<std::string>(names.begin(), names.end()) == want && vec() == want, "list of names");
    std::map<std::string, E> ideal;
    for (unsigned i = 0; i < n; ++i)
    {
        en::begin(mc::str("enumeration of ", n, " value ", i));
        E e = static_cast<E>(i);
        mc::check(values[i] == e && all()[i] == e, "list of values");
        en::same(str(e), want[i], "to_string");
        std::ostringstream os; os << e << "|" << e; en::same(os.str(), want[i] + "|" + want[i], "operator<<");
        ideal[want[i]] = e;
    }
    auto offer = [&](const std::string& s) {
        mc::count("cases");
        auto it = ideal.find(s);
        E e = static_cast<E>(77), r = static_cast<E>(78);
        bool ok = string_to_enumeration(s, e), threw = false;
        try { r = from(s); } catch (const InitializationException&) { threw = true; }
        if (ok != (it != ideal.end()) || threw == ok || (ok && (e != it->second || r != it->second)) || (!ok && e != static_cast<E>(77)))
        { mc::ctx(mc::str("enumeration ", name, " ", en::q(s))); mc::fail(ok ? "a name gave the wrong value, or was refused" : "a text that is no name was accepted, or changed the value"); }
    };
    for (auto& s : ALL)
    {
        offer(s); offer(s + " "); offer(" " + s); offer(s + s); offer(std::string(name) + "::" + s); offer(s + std::string(1, '\0'));
        for (size_t i = 0; i < s.size(); ++i) { offer(s.substr(0, i)); offer(s.substr(i)); std::string t = s; t[i] ^= 32; offer(t); t = s; t.erase(i, 1); offer(t); t = s; t.insert(i, 1, 'x'); offer(t); }
    }
    if (n % 6 == 0) en::strings("eKhpi_02fFG", 0, mc::thorough() ? 4 : 3, offer);
    for (unsigned i = 0; i < 20; ++i) offer(std::to_string(i));
}
}
MC_SCENARIO("C33", "macro_1") { enumeration<E1>(1, "E1", NAMES_E1, VALUES_E1, N_VALUES_E1, [](const std::string& s) { return from_string_E1(s); }, [] { return string_vector_E1(); }, [](const E1& e) -> const std::string& { return to_string(e); }, [] { return all_values_E1(); }); }
MC_SCENARIO("C33", "macro_2") { enumeration<E2>(2, "E2", NAMES_E2, VALUES_E2, N_VALUES_E2, [](const std::string& s) { return from_string_E2(s); }, [] { return string_vector_E2(); }, [](const E2& e) -> const std::string& { return to_string(e); }, [] { return all_values_E2(); }); }
MC_SCENARIO("C33", "macro_3") { enumeration<E3>(3, "E3", NAMES_E3, VALUES_E3, N_VALUES_E3, [](const std::string& s) { return from_string_E3(s); }, [] { return string_vector_E3(); }, [](const E3& e) -> const std::string& { return to_string(e); }, [] { return all_values_E3(); }); }
MC_SCENARIO("C33", "macro_4") { enumeration<E4>(4, "E4", NAMES_E4, VALUES_E4, N_VALUES_E4, [](const std::string& s) { return from_string_E4(s); }, [] { return string_vector_E4(); }, [](const E4& e) -> const std::string& { return to_string(e); }, [] { return all_values_E4(); }); }
MC_SCENARIO("C33", "macro_5") { enumeration<E5>(5, "E5", NAMES_E5, VALUES_E5, N_VALUES_E5, [](const std::string& s) { return from_string_E5(s); }, [] { return string_vector_E5(); }, [](const E5& e) -> const std::string& { return to_string(e); }, [] { return all_values_E5(); }); }
MC_SCENARIO("C33", "macro_6") { enumeration<E6>(6, "E6", NAMES_E6, VALUES_E6, N_VALUES_E6, [](const std::string& s) { return from_string_E6(s); }, [] { return string_vector_E6(); }, [](const E6& e) -> const std::string& { return to_string(e); }, [] { return all_values_E6(); }); }
MC_SCENARIO("C33", "macro_7") { enumeration<E7>(7, "E7", NAMES_E7, VALUES_E7, N_VALUES_E7, [](const std::string& s) { return from_string_E7(s); }, [] { return string_vector_E7(); }, [](const E7& e) -> const std::string& { return to_string(e); }, [] { return all_values_E7(); }); }
MC_SCENARIO("C33", "macro_8") { enumeration<E8>(8, "E8", NAMES_E8, VALUES_E8, N_VALUES_E8, [](const std::string& s) { return from_string_E8(s); }, [] { return string_vector_E8(); }, [](const E8& e) -> const std::string& { return to_string(e); }, [] { return all_values_E8(); }); }
MC_SCENARIO("C33", "macro_9") { enumeration<E9>(9, "E9", NAMES_E9, VALUES_E9, N_VALUES_E9, [](const std::string& s) { return from_string_E9(s); }, [] { return string_vector_E9(); }, [](const E9& e) -> const std::string& { return to_string(e); }, [] { return all_values_E9(); }); }
MC_SCENARIO("C33", "macro_10") { enumeration<E10>(10, "E10", NAMES_E10, VALUES_E10, N_VALUES_E10, [](const std::string& s) { return from_string_E10(s); }, [] { return string_vector_E10(); }, [](const E10& e) -> const std::string& { return to_string(e); }, [] { return all_values_E10(); }); }
MC_SCENARIO("C33", "macro_11") { enumeration<E11>(11, "E11", NAMES_E11, VALUES_E11, N_VALUES_E11, [](const std::string& s) { return from_string_E11(s); }, [] { return string_vector_E11(); }, [](const E11& e) -> const std::string& { return to_string(e); }, [] { return all_values_E11(); }); }
MC_SCENARIO("C33", "macro_12") { enumeration<E12>(12, "E12", NAMES_E12, VALUES_E12, N_VALUES_E12, [](const std::string& s) { return from_string_E12(s); }, [] { return string_vector_E12(); }, [](const E12& e) -> const std::string& { return to_string(e); }, [] { return all_values_E12(); }); }
MC_SCENARIO("C33", "macro_13") { enumeration<E13>(13, "E13", NAMES_E13, VALUES_E13, N_VALUES_E13, [](const std::string& s) { return from_string_E13(s); }, [] { return string_vector_E13(); }, [](const E13& e) -> const std::string& { return to_string(e); }, [] { return all_values_E13(); }); }
MC_SCENARIO("C33", "macro_14") { enumeration<E14>(14, "E14", NAMES_E14, VALUES_E14, N_VALUES_E14, [](const std::string& s) { return from_string_E14(s); }, [] { return string_vector_E14(); }, [](const E14& e) -> const std::string& { return to_string(e); }, [] { return all_values_E14(); }); }
MC_SCENARIO("C33", "macro_15") { enumeration<E15>(15, "E15", NAMES_E15, VALUES_E15, N_VALUES_E15, [](const std::string& s) { return from_string_E15(s); }, [] { return string_vector_E15(); }, [](const E15& e) -> const std::string& { return to_string(e); }, [] { return all_values_E15(); }); }
MC_SCENARIO("C33", "macro_16") { enumeration<E16>(16, "E16", NAMES_E16, VALUES_E16, N_VALUES_E16, [](const std::string& s) { return from_string_E16(s); }, [] { return string_vector_E16(); }, [](const E16& e) -> const std::string& { return to_string(e); }, [] { return all_values_E16(); }); }
MC_SCENARIO("C33", "macro_17") { enumeration<E17>(17, "E17", NAMES_E17, VALUES_E17, N_VALUES_E17, [](const std::string& s) { return from_string_E17(s); }, [] { return string_vector_E17(); }, [](const E17& e) -> const std::string& { return to_string(e); }, [] { return all_values_E17(); }); }
MC_SCENARIO("C33", "macro_18") { enumeration<E18>(18, "E18", NAMES_E18, VALUES_E18, N_VALUES_E18, [](const std::string& s) { return from_string_E18(s); }, [] { return string_vector_E18(); }, [](const E18& e) -> const std::string& { return to_string(e); }, [] { return all_values_E18(); }); }

// builders with aliases: every assignment of six keys to three values or to none
namespace {
const char* const KEYS[] = {"", "a", "A", "ab", "b ", "other"};
typedef std::map<std::string, Fruit> Map;
typedef std::map<Fruit, std::set<std::string>> Sets;
template <typename B>
void lookups(const B& b, const Map& m)
{
    static int turn = 0;     // exceptions are slow: one unknown text in turn for each map
    int skip = turn++ % 7;
    for (const char* k : {"", "a", "A", "ab", "b ", "other", "b", " ", "aa", "Other", "others", "apple"})
    {
        auto it = m.find(k);
        Fruit f = static_cast<Fruit>(9);
        bool ok = b.string_to_enumeration(k, f);
        mc::check(ok == (it != m.end()) && f == (ok ? it->second : static_cast<Fruit>(9)), [&] { return "string_to_enumeration of " + en::q(k); });
        mc::check(b.find(k, f) == ok, "find");
        if (ok) { mc::check(b.string_to_enumeration(k) == it->second && b.find(k) == it->second, "value of a key"); }
        else if (skip-- == 0) { mc::check(en::throws<ValueNotAllowedException>([&] { b.string_to_enumeration(k); }) && en::throws<ValueNotAllowedException>([&] { b.find(k); }), "a text that is no key was accepted"); }
    }
}
}
MC_SCENARIO("C33", "builders")
{
    en::tuples(4, 6, [&](const std::vector<int>& v) {
        en::begin(en::q(v));
        Map m; Sets s;
        for (int i = 0; i < 6; ++i) if (v[i] < 3) { m[KEYS[i]] = static_cast<Fruit>(v[i]); s[static_cast<Fruit>(v[i])].insert(KEYS[i]); }
        EnumBuilder<Fruit> a(m), b(s);
        lookups(a, m); lookups(b, m);
        // another map: nothing of the first remains
        Map m2; Sets s2;
        for (int i = 0; i < 6; ++i) if (v[5 - i] > 1) { m2[KEYS[i]] = static_cast<Fruit>(v[i] % 3); s2[static_cast<Fruit>(v[i] % 3)].insert(KEYS[i]); }
        a.refactor_values(s2); b.refactor_values(m2);
        lookups(a, m2); lookups(b, m2);
        a.refactor_values(Map()); lookups(a, Map());
    });
}
MC_SCENARIO("C33", "builder_of_the_process")
{
    en::begin("singleton");
    auto* b = FruitBuilder::get_instance();
    mc::check(b != nullptr && b == FruitBuilder::get_shared_instance().get(), "instance");
    Map m{{"apple", Fruit::apple}, {"a", Fruit::apple}, {"fig", Fruit::fig}, {"", Fruit::fig}, {"Fig tree", Fruit::fig}};
    lookups(*b, m);
    en::strings("apfig e", 0, mc::thorough() ? 6 : 5, [&](const std::string& s) {
        en::begin(en::q(s));
        Fruit f; bool ok = b->string_to_enumeration(s, f);
        auto it = m.find(s);
        mc::check(ok == (it != m.end()) && (!ok || f == it->second), "lookup");
    });
}

MC_SCENARIO("C33", "large_builders")
{
    // many values with many and long aliases
    for (int n : {10, 64, 65, 100, 257}) for (int per : {1, 2, 7})
    {
        en::begin(mc::str(n, " values with ", per, " aliases"));
        Map m; Sets s;
        for (int i = 0; i < n; ++i) for (int k = 0; k < per; ++k) { std::string a = mc::str("name_", i, std::string(k * 20, '_'), k); m[a] = static_cast<Fruit>(i); s[static_cast<Fruit>(i)].insert(a); }
        EnumBuilder<Fruit> a(m), b(s), c((Map()));
        auto full = [&](const EnumBuilder<Fruit>& x, const char* what) {
            for (auto& e : m) { Fruit f = static_cast<Fruit>(-1); mc::check(x.string_to_enumeration(e.first, f) && f == e.second && x.string_to_enumeration(e.first) == e.second, [&] { return std::string(what) + ": " + e.first; });
                f = static_cast<Fruit>(-1); mc::check(!x.string_to_enumeration(e.first + "x", f) && f == static_cast<Fruit>(-1), what); }
        };
        full(a, "from a map"); full(b, "from sets");
        c.refactor_values(s); full(c, "exchanged");
        c.refactor_values(Map{{"only", Fruit::fig}});
        Fruit f; mc::check(!c.string_to_enumeration("name_00", f) && c.string_to_enumeration("only", f) && f == Fruit::fig, "exchanged again");
        c.refactor_values(m); full(c, "exchanged back");
        mc::check(!c.string_to_enumeration("only", f), "a former name");
    }
}
