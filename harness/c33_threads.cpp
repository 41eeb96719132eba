// engine: mc
// sources: Formatter exception/Exception
#include "pure.hpp"
#include <sstream>
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
using namespace eprosima::utils;
namespace {
ENUMERATION_BUILDER(Fruit, apple, pear, fig);
eProsima_ENUMERATION_BUILDER(FruitBuilder, Fruit, { { Fruit::apple COMMA { "apple" COMMA "a" } } COMMA { Fruit::fig COMMA { "fig" COMMA "Fig tree" } } });
const pure::Fun F[] = {
    [](int k) { std::ostringstream os; Fruit f = Fruit::apple; bool ok = string_to_enumeration(k ? "pear" : "fig", f); os << ok << f << to_string(f) << (int)from_string_Fruit(k ? "fig" : "apple"); return os.str(); },
    [](int k) { return pure::all(string_vector_Fruit()) + std::to_string(all_values_Fruit().size() + (k ? 0 : 1)); },
    [](int k) { Fruit f = Fruit::pear; bool ok = FruitBuilder::get_instance()->string_to_enumeration(k ? "a" : "Fig tree", f); return std::to_string(ok) + to_string(f); },
};
}
// names looked up by two threads, the first time
MC_SCENARIO("C33", "two_threads", o.budget_quick = 1; o.budget_thorough = 2; o.fork_each = true) { pure::both(F[mc::choose(sizeof F / sizeof *F)]); }
