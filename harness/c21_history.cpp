// engine: seq
// sources: history/CommandHistoryHandler
#include "enum.hpp"
#include <cpp_utils/history/CommandHistoryHandler.hpp>
using eprosima::utils::history::CommandHistoryHandler;

namespace {
//! the history: a list and a position in it, which is the index of the selected command or, past the end, none
struct Ideal
{
    std::vector<std::string> list; size_t pos = 0;
    void add(const std::string& c) { if (c.empty()) return; list.push_back(c); pos = list.size(); }
    std::string prev() { if (pos == 0) return ""; return list[--pos]; }
    std::string next() { if (pos >= list.size()) return ""; ++pos; return pos == list.size() ? "" : list[pos]; }
};
void step(CommandHistoryHandler& h, Ideal& i, int op)
{
    mc::count("ops");
    static const char* add[] = {"a", "bc", "", " "};
    if (op == 0) en::same(h.get_previous_command(), i.prev(), "previous command");
    else if (op == 1) en::same(h.get_next_command(), i.next(), "next command");
    else { h.add_command(add[op - 2]); i.add(add[op - 2]); }
}
}
MC_SCENARIO("C21", "sequences")
{
    // ops: previous, next, add a, add bc, add the empty command, add a blank
    int n = mc::thorough() ? 9 : 7;
    en::tuples(6, n, [&](const std::vector<int>& v)
    {
        en::begin(en::q(v));
        CommandHistoryHandler h; Ideal i;
        for (int op : v) step(h, i, op);
    });
}
MC_SCENARIO("C21", "navigation_of_long_histories")
{
    // n different commands (a repeated one among them), then every walk: back x, forward y, back z, add, back w
    int top = mc::thorough() ? 9 : 6;
    for (int n = 0; n <= top; ++n) for (int rep = 0; rep < 2; ++rep) for (int x = 0; x <= n + 2; ++x) for (int y = 0; y <= n + 2; ++y) for (int z = 0; z <= n + 2; ++z) for (int w = 0; w <= n + 2; ++w)
    {
        en::begin(mc::str("commands ", n, " repeated ", rep, " back ", x, " forward ", y, " back ", z, " add, back ", w));
        CommandHistoryHandler h; Ideal i;
        for (int k = 0; k < n; ++k) { std::string c = rep && k ? "same" : mc::str("command ", k, " with a longer text"); h.add_command(c); i.add(c); }
        for (int k = 0; k < x; ++k) step(h, i, 0);
        for (int k = 0; k < y; ++k) step(h, i, 1);
        for (int k = 0; k < z; ++k) step(h, i, 0);
        h.add_command("new"); i.add("new");
        for (int k = 0; k < w; ++k) step(h, i, 0);
        step(h, i, 1); step(h, i, 1);
    }
}
MC_SCENARIO("C21", "any_command")
{
    // of any length and with any characters
    std::vector<std::string> cs = {"", " ", "\n", "\xff\xfe", std::string("a\0b", 3), std::string("a\0", 2), std::string(1, '\0'), "  leading", "trailing  ", "a\tb", "\x7f\x1b[A", "q\"uote'd"};
    for (int n : {15, 16, 31, 64, 127, 128, 255, 256, 257, 1000, 1024, 4096, 65535, 65537}) { std::string s; for (int k = 0; k < n; ++k) s += (char)('a' + k % 26); cs.push_back(s); }
    for (auto& a : cs) for (auto& b : cs)
    {
        en::begin(mc::str("commands of length ", a.size(), " and ", b.size(), " ", en::q(a.substr(0, 20)), " ", en::q(b.substr(0, 20))));
        CommandHistoryHandler h; Ideal i;
        h.add_command(a); i.add(a); h.add_command(b); i.add(b);
        for (int k = 0; k < 3; ++k) step(h, i, 0);
        for (int k = 0; k < 3; ++k) step(h, i, 1);
    }
}
MC_SCENARIO("C21", "thousands_of_commands")
{
    for (int n : {99, 101, 255, 257, 1001, 4097, mc::thorough() ? 140000 : 66000})
    {
        en::begin(mc::str(n, " commands"));
        CommandHistoryHandler h; Ideal i;
        for (int k = 0; k < n; ++k) { std::string c = mc::str("command ", k); h.add_command(c); i.add(c); }
        for (int k = 0; k < n + 2; ++k) step(h, i, 0);
        for (int k = 0; k < n + 2; ++k) step(h, i, 1);
        for (int k = 0; k < n / 2; ++k) step(h, i, 0);
        h.add_command("new"); i.add("new");
        for (int k = 0; k < n + 3; ++k) step(h, i, 0);
    }
}
