// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/StdinEventHandler history/CommandHistoryHandler wait/CounterWaitHandler wait/IntWaitHandler
#include "term.hpp"
#include <cpp_utils/user_interface/CommandReader.hpp>
using namespace h;
using namespace term;
using namespace eprosima::utils;

namespace {
enum class Cmd { none = 7, one = 1, two = 2 };
EnumBuilder<Cmd> builder() { return EnumBuilder<Cmd>(std::map<Cmd, std::set<std::string>>{{Cmd::one, {"a", "ab"}}, {Cmd::two, {"b", "a b"}}}); }
struct Want { bool ok; Cmd c; std::vector<std::string> args; };
//! Words are what lies between single blanks; a word that begins with a quote goes on to the next quote that ends a word.
Want expect(const std::string& line)
{
    std::vector<std::string> w(1);
    for (char c : line) if (c == ' ') w.emplace_back(); else w.back() += c;
    Want r{false, Cmd::none, {}};
    for (size_t i = 0; i < w.size(); )
    {
        if (w[i].empty() || w[i][0] != '"') { r.args.push_back(w[i++]); continue; }
        std::string s = w[i++].substr(1);
        bool closed = !s.empty() && s.back() == '"';
        while (!closed && i < w.size()) { s += " " + w[i++]; closed = s.back() == '"'; }
        if (closed) s.pop_back();
        r.args.push_back(s);
    }
    const std::string& f = r.args[0];
    r.c = f == "a" || f == "ab" ? Cmd::one : f == "b" || f == "a b" ? Cmd::two : Cmd::none;
    r.ok = r.c != Cmd::none;
    return r;
}
struct Out { bool ok; Cmd c; std::vector<std::string> args; bool same(const Want& w) const { return ok == w.ok && c == w.c && args == w.args; } };
Out read(CommandReader<Cmd>& r) { Out o; Command<Cmd> c; { mc::Quiet q; c.command = Cmd::none; c.arguments = {"old"}; } o.ok = r.read_next_command(c); mc::Quiet q; o.c = c.command; o.args = c.arguments; return o; }
void require(const Out& o, const std::string& line)
{
    mc::Quiet q;
    Want w = expect(line);
    mc::check(o.same(w), [&] { return "line " + term::q(line) + ": returned " + mc::str(o.ok, " command ", (int)o.c) + " arguments " + term::q(o.args) + ", expected " + mc::str(w.ok, " command ", (int)w.c) + " arguments " + term::q(w.args); });
}
const char* const LINES[] = {"a", "b x", "", " a", "c", "\"a b\" y", "ab  \"", "a \"p q\" \"\""};
}
#define SC(name, b, bt) MC_SCENARIO("C23", name, o.budget_quick = b; o.budget_thorough = bt)
#define ALL(name) MC_SCENARIO("C23", name, o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
namespace {
void all_lines(const char* first, int n)
{
    static const char S[] = {'a', 'b', ' ', '"'};
    std::string s = first;
    int k = mc::choose(n + 1);
    for (int i = 0; i < k; ++i) s += S[mc::choose(4)];
    fresh(); type(s + "\n");
    CommandReader<Cmd> r(builder());
    require(read(r), s);
}
}
ALL("lines_a") { all_lines("a", mc::thorough() ? 8 : 6); }
ALL("lines_b") { all_lines("b", mc::thorough() ? 8 : 6); }
ALL("lines_blank") { all_lines(" ", mc::thorough() ? 8 : 6); }
ALL("lines_quote") { all_lines("\"", mc::thorough() ? 8 : 6); }
ALL("lines_short") { all_lines("", 2); }
ALL("lines_in_order")
{
    // three lines, typed before or as they are read
    fresh(); bool before = mc::choose(2); int v[4], n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i) v[i] = mc::choose(8);
    if (before) for (int i = 0; i < n; ++i) type(std::string(LINES[v[i]]) + "\n");
    CommandReader<Cmd> r(builder());
    for (int i = 0; i < n; ++i) { if (!before) type(std::string(LINES[v[i]]) + "\n"); require(read(r), LINES[v[i]]); }
    mc::check(r.stdin_handler().event_count() == (unsigned)n, "one line per read");
}
ALL("long_lines")
{
    // many arguments, long ones, many blanks, long quotations
    static const int N[] = {10, 65, 300};
    int n = N[mc::choose(3)], kind = mc::choose(5);
    std::string s = mc::choose(2) ? "b" : "\"a b\"";
    for (int i = 0; i < n; ++i)
        s += kind == 0 ? mc::str(" w", i) : kind == 1 ? std::string(" ") : kind == 2 ? mc::str(" \"w ", i, "\"") : kind == 3 ? std::string(i ? "x" : " x") : std::string(i ? " y" : " \"y");
    if (kind == 4 && mc::choose(2)) s += "\"";
    fresh(); type(s + "\nab last\n");
    CommandReader<Cmd> r(builder());
    require(read(r), s);
    require(read(r), "ab last");
}
ALL("characters")
{
    // every character, in words and in quotations
    fresh();
    int c = mc::choose(16) * 16; c += mc::choose(16);
    if (c == 0 || c == 0x1b) return;
    std::string x(1, (char)c), s = "a p" + x + "q " + x + " \"r " + x + "s" + x + "\" " + x + x + "\n";
    if (mc::choose(2)) s = x + s;
    Editor e; e.lines(s, 9);
    type(s);
    CommandReader<Cmd> r(builder());
    std::vector<std::string> out; { mc::Quiet q; out = e.out; }
    for (auto& l : out) require(read(r), l);
}
ALL("many_lines")
{
    fresh(); int n = 60;
    CommandReader<Cmd> r(builder());
    for (int i = 0; i < n; ++i) type(mc::str(LINES[i % 8], i, "\n"));
    for (int i = 0; i < n; ++i) require(read(r), mc::str(LINES[i % 8], i));
}
ALL("edited_lines")
{
    // the line is the one the editing keys leave
    fresh();
    static const char* const K[] = {"b", "\b", LEFT, UP, "\x03", " "};
    std::string s = "a p\nab";
    for (int i = 0; i < 4; ++i) s += K[mc::choose(6)];
    s += "\n";
    Editor e; e.lines(s, 9);
    type(s);
    CommandReader<Cmd> r(builder());
    std::vector<std::string> out; { mc::Quiet q; out = e.out; }
    for (auto& l : out) require(read(r), l);
}
SC("blocks_until_a_line_arrives", 3, 5)
{
    fresh(); int k = mc::choose(8); bool typed = false, *p = &typed;
    Threads th;
    th.add([=] { type("pre"); { mc::Quiet q; *p = true; } type(std::string(LINES[k]) + "\n"); });
    CommandReader<Cmd> r(builder());
    Out o = read(r);
    { mc::Quiet q; mc::check(typed, "a command before the line was complete"); }
    require(o, std::string("pre") + LINES[k]);
    th.join();
}
SC("two_readers", 2, 4)
{
    // each line is read by exactly one of them
    fresh();
    auto* r = new CommandReader<Cmd>(builder());
    Out* o = new Out[2];
    {
        Threads th;
        th.add([=] { Out x = read(*r); mc::Quiet q; o[0] = x; });
        th.add([=] { Out x = read(*r); mc::Quiet q; o[1] = x; });
        type("a 1\nb 2\nab 3\n");
    }
    { mc::Quiet q; Want a = expect("a 1"), b = expect("b 2"); mc::check((o[0].same(a) && o[1].same(b)) || (o[0].same(b) && o[1].same(a)), "two readers did not get one line each"); }
    require(read(*r), "ab 3");
    delete r; delete[] o;
}
SC("destroyed_after_reading", 4, 6)
{
    // a reader may be destroyed as soon as it has returned a command, or before it is asked for any
    fresh(); int n = mc::choose(3);
    Threads th;
    th.add([] { type("a\nb\n"); });
    {
        CommandReader<Cmd> r(builder());
        for (int i = 0; i < n; ++i) require(read(r), i ? "b" : "a");
    }
    mc::check(untouched(), "the settings of the terminal were not restored");
    th.join();
}
SC("destroyed_with_lines_asked_for", 3, 5)
{
    // a line asked for through the handler arrives while the reader is destroyed
    fresh();
    Threads th;
    {
        CommandReader<Cmd> r(builder());
        r.stdin_handler().read_one_more_line();
        th.add([] { type("a\n"); });
    }
    th.join();
}
