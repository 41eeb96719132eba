// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/StdinEventHandler history/CommandHistoryHandler wait/CounterWaitHandler wait/IntWaitHandler
#include "term.hpp"
#include <cpp_utils/event/StdinEventHandler.hpp>
using namespace h;
using namespace term;
using eprosima::utils::event::StdinEventHandler;

namespace {
struct Got
{
    std::vector<std::string> lines; bool closed = false, inside = false;
    void add(const std::string& s)
    {
        mc::mark(0xF00 + s.size());
        { mc::Quiet q; mc::check(!closed, "a line was delivered after unset or destruction"); mc::check(!inside, "two deliveries at once"); inside = true; }
        mc::point();
        mc::Quiet q; inside = false; lines.push_back(s);
    }
    int n() const { mc::Quiet q; return (int)lines.size(); }
    void close() { mc::Quiet q; closed = true; }
    void wait(int k) { auto* p = this; mc::wait_until([p, k] { return (int)p->lines.size() >= k; }, "lines"); }
};
void equal(Got& g, const std::vector<std::string>& want, const std::string& keys)
{
    mc::Quiet q;
    mc::check(g.lines == want, [&] { return "keys " + term::q(keys) + ": delivered " + term::q(g.lines) + ", expected " + term::q(want); });
}
//! all of these keys, and the end of the input, read by a handler asked for n lines
void run(const std::string& keys, int n, int width, bool eof = true)
{
    fresh(width);
    Got* g = new Got;
    type(keys); if (eof) end_of_input();
    Editor e; { mc::Quiet q; e.lines(keys, n); }
    {
        StdinEventHandler h([g](std::string s) { g->add(s); }, true, n);
        mc::check(!h.is_ignoring_input(), "state of a new handler");
        settle();
        equal(*g, e.out, keys);
        { mc::Quiet q; mc::check((int)h.event_count() == (int)e.out.size(), "event count"); }
        // lines beyond those asked for are left unread
        if ((int)e.out.size() == n) mc::check(consumed() == (int)e.used, "more input was consumed than the lines asked for");
    }
    g->close();
    mc::check(untouched(), "the settings of the terminal were not restored");
    delete g;
}
const char* const COMMON[] = {"a", "b", "\n", "\b", DEL, LEFT, RIGHT, UP, DOWN};
const char* const RARE[] = {"a", "\n", "\r", "\x7f", HOME, END, PGUP, PGDN, INS, "\x03", "\033[Z", "\033[3x", "\033[5a", UP, LEFT};
struct Reg { Reg(); } reg;
Reg::Reg()
{
    // complete sequences of common keys; one scenario per first key, so they run at the same time
    for (int first = 0; first < 9; ++first)
    {
        mc::Options o; o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false;
        new mc::Registrar("C22", mc::str("keys_", first), o, [first] {
            std::string s = COMMON[first];
            int n = mc::thorough() ? 8 : 6;
            { for (int i = 1; i < n; ++i) s += COMMON[mc::choose(9)]; }
            s += "x\n";
            run(s, 99, 80);
        });
    }
}
}
#define SC(name, b, bt) MC_SCENARIO("C22", name, o.budget_quick = b; o.budget_thorough = bt)
#define ALL(name) MC_SCENARIO("C22", name, o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)

ALL("rare_keys")
{
    std::string s = mc::choose(2) ? "pq\nrs" : "";
    for (int i = 0; i < (mc::thorough() ? 5 : 4); ++i) s += RARE[mc::choose(15)];
    run(s + "x\n", 99, 80);
}
ALL("history_keys")
{
    static const char* const K[] = {UP, DOWN, "\n", LEFT, "\b", "c", PGUP};
    std::string s = "one\ntwo\nthree\n";
    for (int i = 0; i < (mc::thorough() ? 9 : 6); ++i) s += K[mc::choose(7)];
    run(s + "x\n", 99, 80);
}
ALL("cut_anywhere")
{
    // the input ends in the middle of anything
    static const char B[] = {'a', '\n', '\033', '[', '3', 'A', '~', '\b'};
    std::string s;
    int n = mc::choose(mc::thorough() ? 7 : 6);
    for (int i = 0; i < n; ++i) s += B[mc::choose(8)];
    run(s, mc::choose(2) ? 99 : 1, 80);
}
ALL("every_byte")
{
    // every byte, in the middle of a line, at its start and after an escape
    int b = mc::choose(16) * 16 + mc::choose(16), where = mc::choose(4);
    std::string c(1, (char)b);
    run(where == 0 ? c + "\n" : where == 1 ? "ab" + std::string(LEFT) + c + "z\n" : where == 2 ? "ab\033[" + c + "~z\n" : c + c + std::string(LEFT) + c + "\n", 9, 80);
}
ALL("terminal_widths")
{
    static const int W[] = {-1, 0, 1, 2, 5, 80};
    static const char* const K[] = {UP, DOWN, HOME, "\b", DEL, PGDN, "c\n"};
    std::string s = "a rather long line\nshort\nlonger";
    int w = W[mc::choose(6)];
    for (int i = 0; i < 3; ++i) s += K[mc::choose(7)];
    run(s + "x\n", 99, w);
}
ALL("long_lines")
{
    // lines of many characters, edited far from their ends, in a wide and a narrow terminal
    static const int N[] = {20, 79, 81, 300};
    static const char* const K[] = {LEFT, HOME, "\b", DEL, "z", UP, END, PGUP};
    int n = N[mc::choose(4)], w = mc::choose(2) ? 80 : 10, back = mc::choose(3);
    std::string s; for (int i = 0; i < n; ++i) s += (char)('a' + i % 26);
    s += "\n"; s += std::string(n / 2, 'q');
    if (back == 1) for (int i = 0; i < n / 3; ++i) s += LEFT;
    if (back == 2) { s += HOME; for (int i = 0; i < n / 5; ++i) s += RIGHT; }
    for (int i = 0; i < 3; ++i) s += K[mc::choose(8)];
    run(s + "x\n", 99, w);
}
ALL("very_long_lines")
{
    // longer than any buffer
    static const int N[] = {1023, 1025, 2049, 4097};
    int n = N[mc::choose(4)], edit = mc::choose(4);
    std::string s; for (int i = 0; i < n; ++i) s += (char)('a' + i % 26);
    if (edit == 1) { for (int i = 0; i < 30; ++i) s += LEFT; s += "0"; }
    if (edit == 2) for (int i = 0; i < 200; ++i) s += "\b";
    s += "\n";
    if (edit == 3) { s += "x\n"; s += UP; s += UP; s += "y\n"; }
    run(s + "end\n", 99, 80);
}
ALL("long_histories")
{
    // going far back and forth through many lines
    static const int N[] = {15, 60, 130};
    int n = N[mc::choose(3)], up = mc::choose(4), down = mc::choose(3);
    std::string s; for (int i = 0; i < n; ++i) s += mc::str("line-", i, i % 5 ? "" : " and more", "\n");
    int ups = up == 0 ? 1 : up == 1 ? n / 2 : up == 2 ? n : n + 3, downs = down == 0 ? 0 : down == 1 ? ups / 2 : ups;
    for (int i = 0; i < ups; ++i) s += UP;
    for (int i = 0; i < downs; ++i) s += DOWN;
    s += "\n"; s += UP; s += "!\n";
    run(s, 999, 80);
}
ALL("lines_asked_for")
{
    // more or fewer lines than asked for, asked for in the constructor or afterwards
    int typed = mc::choose(4), now = mc::choose(4), later = mc::choose(4);
    fresh();
    std::string keys; for (int i = 0; i < typed; ++i) keys += mc::str("line", i, "\n");
    Got* g = new Got;
    type(keys);
    {
        StdinEventHandler h([g](std::string s) { g->add(s); }, mc::choose(2), now);
        settle();
        Editor e; e.lines(keys, now); equal(*g, e.out, keys);
        for (int i = 0; i < later; ++i) { h.read_one_more_line(); settle(); Editor f; f.lines(keys, now + i + 1); equal(*g, f.out, keys); }
        end_of_input();
    }
    g->close();
    mc::check(untouched(), "the settings of the terminal were not restored");
    delete g;
}
ALL("asked_in_advance")
{
    // every sequence of asking for a line and typing one, asked for or not
    int now = mc::choose(3), n = mc::thorough() ? 9 : 7, asked = now, typed = 0;
    fresh(); Got* g = new Got; std::string keys;
    {
        StdinEventHandler h([g](std::string s) { g->add(s); }, mc::choose(2), now);
        for (int i = 0; i < n; ++i)
        {
            if (mc::choose(2)) { h.read_one_more_line(); ++asked; }
            else { std::string s = mc::str("t", typed++, "\n"); type(s); keys += s; }
            settle();
            Editor e; e.lines(keys, asked); equal(*g, e.out, keys);
        }
        end_of_input();
    }
    g->close();
    mc::check(untouched(), "the settings of the terminal were not restored");
    delete g;
}
ALL("ignored_input")
{
    // what is typed while input is ignored is delivered, but not remembered
    int n = 5; fresh(); Got* g = new Got; std::string keys;
    {
        StdinEventHandler h([g](std::string s) { g->add(s); }, true, 0);
        Editor e;
        for (int i = 0; i < n; ++i)
        {
            int k = mc::choose(4);
            if (k == 0) { e.ignoring = !e.ignoring; h.set_ignore_input(e.ignoring); mc::check(h.is_ignoring_input() == e.ignoring, "ignoring input"); continue; }
            std::string s = k == 1 ? mc::str(i % 2 ? "longer" : "l", i, "\n") : k == 2 ? std::string(UP) + "\n" : std::string(UP) + UP + "z\n";
            h.read_one_more_line(); type(s); g->wait((int)e.out.size() + 1); settle();
            size_t p = 0; e.run(s, p); keys += s;
            equal(*g, e.out, keys);
        }
    }
    g->close(); delete g;
}
ALL("set_and_unset")
{
    // every sequence of unset, set another callback, a line; history and permissions survive
    fresh(); Got* g = new Got; Got* k = new Got; std::string keys; Editor e; int who = 0; std::vector<std::string> want[2];
    {
        StdinEventHandler h([g](std::string s) { g->add(s); }, true, 0);
        for (int i = 0; i < 5; ++i)
        {
            int op = mc::choose(4);
            if (op == 0) { h.unset_callback(); who = -1; }
            else if (op == 1) { h.set_callback([k](std::string s) { k->add(s); }); who = 1; }
            else
            {
                std::string s = op == 2 ? mc::str("l", i, "\n") : std::string(UP) + "y\n";
                if (who < 0) continue;
                h.read_one_more_line(); type(s);
                size_t p = 0; e.run(s, p); keys += s; want[who].push_back(e.out.back());
                settle();
            }
            equal(*g, want[0], keys); equal(*k, want[1], keys);
        }
    }
    g->close(); k->close(); delete g; delete k;
}
SC("typing_against_asking", 2, 4)
{
    fresh(); Got* g = new Got; int now = mc::choose(2);
    {
        auto* h = new StdinEventHandler([g](std::string s) { g->add(s); }, true, now);
        Threads th;
        th.add([] { type("a\n"); type("b"); type("c\nd\n"); });
        h->read_one_more_line();
        if (!now) h->read_one_more_line();
        th.join();
        g->wait(2);
        mc::check(g->n() == 2, "more lines than asked for");
        delete h;
    }
    g->close();
    equal(*g, {"a", "bc"}, "a b c"); mc::check(consumed() == 5 && untouched(), "input consumed");
    delete g;
}
SC("destroyed_any_time", 3, 5)
{
    // destroyed while the thread waits for permission, for a key, or delivers; the last key comes from elsewhere
    fresh(); Got* g = new Got; int n = mc::choose(3), k = mc::choose(3);
    Threads th;
    th.add([=] { type("a\n"); if (k == 1) type("b\n"); else if (k == 2) type("q"); end_of_input(); });
    {
        StdinEventHandler h([g](std::string s) { g->add(s); }, true, n);
        if (mc::choose(2)) h.unset_callback();
    }
    g->close();
    mc::check(untouched(), "the settings of the terminal were not restored");
    { mc::Quiet q; std::vector<std::string> all = {"a", "b"}; mc::check((int)g->lines.size() <= n && g->lines.size() <= (k == 1 ? 2u : 1u), "more lines than asked for"); for (size_t i = 0; i < g->lines.size(); ++i) mc::check(g->lines[i] == all[i], "line"); }
    th.join();
    delete g;
}
SC("asked_from_the_callback", 2, 3)
{
    fresh(); Got* g = new Got; StdinEventHandler* hp = nullptr; StdinEventHandler** p = &hp;
    type("a\nb\nc\nd\n");
    {
        StdinEventHandler h([=](std::string s) { g->add(s); if (s != "c") { StdinEventHandler* x; { mc::Quiet q; x = *p; } x->read_one_more_line(); } }, true, 0);
        { mc::Quiet q; hp = &h; }
        h.read_one_more_line();
        g->wait(3); settle();
        equal(*g, {"a", "b", "c"}, "a b c d");
    }
    g->close(); delete g;
}
SC("two_askers", 2, 4)
{
    fresh(); Got* g = new Got;
    {
        auto* h = new StdinEventHandler([g](std::string s) { g->add(s); }, true, 0);
        Threads th;
        th.add([=] { h->read_one_more_line(); });
        th.add([=] { h->read_one_more_line(); h->set_ignore_input(true); });
        type("a\nb\nc\n");
        th.join(); g->wait(2); settle();
        equal(*g, {"a", "b"}, "a b c");
        delete h;
    }
    g->close(); delete g;
}
// Unless told otherwise nothing is read until it is asked for.
ALL("nothing_by_default")
{
    fresh();
    Got* g = new Got;
    int typed = mc::choose(4), later = mc::choose(3);
    std::string keys; for (int i = 0; i < typed; ++i) keys += mc::str("line", i, "\n");
    type(keys);
    {
        std::unique_ptr<StdinEventHandler> h(mc::choose(2) ? new StdinEventHandler([g](std::string s) { g->add(s); }) : new StdinEventHandler([g](std::string s) { g->add(s); }, true));
        settle();
        { mc::Quiet q; mc::check(g->lines.empty() && consumed() == 0, "input was read before a line was asked for"); }
        for (int i = 0; i < later; ++i) { h->read_one_more_line(); settle(); Editor f; f.lines(keys, i + 1); equal(*g, f.out, keys); }
        end_of_input();
    }
    g->close();
    mc::check(untouched(), "the settings of the terminal were not restored");
    delete g;
}
