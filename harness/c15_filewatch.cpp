// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/FileWatcherHandler
#include "inotify.hpp"
using namespace h;

namespace {
using W = FileWatcherHandler;
struct C
{
    int calls = 0; bool off = false; bool in = false;
    std::function<void(std::string)> cb()
    {
        return [this](std::string s)
               {
                   { mc::Quiet q; mc::check(!off, "the callback was called after unset or destruction"); mc::check(!in, "two calls at the same time"); in = true; ++calls;
                     mc::check(s == "file.txt" || s == FILE_, [&] { return "the callback got the file " + s; }); }
                   mc::mark(0x900);
                   mc::point();
                   mc::Quiet q; in = false; mc::check(!off, "the callback was running after unset or destruction");
               };
    }
    void gone() { { mc::Quiet q; off = true; } mc::mark(0x901); mc::point(); }
};
void idle()
{
    int me = mc::tid();
    mc::wait_until([me] { for (int t = 0; t < mc::threads_created(); ++t) if (t != me && !mc::finished(t) && !mc::blocked(t)) return false; return true; }, "idle");
}
void expect(const C& c, int n, const char* what)
{
    idle();
    for (int i = 0; i < 3; ++i)
    {
        { mc::Quiet q; if (c.calls >= n) break; }
        std::this_thread::sleep_for(std::chrono::seconds(1));
        idle();
    }
    mc::Quiet q;
    mc::check(c.calls == n, [&] { return mc::str(what, ": callback called ", c.calls, " times, expected ", n); });
}
void modify() { happens(IN_MODIFY, "file.txt"); }
}
#define SC(name, b, bt) MC_SCENARIO("C15", name, o.budget_quick = b; o.budget_thorough = bt; o.early_timeouts = false)

SC("modifications", 2, 4)
{
    fresh();
    C c;
    std::unique_ptr<W> w(new W(c.cb(), mc::choose(2) ? FILE_ : "file.txt"));
    mc::check(watches() == 1, "not watching");
    modify();
    modify();
    expect(c, 2, "two modifications");
    mc::check(w->event_count() == 2, "event count");
    modify();
    expect(c, 3, "a third modification");
    w.reset();
    c.gone();
    mc::check(open_fds() == 0, "descriptor left open");
}
SC("other_events", 1, 2)
{
    // events that are not modifications of the file, alone and in a burst with one
    fresh();
    static const struct { uint32_t m; const char* n; bool me; } E[] = {
        {IN_MODIFY, "file.txt", true}, {IN_CREATE, "file.txt", false}, {IN_DELETE, "file.txt", false}, {IN_MODIFY, "other.txt", false},
        {IN_MODIFY, "file.txt2", false}, {IN_MODIFY, "afile.txt", false}, {IN_CREATE, "other.txt", false}, {IN_MODIFY, "fileXtxt", false}, {IN_MODIFY, "file", false}};
    C c;
    std::unique_ptr<W> w(new W(c.cb(), FILE_));
    const auto& a = E[mc::choose(9)]; const auto& b = E[mc::choose(9)];
    happens(a.m, a.n);
    happens(b.m, b.n);
    expect(c, a.me + b.me, "modifications among other events");
    w.reset();
    c.gone();
}
SC("destroy_while_changing", 2, 4)
{
    fresh();
    C c;
    std::unique_ptr<W> w(new W(c.cb(), FILE_));
    Threads th;
    th.add([&] { modify(); modify(); });
    w.reset();
    c.gone();
    th.join();
    mc::check(open_fds() == 0, "descriptor left open");
    mc::Quiet q; mc::check(c.calls <= 2, "more calls than changes");
}
SC("unset_while_changing", 1, 3)
{
    fresh();
    C a, b;
    std::unique_ptr<W> w(new W(a.cb(), FILE_));
    Threads th;
    th.add([&] { modify(); });
    w->unset_callback();
    a.gone();
    th.join();
    modify();
    w->set_callback(b.cb());
    modify();
    expect(b, 1, "set again");
    w.reset();
    b.gone();
    mc::check(open_fds() == 0, "descriptor left open");
}
SC("replace_while_changing", 2, 3)
{
    fresh();
    C a, b;
    std::unique_ptr<W> w(new W(a.cb(), FILE_));
    Threads th;
    th.add([&] { modify(); });
    w->set_callback(b.cb());
    a.gone();
    mc::check(watches() == 1, "the file is not watched exactly once");
    th.join();
    modify();
    expect(b, 2 - a.calls, "callback replaced: calls of the new one");
    w.reset();
    b.gone();
}
SC("two_threads_unset", 2, 3)
{
    fresh();
    C a;
    std::unique_ptr<W> w(new W(a.cb(), FILE_));
    Threads th;
    th.add([&] { w->unset_callback(); a.gone(); });
    modify();
    w->unset_callback();
    a.gone();
    th.join();
    w.reset();
    mc::check(open_fds() == 0, "descriptor left open");
}
SC("waiter", 2, 3)
{
    fresh();
    C a;
    std::unique_ptr<W> w(new W(a.cb(), FILE_));
    Threads th;
    bool awake = false;
    th.add([&] { bool r = w->wait_for_event(2); mc::check(r, "two changes happened"); mc::Quiet q; awake = true; });
    modify();
    modify();
    expect(a, 2, "two changes");
    th.join();
    mc::Quiet q; mc::check(awake, "waiter");
}
SC("late_start", 2, 3)
{
    // no callback, no watch; a file that does not exist yet is watched when the callback is set again
    fresh();
    C a;
    std::unique_ptr<W> w(new W(FILE_));
    mc::check(watches() == 0, "watching without callback");
    modify();
    { mc::Quiet q; g_exists = mc::choose(2); }
    w->set_callback(a.cb());
    if (!g_exists) { w->unset_callback(); { mc::Quiet q; g_exists = true; } w->set_callback(a.cb()); }
    modify();
    expect(a, 1, "a change");
    w->unset_callback();
    a.gone();
    modify();
    w.reset();
}
// any path
MC_SCENARIO("C15", "paths", o.budget_quick = 0; o.budget_thorough = 1; o.early_timeouts = false)
{
    fresh();
    static const std::string LONG(255, 'n'), DEEP(120, 'd');
    static const std::string P[] = {"/mcfs/dir/with spaces in it.txt", "a", "./b.txt", "rel/c.txt", "/top", "../up/d", "/mcfs/[a-z]*(x)?.txt", "dir.with.dots/.hidden", "/mcfs/dir/no_extension", "/mcfs/d/ leading and trailing ",
                                    "/mcfs/\xc3\xa9t\xc3\xa9/\xe6\x97\xa5.txt", "/x/" + LONG, "/" + DEEP + "/" + DEEP + "/" + DEEP + "/e.txt", "back\\slash", "/mcfs/dir//double.txt", "a:b", "/mcfs/%s%d.txt", "/mcfs/dir/file.txt.tmp"};
    const std::string& path = P[mc::choose(18)];
    std::string name = path.substr(path.rfind('/') + 1);
    { mc::Quiet q; g_other = path.c_str(); }
    int calls = 0; int* c = &calls; const std::string* want = &path;
    std::unique_ptr<W> w(new W([=](std::string got)
            {
                { mc::Quiet q; mc::check(got == *want || got == want->substr(want->rfind('/') + 1), [&] { return "the callback got the file \"" + got + "\", watching \"" + *want + "\""; }); ++*c; }
                mc::mark(0x900);
            }, path));
    mc::check(watches() == 1, "not watching");
    auto settled = [&](int n) { idle(); for (int i = 0; i < 3 && [&] { mc::Quiet q; return *c < n; }(); ++i) { std::this_thread::sleep_for(std::chrono::seconds(1)); idle(); } };
    int n = 0;
    for (int i = 0; i < 3; ++i)
    {
        if (mc::choose(2)) { happens(IN_MODIFY, (name.substr(0, name.size() - 1)).c_str()[0] ? name.substr(0, name.size() - 1).c_str() : "z"); happens(IN_MODIFY, name.size() < 255 ? (name + "x").c_str() : "y"); happens(IN_MODIFY, "other"); }
        happens(IN_MODIFY, name.c_str()); ++n;
        if (i != 1) settled(n);
    }
    { mc::Quiet q; mc::check(*c == n, [&] { return mc::str("watching \"", path, "\": callback called ", *c, " times, expected ", n); }); }
    w.reset();
    mc::check(open_fds() == 0, "descriptor left open");
}
// any number of changes, one by one or in bursts
MC_SCENARIO("C15", "many_changes", o.budget_quick = 0; o.budget_thorough = 1; o.early_timeouts = false; o.delays = true)
{
    fresh();
    C c;
    std::unique_ptr<W> w(new W(c.cb(), FILE_));
    static const int B[] = {1, 7, 40};
    int burst = B[mc::choose(3)], n = 0;
    for (int k = 0; k < 120; k += burst)
    {
        for (int i = 0; i < burst; ++i) { modify(); ++n; }
        expect(c, n, "bursts of changes");
        mc::check((int)w->event_count() == n, "event count");
    }
    if (mc::choose(2)) { C* d = new C; w->set_callback(d->cb()); c.gone(); modify(); expect(*d, 1, "another callback"); w.reset(); delete d; }
    else { w.reset(); c.gone(); }
    mc::check(open_fds() == 0, "descriptor left open");
}
MC_SCENARIO("C15", "sequences", o.budget_quick = 0; o.budget_thorough = 0; o.hbcache = false)
{
    fresh();
    std::unique_ptr<C> cs[8]; int nc = 0;
    C* cur = nullptr; int want = 0;
    std::unique_ptr<W> w(new W(FILE_));
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(5);
        if (op == 0) { C* c = new C(); cs[nc++].reset(c); w->set_callback(c->cb()); if (cur) cur->gone(); cur = c; want = 0; }
        else if (op == 1) { w->unset_callback(); if (cur) cur->gone(); cur = nullptr; }
        else if (op == 2) { modify(); want += cur != nullptr; }
        else if (op == 3) { happens(IN_CREATE, "file.txt"); happens(IN_MODIFY, "other.txt"); }
        else { w.reset(new W(FILE_)); if (cur) cur->gone(); cur = nullptr; }
        if (cur) expect(*cur, want, "handler"); else idle();
        mc::check(watches() == (cur != nullptr), "the file is watched exactly while a callback is set");
    }
    w.reset();
    if (cur) cur->gone();
}
