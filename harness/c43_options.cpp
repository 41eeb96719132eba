// engine: seq
// sources: exception/Exception
#include "enum.hpp"
#include <cstring>
#include <optionparser/optionparser.h>

namespace {
typedef std::vector<const char*> Args;
//! what a check of an argument was asked
struct Asked { const option::Descriptor* d; const char* name; const char* arg; bool msg; };
std::vector<Asked> g_asked;
option::ArgStatus none(const option::Option& o, bool m) { g_asked.push_back({o.desc, o.name, o.arg, m}); return option::Arg::None(o, m); }
option::ArgStatus optional(const option::Option& o, bool m) { g_asked.push_back({o.desc, o.name, o.arg, m}); return option::Arg::Optional(o, m); }
option::ArgStatus required(const option::Option& o, bool m) { g_asked.push_back({o.desc, o.name, o.arg, m}); return o.arg ? option::ARG_OK : option::ARG_ILLEGAL; }
//! a number, not needed
option::ArgStatus number(const option::Option& o, bool m)
{
    g_asked.push_back({o.desc, o.name, o.arg, m});
    return o.arg && *o.arg && std::strspn(o.arg, "0123456789") == std::strlen(o.arg) ? option::ARG_OK : option::ARG_IGNORE;
}
option::ArgStatus illegal(const option::Option& o, bool m) { g_asked.push_back({o.desc, o.name, o.arg, m}); return option::ARG_ILLEGAL; }

enum { UNKNOWN, VERBOSE, FILE_, OPT, SHORT, FOO, NUM, LAST };
#define END { 0, 0, 0, 0, 0, 0 }
#define BODY \
    { VERBOSE, 1, "v", "verbose", none, "v" }, { FILE_, 2, "fF", "file", required, "f" }, { OPT, 3, "o", "opt", optional, "o" }, \
    { SHORT, 4, "s", "", none, "s" }, { FOO, 5, "", "foo", none, "on" }, { FOO, 6, "", "no-foo", none, "off" }, \
    { FILE_, 7, "", "foobar", required, "alias" }, { NUM, 8, "n", "num", number, "n" }, \
    { FOO, 5, "", "set-on", none, "on" }, { FOO, 6, "", "set-off", none, "off" }
const option::Descriptor U_NONE[] = { BODY, END };
const option::Descriptor U_FIRST[] = { { UNKNOWN, 9, "", "", none, "usage" }, BODY, END };
const option::Descriptor U_LAST[] = { BODY, { UNKNOWN, 9, "", "", optional, "u" }, { NUM, 10, "", "", illegal, "more" }, END };
const option::Descriptor U_ILLEGAL[] = { { UNKNOWN, 9, "", "", illegal, "usage" }, BODY, END };
const option::Descriptor* const USAGES[] = {U_FIRST, U_NONE, U_LAST, U_ILLEGAL};

struct Mode { bool gnu, single; int abbr; const option::Descriptor* usage; };
//! one option found
struct Found { const option::Descriptor* d; const char* name; int namelen; const char* arg; };
struct Result
{
    std::vector<Found> opts; std::vector<Asked> asked; bool error = false;
    Args rest, order;      // order: the words as they are left (if there was no error)
};

//! the documentation, written down a second time
Result model(const Mode& m, const Args& a, size_t n)
{
    Result r; Args used, non;
    const option::Descriptor* end = m.usage; while (end->shortopt) ++end;
    const option::Descriptor* unknown = nullptr;
    for (auto d = m.usage; d != end && !unknown; ++d) if (!*d->shortopt && !*d->longopt) unknown = d;
    auto longopt = [&](const std::string& name) -> const option::Descriptor*
            {
                std::vector<const option::Descriptor*> starts;
                for (auto d = m.usage; d != end; ++d)
                {
                    if (!*d->longopt) continue;
                    if (name == d->longopt) return d;
                    if (m.abbr > 0 && (int)name.size() >= m.abbr && std::string(d->longopt).compare(0, name.size(), name) == 0) starts.push_back(d);
                }
                return starts.size() == 1 ? starts[0] : nullptr;
            };
    //! false: an argument that is not allowed
    auto take = [&](const option::Descriptor* d, const char* name, int len, const char* arg, bool& taken)
            {
                taken = false;
                if (!d) return true;
                Found f{d, name, len, arg};
                r.asked.push_back({d, name, arg, true});
                bool attached = name[len] != 0;
                if (d->check_arg == none) f.arg = nullptr;
                else if (d->check_arg == optional) { if (arg && attached) taken = true; else f.arg = nullptr; }
                else if (d->check_arg == required) { if (!arg) return false; taken = true; }
                else if (d->check_arg == number)
                {
                    if (arg && *arg && std::strspn(arg, "0123456789") == std::strlen(arg)) taken = true; else f.arg = nullptr;
                }
                else return false;
                r.opts.push_back(f);
                return true;
            };
    size_t i = 0;
    for (; i < n; ++i)
    {
        const char* w = a[i]; const char* following = i + 1 < n ? a[i + 1] : nullptr; bool taken;
        if (w[0] != '-' || !w[1]) { if (!m.gnu) break; non.push_back(w); continue; }
        used.push_back(w);
        if (!std::strcmp(w, "--")) { ++i; break; }
        bool two = w[1] == '-';
        if (two || m.single)
        {
            std::string name = w + (two ? 2 : 1); size_t eq = name.find('=');
            auto d = longopt(name.substr(0, eq));
            if (d || two)
            {
                const char* arg = eq == std::string::npos ? following : w + (two ? 2 : 1) + eq + 1;
                if (!take(d ? d : unknown, w, (int)(eq == std::string::npos ? std::strlen(w) : (two ? 2 : 1) + eq), arg, taken)) { r.error = true; return r; }
                if (taken && eq == std::string::npos && following) { used.push_back(following); ++i; }
                continue;
            }
        }
        for (const char* c = w + 1; *c; ++c)
        {
            const option::Descriptor* d = m.usage;
            while (d != end && !std::strchr(d->shortopt, *c)) ++d;
            if (!take(d != end ? d : unknown, c, 1, c[1] ? c + 1 : following, taken)) { r.error = true; return r; }
            if (taken && c[1]) break;
            if (taken && following) { used.push_back(following); ++i; }
        }
    }
    for (; i < n; ++i) non.push_back(a[i]);
    r.rest = non; r.order = used; r.order.insert(r.order.end(), non.begin(), non.end());
    return r;
}
std::string show(const Args& a) { std::string s; for (auto x : a) s += (s.empty() ? "" : " ") + en::q(std::string(x ? x : "(null)")); return s; }
std::string show(const char* s) { return s ? en::q(std::string(s)) : "null"; }
std::string show(const std::vector<Asked>& v) { std::string s; for (auto& x : v) s += mc::str(" [", x.d->type, " ", show(x.name), " ", show(x.arg), x.msg ? "" : " quietly", "]"); return s; }

//! the lists made of `found` (those that had room)
void lists(const option::Option* options, option::Option* mut, const std::vector<Found>& found)
{
    for (int i = 0; i <= LAST; ++i)
    {
        std::vector<Found> want; for (auto& f : found) if ((int)f.d->index == i) want.push_back(f);
        const option::Option& o = options[i];
        en::same(o.count(), (int)want.size(), "count()");
        if (want.empty())
        {
            mc::check(!o && o.type() == 0 && o.index() == -1 && o.isFirst() && o.isLast() && o.first() == &o && o.last() == &o
                    && !o.next() && !mut[i].prev() && !o.desc && !o.name && !o.arg && o.namelen == 0, "an option that was not given is not unused");
            continue;
        }
        size_t k = 0; const option::Option* last = nullptr;
        for (const option::Option* p = options[i]; p; p = p->next(), ++k)
        {
            if (!mc::check(k < want.size(), "the list of an option is longer than it was given")) break;
            auto& f = want[k];
            mc::check(p->desc == f.d && p->name == f.name && p->namelen == f.namelen && p->arg == f.arg && p->type() == f.d->type && p->index() == i,
                    [&] { return mc::str("element ", k, " of the list of option ", i, " is ", show(p->name), " (", p->namelen, ") with argument ", show(p->arg),
                            ", not ", show(f.name), " (", f.namelen, ") with ", show(f.arg)); });
            mc::check(p->isFirst() == (k == 0) && p->isLast() == (k + 1 == want.size()) && p->first() == options[i] && p->prevwrap() == (k ? last : o.last())
                    && const_cast<option::Option*>(p)->prev() == (k ? last : nullptr) && p->count() == (int)want.size()
                    && (k == 0 || const_cast<option::Option*>(last)->nextwrap() == p), "the list of an option is not linked in order");
            last = p;
        }
        en::same(k, want.size(), "elements in the list of an option");
        mc::check(o.last() == last && const_cast<option::Option*>(last)->nextwrap() == options[i], "last() is not the last one");
    }
}

struct Store
{
    std::vector<option::Option> options, buffer;
    Store(size_t o, size_t b) : options(o), buffer(b) {}
};
enum { EXACT, UNTIL_NULL, FEWER };

//! parse the words given, in every way of calling it
void parse(const Mode& m, const Args& words, int how, int room)
{
    Args a = words; a.push_back(nullptr);
    size_t n = words.size(); if (how == FEWER && n) --n;
    int argc = how == UNTIL_NULL ? -1 : (int)n;
    auto describe = [&] { return mc::str(show(words), m.gnu ? " gnu" : " posix", m.single ? " single-minus" : "", " abbr=", m.abbr, " usage=",
            m.usage == U_FIRST ? "first" : m.usage == U_NONE ? "none" : m.usage == U_LAST ? "last" : "illegal", " argc=", argc, " room=", room); };
    en::begin(describe());
    Result want = model(m, words, n);

    Args a1 = a; g_asked.clear();
    option::Stats st(m.gnu, m.usage, argc, a1.data(), m.abbr, m.single);
    en::same(st.buffer_max, (unsigned)want.opts.size() + 1, "Stats::buffer_max");
    en::same(st.options_max, (unsigned)NUM + 2, "Stats::options_max");
    for (auto& x : g_asked) mc::check(!x.msg, "Stats asked for messages");
    for (auto& x : g_asked) x.msg = true;
    auto sameasked = [&](const char* who)
            {
                bool ok = g_asked.size() == want.asked.size();
                for (size_t i = 0; ok && i < g_asked.size(); ++i)
                    ok = g_asked[i].d == want.asked[i].d && g_asked[i].name == want.asked[i].name && g_asked[i].arg == want.asked[i].arg && g_asked[i].msg == want.asked[i].msg;
                mc::check(ok, [&] { return std::string(who) + ": arguments checked:" + show(g_asked) + ", expected:" + show(want.asked); });
            };
    sameasked("Stats");
    if (!want.error) mc::check(std::equal(a1.begin(), a1.begin() + n, want.order.begin()), [&] { return "Stats left the words as " + show(Args(a1.begin(), a1.begin() + n)) + ", not " + show(want.order); });

    int bufmax = room;      // -1: large enough
    Store s(LAST + 1, bufmax >= 0 ? bufmax : st.buffer_max);
    Args a2 = a; g_asked.clear();
    option::Parser p;
    mc::check(!p.error() && p.optionsCount() == 0 && p.nonOptionsCount() == 0, "a new parser is not empty");
    p.parse(m.gnu, m.usage, argc, a2.data(), s.options.data(), s.buffer.data(), m.abbr, m.single, bufmax);
    sameasked("parse");
    std::vector<Found> kept = want.opts; if (bufmax >= 0 && (int)kept.size() > bufmax) kept.resize(bufmax);
    en::same(p.error(), want.error, "error()");
    en::same(p.optionsCount(), (int)kept.size(), "optionsCount()");
    for (size_t i = 0; i < kept.size(); ++i)
    {
        auto& o = s.buffer[i]; auto& f = kept[i];
        mc::check(o.desc == f.d && o.name == f.name && o.namelen == f.namelen && o.arg == f.arg,
                [&] { return mc::str("option ", i, " is ", show(o.name), " (", o.namelen, ") with argument ", show(o.arg), ", not ", show(f.name), " (", f.namelen, ") with ", show(f.arg)); });
    }
    if (bufmax < 0) mc::check(!s.buffer[kept.size()], "more options than were given");
    lists(s.options.data(), s.options.data(), kept);
    mc::check(a2[a.size() - 1] == nullptr && (n == words.size() || a2[n] == words[n]), "words beyond the end were touched");
    if (want.error) { en::same(p.nonOptionsCount(), 0, "nonOptionsCount() after an error"); }
    else
    {
        en::same(p.nonOptionsCount(), (int)want.rest.size() + (how == UNTIL_NULL ? (int)(words.size() - n) : 0), "nonOptionsCount()");
        for (int i = 0; i < p.nonOptionsCount() && i < (int)want.rest.size(); ++i)
            mc::check(p.nonOption(i) == want.rest[i] && p.nonOptions()[i] == want.rest[i], [&] { return mc::str("word ", i, " that is no option: ", show(p.nonOption(i)), ", expected ", show(want.rest[i])); });
        mc::check(std::equal(a2.begin(), a2.begin() + n, want.order.begin()), [&] { return "the words were left as " + show(Args(a2.begin(), a2.begin() + n)) + ", not " + show(want.order); });
    }
    // whatever happened, no word was lost
    Args x = words, y(a2.begin(), a2.end() - 1); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    mc::check(x == y, "a word was lost or doubled");
    if (want.error || bufmax >= 0) return;

    // once in order, the words mean the same to both kinds of parsing (unless a word now follows an option that would have liked it)
    for (auto& f : want.opts) if (f.d->check_arg == number && !f.arg) return;
    for (int g = 0; m.gnu && g < 2; ++g)
    {
        Args a3 = a2; Store t(LAST + 1, st.buffer_max);
        option::Parser q(!!g, m.usage, argc, a3.data(), t.options.data(), t.buffer.data(), m.abbr, m.single);
        bool ok = !q.error() && q.optionsCount() == p.optionsCount() && q.nonOptionsCount() == p.nonOptionsCount() && a3 == a2;
        for (int i = 0; ok && i < q.optionsCount(); ++i) ok = t.buffer[i].name == s.buffer[i].name && t.buffer[i].arg == s.buffer[i].arg;
        mc::check(ok, "the words put in order are not parsed like before");
    }
}
//! every word of interest
const char* const WORDS[] = {
    "-v", "a", "--file=X", "-f", "--", "-o", "--foo", "-vs", "--verb", "-n", "7", "-z", "-",
    "-vfX", "-fX", "-vf", "-oX", "-vo", "-F", "-n7", "-n7v", "-vn", "--verbose", "--file", "--file=", "--fil=X", "--fi", "--f", "--fo", "--foobar=1", "--foob",
    "--no-foo", "--no", "--opt", "--opt=Y", "--opt=", "--num", "--num=3", "--num=x", "", "--=x", "-=x", "--zzz", "--zzz=1", "-verbose", "-file", "-file=X",
    "-vz", "-zv", "--verbosex", "--verbose=3", "-f=", "-fil", "-so", "-svf", "--v", "--s", "-nx", "--set-o", "--set-of", "--set"};
const int W = sizeof WORDS / sizeof *WORDS;
//! words that give the interesting sequences
const char* const FEW[] = {"-v", "a", "-f", "--file=X", "--", "-o", "-vfX", "--fo", "7", "-vn", "-z", "-file", "--zz=1", "-", "-sv"};
const int F = sizeof FEW / sizeof *FEW;
template <typename Fn>
void modes(Fn f)
{
    for (int g = 0; g < 2; ++g) for (int s = 0; s < 2; ++s) for (int ab : {0, 1, 3}) for (auto u : USAGES) f(Mode{!!g, !!s, ab, u});
}
void all(const char* const* words, int base, int n, const std::vector<int>& hows, const std::vector<int>& rooms)
{
    modes([&](const Mode& m) {
        en::tuples(base, n, [&](const std::vector<int>& v) {
            Args w; for (int i : v) w.push_back(words[i]);
            for (int how : hows) for (int room : rooms) parse(m, w, how, room);
        });
    });
}
}
static mc::Registrar r_words("C43", "words", {}, []
{
    for (int n = 0; n <= (mc::thorough() ? 3 : 2); ++n) all(WORDS, W, n, {EXACT, UNTIL_NULL}, {-1});
});
static mc::Registrar r_three("C43", "three", {}, [] { all(FEW, mc::thorough() ? F : 12, 3, {EXACT, UNTIL_NULL, FEWER}, {-1, 1}); });
static mc::Registrar r_four("C43", "four", {}, [] { all(FEW, mc::thorough() ? F : 8, 4, {EXACT}, {-1, 2}); });
static mc::Registrar r_five("C43", "five", {}, [] { all(FEW, mc::thorough() ? 10 : 5, 5, {EXACT}, {-1}); });
static mc::Registrar r_six("C43", "six", {}, [] { if (mc::thorough()) all(FEW, 6, 6, {EXACT, UNTIL_NULL}, {-1}); else all(FEW, 3, 6, {EXACT}, {0}); });
//! every way of calling it means the same
static mc::Registrar r_overloads("C43", "overloads", {}, []
{
    modes([&](const Mode& m) {
        en::sequences(F, 0, 2, [&](const std::vector<int>& v) {
            Args w; for (int i : v) w.push_back(FEW[i]);
            en::begin(show(w) + (m.gnu ? " gnu" : " posix"));
            Args a = w; a.push_back(nullptr);
            int n = (int)w.size();
            option::Stats st; en::same(st.buffer_max, 1u, "buffer_max of new Stats"); en::same(st.options_max, 1u, "options_max of new Stats");
            st.add(m.gnu, m.usage, 0, (const char**)nullptr); en::same(st.buffer_max, 1u, "buffer_max without words"); en::same(st.options_max, NUM + 2u, "options_max without words");
            std::vector<std::string> got;
            auto store = [&](Store& s, option::Parser& p) {
                std::string t = mc::str(p.error(), p.optionsCount(), p.nonOptionsCount());
                for (int i = 0; i < p.optionsCount(); ++i) t += mc::str(" ", show(s.buffer[i].name), " ", show(s.buffer[i].arg));
                for (int i = 0; i < p.nonOptionsCount(); ++i) t += mc::str(" ", show(p.nonOption(i)));
                got.push_back(t);
            };
            for (int k = 0; k < 8; ++k)
            {
                Args x = a, y = a; bool chars = k & 1, ctor = k & 2, shortform = k & 4;
                if (shortform && m.gnu) continue;
                option::Stats s2, s1 = shortform ? (chars ? option::Stats(m.usage, n, (char**)y.data(), m.abbr, m.single) : option::Stats(m.usage, n, y.data(), m.abbr, m.single))
                                                 : (chars ? option::Stats(m.gnu, m.usage, n, (char**)y.data(), m.abbr, m.single) : option::Stats(m.gnu, m.usage, n, y.data(), m.abbr, m.single));
                y = a;
                if (shortform) { if (chars) s2.add(m.usage, n, (char**)y.data(), m.abbr, m.single); else s2.add(m.usage, n, y.data(), m.abbr, m.single); }
                else { if (chars) s2.add(m.gnu, m.usage, n, (char**)y.data(), m.abbr, m.single); else s2.add(m.gnu, m.usage, n, y.data(), m.abbr, m.single); }
                en::same(s1.buffer_max, s2.buffer_max, "buffer_max of two ways to count"); en::same(s1.options_max, s2.options_max, "options_max of two ways to count");
                Store s(s1.options_max, s1.buffer_max); auto o = s.options.data(); auto b = s.buffer.data();
                if (ctor)
                {
                    if (shortform) { if (chars) { option::Parser p(m.usage, n, (char**)x.data(), o, b, m.abbr, m.single); store(s, p); } else { option::Parser p(m.usage, n, x.data(), o, b, m.abbr, m.single); store(s, p); } }
                    else if (chars) { option::Parser p(m.gnu, m.usage, n, (char**)x.data(), o, b, m.abbr, m.single); store(s, p); }
                    else { option::Parser p(m.gnu, m.usage, n, x.data(), o, b, m.abbr, m.single); store(s, p); }
                }
                else
                {
                    option::Parser p;
                    if (shortform) { if (chars) p.parse(m.usage, n, (char**)x.data(), o, b, m.abbr, m.single); else p.parse(m.usage, n, x.data(), o, b, m.abbr, m.single); }
                    else { if (chars) p.parse(m.gnu, m.usage, n, (char**)x.data(), o, b, m.abbr, m.single); else p.parse(m.gnu, m.usage, n, x.data(), o, b, m.abbr, m.single); }
                    store(s, p);
                }
                en::same(got.back(), got.front(), "two ways to parse the same words");
            }
        });
    });
});
//! defaults first, then the words of the user: later ones are added after earlier ones
static mc::Registrar r_twice("C43", "twice", {}, []
{
    std::vector<std::vector<int>> seqs; en::sequences(mc::thorough() ? F : 10, 0, 2, [&](const std::vector<int>& v) { seqs.push_back(v); });
    for (auto u : {U_FIRST, U_ILLEGAL}) for (int g = 0; g < 2; ++g)
    for (auto& v : seqs) for (auto& w : seqs) for (int bufmax : {-1, 2}) for (int other = 0; other < 2; ++other)
    {
        Mode m{!!g, false, 2, u}; Args a, b; for (int i : v) a.push_back(FEW[i]); for (int i : w) b.push_back(FEW[i]);
        en::begin(show(a) + ", then " + show(b) + mc::str(g ? " gnu" : " posix", " room ", bufmax, other ? " another parser" : ""));
        Result r1 = model(m, a, a.size()), r2 = model(m, b, b.size());
        Args x = a, y = b; option::Stats st;
        st.add(m.gnu, m.usage, (int)x.size(), x.data(), m.abbr, m.single); st.add(m.gnu, m.usage, (int)y.size(), y.data(), m.abbr, m.single);
        en::same(st.buffer_max, (unsigned)(r1.opts.size() + r2.opts.size()) + 1, "buffer_max of two lists");
        x = a; y = b; Store s(st.options_max, bufmax < 0 ? st.buffer_max : bufmax); option::Parser first, p; option::Parser& p1 = other ? first : p;
        p1.parse(m.gnu, m.usage, (int)x.size(), x.data(), s.options.data(), s.buffer.data(), m.abbr, m.single, bufmax);
        en::same(p1.error(), r1.error, "error() of the first"); en::same(p1.nonOptionsCount(), r1.error ? 0 : (int)r1.rest.size(), "nonOptionsCount() of the first");
        p.parse(m.gnu, m.usage, (int)y.size(), y.data(), s.options.data(), s.buffer.data(), m.abbr, m.single, bufmax);
        en::same(p.error(), r2.error, "error() of the second");
        std::vector<Found> kept = r1.opts; kept.insert(kept.end(), r2.opts.begin(), r2.opts.end());
        if (bufmax >= 0 && (int)kept.size() > bufmax) kept.resize(bufmax);
        en::same(p.optionsCount(), (int)kept.size(), "optionsCount()");
        for (int i = 0; i < p.optionsCount(); ++i) { auto& o = s.buffer[i]; mc::check(o.desc == kept[i].d && o.name == kept[i].name && o.arg == kept[i].arg, "the options are not those of the first list, then those of the second"); }
        lists(s.options.data(), s.options.data(), kept);
        Args rest = !r2.error && !r2.rest.empty() ? r2.rest : r1.error || other ? Args() : r1.rest;
        en::same(p.nonOptionsCount(), (int)rest.size(), "nonOptionsCount()");
        for (size_t i = 0; i < rest.size() && (int)i < p.nonOptionsCount(); ++i) mc::check(p.nonOption((int)i) == rest[i], "the words that are no options are not those given last");
    }
});
//! an Option copied is alone; appending works from any element
static mc::Registrar r_lists("C43", "option_lists", {}, []
{
    for (int n = 1; n <= 6; ++n) for (int from = 0; from < n; ++from)
    {
        en::begin(mc::str(n, " options, appended at ", from));
        std::vector<option::Option> o; o.reserve(n + 1);
        for (int i = 0; i < n; ++i) o.push_back(option::Option(&U_NONE[0], "-v", nullptr));
        for (int i = 1; i < n; ++i) o[from < i ? from : 0].append(&o[i]);
        for (int i = 0; i < n; ++i)
        {
            mc::check(o[i].first() == &o[0] && o[i].last() == &o[n - 1] && o[i].count() == n && o[i].isFirst() == (i == 0) && o[i].isLast() == (i == n - 1)
                    && o[i].next() == (i + 1 < n ? &o[i + 1] : nullptr) && o[i].prev() == (i ? &o[i - 1] : nullptr)
                    && o[i].nextwrap() == &o[(i + 1) % n] && o[i].prevwrap() == &o[(i + n - 1) % n], "the list is not in the order of appending");
            option::Option c(o[i]), d; d = o[i];
            for (auto* x : {&c, &d}) mc::check(x->isFirst() && x->isLast() && x->count() == 1 && x->first() == x && x->last() == x && x->desc == o[i].desc && x->name == o[i].name, "a copy is still part of the list");
        }
    }
});
// a few thousand options on one command line
static mc::Registrar r_many("C43", "thousands", {}, []
{
    const int n = mc::thorough() ? 20000 : 3000;
    for (int gnu = 0; gnu < 2; ++gnu)
    {
        Mode m{!!gnu, false, 0, U_FIRST}; Args a;
        for (int i = 0; i < n; ++i) a.push_back(FEW[i % 4 == 1 ? (gnu ? 1 : 0) : i % 4 == 0 ? 0 : 3]);
        en::begin(mc::str(n, " words", gnu ? " gnu" : ""));
        Result r = model(m, a, a.size()); Args x = a, y = a;
        option::Stats st(m.gnu, m.usage, n, x.data()); en::same(st.buffer_max, (unsigned)r.opts.size() + 1, "buffer_max");
        Store s(st.options_max, st.buffer_max); option::Parser p(m.gnu, m.usage, n, y.data(), s.options.data(), s.buffer.data());
        en::same(p.optionsCount(), (int)r.opts.size(), "optionsCount()"); en::same(p.nonOptionsCount(), (int)r.rest.size(), "nonOptionsCount()");
        mc::check(y == r.order, "the words are not in order");
        en::same((size_t)s.options[VERBOSE].count(), (size_t)std::count_if(r.opts.begin(), r.opts.end(), [](const Found& f) { return f.d->index == VERBOSE; }), "count()");
    }
});
