// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "enum.hpp"
#include <cstdlib>
#include <ctime>
#include <limits>
#include <cpp_utils/time/time_utils.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
using namespace eprosima::utils;

namespace {
typedef long long ll;
struct Civil { ll y; int m, d, h, mi, s; };
bool leap(ll y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int mdays(ll y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return D[m - 1] + (m == 2 && leap(y)); }
//! days from the epoch to the first of January, counted year by year
ll year_start(ll y)
{
    static std::map<ll, ll> memo;
    auto it = memo.find(y);
    if (it != memo.end()) return it->second;
    ll d = 0;
    if (y >= 1970) for (ll k = 1970; k < y; ++k) d += leap(k) ? 366 : 365;
    else for (ll k = y; k < 1970; ++k) d -= leap(k) ? 366 : 365;
    return memo[y] = d;
}
ll days(ll y, int m, int d) { ll n = year_start(y) + d - 1; for (int k = 1; k < m; ++k) n += mdays(y, k); return n; }
ll secs(const Civil& c) { return days(c.y, c.m, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s; }
int weekday(ll day) { return (int)(((day % 7) + 7 + 4) % 7); }      // 1970-01-01 was a Thursday
std::string two(int n) { return std::string(n < 10 ? "0" : "") + std::to_string(n); }
std::string four(ll n) { std::string s = std::to_string(n); return std::string(4 - s.size(), '0') + s; }
Civil civil(ll t)
{
    ll d = t / 86400, r = t % 86400; if (r < 0) { r += 86400; --d; }
    Civil c; c.y = 1970 + d / 366 - (d < 0);
    while (year_start(c.y + 1) <= d) ++c.y;
    while (year_start(c.y) > d) --c.y;
    d -= year_start(c.y); c.m = 1;
    while (d >= mdays(c.y, c.m)) { d -= mdays(c.y, c.m); ++c.m; }
    c.d = (int)d + 1; c.h = (int)(r / 3600); c.mi = (int)(r / 60 % 60); c.s = (int)(r % 60);
    return c;
}
const char* const MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
const char* const FORMATS[] = {"%Y-%m-%d_%H-%M-%S", "%S-%M-%H___%d-%m-%Y", "%d %b %Y %H:%M:%S", "%Y/%m/%d"};
std::string render(int f, const Civil& c)
{
    switch (f)
    {
        case 0: return four(c.y) + "-" + two(c.m) + "-" + two(c.d) + "_" + two(c.h) + "-" + two(c.mi) + "-" + two(c.s);
        case 1: return two(c.s) + "-" + two(c.mi) + "-" + two(c.h) + "___" + two(c.d) + "-" + two(c.m) + "-" + four(c.y);
        case 2: return two(c.d) + " " + MON[c.m - 1] + " " + four(c.y) + " " + two(c.h) + ":" + two(c.mi) + ":" + two(c.s);
        default: return four(c.y) + "/" + two(c.m) + "/" + two(c.d);
    }
}
ll sec(const Timestamp& t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }
Timestamp ts(ll s) { return Timestamp(std::chrono::seconds(s)); }
const ll MAXS = std::numeric_limits<ll>::max() / 1000000000;
void both_ways(const Civil& c, int f)
{
    ll s = secs(c);
    Timestamp t = date_to_timestamp((unsigned)c.y, c.m, c.d, c.h, c.mi, c.s);
    if (!mc::check(t == ts(s), [&] { return mc::str("date_to_timestamp gave ", sec(t), " s, expected ", s); })) return;
    std::string want = render(f, c);
    en::same(f == 0 ? timestamp_to_string(t) : timestamp_to_string(t, FORMATS[f]), want, "timestamp_to_string");
    Timestamp back = f == 0 ? string_to_timestamp(want) : string_to_timestamp(want, FORMATS[f]);
    ll w = f == 3 ? s - c.h * 3600 - c.mi * 60 - c.s : s;
    mc::check(back == ts(w), [&] { return mc::str("string_to_timestamp gave ", sec(back), " s, expected ", w); });
}
const int TIMES[][3] = {{0, 0, 0}, {23, 59, 59}, {0, 0, 1}, {12, 30, 7}, {9, 59, 58}, {1, 2, 3}};
// time zones whose rules are written out
struct Zone { const char* tz; int std, dst; int kind; };      // kind 0 none, 1 US, 2 EU, 3 southern (April/October)
const Zone ZONES[] = {{"UTC0", 0, 0, 0}, {"EST5EDT,M3.2.0,M11.1.0", -5 * 3600, -4 * 3600, 1}, {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, 2},
    {"IST-5:30", 19800, 0, 0}, {"XXX11:15", -11 * 3600 - 900, 0, 0}, {"AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, 3}};
int nth_sunday(ll y, int m, int n)      // n = 5: the last
{
    int first = 1 + (7 - weekday(days(y, m, 1))) % 7;
    int d = first + 7 * (n - 1);
    while (d > mdays(y, m)) d -= 7;
    return d;
}
bool in_dst(const Zone& z, ll t)
{
    if (!z.kind) return false;
    ll y = civil(t + z.std).y;
    ll a, b;
    if (z.kind == 1) { a = days(y, 3, nth_sunday(y, 3, 2)) * 86400 + 7200 - z.std; b = days(y, 11, nth_sunday(y, 11, 1)) * 86400 + 7200 - z.dst; }
    else if (z.kind == 2) { a = days(y, 3, nth_sunday(y, 3, 5)) * 86400 + 7200 - z.std; b = days(y, 10, nth_sunday(y, 10, 5)) * 86400 + 3 * 3600 - z.dst; }
    else { a = days(y, 10, nth_sunday(y, 10, 1)) * 86400 + 7200 - z.std; b = days(y, 4, nth_sunday(y, 4, 1)) * 86400 + 3 * 3600 - z.dst; return t >= a || t < b; }
    return t >= a && t < b;
}
ll offset(const Zone& z, ll t) { return in_dst(z, t) ? z.dst : z.std; }
void local(const Zone& z, ll t, int f)
{
    Civil c = civil(t + offset(z, t));
    std::string want = render(f, c);
    en::same(timestamp_to_string(ts(t), FORMATS[f], true), want, "local timestamp_to_string");
    Timestamp b = string_to_timestamp(want, FORMATS[f], true);
    ll got = sec(b);
    bool ok = b == ts(t);
    // an hour that happens twice may be read as either
    if (!ok && z.kind) ok = (got == t + 3600 || got == t - 3600) && got + offset(z, got) == t + offset(z, t);
    mc::check(ok, [&] { return mc::str("local string_to_timestamp gave ", got, " s, expected ", t); });
}
}

MC_SCENARIO("C26", "every_day")
{
    bool th = mc::thorough();
    int k = 0;
    for (ll y = th ? 1678 : 1895; y <= (th ? 2261 : 2205); ++y) for (int m = 1; m <= 12; ++m) for (int d = 1; d <= mdays(y, m); ++d)
    {
        int n = th ? 6 : (d == 1 || d >= 28) && m <= 3 ? 2 : 1;
        for (int i = 0; i < n; ++i)
        {
            const int* t = TIMES[(k + i) % 6];
            Civil c{y, m, d, t[0], t[1], t[2]};
            en::begin(render(0, c));
            both_ways(c, (k++ / 6) % 4);
        }
    }
}
MC_SCENARIO("C26", "boundaries")
{
    // the ends of what can be represented, year ends, leap days and the epoch, second by second
    for (ll y : {1678, 1679, 1700, 1799, 1800, 1899, 1900, 1901, 1904, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2037, 2038, 2039, 2099, 2100, 2101, 2199, 2200, 2260, 2261})
        for (int w = 0; w < 3; ++w)
        {
            ll base = w == 0 ? days(y, 1, 1) * 86400 : w == 1 ? days(y, 3, 1) * 86400 : days(y, 2, 28) * 86400 + 86400;
            for (ll o = -62; o <= 62; ++o) for (int f = 0; f < 3; ++f)
            {
                Civil c = civil(base + o);
                en::begin(render(0, c) + mc::str(" format ", f));
                both_ways(c, f);
            }
        }
    // every second of an hour, every minute of a day
    for (int s = 0; s < 3600; ++s) { Civil c = civil(951868800 - 1800 + s); en::begin(render(0, c)); both_ways(c, s % 3); }
    for (int s = 0; s < 1440; ++s) { Civil c = civil(4107542400 - 43200 + s * 60); en::begin(render(0, c)); both_ways(c, s % 3); }
}
MC_SCENARIO("C26", "limits")
{
    en::begin("the beginning and the end of time");
    mc::check(the_end_of_time() == Timestamp::max() && the_beginning_of_time() == Timestamp::min(), "limits");
    mc::check(the_end_of_time() > date_to_timestamp(2261, 12, 31, 23, 59, 59) && the_beginning_of_time() < date_to_timestamp(1678, 1, 1), "limits order");
    for (int end = 0; end < 2; ++end) for (ll o = 0; o < 200; ++o)
    {
        // the last seconds: text and back
        ll s = end ? MAXS - o : -MAXS + o;
        en::begin(mc::str(s, " s"));
        std::string t = render(0, civil(s));
        en::same(timestamp_to_string(ts(s)), t, "timestamp_to_string");
        mc::check(string_to_timestamp(t) == ts(s), "string_to_timestamp");
    }
    for (int end = 0; end < 2; ++end) for (ll o = 1; o < 400; o += (o < 70 ? 1 : 37))
    {
        // beyond: refused when read, and the limit when built from a date
        ll s = end ? MAXS + o : -MAXS - o;
        Civil c = civil(s);
        en::begin(mc::str(s, " s, out of range ", render(0, c)));
        mc::check(en::throws<ValueNotAllowedException>([&] { string_to_timestamp(render(0, c)); }), "an instant that cannot be represented was accepted");
        Timestamp t = date_to_timestamp((unsigned)c.y, c.m, c.d, c.h, c.mi, c.s);
        mc::check(sec(t) == (end ? MAXS : -MAXS), [&] { return mc::str("date_to_timestamp gave ", sec(t), " s, out of range"); });
    }
    for (unsigned y : {1u, 1000u, 1600u, 1676u, 2263u, 2300u, 3000u, 9999u})
    {
        en::begin(mc::str("year ", y));
        Timestamp t = date_to_timestamp(y, 6, 15, 1, 2, 3);
        mc::check(sec(t) == (y > 2000 ? MAXS : -MAXS), [&] { return mc::str("date_to_timestamp gave ", sec(t), " s, out of range"); });
        mc::check(en::throws<ValueNotAllowedException>([&] { string_to_timestamp(render(0, {(ll)y, 6, 15, 1, 2, 3})); }), "an instant that cannot be represented was accepted");
    }
}
MC_SCENARIO("C26", "local_times")
{
    for (auto& z : ZONES)
    {
        setenv("TZ", z.tz, 1);
        for (ll y = mc::thorough() ? 1972 : 1999; y <= (mc::thorough() ? 2036 : 2012); ++y) for (ll d = year_start(y); d < year_start(y + 1); ++d)
            for (int h = 0; h < 24; h += mc::thorough() ? 1 : 5)
            {
                ll t = d * 86400 + h * 3600 + (d % 3) * 1799;
                en::begin(mc::str(z.tz, " ", t));
                local(z, t, (int)(d % 3));
            }
        // hour by hour around every change
        for (ll y : {1999, 2000, 2010, 2023}) for (int m : {3, 4, 10, 11}) for (ll t = days(y, m, 1) * 86400; t < days(y, m, mdays(y, m)) * 86400 + 86400; t += 1800)
        { en::begin(mc::str(z.tz, " ", t)); local(z, t, 0); }
        // the second before the epoch
        for (ll t = -3; t < 3; ++t) { en::begin(mc::str(z.tz, " ", t)); local(z, t, 0); }
    }
    unsetenv("TZ"); tzset();
}
MC_SCENARIO("C26", "default_arguments")
{
    // midnight unless told otherwise, and UTC whatever the time zone
    for (const char* zone : {"UTC0", "JST-9", "PST8PDT", "<+14>-14"})
    {
        setenv("TZ", zone, 1);
        for (ll y : {1700, 1969, 1970, 2000, 2024, 2200}) for (int m = 1; m <= 12; ++m) for (int d : {1, 15, 28})
        {
            en::begin(mc::str(zone, " ", y, "-", m, "-", d));
            ll t = days(y, m, d) * 86400;
            mc::check(date_to_timestamp((unsigned)y, m, d) == ts(t) && date_to_timestamp((unsigned)y, m, d, 5) == ts(t + 5 * 3600)
                && date_to_timestamp((unsigned)y, m, d, 5, 6) == ts(t + 5 * 3600 + 6 * 60), "date_to_timestamp with fewer arguments");
            Civil c{y, m, d, 5, 6, 7};
            ll s = secs(c);
            en::same(timestamp_to_string(ts(s)), render(0, c), "timestamp_to_string");
            en::same(timestamp_to_string(ts(s), FORMATS[0]), render(0, c), "timestamp_to_string with a format");
            mc::check(string_to_timestamp(render(0, c)) == ts(s) && string_to_timestamp(render(0, c), FORMATS[0]) == ts(s), "string_to_timestamp");
        }
    }
    unsetenv("TZ"); tzset();
}
MC_SCENARIO("C26", "today")
{
    // a time of the current date, at every kind of date
    int K = mc::thorough() ? 800 : 400;
    for (int day = 0; day < K; ++day)
    {
        // the date is the one in UTC, whatever the time zone
        static const char* const ZONE[] = {"UTC0", "JST-9", "PST8PDT", "<+14>-14"};
        setenv("TZ", ZONE[day % 4], 1);
        for (int at = 0; at < 3; ++at) for (auto& t : TIMES)
        {
            ll now_s = 1700000000 + (ll)(mc::now_ns() / 1000000000);
            Civil c = civil(now_s);
            en::begin(mc::str("now ", render(0, c), " time ", t[0], ":", t[1], ":", t[2]));
            mc::check(sec(now()) == now_s, "now");
            Timestamp x = time_to_timestamp(t[0], t[1], t[2]);
            c.h = t[0]; c.mi = t[1]; c.s = t[2];
            mc::check(x == ts(secs(c)), [&] { return mc::str("time_to_timestamp gave ", sec(x), " s, expected ", secs(c)); });
            if (t == TIMES[5])
            {
                mc::check(time_to_timestamp(5) == ts(secs({c.y, c.m, c.d, 5, 0, 0})) && time_to_timestamp() == ts(secs({c.y, c.m, c.d, 0, 0, 0})), "defaults");
                mc::advance_ns(8ull * 3600 * 1000000000ull);
            }
        }
        mc::advance_ns(977ull * 1000000000ull);
    }
    unsetenv("TZ"); tzset();
}
namespace {
enum Fit { CONTRADICTS, PARTIAL, WHOLE };
//! does the text follow %Y-%m-%d_%H-%M-%S? One that ends early contradicts nothing: what it gives is not specified
Fit fits(const std::string& s)
{
    static const struct { int digits, lo, hi; char after; } F[] = {{4, 0, 9999, '-'}, {2, 1, 12, '-'}, {2, 1, 31, '_'}, {2, 0, 23, '-'}, {2, 0, 59, '-'}, {2, 0, 60, 0}};
    size_t p = 0;
    while (p < s.size() && std::isspace((unsigned char)s[p])) ++p;
    if (p == s.size()) return CONTRADICTS;
    for (auto& f : F)
    {
        if (p == s.size()) return PARTIAL;
        if (f.hi == 31 && std::isspace((unsigned char)s[p]) && ++p == s.size()) return PARTIAL;      // a day may be padded with a blank
        int v = 0, n = 0;
        while (p < s.size() && n < f.digits && std::isdigit((unsigned char)s[p])) { v = v * 10 + s[p++] - '0'; ++n; }
        if (!n || v > f.hi) return CONTRADICTS;
        if (v < f.lo) return p == s.size() && n < f.digits ? PARTIAL : CONTRADICTS;
        if (f.after) { if (p == s.size()) return PARTIAL; if (s[p++] != f.after) return CONTRADICTS; if (p == s.size()) return PARTIAL; }
    }
    return s[p - 1] == '0' && s[p - 2] == '6' ? PARTIAL : WHOLE;       // a leap second may be refused
}
void offered(const std::string& s)
{
    en::begin(en::q(s));
    Fit f = fits(s);
    for (int local = 0; local < 2; ++local)
    {
        int r = 0;
        try { if (local) string_to_timestamp(s, "%Y-%m-%d_%H-%M-%S", true); else string_to_timestamp(s); }
        catch (const PreconditionNotMet&) { r = 1; }
        catch (const ValueNotAllowedException&) { r = 2; }
        if (f == CONTRADICTS) mc::check(r == 1, [&] { return mc::str("text that does not match the format was ", r ? "taken as out of range" : "accepted", local ? " (local)" : ""); });
        else if (f == WHOLE) mc::check(r != 1, "text that matches the format was refused as malformed");
    }
}
}
MC_SCENARIO("C26", "malformed")
{
    en::strings("0129-_: a", 0, mc::thorough() ? 6 : 4, offered);
    for (std::string good : {"2019-11-23_18-45-07", "1999-01-31_00-00-00", "2020-12-01_23-59-59"})
    {
        for (size_t i = 0; i <= good.size(); ++i) offered(good.substr(0, i));
        // one or two characters replaced
        const std::string A = "0123569x :/\n-_+";
        for (size_t i = 0; i < good.size(); ++i) for (char c : A) for (size_t j = i; j < good.size(); ++j) for (char d : (i == j ? std::string(1, c) : A))
        { std::string s = good; s[i] = c; s[j] = d; offered(s); }
        // one character dropped or added
        for (size_t i = 0; i < good.size(); ++i) { std::string s = good; s.erase(i, 1); offered(s); for (char c : A) { s = good; s.insert(i, 1, c); offered(s); } }
    }
    // every value of every field
    static const int POS[] = {5, 8, 11, 14, 17};
    for (int p : POS) for (int v = 0; v < 100; ++v) { std::string s = "2019-11-23_18-45-07"; s.replace(p, 2, two(v)); offered(s); }
}
