// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils ros2_mangling
#include "enum.hpp"
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;

namespace {
typedef std::string S;
bool starts(const S& s, const S& p) { return s.size() >= p.size() && s.substr(0, p.size()) == p; }
bool ends(const S& s, const S& p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
S swap(const S& s, const S& a, const S& b) { S o; for (size_t i = 0; i < s.size();) if (s.compare(i, a.size(), a) == 0) { o += b; i += a.size(); } else o += s[i++]; return o; }
const S DDS = "dds_::";

// References, from the documentation
S r_remove_prefix(const S& n, const S& p) { return starts(n, p + "/") ? n.substr(p.size()) : ""; }
S r_prefix(const S& n) { for (const char* p : {"rt", "rq", "rr"}) if (starts(n, S(p) + "/")) return p; return ""; }
S r_strip(const S& n) { return n.substr(r_prefix(n).size()); }
S r_mangle_topic(const S& n) { return starts(n, "/") ? "rt" + n : n; }
S r_demangle_type(const S& t)
{
    size_t p = t.find(DDS);
    if (!ends(t, "_") || p == S::npos) return t;
    return swap(t.substr(0, p), "::", "/") + t.substr(p + DDS.size(), t.size() - 1 - p - DDS.size());
}
S r_mangle_type(const S& t)
{
    size_t p = t.find("/msg/");
    if (p == S::npos || p + 5 == t.size()) return t;
    return swap(t.substr(0, p + 5), "/", "::") + DDS + t.substr(p + 5) + "_";
}
S r_demangle_service(const S& n, const S& p, const S& suffix)
{
    S s = r_remove_prefix(n, p);
    return ends(s, suffix) ? s.substr(0, s.size() - suffix.size()) : "";
}
S r_mangle_service(const S& n, const S& p, const S& suffix) { return starts(n, "/") ? p + n + suffix : ""; }
S r_demangle_service_type(const S& t)
{
    size_t p = t.find(DDS);
    if (p == S::npos) return "";
    for (const char* x : {"_Response_", "_Request_"})
        if (ends(t, x))
        {
            size_t e = t.size() - S(x).size(), b = p + DDS.size();
            if (e < b) return "?";      // the suffix begins inside the marker: either reading
            return swap(t.substr(0, p), "::", "/") + t.substr(b, e - b);
        }
    return "";
}
S r_mangle_service_type(const S& t)
{
    size_t p = t.find("/srv/");
    if (p == S::npos) return "";
    S suffix = starts(t, "rq/") ? "_Request_" : starts(t, "rr/") ? "_Response_" : "";
    if (suffix.empty()) return "";
    return swap(t.substr(0, p + 5) + DDS + t.substr(p + 5) + suffix, "/", "::");
}
void all(const S& s)
{
    en::begin(en::q(s));
    try
    {
        for (const char* p : {"rt", "rq", "rr", "", "r", "rt/"}) { en::same(remove_prefix(s, p), r_remove_prefix(s, p), "remove_prefix"); en::same(add_prefix(s, p), p + s, "add_prefix"); en::same(add_suffix(s, p), s + p, "add_suffix"); }
        en::same(get_ros_prefix_if_exists(s), r_prefix(s), "get_ros_prefix_if_exists");
        en::same(remove_ros_prefix_if_exists(s), r_strip(s), "remove_ros_prefix_if_exists");
        en::same(demangle_if_ros_topic(s), r_strip(s), "demangle_if_ros_topic");
        en::same(mangle_if_ros_topic(s), r_mangle_topic(s), "mangle_if_ros_topic");
        en::same(demangle_if_ros_type(s), r_demangle_type(s), "demangle_if_ros_type");
        en::same(mangle_if_ros_type(s), r_mangle_type(s), "mangle_if_ros_type");
        en::same(demangle_ros_topic_prefix_from_topic(s), r_remove_prefix(s, "rt"), "demangle_ros_topic_prefix_from_topic");
        S q = r_demangle_service(s, "rq", "Request"), r = r_demangle_service(s, "rr", "Reply");
        en::same(demangle_ros_service_request_prefix_from_topic(s), q, "demangle_ros_service_request_prefix_from_topic");
        en::same(demangle_ros_service_reply_prefix_from_topic(s), r, "demangle_ros_service_reply_prefix_from_topic");
        en::same(demangle_ros_service_prefix_from_topic(s), r.empty() ? q : r, "demangle_ros_service_prefix_from_topic");
        en::same(mangle_ros_service_request_prefix_in_topic(s), r_mangle_service(s, "rq", "Request"), "mangle_ros_service_request_prefix_in_topic");
        en::same(mangle_ros_service_reply_prefix_in_topic(s), r_mangle_service(s, "rr", "Reply"), "mangle_ros_service_reply_prefix_in_topic");
        S w = r_demangle_service_type(s), g = demangle_service_type_only(s);
        if (w != "?") en::same(g, w, "demangle_service_type_only");
        en::same(mangle_service_type_only(s), r_mangle_service_type(s), "mangle_service_type_only");
        en::same(add_ros_topic_prefix(s), "rt" + s, "add_ros_topic_prefix");
        en::same(add_ros_service_requester_prefix(s), "rq" + s, "add_ros_service_requester_prefix");
        en::same(add_ros_service_response_prefix(s), "rr" + s, "add_ros_service_response_prefix");
    }
    catch (const std::exception& e) { mc::fail(S("threw: ") + e.what()); }
}
}
MC_SCENARIO("C31", "every_short_text") { en::strings("/:_rtqa", 0, mc::thorough() ? 7 : 5, all); }
// every concatenation of fragments
namespace {
const char* const F[] = {"rt", "rq", "rr", "/", "::", "dds_::", "_", "msg", "srv", "/msg/", "/srv/", "Request", "Reply", "_Request_", "_Response_", "a", "A_b"};
const int NF = sizeof F / sizeof *F;
struct Frag { Frag() { for (int k = 0; k < NF; ++k) new mc::Registrar("C31", mc::str("fragments_", k), mc::Options(), [k] {
    en::sequences(NF, 0, mc::thorough() ? 5 : 3, [&](const std::vector<int>& v) { S s = F[k]; for (int i : v) s += F[i]; all(s); });
}); } } frag;
}
MC_SCENARIO("C31", "round_trips")
{
    // valid ROS names: there and back
    std::vector<S> parts{"a", "chatter", "A1", "rt", "rq", "rr", "my_node", "Request", "Reply", "x_Request", "msg", "_h", "dds_", "std_msgs"};
    std::vector<S> pkgs{"std_msgs", "a", "my_pkg", "dds", "rt", "msg", "pkg1"}, types{"String", "A", "Request", "Reply", "ABResponse", "T1"};
    en::sequences((int)parts.size(), 1, mc::thorough() ? 5 : 4, [&](const std::vector<int>& v) {
        S n; for (int i : v) n += "/" + parts[i];
        en::begin(en::q(n));
        S m = mangle_if_ros_topic(n);
        en::same(m, "rt" + n, "mangled topic"); en::same(demangle_if_ros_topic(m), n, "topic and back"); en::same(demangle_ros_topic_prefix_from_topic(m), n, "topic and back");
        en::same(get_ros_prefix_if_exists(m), "rt", "prefix of a topic");
        S q = mangle_ros_service_request_prefix_in_topic(n), r = mangle_ros_service_reply_prefix_in_topic(n);
        en::same(demangle_ros_service_request_prefix_from_topic(q), n, "service request and back"); en::same(demangle_ros_service_prefix_from_topic(q), n, "service request and back");
        en::same(demangle_ros_service_reply_prefix_from_topic(r), n, "service reply and back"); en::same(demangle_ros_service_prefix_from_topic(r), n, "service reply and back");
        en::same(demangle_ros_service_request_prefix_from_topic(r), "", "reply as request"); en::same(demangle_ros_service_reply_prefix_from_topic(q), "", "request as reply");
        en::same(demangle_ros_service_prefix_from_topic(m), "", "topic as service");
        en::same(get_ros_prefix_if_exists(q), "rq", "prefix of a request"); en::same(get_ros_prefix_if_exists(r), "rr", "prefix of a reply");
    });
    for (auto& p : pkgs) for (auto& t : types)
    {
        S n = p + "/msg/" + t; en::begin(en::q(n));
        S m = mangle_if_ros_type(n);
        en::same(m, p + "::msg::dds_::" + t + "_", "mangled type"); en::same(demangle_if_ros_type(m), n, "type and back");
        for (const char* x : {"rq/", "rr/"})
        {
            S s = x + p + "/srv/" + t; en::begin(en::q(s));
            S y = mangle_service_type_only(s);
            en::same(y, swap(x, "/", "::") + p + "::srv::dds_::" + t + (S(x) == "rq/" ? "_Request_" : "_Response_"), "mangled service type");
            en::same(demangle_service_type_only(y), s, "service type and back");
        }
    }
    mc::check(get_all_ros_prefixes() == std::vector<S>({"rt", "rq", "rr"}), "get_all_ros_prefixes");
}

MC_SCENARIO("C31", "long_names")
{
    for (int parts = 1; parts <= (mc::thorough() ? 60 : 30); ++parts) for (int len : {1, 2, 30, 255}) for (const char* last : {"a", "Request", "Reply", "x_"})
    {
        S n, inner; for (int i = 0; i < parts; ++i) { n += "/" + (i + 1 == parts ? S(last) : S(len, (char)('a' + i % 26))); if (i) inner += "/"; inner += S(len, (char)('a' + i % 26)); }
        for (const char* p : {"", "rt", "rq", "rr"}) for (const char* x : {"", "Request", "Reply", "_", "/"}) all(p + n + x);
        // nested packages
        for (const char* p : {"", "rq/", "rr/"}) for (const char* m : {"/msg/", "/srv/", "/msg/srv/", "/srv/msg/", "/msg/msg/", "/srv/srv/"})
        {
            S t = p + inner + m + last; all(t);
            all(mangle_if_ros_type(t)); all(mangle_service_type_only(t));
        }
        S d = swap(inner, "/", "::");
        for (const char* p : {"", "rq::", "rr::"}) for (const char* x : {"_", "_Request_", "_Response_", "_Request", ""}) all(p + d + "::srv::dds_::" + last + x);
    }
}
