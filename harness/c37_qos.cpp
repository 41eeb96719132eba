// engine: seq
// sources: qos/qos_utils
#include "enum.hpp"
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::utils;
namespace dds = eprosima::fastdds::dds;

namespace {
const std::vector<std::pair<dds::QosPolicyId_t, const char*>> TABLE{
    {dds::USERDATA_QOS_POLICY_ID, "User data"}, {dds::DURABILITY_QOS_POLICY_ID, "Durability"}, {dds::PRESENTATION_QOS_POLICY_ID, "Presentation"},
    {dds::DEADLINE_QOS_POLICY_ID, "Deadline"}, {dds::LATENCYBUDGET_QOS_POLICY_ID, "Latency budget"}, {dds::OWNERSHIP_QOS_POLICY_ID, "Ownership"},
    {dds::OWNERSHIPSTRENGTH_QOS_POLICY_ID, "Ownership strength"}, {dds::LIVELINESS_QOS_POLICY_ID, "Liveliness"}, {dds::TIMEBASEDFILTER_QOS_POLICY_ID, "Time-based filter"},
    {dds::PARTITION_QOS_POLICY_ID, "Partition"}, {dds::RELIABILITY_QOS_POLICY_ID, "Reliability"}, {dds::DESTINATIONORDER_QOS_POLICY_ID, "Destination order"},
    {dds::HISTORY_QOS_POLICY_ID, "History"}, {dds::RESOURCELIMITS_QOS_POLICY_ID, "Resource limits"}, {dds::ENTITYFACTORY_QOS_POLICY_ID, "Entity factory"},
    {dds::WRITERDATALIFECYCLE_QOS_POLICY_ID, "Writer data lifecycle"}, {dds::READERDATALIFECYCLE_QOS_POLICY_ID, "Reader data lifecycle"},
    {dds::TOPICDATA_QOS_POLICY_ID, "Topic data"}, {dds::GROUPDATA_QOS_POLICY_ID, "Group data"}, {dds::TRANSPORTPRIORITY_QOS_POLICY_ID, "Transport priority"},
    {dds::LIFESPAN_QOS_POLICY_ID, "Lifespan"}, {dds::DURABILITYSERVICE_QOS_POLICY_ID, "Durability service"}, {dds::DATAREPRESENTATION_QOS_POLICY_ID, "Data representation"},
    {dds::TYPECONSISTENCYENFORCEMENT_QOS_POLICY_ID, "Type consistency enforcement"}, {dds::DISABLEPOSITIVEACKS_QOS_POLICY_ID, "Disable positive acks"},
    {dds::PARTICIPANTRESOURCELIMITS_QOS_POLICY_ID, "Participant resource limits"}, {dds::PROPERTYPOLICY_QOS_POLICY_ID, "Property policy"},
    {dds::PUBLISHMODE_QOS_POLICY_ID, "Publish mode"}, {dds::READERRESOURCELIMITS_QOS_POLICY_ID, "Reader resource limits"}, {dds::RTPSENDPOINT_QOS_POLICY_ID, "RTPS endpoint"},
    {dds::RTPSRELIABLEREADER_QOS_POLICY_ID, "RTPS reliable reader"}, {dds::RTPSRELIABLEWRITER_QOS_POLICY_ID, "RTPS reliable writer"},
    {dds::TRANSPORTCONFIG_QOS_POLICY_ID, "Transport config"}, {dds::TYPECONSISTENCY_QOS_POLICY_ID, "Type consistency"},
    {dds::WIREPROTOCOLCONFIG_QOS_POLICY_ID, "Wire protocol config"}, {dds::WRITERRESOURCELIMITS_QOS_POLICY_ID, "Writer resource limits"}};
const int N = dds::NEXT_QOS_POLICY_ID;
std::string name(unsigned id) { for (auto& e : TABLE) if ((unsigned)e.first == id) return e.second; return "Invalid"; }
void mask(const dds::PolicyMask& m)
{
    en::begin("mask " + m.to_string());
    std::string want; bool first = true;
    for (int i = 0; i < N; ++i) if (m[i]) { want += (first ? "" : ", ") + name(i); first = false; }
    if (m.none()) want = "Invalid";
    en::same(qos_policy_mask_to_string(m), want, "names of the policies");
}
void subsets(int left, int from, dds::PolicyMask m)
{
    mask(m); mask(~m);
    if (left) for (int i = from; i < N; ++i) { m.set(i); subsets(left - 1, i + 1, m); m.reset(i); }
}
}
MC_SCENARIO("C37", "identifiers")
{
    mc::check((int)TABLE.size() == N - 1, "policies");
    for (unsigned i = 0; i < (mc::thorough() ? 1u << 24 : 1u << 17); ++i) { if (i < 100) en::begin(mc::str("identifier ", i)); if (qos_policy_id_to_string((dds::QosPolicyId_t)i) != name(i)) { mc::ctx(mc::str("identifier ", i)); mc::fail("name " + qos_policy_id_to_string((dds::QosPolicyId_t)i) + ", expected " + name(i)); } }
    for (unsigned k = 0; k < 32; ++k) for (unsigned d = 0; d < 50; ++d) for (unsigned x : {(1u << k) + d, (1u << k) - d}) { en::begin(mc::str("identifier ", x)); en::same(qos_policy_id_to_string((dds::QosPolicyId_t)x), name(x), "name"); }
}
MC_SCENARIO("C37", "few_policies_or_all_but_few") { subsets(mc::thorough() ? 4 : 3, 0, dds::PolicyMask()); }
MC_SCENARIO("C37", "ranges")
{
    for (int a = 0; a <= N; ++a) for (int b = a; b <= N; ++b) for (int step = 1; step < 6; ++step) { dds::PolicyMask m; for (int i = a; i < b; i += step) m.set(i); mask(m); mask(~m); }
}
MC_SCENARIO("C37", "windows")
{
    // every combination of neighbouring policies
    const int w = mc::thorough() ? 13 : 9;
    for (int a = 0; a + w <= N; ++a) for (unsigned long long x = 0; x < 1ull << w; ++x) mask(dds::PolicyMask(x << a));
}
