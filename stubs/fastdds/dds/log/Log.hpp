// Stand-in for the Fast DDS header of the same name (Fast DDS is not installed here).
// Entries at or below the verbosity go to every registered consumer: at once, in the thread that logs, under the
// same mutex as registration (synchronous mode), or from whichever thread calls logstub::pump() (queued mode).
#pragma once
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <memory>
#include <mutex>
#include <queue>
#include <regex>
#include <sstream>
#include <string>
#include <vector>

namespace eprosima { namespace fastdds { namespace dds {
class LogConsumer;
class Log
{
public:
    enum Kind { Error, Warning, Info };
    struct Context { const char* filename; int line; const char* function; const char* category; };
    struct Entry { std::string message; Log::Context context; Log::Kind kind; std::string timestamp; };

    static void RegisterConsumer(std::unique_ptr<LogConsumer>&& consumer);
    static void ClearConsumers();
    static void ReportFilenames(bool) {}
    static void ReportFunctions(bool) {}
    static void SetVerbosity(Log::Kind kind);
    static Log::Kind GetVerbosity();
    static void SetCategoryFilter(const std::regex&) {}
    static void SetFilenameFilter(const std::regex&) {}
    static void SetErrorStringFilter(const std::regex&) {}
    static void Flush();
    static void KillThread() {}
    static void Reset() { ClearConsumers(); }
    static void QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind);
};
class LogConsumer
{
public:
    virtual ~LogConsumer() = default;
    virtual void Consume(const Log::Entry&) = 0;
protected:
    void print_timestamp(std::ostream& stream, const Log::Entry& e, bool) const { stream << e.timestamp << " "; }
    void print_header(std::ostream& stream, const Log::Entry& e, bool) const
    {
        stream << "[" << e.context.category << (e.kind == Log::Error ? " Error] " : e.kind == Log::Warning ? " Warning] " : " Info] ");
    }
    void print_message(std::ostream& stream, const Log::Entry& e, bool) const { stream << e.message; }
    void print_context(std::ostream& stream, const Log::Entry& e, bool) const { if (e.context.function) stream << " -> Function " << e.context.function; }
    void print_new_line(std::ostream& stream, bool) const { stream << "\n"; }
};

struct LogStub
{
    std::mutex mutex;                 // registration and delivery, as the real logger's config mutex
    std::vector<std::unique_ptr<LogConsumer>> consumers;
    std::mutex queue_mutex;
    std::queue<Log::Entry> queue;
    bool queued = false;
    std::atomic<int> verbosity{Log::Error};
    inline static LogStub* instance = nullptr;
    inline static bool any = false;   // whether a consumer was ever registered (plain: no synchronisation is added)
    static LogStub* get() { if (!instance) instance = new LogStub(); return instance; }
    //! A fresh logger (the old one is abandoned): for the start of a scenario.
    static void fresh(bool queued_mode = false) { any = false; instance = new LogStub(); instance->queued = queued_mode; }
    //! The logging thread's work: deliver what is queued. Returns the number delivered.
    static int pump()
    {
        int n = 0;
        for (;;)
        {
            Log::Entry e;
            {
                std::lock_guard<std::mutex> l(get()->queue_mutex);
                if (get()->queue.empty()) return n;
                e = get()->queue.front(); get()->queue.pop();
            }
            std::lock_guard<std::mutex> l(get()->mutex);
            for (auto& c : get()->consumers) c->Consume(e);
            ++n;
        }
    }
};
inline void Log::RegisterConsumer(std::unique_ptr<LogConsumer>&& c)
{
    std::lock_guard<std::mutex> l(LogStub::get()->mutex);
    LogStub::get()->consumers.push_back(std::move(c)); if (!LogStub::any) LogStub::any = true;
}
inline void Log::ClearConsumers() { std::lock_guard<std::mutex> l(LogStub::get()->mutex); LogStub::get()->consumers.clear(); }
inline void Log::SetVerbosity(Log::Kind k) { LogStub::get()->verbosity.store(k); }
inline Log::Kind Log::GetVerbosity() { return static_cast<Log::Kind>(LogStub::get()->verbosity.load(std::memory_order_relaxed)); }
inline void Log::Flush() { if (LogStub::any) LogStub::pump(); }
inline void Log::QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind)
{
    if (!LogStub::any) return;
    if (kind > GetVerbosity()) return;
    Log::Entry e{message, context, kind, "2024-01-01 00:00:00.000"};
    if (LogStub::get()->queued) { std::lock_guard<std::mutex> l(LogStub::get()->queue_mutex); LogStub::get()->queue.push(e); return; }
    std::lock_guard<std::mutex> l(LogStub::get()->mutex);
    for (auto& c : LogStub::get()->consumers) c->Consume(e);
}
} } }
#define MC_LOG_STUB_(cat, msg, kind) { using namespace eprosima::fastdds::dds; \
    if (LogStub::any) { std::stringstream fastdds_log_ss_tmp__; fastdds_log_ss_tmp__ << msg; \
    eprosima::fastdds::dds::Log::QueueLog(fastdds_log_ss_tmp__.str(), \
        eprosima::fastdds::dds::Log::Context{__FILE__, __LINE__, __func__, #cat}, eprosima::fastdds::dds::Log::kind); } }
#define EPROSIMA_LOG_ERROR(cat, msg) MC_LOG_STUB_(cat, msg, Error)
#define EPROSIMA_LOG_WARNING(cat, msg) MC_LOG_STUB_(cat, msg, Warning)
#define EPROSIMA_LOG_INFO(cat, msg) MC_LOG_STUB_(cat, msg, Info)
#define logError(cat, msg) EPROSIMA_LOG_ERROR(cat, msg)
#define logWarning(cat, msg) EPROSIMA_LOG_WARNING(cat, msg)
#define logInfo(cat, msg) EPROSIMA_LOG_INFO(cat, msg)
