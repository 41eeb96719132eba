// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils event/PeriodicEventHandler event/MultipleEventHandler event/logging/LogEventHandler event/logging/LogSevereEventHandler event/logging/LogConsumerConnection logging/BaseLogConsumer logging/BaseLogConfiguration types/Fuzzy event/FileWatcherHandler
#include "inotify.hpp"
#include "destroy.hpp"
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using namespace h;
using eprosima::fastdds::dds::Log;
using eprosima::fastdds::dds::LogStub;

MC_SCENARIO("C09", "periodic_destroyed", o.budget_quick = 2; o.budget_thorough = 4; o.early_timeouts = false)
{
    destroy_with_waiters<PeriodicEventHandler>([] { return new PeriodicEventHandler([] {}, 1000000); }, nullptr, 1);
}
MC_SCENARIO("C09", "multiple_destroyed", o.budget_quick = 2; o.budget_thorough = 3)
{
    EH* src = new EH();
    std::unique_ptr<IBaseEventHandler> own(src);
    destroy_with_waiters<MultipleEventHandler>([&]
            {
                auto* m = new MultipleEventHandler([] {});
                m->register_event_handler<EventHandler<int, std::string>, int, std::string>(std::unique_ptr<EventHandler<int, std::string>>(static_cast<EH*>(own.release())));
                return m;
            }, [src](MultipleEventHandler&) { src->fire(1); }, 1);
}
MC_SCENARIO("C09", "log_destroyed", o.budget_quick = 2; o.budget_thorough = 3)
{
    LogStub::fresh();
    destroy_with_waiters<LogEventHandler>([] { return new LogEventHandler([](Log::Entry) {}); }, nullptr, 1);
}
MC_SCENARIO("C09", "log_severe_destroyed", o.budget_quick = 2; o.budget_thorough = 3)
{
    LogStub::fresh();
    destroy_with_waiters<LogSevereEventHandler>([] { return new LogSevereEventHandler([](Log::Entry) {}, Log::Warning); }, nullptr, 1);
}
MC_SCENARIO("C09", "file_watcher_destroyed", o.budget_quick = 1; o.budget_thorough = 2)
{
    fresh();
    destroy_with_waiters<FileWatcherHandler>([] { return new FileWatcherHandler([](std::string) {}, FILE_); }, [](FileWatcherHandler&) { happens(IN_MODIFY, "file.txt"); }, 1);
}
