// engine: mc
// sources: Formatter exception/Exception utils math/math_extension time/time_utils
#include "signals.hpp"
#include "destroy.hpp"

MC_SCENARIO("C09", "signal_destroyed", o.budget_quick = 0; o.budget_thorough = 1; o.fork_each = true; o.early_timeouts = false)
{
    destroy_with_waiters<SignalEventHandler<Signal::sigint>>([] { return new SignalEventHandler<Signal::sigint>([](Signal) {}); }, [](SignalEventHandler<Signal::sigint>&) { arrive(Signal::sigint); }, 1);
    mc::done();
}
