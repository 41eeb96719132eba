// Destruction of a handler of any kind while threads wait for its events.
#pragma once
#include "events.hpp"
namespace h {
//! make: the handler with a callback set; event: makes one event occur (may be empty). No event occurs on its own.
template <typename H>
void destroy_with_waiters(std::function<H*()> make, std::function<void(H&)> event, int first)
{
    std::unique_ptr<H> e(make());
    Threads th;
    Quietly<int> results(0);
    H* p = e.get();
    for (int i = 0; i < 2; ++i)
        th.add([p, &results, i, first] { bool x = p->wait_for_event(first + i); mc::check(!x || i == 0, "wait_for_event returned true without the events"); mc::Quiet q; ++results.v; });
    int b = mc::threads_created() - 1, a = b - 1;
    mc::wait_until([a, b] { return mc::blocked(a) && mc::blocked(b); }, "waiters waiting");
    int k = mc::choose(3);
    if (k == 1 && event) event(*e);
    if (k == 2) { e->unset_callback(); }
    e.reset();
    mc::mark(0x1000);
    th.join();
    mc::check(results.get() == 2, "a waiter was not released by destruction");
}
}
