// Signals delivered by the harness.
#pragma once
#include "events.hpp"
#include <csignal>
#include <dlfcn.h>
#include <cpp_utils/event/SignalEventHandler.hpp>
#include <cpp_utils/event/SignalManager.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
using namespace h;

// Signals of the scenarios are delivered by the harness: the installed disposition is recorded, not given to the kernel.
namespace { void (*g_handler[65])(int); }
extern "C" __sighandler_t signal(int n, __sighandler_t f) noexcept
{
    if (!mc::in_execution()) return ((__sighandler_t(*)(int, __sighandler_t))dlsym(RTLD_NEXT, "signal"))(n, f);
    mc::Quiet q;
    auto o = g_handler[n]; g_handler[n] = f; return o;
}
extern "C" int sigaction(int n, const struct sigaction* a, struct sigaction* o) noexcept
{
    if (!mc::in_execution()) return ((int(*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"))(n, a, o);
    mc::Quiet q;
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = g_handler[n]; }
    if (a) g_handler[n] = a->sa_handler;
    return 0;
}

namespace {

using I = SignalEventHandler<Signal::sigint>;
using T = SignalEventHandler<Signal::sigterm>;

//! A signal arrives, in this thread or in thread t
void arrive(Signal s, int t = -1, bool handled = true)
{
    int n = static_cast<int>(s);
    if (!handled && (!g_handler[n] || g_handler[n] == SIG_IGN)) return;
    { mc::Quiet q; mc::check(g_handler[n] && g_handler[n] != SIG_DFL && g_handler[n] != SIG_IGN, "the signal is not handled although a handler object exists"); }
    mc::point();
    if (t < 0) g_handler[n](n); else mc::interrupt(t, [n] { g_handler[n](n); });
}

}
