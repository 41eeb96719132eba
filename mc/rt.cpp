// Controlled-scheduler stateless model checker: runtime and explorer. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.hpp"

#include <sys/single_threaded.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <link.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }

extern "C" void mc_switch(void** save, void* load);
extern "C" void mc_fiber_main();

namespace mc {
namespace {

constexpr int MAXT = 20;
constexpr uint64_t INF = ~0ull;
constexpr size_t STACK_SZ = 512 * 1024;
constexpr size_t HEAP0_SZ = 64ull << 20;
constexpr size_t HEAP_SZ = 64ull << 20;
constexpr size_t REGION = HEAP0_SZ + (MAXT) * (STACK_SZ + HEAP_SZ);
constexpr uint64_t RT_BASE = 1700000000ull * 1000000000ull;
constexpr uint64_t MONO_BASE = 5000ull * 1000000000ull;

struct RtScope;
int g_rt = 1;              // >0: inside the runtime (or outside executions)
bool g_active = false;     // an execution is running
bool g_arena = false;      // heap of the execution is the arena
bool g_trace = false;
bool g_thorough = false;
bool g_replaying = false;
Options g_opt;

struct RtScope { RtScope() { ++g_rt; } ~RtScope() { --g_rt; } };

inline bool user() { return g_active && g_rt == 0; }

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; x ^= x >> 29;
    return x;
}

// ---------------------------------------------------------------- shared record of the running execution
constexpr int MAXCH = 200000;
struct ChoiceRec { uint8_t n; uint8_t chosen; uint8_t thread; uint8_t cost[29]; };
enum Status : int { ST_RUNNING = 0, ST_OK = 1, ST_PRUNED = 2, ST_VIOLATION = 3, ST_ERROR = 4 };
struct Shared
{
    volatile int status;
    int nchoices;
    uint64_t steps;
    uint64_t execs, pruned, transitions, states, maxdepth, counters_dropped;
    char msg[4000];
    ChoiceRec ch[MAXCH];
    int nkeys;
    struct { uint64_t key; int rem; } keys[MAXCH];
    int ncounters;
    struct { char name[48]; uint64_t n; } counters[64];
    int tracelen;
    char trace[1 << 20];
};
Shared* S = nullptr;

void trace_line(const char* fmt, ...)
{
    if (!g_trace) return;
    va_list ap; va_start(ap, fmt);
    int room = (int)sizeof(S->trace) - S->tracelen - 2;
    if (room > 300)
    {
        int n = vsnprintf(S->trace + S->tracelen, room, fmt, ap);
        if (n > room) n = room;
        S->tracelen += n; S->trace[S->tracelen++] = '\n'; S->trace[S->tracelen] = 0;
    }
    va_end(ap);
}

// ---------------------------------------------------------------- memory
char* g_region = nullptr;
struct Cell
{
    uint32_t stamp; uint32_t wclk; uint8_t wtid, wmask, wflag, pad; void* wpc;
    uint32_t rclk[MAXT]; uint8_t rmask[MAXT];
};
Cell* g_cells = nullptr;
uint8_t* g_ast = nullptr;   // granule states: 0 unallocated, 1 allocated, 2 freed, 16+k: k valid bytes
uint32_t g_stamp = 1;
std::unordered_map<uintptr_t, Cell>* g_gcells = nullptr;

inline bool in_region(const void* p) { return (const char*)p >= g_region && (const char*)p < g_region + REGION; }
char* stack_base(int t) { return g_region + HEAP0_SZ + (size_t)t * (STACK_SZ + HEAP_SZ); }
char* heap_base(int t) { return t == 0 ? g_region : stack_base(t) + STACK_SZ; }
size_t heap_size(int t) { return t == 0 ? HEAP0_SZ : HEAP_SZ; }
inline bool is_heap(const char* p)
{
    if (p < g_region + HEAP0_SZ) return true;
    size_t off = (p - g_region - HEAP0_SZ) % (STACK_SZ + HEAP_SZ);
    return off >= STACK_SZ;
}
size_t g_bump[MAXT];
uint64_t g_live = 0;
struct Hdr { uint64_t size; uint32_t magic; uint32_t tid; };
constexpr uint32_t MAGIC = 0xA110CA7E, MAGIC_FREED = 0xF4EEF4EE;

// ---------------------------------------------------------------- threads
enum PK { P_NONE, P_START, P_RUN, P_MUTEX, P_RD, P_WR, P_COND, P_JOIN, P_SLEEP, P_ONCE, P_GUARD, P_PRED, P_DONE };
const char* pk_name[] = {"none", "start", "run", "mutex_lock", "rwlock_rdlock", "rwlock_wrlock", "cond_wait", "join", "sleep",
                         "once", "static-init", "wait_until", "done"};
struct Thread
{
    bool used = false, finished = false, detached = false, joined = false;
    void* sp = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    std::function<void()>* body = nullptr;
    PK pk = P_NONE; void* obj = nullptr; void* mtx = nullptr;
    uint64_t deadline = INF; bool timedout = false; bool signaled = false; int jt = -1;
    std::function<bool()>* pred = nullptr;
    const char* what = "";
    uint32_t vc[MAXT]; uint64_t h = 0;
    uint64_t nops = 0;
    bool spur = false;
    void* eh[2]; void* oc = nullptr; void (*ocall)() = nullptr; int err = 0;
};
Thread T[MAXT];
int g_nt = 0, g_cur = -1;
void* g_main_sp = nullptr;

struct VC { uint32_t c[MAXT]; };
struct Obj
{
    int owner = -1; int count = 0; bool used = false;
    std::map<int, int> readers;
    uint64_t last = 0, reads = 0;
    VC vc{}; VC rvc{};
    int state = 0; // once / guard
};
std::unordered_map<void*, Obj>* g_obj = nullptr;
Obj& O(void* a) { return (*g_obj)[a]; }
uint64_t g_F = 0;
uint64_t g_now = 0;
int g_consec = 0; int g_lastrun = -1; bool g_yield = false; int g_freeswitch = -1;
uint64_t g_accesses = 0;

int CLOCK_OBJ, MARK_OBJ;

void ev(int kind, void* obj, bool write, uint64_t extra = 0)
{
    Thread& t = T[g_cur];
    Obj& o = O(obj);
    uint64_t h = mix(mix(mix(t.h, (uint64_t)kind * 131 + (write ? 7 : 3)), (uint64_t)(uintptr_t)obj), mix(extra, o.last));
    if (write) { h = mix(h, o.reads); o.last = h; o.reads = 0; }
    else { o.reads += h; }
    t.h = h;
    g_F += h;
}

void vjoin(uint32_t* a, const uint32_t* b) { for (int i = 0; i < g_nt; ++i) if (b[i] > a[i]) a[i] = b[i]; }

asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

struct EhGlobals { void* caught; unsigned int uncaught; };

// Variables declared thread_local: the explored threads share one kernel thread, so each has a copy of the program's block of them, put in place when the thread runs.
char* g_tls = nullptr;      // the block in place
size_t g_tls_size = 0, g_tls_image_size = 0;
const char* g_tls_image = nullptr;
char* g_tls_copy = nullptr; // MAXT threads and the runtime
struct TlsDtor { void (*fn)(void*); void* obj; };
std::vector<TlsDtor>* g_tls_dtors = nullptr;    // MAXT threads
void find_tls()
{
    if (g_tls_dtors) return;
    g_tls_dtors = new std::vector<TlsDtor>[MAXT];
    dl_iterate_phdr([](struct dl_phdr_info* info, size_t, void*)
            {
                for (int i = 0; i < info->dlpi_phnum; ++i)
                    if (info->dlpi_phdr[i].p_type == PT_TLS)
                    {
                        g_tls = (char*)info->dlpi_tls_data;
                        g_tls_size = info->dlpi_phdr[i].p_memsz; g_tls_image_size = info->dlpi_phdr[i].p_filesz;
                        g_tls_image = (const char*)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
                    }
                return 1;   // the program itself is the first
            }, nullptr);
    if (!g_tls) g_tls_size = 0;
    if (g_tls_size) g_tls_copy = (char*)malloc(g_tls_size * (MAXT + 1));
}
inline bool in_tls(const void* p) { return g_tls_size && (const char*)p >= g_tls && (const char*)p < g_tls + g_tls_size; }
void fresh_tls(int t)
{
    find_tls();
    g_tls_dtors[t].clear();
    if (!g_tls_size) return;
    memcpy(g_tls_copy + t * g_tls_size, g_tls_image, g_tls_image_size);
    memset(g_tls_copy + t * g_tls_size + g_tls_image_size, 0, g_tls_size - g_tls_image_size);
}
char* tls_copy(Thread& t) { return g_tls_copy + (&t >= T && &t < T + MAXT ? &t - T : MAXT) * g_tls_size; }

void save_tls(Thread& t)
{
    EhGlobals* e = (EhGlobals*)abi::__cxa_get_globals();
    t.eh[0] = e->caught; t.eh[1] = (void*)(uintptr_t)e->uncaught;
    t.oc = std::__once_callable; t.ocall = std::__once_call; t.err = errno;
    if (g_tls_size) memcpy(tls_copy(t), g_tls, g_tls_size);
}
void load_tls(Thread& t)
{
    if (g_tls_size) memcpy(g_tls, tls_copy(t), g_tls_size);
    EhGlobals* e = (EhGlobals*)abi::__cxa_get_globals();
    e->caught = t.eh[0]; e->uncaught = (unsigned int)(uintptr_t)t.eh[1];
    std::__once_callable = t.oc; std::__once_call = t.ocall; errno = t.err;
}

[[noreturn]] void end_execution(int status)
{
    S->status = status;
    void* dummy;
    g_rt = 1;
    mc_switch(&dummy, g_main_sp);
    __builtin_unreachable();
}

[[noreturn]] void violation(const char* fmt, ...)
{
    ++g_rt;
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    trace_line("VIOLATION: %s", S->msg);
    end_execution(ST_VIOLATION);
}
[[noreturn]] void error_exec(const char* fmt, ...)
{
    ++g_rt;
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    end_execution(ST_ERROR);
}

const char* symb(void* p)
{
    static char buf[8][512]; static int k = 0; k = (k + 1) & 7;
    Dl_info i;
    if (dladdr(p, &i) && i.dli_sname)
    {
        int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        snprintf(buf[k], sizeof buf[k], "%.300s", st == 0 ? d : i.dli_sname);
        if (d) free(d);
    }
    else snprintf(buf[k], sizeof buf[k], "%p", p);
    return buf[k];
}

// ---------------------------------------------------------------- accesses
void bad_access(const char* p, int st, void* pc, const char* kind)
{
    violation("memory: %s of %s heap memory at %s", kind, st == 2 ? "freed" : "unallocated", symb(pc));
}

inline Cell& cell(uintptr_t g)
{
    if (in_region((void*)(g << 3))) return g_cells[g - ((uintptr_t)g_region >> 3)];
    return (*g_gcells)[g];
}

void check_valid(const char* p, size_t n, void* pc, const char* kind)
{
    if (!g_arena || !g_opt.races || !in_region(p) || !is_heap(p)) return;
    size_t g0 = (p - g_region) >> 3, g1 = (p + n - 1 - g_region) >> 3;
    for (size_t g = g0; g <= g1; ++g)
    {
        int st = g_ast[g];
        if (st == 1) continue;
        if (st > 16)
        {
            const char* end = g_region + (g << 3) + (st - 16);
            const char* last = p + n - 1;
            if (g == g1 ? last < end : false) continue;
            bad_access(p, 0, pc, kind);
        }
        bad_access(p, st, pc, kind);
    }
}

void race(const char* what, int other, void* opc, void* pc)
{
    violation("data race: %s by thread %d in %s conflicts with unsynchronised access by thread %d%s%s", what, g_cur, symb(pc), other,
            opc ? " in " : "", opc ? symb(opc) : "");
}

// kind: 0 read, 1 write; atomic flag
void access(const void* vp, size_t n, bool write, bool atomic, void* pc)
{
    const char* p = (const char*)vp;
    if (n == 0 || in_tls(p)) return;
    if (++g_accesses > 80000000ull) violation("livelock: more than 80M memory accesses in one execution");
    check_valid(p, n, pc, write ? "write" : "read");
    if (!g_opt.races) return;
    Thread& t = T[g_cur];
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e)
    {
        uintptr_t g = a >> 3; unsigned lo = a & 7; unsigned hi = std::min<uintptr_t>(8, lo + (e - a));
        uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell& c = cell(g);
        if (c.stamp != g_stamp)
        {
            memset((void*)&c, 0, sizeof c); c.stamp = g_stamp;
        }
        if ((c.wmask & m) && c.wtid != g_cur && c.wclk > t.vc[c.wtid] && !(atomic && c.wflag))
            race(write ? "write" : "read", c.wtid, c.wpc, pc);
        if (write)
        {
            for (int i = 0; i < g_nt; ++i)
                if (i != g_cur && (c.rmask[i] & m) && c.rclk[i] > t.vc[i]) race("write", i, nullptr, pc);
            if (c.wmask && c.wtid == g_cur && c.wclk == t.vc[g_cur] && c.wflag == atomic) c.wmask |= m;
            else c.wmask = m;
            c.wtid = g_cur; c.wclk = t.vc[g_cur]; c.wflag = atomic; c.wpc = pc;
        }
        else if (!atomic)
        {
            if (c.rclk[g_cur] == t.vc[g_cur]) c.rmask[g_cur] |= m; else c.rmask[g_cur] = m;
            c.rclk[g_cur] = t.vc[g_cur];
        }
        a += hi - lo;
    }
}

int g_quiet = 0;
inline bool hooks() { return g_active && g_rt == 0 && g_quiet == 0; }

// ---------------------------------------------------------------- choices
std::vector<uint8_t>* g_prefix = nullptr;
int g_budget = 0, g_spent = 0;
std::unordered_map<uint64_t, int>* g_visited = nullptr;

int choice(int n, const uint8_t* costs, bool thread, bool prunable, uint64_t key)
{
    if (n <= 1) return 0;
    if (n > 29) n = 29;
    int i = S->nchoices;
    if (i >= MAXCH) error_exec("too many choice points");
    ChoiceRec& c = S->ch[i];
    c.n = n; c.thread = thread;
    for (int k = 0; k < n; ++k) c.cost[k] = costs ? costs[k] : 0;
    if (i < (int)g_prefix->size())
    {
        c.chosen = (*g_prefix)[i];
        if (c.chosen >= n) error_exec("nondeterministic replay: choice %d has %d alternatives, wanted %d", i, n, c.chosen);
    }
    else
    {
        if (thread && prunable && g_opt.hbcache && !g_replaying)
        {
            int rem = g_budget - g_spent;
            auto it = g_visited->find(key);
            if (it != g_visited->end() && it->second >= rem) { end_execution(ST_PRUNED); }
            if (S->nkeys < MAXCH) { S->keys[S->nkeys].key = key; S->keys[S->nkeys].rem = rem; ++S->nkeys; }
        }
        c.chosen = 0;
    }
    S->nchoices = i + 1;
    g_spent += c.cost[c.chosen];
    return c.chosen;
}

// ---------------------------------------------------------------- scheduler
bool can_run(int i)
{
    Thread& t = T[i];
    if (!t.used || t.finished) return false;
    switch (t.pk)
    {
        case P_START: case P_RUN: return true;
        case P_MUTEX: { Obj& o = O(t.obj); return o.owner < 0 || t.timedout; }
        case P_RD: { Obj& o = O(t.obj); return o.owner < 0 || t.timedout; }
        case P_WR: { Obj& o = O(t.obj); return (o.owner < 0 && o.readers.empty()) || t.timedout; }
        case P_COND: return (t.signaled || t.timedout || t.spur) && O(t.mtx).owner < 0;
        case P_JOIN: return T[t.jt].finished;
        case P_SLEEP: return t.timedout;
        case P_ONCE: case P_GUARD: return O(t.obj).state != 1;
        case P_PRED: { ++g_rt; bool r = (*t.pred)(); --g_rt; return r; }
        default: return false;
    }
}

bool timed(int i)
{
    Thread& t = T[i];
    if (!t.used || t.finished || t.timedout || t.deadline == INF) return false;
    if (t.pk == P_COND) return !t.signaled;
    return t.pk == P_SLEEP || t.pk == P_MUTEX || t.pk == P_RD || t.pk == P_WR;
}

std::string describe_blocked()
{
    std::string s;
    for (int i = 0; i < g_nt; ++i)
        if (!T[i].finished)
        {
            char b[300];
            snprintf(b, sizeof b, "%s thread %d in %s%s%s", s.empty() ? "" : ",", i, pk_name[T[i].pk], T[i].what[0] ? " " : "", T[i].what);
            s += b;
        }
    return s;
}

void switch_to(int n)
{
    int c = g_cur;
    if (n == c) return;
    if (c >= 0) save_tls(T[c]);
    g_cur = n;
    load_tls(T[n]);
    void* dummy;
    int rt = g_rt;
    mc_switch(c >= 0 ? &T[c].sp : &dummy, T[n].sp);
    g_rt = rt;
}

// pick the next thread to run; current thread's pending state is set
void schedule()
{
    int prev = g_cur;
    if (++S->steps > (uint64_t)g_opt.max_steps) violation("livelock: no termination after %d steps;%s", g_opt.max_steps, describe_blocked().c_str());
    for (;;)
    {
        int alt[64]; uint8_t cost[64]; int kind[64]; int n = 0;
        bool en[MAXT]; int nen = 0;
        for (int i = 0; i < g_nt; ++i) { en[i] = can_run(i); nen += en[i]; }
        bool cur_en = prev >= 0 && en[prev];
        bool forced = cur_en && nen > 1 && g_lastrun == prev && g_consec >= g_opt.fair;
        bool freeleave = g_yield || forced;
        // time-out candidates: earliest deadline only
        uint64_t mind = INF;
        for (int i = 0; i < g_nt; ++i) if (timed(i)) mind = std::min(mind, T[i].deadline);
        // (where times are exact, only a thread that certainly spins is taken for one)
        bool spin_alone = cur_en && nen == 1 && g_lastrun == prev && g_consec >= (g_opt.early_timeouts ? g_opt.fair : std::max(g_opt.fair, 1000)) && mind != INF;
        if (spin_alone)
        {
            // nobody else can run and the only runnable thread spins: let time pass
            for (int i = 0; i < g_nt; ++i) if (timed(i) && T[i].deadline == mind) { alt[n] = i; kind[n] = 1; cost[n] = 0; ++n; }
        }
        else
        {
            if (cur_en && !freeleave) { alt[n] = prev; kind[n] = 0; cost[n] = 0; ++n; }
            for (int k = 1; k <= g_nt; ++k)
            {
                int i = (prev + k + g_nt) % g_nt;
                if (!en[i] || i == prev) continue;
                alt[n] = i; kind[n] = 0; cost[n] = (cur_en && !freeleave && i != g_freeswitch) ? 1 : 0; ++n;
            }
            if (cur_en && freeleave && !forced) { alt[n] = prev; kind[n] = 0; cost[n] = 0; ++n; }
            if (mind != INF && (nen == 0 ? g_opt.advance_on_idle : g_opt.early_timeouts))
                for (int i = 0; i < g_nt; ++i) if (timed(i) && T[i].deadline == mind) { alt[n] = i; kind[n] = 1; cost[n] = nen ? 1 : 0; ++n; }
            if (g_opt.spurious)
                for (int i = 0; i < g_nt; ++i)
                    if (T[i].used && !T[i].finished && T[i].pk == P_COND && !T[i].signaled && !T[i].timedout && !T[i].spur)
                    { alt[n] = i; kind[n] = 2; cost[n] = 1; ++n; }
        }
        if (n == 0)
        {
            bool alldone = true;
            for (int i = 0; i < g_nt; ++i) if (!T[i].finished) alldone = false;
            if (alldone)
            {
                if (!g_opt.leak_ok && g_arena && g_live) violation("leak: %llu heap blocks never freed", (unsigned long long)g_live);
                end_execution(ST_OK);
            }
            violation("deadlock:%s", describe_blocked().c_str());
        }
        if (n > 29) n = 29;
        uint64_t key = mix(g_F, cur_en ? prev + 1 : 0);
        key = mix(key, (g_yield ? 1 : 0) + (g_freeswitch + 1) * 4 + (g_consec > 16 ? (uint64_t)g_consec << 10 : 0));
        if (g_opt.delays) for (int k = 1; k < n; ++k) cost[k] = 1;
        int c = choice(n, cost, true, true, key);
        if (kind[c] == 1)
        {
            Thread& t = T[alt[c]];
            if (t.deadline > g_now) g_now = t.deadline;
            t.timedout = true;
            // event: in the name of the thread
            int save = g_cur; g_cur = alt[c]; ev(90, &CLOCK_OBJ, true, g_now); if (t.pk == P_COND) ev(91, t.obj, true); g_cur = save;
            trace_line("    time -> %llu ns, time-out of thread %d", (unsigned long long)g_now, alt[c]);
            g_freeswitch = alt[c];
            g_consec = 0;
            continue;
        }
        if (kind[c] == 2)
        {
            Thread& t = T[alt[c]];
            t.spur = true;
            int save = g_cur; g_cur = alt[c]; ev(92, t.obj, true); g_cur = save;
            trace_line("    spurious wake-up of thread %d", alt[c]);
            g_freeswitch = alt[c];
            continue;
        }
        g_yield = false; g_freeswitch = -1;
        if (alt[c] == g_lastrun) ++g_consec; else { g_consec = 0; g_lastrun = alt[c]; }
        if (alt[c] != prev) trace_line("  -- switch to thread %d", alt[c]);
        switch_to(alt[c]);
        return;
    }
}

void tick() { T[g_cur].vc[g_cur]++; T[g_cur].nops++; }

std::function<void()>* g_intr[MAXT];   // signal handlers to run on a thread when it goes on

void visible(const char* op, void* obj)
{
    for (;;)
    {
        T[g_cur].pk = P_RUN; T[g_cur].obj = obj; T[g_cur].what = op;
        schedule();
        if (!g_intr[g_cur]) break;
        std::function<void()>* f = g_intr[g_cur];
        g_intr[g_cur] = nullptr;
        trace_line("thread %d: interrupted by a signal before %s", g_cur, op);
        int rt = g_rt, q = g_quiet;
        g_rt = 0; g_quiet = 0;
        (*f)();
        g_rt = rt; g_quiet = q;
        delete f;
    }
    if (g_trace) trace_line("thread %d: %s %p", g_cur, op, obj);
}

void touch_sync(const void* p, const char* kind)
{
    if (g_arena && g_opt.races && in_region(p) && is_heap((const char*)p))
    {
        int st = g_ast[((const char*)p - g_region) >> 3];
        if (st != 1 && st <= 16) violation("memory: %s on %s heap memory", kind, st == 2 ? "freed" : "unallocated");
    }
}

int new_thread(std::function<void()>* body, void* (*fn)(void*), void* arg)
{
    if (g_nt >= MAXT) error_exec("too many threads in a scenario (limit %d)", MAXT);
    int id = g_nt++;
    Thread& t = T[id];
    t = Thread();
    t.used = true; t.body = body; t.fn = fn; t.arg = arg; t.pk = P_START;
    memset(t.vc, 0, sizeof t.vc);
    t.vc[id] = 1;
    t.eh[0] = t.eh[1] = nullptr;
    fresh_tls(id);
    char* top = stack_base(id) + STACK_SZ;
    uint64_t* sp = (uint64_t*)((uintptr_t)top & ~63ull);
    *--sp = 0;               // fake return address of mc_fiber_main (alignment)
    *--sp = (uint64_t)&mc_fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    t.sp = sp;
    g_bump[id] = 0;
    t.h = mix(0x1234, id);
    return id;
}

void acquire_mutex(void* m)
{
    Obj& o = O(m);
    o.owner = g_cur; o.count = 1; o.used = true;
    vjoin(T[g_cur].vc, o.vc.c);
    ev(10, m, true);
}
void release_mutex(void* m)
{
    Obj& o = O(m);
    o.owner = -1; o.count = 0;
    ev(11, m, true);
    memcpy(o.vc.c, T[g_cur].vc, sizeof o.vc.c);
    tick();
}

uint64_t abs_to_deadline(clockid_t clk, const struct timespec* ts)
{
    if (ts->tv_sec < 0) return g_now;
    __int128 ns = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
    ns -= (clk == CLOCK_MONOTONIC || clk == CLOCK_MONOTONIC_RAW || clk == CLOCK_BOOTTIME) ? MONO_BASE : RT_BASE;
    if (ns <= (__int128)g_now) return g_now;
    if (ns > (__int128)1000000000 * 3600 * 24 * 3650) return INF;
    return (uint64_t)ns;
}

std::vector<std::pair<std::string, std::pair<Options, std::pair<std::string, Body>>>>& registry()
{
    static auto* r = new std::vector<std::pair<std::string, std::pair<Options, std::pair<std::string, Body>>>>();
    return *r;
}

} // namespace

Registrar::Registrar(const char* property, const std::string& name, Options o, Body body)
{
    registry().push_back({property, {o, {name, body}}});
}

void fail(const std::string& msg) { violation("%s", msg.c_str()); }
void ctx(const char* s, size_t n) { if (g_trace) { RtScope r; trace_line("    case: %.*s", (int)n, s); } }

int choose(int n)
{
    if (!g_active) return 0;
    RtScope r;
    if (n > 29) error_exec("choose(%d)", n);
    int c = choice(n, nullptr, false, false, 0);
    T[g_cur].h = mix(T[g_cur].h, 0xC0 + c);
    g_F += T[g_cur].h;
    trace_line("thread %d: choose(%d) = %d", g_cur, n, c);
    return c;
}
void point() { if (!user()) return; RtScope r; visible("point", nullptr); }
void yield() { if (!user()) return; RtScope r; g_yield = true; visible("yield", nullptr); }
void mark(uint64_t v) { if (!user()) return; RtScope r; ev(50, &MARK_OBJ, true, v); }
uint64_t now_ns() { return g_now; }
void advance_ns(uint64_t ns) { RtScope r; g_now += ns; if (g_active) ev(93, &CLOCK_OBJ, true, g_now); }
int tid() { return g_cur; }
void interrupt(int t, std::function<void()> f)
{
    bool later = false;
    {
        RtScope r;
        if (t != g_cur && t < g_nt && T[t].used && !T[t].finished && T[t].pk == P_RUN && !g_intr[t])
        {
            g_intr[t] = new std::function<void()>(std::move(f));
            // the handler is ordered after this instant
            vjoin(T[t].vc, T[g_cur].vc); tick();
            ev(95, &MARK_OBJ, true, t);
            later = true;
        }
    }
    if (!later) f();
}
uint64_t live_blocks() { return g_live; }
void note(const std::string& s) { if (g_trace) { RtScope r; trace_line("    note[%d]: %s", g_cur, s.c_str()); } }
bool blocked(int t) { return t < g_nt && !T[t].finished && T[t].pk != P_START && T[t].pk != P_RUN && !can_run(t); }
bool quiescent(int self)
{
    for (int i = 0; i < g_nt; ++i)
        if (i != self && !T[i].finished && (can_run(i) || timed(i))) return false;
    return true;
}
void done() { RtScope r; end_execution(ST_OK); }
bool finished(int t) { return t < g_nt && T[t].finished; }
int threads_created() { return g_nt; }
bool in_execution() { return g_active; }
bool thorough() { return g_thorough; }
void count(const char* what, uint64_t n)
{
    for (int i = 0; i < S->ncounters; ++i) if (!strcmp(S->counters[i].name, what)) { S->counters[i].n += n; return; }
    if (S->ncounters < 64) { strncpy(S->counters[S->ncounters].name, what, 47); S->counters[S->ncounters++].n = n; }
}
Quiet::Quiet() { ++g_quiet; }
Quiet::~Quiet() { --g_quiet; }

void wait_until(std::function<bool()> pred, const char* what)
{
    if (!user()) return;
    RtScope r;
    Thread& t = T[g_cur];
    t.pred = &pred; t.what = what; t.pk = P_PRED;
    g_yield = true;
    schedule();
    T[g_cur].pred = nullptr;
    ev(51, &MARK_OBJ, true);
    trace_line("thread %d: wait_until %s", g_cur, what);
}

} // namespace mc

using namespace mc;

extern "C" void mc_fiber_main()
{
    Thread& t = T[g_cur];
    g_rt = 0;
    try
    {
        if (t.body) (*t.body)(); else t.ret = t.fn(t.arg);
        for (;;)
        {
            TlsDtor d;
            {
                RtScope r;
                auto& v = g_tls_dtors[g_cur];
                if (v.empty()) break;
                d = v.back(); v.pop_back();
            }
            d.fn(d.obj);
        }
    }
    catch (const std::exception& e)
    {
        violation("uncaught exception: %s", e.what());
    }
    catch (...)
    {
        violation("uncaught exception of unknown type");
    }
    ++g_rt;
    Thread& t2 = T[g_cur];
    ev(2, &t2, true);
    tick();
    t2.finished = true; t2.pk = P_DONE;
    trace_line("thread %d: exit", g_cur);
    schedule();
    abort();
}


// ================================================================ interposed libc / libstdc++
extern "C" {

// ---- destructors of the variables of a thread
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) noexcept
{
    if (!g_active) return __cxa_thread_atexit_impl(fn, obj, dso);
    RtScope r;
    g_tls_dtors[g_cur].push_back({fn, obj});
    return 0;
}

// ---- memory
static void* arena_alloc(size_t n, size_t align)
{
    int t = g_cur;
    size_t& b = g_bump[t];
    if (align < 16) align = 16;
    size_t start = b + sizeof(Hdr) + 16;
    start = (start + align - 1) & ~(align - 1);
    size_t end = start + n;
    end = (end + 15) & ~15ull;
    if (end + 64 > heap_size(t)) { ++g_rt; if (n > (1u << 22)) { --g_rt; errno = ENOMEM; return nullptr; } error_exec("arena exhausted"); }
    b = end;
    char* p = heap_base(t) + start;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n; h->magic = MAGIC; h->tid = t;
    size_t g = (p - g_region) >> 3;
    size_t full = n >> 3;
    memset(g_ast + g, 1, full);
    if (n & 7) g_ast[g + full] = 16 + (n & 7);
    if (n == 0) g_ast[g] = 0;
    memset(p, 0xCD, n);
    ++g_live;
    return p;
}
static void arena_free(char* p)
{
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (h->magic != MAGIC)
    {
        if (h->magic == MAGIC_FREED) { if (g_active) { ++g_rt; violation("memory: double free"); } return; }
        if (g_active) { ++g_rt; violation("memory: free of a pointer that is not a heap block"); }
        return;
    }
    if (g_active && g_rt == 0 && g_opt.races && g_quiet == 0)
    {
        ++g_rt;
        size_t lim = std::min<size_t>(h->size, 8192);
        access(p, lim, true, false, __builtin_return_address(0));
        // a mutex or lock destroyed while held
        for (auto& kv : *g_obj)
        {
            char* a = (char*)kv.first;
            if (a >= p && a < p + h->size && (kv.second.owner >= 0 || !kv.second.readers.empty()))
                violation("memory: storage of a locked mutex freed (held by thread %d)", kv.second.owner);
        }
        --g_rt;
    }
    h->magic = MAGIC_FREED;
    size_t g = (p - g_region) >> 3;
    memset(g_ast + g, 2, (h->size + 7) >> 3);
    // poison the contents so that uninstrumented readers see garbage
    memset(p, 0xDD, h->size);
    --g_live;
}
void* malloc(size_t n)
{
    if (g_active && g_rt == 0 && g_arena) return arena_alloc(n, 16);
    return __libc_malloc(n);
}
void free(void* p)
{
    if (!p) return;
    if (g_region && in_region(p)) { arena_free((char*)p); return; }
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (g_active && g_rt == 0 && g_arena) { if (b && a > (1ull << 40) / b) return nullptr; void* p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
    if (p && g_region && in_region(p))
    {
        Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
        void* q = malloc(n);
        if (!q) return q;
        memcpy(q, p, std::min<size_t>(n, h->size));
        free(p);
        return q;
    }
    if (!p) return malloc(n);
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n)
{
    if (g_active && g_rt == 0 && g_arena) return arena_alloc(n, al);
    return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }

// ---- mutex
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; k = *(const int*)a & 3; m->__data.__kind = k; }
    if (user()) { RtScope r; g_obj->erase(m); }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (user()) { RtScope r; auto it = g_obj->find(m); if (it != g_obj->end()) { if (it->second.owner >= 0) violation("destroy of a locked mutex (held by thread %d)", it->second.owner); } }
    return 0;
}
static int do_lock(pthread_mutex_t* m, uint64_t deadline)
{
    touch_sync(m, "mutex lock");
    {
        Obj& o = O(m);
        if (o.owner == g_cur)
        {
            if (recursive(m)) { ++o.count; return 0; }
            if (deadline == INF) violation("deadlock: thread %d locks a mutex it already holds", g_cur);
        }
    }
    Thread& t = T[g_cur];
    t.pk = P_MUTEX; t.obj = m; t.what = ""; t.deadline = deadline; t.timedout = false;
    schedule();
    Thread& u = T[g_cur];
    u.deadline = INF;
    touch_sync(m, "mutex lock");
    if (O(m).owner >= 0) { u.timedout = false; trace_line("thread %d: mutex timed out %p", g_cur, m); return ETIMEDOUT; }
    u.timedout = false;
    acquire_mutex(m);
    trace_line("thread %d: lock %p", g_cur, m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!user()) return 0; RtScope r; return do_lock(m, INF); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!user()) return 0; RtScope r; return do_lock(m, abs_to_deadline(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!user()) return 0; RtScope r; return do_lock(m, abs_to_deadline(c, ts)); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!user()) return 0;
    RtScope r;
    touch_sync(m, "mutex trylock");
    if (O(m).owner == g_cur && recursive(m)) { ++O(m).count; return 0; }
    visible("trylock", m);
    if (O(m).owner >= 0) { ev(12, m, true); return EBUSY; }
    acquire_mutex(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!user()) return 0;
    RtScope r;
    touch_sync(m, "mutex unlock");
    Obj& o = O(m);
    if (o.owner != g_cur) violation("unlock of a mutex that thread %d does not hold", g_cur);
    if (--o.count > 0) return 0;
    release_mutex(m);
    trace_line("thread %d: unlock %p", g_cur, m);
    return 0;
}

// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!user()) return 0;
    RtScope r;
    for (int i = 0; i < g_nt; ++i)
        if (T[i].used && !T[i].finished && T[i].pk == P_COND && T[i].obj == c && !T[i].signaled)
            violation("condition variable destroyed while thread %d waits on it", i);
    ev(29, c, true);
    return 0;
}
static int do_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    touch_sync(c, "condition wait");
    visible("cond_wait_enter", c);
    touch_sync(c, "condition wait");
    Obj& o = O(m);
    if (o.owner != g_cur) violation("condition wait with a mutex that is not held");
    int cnt = o.count;
    ev(20, c, true);
    release_mutex(m);
    Thread& t = T[g_cur];
    t.pk = P_COND; t.obj = c; t.mtx = m; t.deadline = deadline; t.timedout = false; t.signaled = false; t.spur = false; t.what = "";
    if (deadline != INF && deadline <= g_now) t.timedout = true;
    schedule();
    Thread& u = T[g_cur];
    touch_sync(m, "mutex relock after wait");
    bool to = u.timedout && !u.signaled;
    u.deadline = INF; u.timedout = false; u.signaled = false; u.spur = false; u.mtx = nullptr;
    acquire_mutex(m);
    O(m).count = cnt;
    trace_line("thread %d: wakes from cond %p (%s)", g_cur, c, to ? "time-out" : "signal");
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!user()) return 0; RtScope r; return do_wait(c, m, INF); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{ if (!user()) return 0; RtScope r; return do_wait(c, m, abs_to_deadline(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{ if (!user()) return 0; RtScope r; return do_wait(c, m, abs_to_deadline(k, ts)); }
static void do_signal(pthread_cond_t* c, bool all)
{
    touch_sync(c, "condition notify");
    visible(all ? "notify_all" : "notify_one", c);
    touch_sync(c, "condition notify");
    ev(all ? 22 : 21, c, true);
    int w[MAXT], n = 0;
    for (int i = 0; i < g_nt; ++i)
        if (T[i].used && !T[i].finished && T[i].pk == P_COND && T[i].obj == c && !T[i].signaled && !T[i].timedout && !T[i].spur) w[n++] = i;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) T[w[i]].signaled = true; }
    else
    {
        static const uint8_t LATER[64] = {0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
        int k = choice(n, g_opt.delays ? LATER : nullptr, false, false, 0);
        T[w[k]].signaled = true;
        ev(23, c, true, w[k]);
    }
}
int pthread_cond_signal(pthread_cond_t* c) { if (!user()) return 0; RtScope r; do_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!user()) return 0; RtScope r; do_signal(c, true); return 0; }

// ---- rwlock
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); if (user()) { RtScope r; g_obj->erase(l); } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l)
{
    if (user()) { RtScope r; auto it = g_obj->find(l); if (it != g_obj->end() && (it->second.owner >= 0 || !it->second.readers.empty())) violation("destroy of a locked rwlock"); }
    return 0;
}
static int do_rw(pthread_rwlock_t* l, bool wr, uint64_t deadline, bool tr)
{
    touch_sync(l, "rwlock lock");
    if (O(l).owner == g_cur) return tr ? EBUSY : EDEADLK;
    if (tr) { visible(wr ? "trywrlock" : "tryrdlock", l); }
    else
    {
        if (wr && O(l).readers.count(g_cur) && deadline == INF && O(l).readers[g_cur] > 0)
            violation("deadlock: thread %d takes exclusively a lock it already holds shared", g_cur);
        Thread& t = T[g_cur];
        t.pk = wr ? P_WR : P_RD; t.obj = l; t.what = ""; t.deadline = deadline; t.timedout = false;
        schedule();
    }
    touch_sync(l, "rwlock lock");
    Obj& o = O(l);
    bool free_ = wr ? (o.owner < 0 && o.readers.empty()) : o.owner < 0;
    T[g_cur].deadline = INF; T[g_cur].timedout = false;
    if (!free_) { ev(30, l, true); return tr ? EBUSY : ETIMEDOUT; }
    if (wr) { o.owner = g_cur; vjoin(T[g_cur].vc, o.vc.c); vjoin(T[g_cur].vc, o.rvc.c); }
    else { o.readers[g_cur]++; vjoin(T[g_cur].vc, o.vc.c); }
    ev(wr ? 31 : 32, l, true);
    trace_line("thread %d: %s %p", g_cur, wr ? "wrlock" : "rdlock", l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!user()) return 0; RtScope r; return do_rw(l, false, INF, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!user()) return 0; RtScope r; return do_rw(l, true, INF, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!user()) return 0; RtScope r; return do_rw(l, false, 0, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!user()) return 0; RtScope r; return do_rw(l, true, 0, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { if (!user()) return 0; RtScope r; return do_rw(l, false, abs_to_deadline(CLOCK_REALTIME, ts), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { if (!user()) return 0; RtScope r; return do_rw(l, true, abs_to_deadline(CLOCK_REALTIME, ts), false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { if (!user()) return 0; RtScope r; return do_rw(l, false, abs_to_deadline(c, ts), false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { if (!user()) return 0; RtScope r; return do_rw(l, true, abs_to_deadline(c, ts), false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!user()) return 0;
    RtScope r;
    touch_sync(l, "rwlock unlock");
    Obj& o = O(l);
    if (o.owner == g_cur)
    {
        o.owner = -1;
        ev(33, l, true);
        memcpy(o.vc.c, T[g_cur].vc, sizeof o.vc.c);
        tick();
    }
    else
    {
        auto it = o.readers.find(g_cur);
        if (it == o.readers.end())
        {
            // a shared lock may legitimately be handed to another thread only if the count allows it
            if (o.readers.empty()) violation("unlock of a shared lock that is not held (thread %d)", g_cur);
            it = o.readers.begin();
        }
        if (--it->second == 0) o.readers.erase(it);
        ev(34, l, true);
        vjoin(o.rvc.c, T[g_cur].vc);
        tick();
    }
    trace_line("thread %d: rw unlock %p", g_cur, l);
    return 0;
}

// ---- threads
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!g_active) { fprintf(stderr, "pthread_create outside an execution\n"); abort(); }
    RtScope r;
    visible("create", nullptr);
    int id = new_thread(nullptr, fn, arg);
    ev(1, &T[id], true);
    T[id].h = mix(T[g_cur].h, id);
    memcpy(T[id].vc, T[g_cur].vc, sizeof T[id].vc);
    T[id].vc[id] = 1;
    tick();
    *th = (pthread_t)(id + 1000);
    trace_line("thread %d: creates thread %d", g_cur, id);
    return 0;
}
int pthread_join(pthread_t th, void** ret)
{
    if (!user()) return 0;
    RtScope r;
    int id = (int)th - 1000;
    if (id < 0 || id >= g_nt) return ESRCH;
    if (id == g_cur) return EDEADLK;
    if (T[id].joined || T[id].detached) violation("join of a thread that is not joinable");
    Thread& t = T[g_cur];
    t.pk = P_JOIN; t.jt = id; t.what = "";
    schedule();
    ev(3, &T[id], true);
    vjoin(T[g_cur].vc, T[id].vc);
    T[id].joined = true;
    if (ret) *ret = T[id].ret;
    trace_line("thread %d: joined thread %d", g_cur, id);
    return 0;
}
int pthread_detach(pthread_t th) { if (!user()) return 0; int id = (int)th - 1000; if (id >= 0 && id < g_nt) T[id].detached = true; return 0; }
pthread_t pthread_self(void) { return g_active && g_cur >= 0 ? (pthread_t)(g_cur + 1000) : (pthread_t)1; }
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!user()) { if (*(int*)o == 0) { *(int*)o = 2; fn(); } return 0; }
    bool run = false;
    if (*(int*)o == 2)
    {
        // done for good: no other order of this step gives another result
        RtScope r;
        Obj& ob = O(o);
        vjoin(T[g_cur].vc, ob.vc.c);
        ev(40, o, false);
        return 0;
    }
    {
        RtScope r;
        Thread& t = T[g_cur];
        t.pk = P_ONCE; t.obj = o; t.what = "";
        schedule();
        Obj& ob = O(o);
        if (*(int*)o == 0) { ob.state = 1; run = true; }
        else vjoin(T[g_cur].vc, ob.vc.c);
        ev(40, o, true);
    }
    if (run)
    {
        bool ok = false;
        try { fn(); ok = true; }
        catch (...) { RtScope r; O(o).state = 0; ev(41, o, true); throw; }
        RtScope r;
        (void)ok;
        *(int*)o = 2; Obj& ob = O(o); ob.state = 2;
        memcpy(ob.vc.c, T[g_cur].vc, sizeof ob.vc.c); ev(42, o, true); tick();
    }
    return 0;
}
int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
    char* b = (char*)g;
    if (!user()) { if (b[0]) return 0; return 1; }
    RtScope r;
    Thread& t = T[g_cur];
    if (O(g).state == 1 && O(g).owner == g_cur) violation("recursive static initialisation");
    t.pk = P_GUARD; t.obj = g; t.what = "";
    schedule();
    Obj& o = O(g);
    ev(43, g, true);
    if (b[0]) { vjoin(T[g_cur].vc, o.vc.c); o.owner = -1; return 0; }
    o.state = 1; o.owner = g_cur;
    return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
{
    ((char*)g)[0] = 1;
    if (!user()) return;
    RtScope r;
    Obj& o = O(g); o.state = 2; o.owner = -1;
    memcpy(o.vc.c, T[g_cur].vc, sizeof o.vc.c); ev(44, g, true); tick();
}
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept
{
    ((char*)g)[0] = 0;
    if (!user()) return;
    RtScope r;
    Obj& o = O(g); o.state = 0; o.owner = -1; ev(45, g, true);
}

// ---- time
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!g_active)
    {
        // vdso-free fall back
        return (int)syscall(228 /* SYS_clock_gettime */, c, ts);
    }
    uint64_t n = g_now + ((c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE) ? MONO_BASE : RT_BASE);
    if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) n = g_now;
    ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
    if (g_rt == 0) { RtScope r; ev(94, &CLOCK_OBJ, false); }
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static void do_sleep(uint64_t until)
{
    Thread& t = T[g_cur];
    if (until <= g_now) { g_yield = true; visible("yield", nullptr); return; }
    t.pk = P_SLEEP; t.deadline = until; t.timedout = false; t.what = "";
    schedule();
    T[g_cur].deadline = INF; T[g_cur].timedout = false;
    ev(95, &CLOCK_OBJ, false);
    trace_line("thread %d: wakes from sleep", g_cur);
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
    if (!user()) return 0;
    RtScope r;
    if (ts->tv_sec < 0) return 0;
    __int128 d = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
    do_sleep(d > (__int128)1e18 ? INF - 1 : g_now + (uint64_t)d);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*)
{
    if (!user()) return 0;
    if (!(flags & TIMER_ABSTIME)) return nanosleep(ts, nullptr);
    RtScope r;
    uint64_t d = abs_to_deadline(c, ts);
    do_sleep(d);
    return 0;
}
int usleep(useconds_t u) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned int sleep(unsigned int s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
int sched_yield(void) { if (!user()) return 0; RtScope r; g_yield = true; visible("yield", nullptr); return 0; }

// ---- program end
void abort(void)
{
    if (user()) { ++g_rt; violation("abort() called"); }
    signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
void exit(int code)
{
    if (user()) { ++g_rt; violation("exit(%d) called", code); }
    fflush(stdout); fflush(stderr);
    _exit(code);
}

// ================================================================ -fsanitize=thread instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RD(n) void __tsan_read ## n(void* p) { if (hooks()) { RtScope r; access(p, n, false, false, __builtin_return_address(0)); } } \
    void __tsan_unaligned_read ## n(void* p) { if (hooks()) { RtScope r; access(p, n, false, false, __builtin_return_address(0)); } } \
    void __tsan_volatile_read ## n(void* p) { if (hooks()) { RtScope r; access(p, n, false, false, __builtin_return_address(0)); } } \
    void __tsan_write ## n(void* p) { if (hooks()) { RtScope r; access(p, n, true, false, __builtin_return_address(0)); } } \
    void __tsan_unaligned_write ## n(void* p) { if (hooks()) { RtScope r; access(p, n, true, false, __builtin_return_address(0)); } } \
    void __tsan_volatile_write ## n(void* p) { if (hooks()) { RtScope r; access(p, n, true, false, __builtin_return_address(0)); } } \
    void __tsan_read_write ## n(void* p) { if (hooks()) { RtScope r; access(p, n, true, false, __builtin_return_address(0)); } } \
    void __tsan_unaligned_read_write ## n(void* p) { if (hooks()) { RtScope r; access(p, n, true, false, __builtin_return_address(0)); } }
RD(1) RD(2) RD(4) RD(8) RD(16)
// the dynamic type changes during construction and destruction; only the validity of the storage is checked
void __tsan_vptr_update(void** p, void*) { if (hooks()) { RtScope r; check_valid((const char*)p, 8, __builtin_return_address(0), "write"); } }
void __tsan_vptr_read(void** p) { if (hooks()) { RtScope r; check_valid((const char*)p, 8, __builtin_return_address(0), "read"); } }
void __tsan_read_range(void* p, size_t n) { if (hooks()) { RtScope r; access(p, n, false, false, __builtin_return_address(0)); } }
void __tsan_write_range(void* p, size_t n) { if (hooks()) { RtScope r; access(p, n, true, false, __builtin_return_address(0)); } }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (hooks() && n) { RtScope r; access(s, n, false, false, __builtin_return_address(0)); access(d, n, true, false, __builtin_return_address(0)); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (hooks() && n) { RtScope r; access(s, n, false, false, __builtin_return_address(0)); access(d, n, true, false, __builtin_return_address(0)); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (hooks() && n) { RtScope r; access(d, n, true, false, __builtin_return_address(0)); }
    return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
} // extern C

namespace {
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
bool acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
bool rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST; }
// a scheduling point, then race bookkeeping; the caller then performs the operation
void at_pre(const volatile void* p, size_t n, const char* op, void* pc)
{
    touch_sync((const void*)p, "atomic access");
    visible(op, (void*)p);
    access((const void*)p, n, op[0] != 'l', true, pc);
}
void at_load(const volatile void* p, int mo)
{
    Obj& o = O((void*)p);
    if (acq(mo)) vjoin(T[g_cur].vc, o.vc.c);
    ev(60, (void*)p, false);
}
void at_store(const volatile void* p, int mo)
{
    Obj& o = O((void*)p);
    ev(61, (void*)p, true);
    if (rel(mo)) { memcpy(o.vc.c, T[g_cur].vc, sizeof o.vc.c); tick(); }
    else memset(o.vc.c, 0, sizeof o.vc.c);
}
void at_rmw(const volatile void* p, int mo)
{
    Obj& o = O((void*)p);
    if (acq(mo)) vjoin(T[g_cur].vc, o.vc.c);
    ev(62, (void*)p, true);
    if (rel(mo)) { vjoin(o.vc.c, T[g_cur].vc); tick(); }
}
}
#define PC __builtin_return_address(0)
#define ATOMICS(bits, ty) extern "C" { \
    ty __tsan_atomic ## bits ## _load(const volatile ty* a, int mo) { if (!hooks()) return __atomic_load_n(a, 5); RtScope r; at_pre(a, sizeof(ty), "load", PC); at_load(a, mo); return *a; } \
    void __tsan_atomic ## bits ## _store(volatile ty* a, ty v, int mo) { if (!hooks()) { __atomic_store_n(a, v, 5); return; } RtScope r; at_pre(a, sizeof(ty), "store", PC); at_store(a, mo); *a = v; } \
    ty __tsan_atomic ## bits ## _exchange(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_exchange_n(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "xchg", PC); at_rmw(a, mo); ty o = *a; *a = v; return o; } \
    ty __tsan_atomic ## bits ## _fetch_add(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_fetch_add(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "fetch_add", PC); at_rmw(a, mo); ty o = *a; *a = o + v; return o; } \
    ty __tsan_atomic ## bits ## _fetch_sub(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_fetch_sub(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "fetch_sub", PC); at_rmw(a, mo); ty o = *a; *a = o - v; return o; } \
    ty __tsan_atomic ## bits ## _fetch_and(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_fetch_and(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "fetch_and", PC); at_rmw(a, mo); ty o = *a; *a = o & v; return o; } \
    ty __tsan_atomic ## bits ## _fetch_or(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_fetch_or(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "fetch_or", PC); at_rmw(a, mo); ty o = *a; *a = o | v; return o; } \
    ty __tsan_atomic ## bits ## _fetch_xor(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_fetch_xor(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "fetch_xor", PC); at_rmw(a, mo); ty o = *a; *a = o ^ v; return o; } \
    ty __tsan_atomic ## bits ## _fetch_nand(volatile ty* a, ty v, int mo) { if (!hooks()) return __atomic_fetch_nand(a, v, 5); RtScope r; at_pre(a, sizeof(ty), "fetch_nand", PC); at_rmw(a, mo); ty o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic ## bits ## _compare_exchange_strong(volatile ty* a, ty* c, ty v, int mo, int fmo) { if (!hooks()) return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); RtScope r; at_pre(a, sizeof(ty), "cas", PC); at_rmw(a, *a == *c ? mo : fmo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic ## bits ## _compare_exchange_weak(volatile ty* a, ty* c, ty v, int mo, int fmo) { return __tsan_atomic ## bits ## _compare_exchange_strong(a, c, v, mo, fmo); } \
    ty __tsan_atomic ## bits ## _compare_exchange_val(volatile ty* a, ty c, ty v, int mo, int fmo) { __tsan_atomic ## bits ## _compare_exchange_strong(a, &c, v, mo, fmo); return c; } \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

// ================================================================ explorer
namespace {

struct Stats { uint64_t execs = 0, pruned = 0, transitions = 0, states = 0, maxdepth = 0; };

void reset_exec()
{
    ++g_stamp;
    for (int i = 0; i < g_nt; ++i)
    {
        if (g_bump[i]) memset(g_ast + ((heap_base(i) - g_region) >> 3), 0, (g_bump[i] >> 3) + 16);
        g_bump[i] = 0;
    }
    g_nt = 0; g_cur = -1; g_F = 0; g_now = 0; g_consec = 0; g_lastrun = -1; g_yield = false; g_freeswitch = -1; g_live = 0;
    g_accesses = 0; g_quiet = 0; g_spent = 0;
    g_obj->clear(); g_gcells->clear();
    for (auto& f : g_intr) f = nullptr;
    S->nchoices = 0; S->nkeys = 0; S->steps = 0; S->status = ST_RUNNING; S->msg[0] = 0;
}

void on_terminate()
{
    if (g_active)
    {
        ++g_rt;
        std::string what = "no exception";
        if (auto e = std::current_exception())
        {
            try { std::rethrow_exception(e); }
            catch (const std::exception& x) { what = x.what(); }
            catch (...) { what = "unknown exception"; }
        }
        violation("std::terminate called (%s)", what.c_str());
    }
    _exit(99);
}

void run_one(Body& body, const std::vector<uint8_t>& prefix, int budget)
{
    reset_exec();
    *g_prefix = prefix; g_budget = budget;
    std::set_terminate(on_terminate);
    g_rt = 1;
    new_thread(&body, nullptr, nullptr);
    struct itimerval it = {{0, 0}, {20, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    g_active = true;
    g_cur = 0; g_lastrun = 0;
    Thread maint; save_tls(maint);
    load_tls(T[0]);
    mc_switch(&g_main_sp, T[0].sp);
    g_active = false; g_rt = 1;
    load_tls(maint);
    struct itimerval z = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &z, nullptr);
}

double wall()
{
    struct timespec ts; syscall(228, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void fatal_signal(int sig)
{
    // recorded in shared memory; the parent turns it into a violation
    if (S->status == ST_RUNNING)
    {
        const char* n = sig == SIGALRM ? "non-termination: an execution ran for more than 20 s" :
                sig == SIGSEGV ? "crash: segmentation fault" : sig == SIGFPE ? "crash: arithmetic exception (SIGFPE)" :
                sig == SIGBUS ? "crash: bus error" : sig == SIGILL ? "crash: illegal instruction" : "crash: aborted";
        if (!g_active) n = "harness crash outside an execution";
        strncpy(S->msg, n, sizeof(S->msg) - 1);
        S->status = g_active ? ST_VIOLATION : ST_ERROR;
    }
    _exit(77);
}

void install_signals()
{
    static char* alt = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = fatal_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
}

std::vector<std::string> g_known;
bool is_known(const char* msg, int& idx)
{
    for (size_t i = 0; i < g_known.size(); ++i) if (strstr(msg, g_known[i].c_str())) { idx = (int)i; return true; }
    return false;
}

// one execution in a child process
void run_forked(Body& body, const std::vector<uint8_t>& prefix, int budget)
{
    reset_exec();
    S->status = ST_RUNNING;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { install_signals(); run_one(body, prefix, budget); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == ST_RUNNING) { S->status = ST_VIOLATION; snprintf(S->msg, sizeof S->msg, "crash: process ended with status %d", st); }
}

std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Result
{
    uint64_t execs, pruned, transitions, states, maxdepth; int completed; int target; double wall; int status; char msg[4000];
    int nprefix; uint8_t prefix[MAXCH]; int prefix_budget; uint64_t known[32];
};

void explore(Body& body, int target, double tlimit, uint64_t maxexec, Result* R)
{
    double t0 = wall();
    install_signals();
    R->completed = -1; R->target = target;
    // warm-up: one default execution with the C heap, so that lazily built library state survives resets
    g_visited = new std::unordered_map<uint64_t, int>();
    if (!g_opt.fork_each)
    {
        // what goes wrong in a fresh process only: static state of the code that is set in the first execution
        S->status = ST_RUNNING;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) { g_arena = true; run_one(body, {}, 0); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        int idx = 0;
        bool other = false;
        for (auto x : {"memory:", "crash", "data race", "leak:"}) other |= !strncmp(S->msg, x, strlen(x));
        if (S->status == ST_VIOLATION && !other && !is_known(S->msg, idx))
        {
            R->status = ST_ERROR; snprintf(R->msg, sizeof R->msg, "nondeterministic replay: a fresh process gives: %.3000s", S->msg);
            return;
        }
        reset_exec();
        S->msg[0] = 0;
        g_arena = false;
        bool rc = g_opt.races; g_opt.races = false;
        run_one(body, {}, 0);
        g_opt.races = rc;
    }
    g_arena = true;
    int k = target < 0 ? 1000000 : 0;
    int last = target < 0 ? 1000000 : target;
    for (; k <= last; ++k)
    {
        g_visited->clear();
        std::vector<uint8_t> prefix;
        bool done = false, stopped = false;
        while (!done)
        {
            if (wall() - t0 > tlimit || (maxexec && R->execs >= maxexec)) { stopped = true; break; }
            // keep the prefix where the parent can find it if this process dies
            R->nprefix = (int)prefix.size(); memcpy(R->prefix, prefix.data(), prefix.size()); R->prefix_budget = k;
            if (g_opt.fork_each) run_forked(body, prefix, k); else run_one(body, prefix, k);
            ++R->execs; R->transitions += S->steps;
            if (S->status == ST_PRUNED) ++R->pruned;
            if ((uint64_t)S->nchoices > R->maxdepth) R->maxdepth = S->nchoices;
            for (int i = 0; i < S->nkeys; ++i)
            {
                auto& v = (*g_visited)[S->keys[i].key];
                if (v < S->keys[i].rem + 0 || v == 0) v = std::max(v, S->keys[i].rem);
            }
            if (S->status == ST_VIOLATION || S->status == ST_ERROR)
            {
                int idx = 0;
                if (S->status == ST_VIOLATION && is_known(S->msg, idx)) { R->known[idx]++; }
                else
                {
                    R->status = S->status; memcpy(R->msg, S->msg, sizeof S->msg);
                    R->nprefix = S->nchoices; for (int i = 0; i < S->nchoices; ++i) R->prefix[i] = S->ch[i].chosen;
                    R->prefix_budget = k; R->wall = wall() - t0; R->states = g_visited->size();
                    return;
                }
            }
            // backtrack
            int spent = 0; std::vector<int> before(S->nchoices);
            for (int i = 0; i < S->nchoices; ++i) { before[i] = spent; spent += S->ch[i].cost[S->ch[i].chosen]; }
            done = true;
            for (int i = S->nchoices - 1; i >= 0 && done; --i)
                for (int a = S->ch[i].chosen + 1; a < S->ch[i].n; ++a)
                    if (before[i] + S->ch[i].cost[a] <= k)
                    {
                        prefix.resize(i + 1);
                        for (int j = 0; j < i; ++j) prefix[j] = S->ch[j].chosen;
                        prefix[i] = a; done = false; break;
                    }
            if (g_visited->size() > 30000000) { stopped = true; break; }
        }
        R->states = std::max<uint64_t>(R->states, g_visited->size());
        if (stopped) break;
        R->completed = k;
    }
    R->status = ST_OK; R->wall = wall() - t0;
}

} // namespace

// ---- library code that is not instrumented: accesses of the string and tree functions of libstdc++
extern "C" {
typedef void* (*cpy_t)(void*, const void*, size_t);
typedef int (*cmp_t)(const void*, const void*, size_t);
static cpy_t real_memcpy_, real_memmove_;
static cmp_t real_memcmp_;
static void* slow_copy(void* d, const void* s, size_t n)
{
    void* r = d;
    if ((char*)d <= (const char*)s || (char*)d >= (const char*)s + n) asm volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
    else { d = (char*)d + n - 1; s = (const char*)s + n - 1; asm volatile ("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
    return r;
}
void* memcpy(void* d, const void* s, size_t n) noexcept
{
    if (n && hooks()) { RtScope r; access(s, n, false, false, __builtin_return_address(0)); access(d, n, true, false, __builtin_return_address(0)); }
    return real_memcpy_ ? real_memcpy_(d, s, n) : slow_copy(d, s, n);
}
void* memmove(void* d, const void* s, size_t n) noexcept
{
    if (n && hooks()) { RtScope r; access(s, n, false, false, __builtin_return_address(0)); access(d, n, true, false, __builtin_return_address(0)); }
    return real_memmove_ ? real_memmove_(d, s, n) : slow_copy(d, s, n);
}
int memcmp(const void* a, const void* b, size_t n) noexcept
{
    if (n && hooks()) { RtScope r; access(a, n, false, false, __builtin_return_address(0)); access(b, n, false, false, __builtin_return_address(0)); }
    if (real_memcmp_) return real_memcmp_(a, b, n);
    const volatile unsigned char* x = (const unsigned char*)a, * y = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
}
static void init_real()
{
    auto c = (cpy_t)dlsym(RTLD_NEXT, "memcpy"), m = (cpy_t)dlsym(RTLD_NEXT, "memmove"); auto k = (cmp_t)dlsym(RTLD_NEXT, "memcmp");
    real_memcpy_ = c; real_memmove_ = m; real_memcmp_ = k;
}
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    static auto real = (void (*)(bool, void*, void*, void*))dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    if (hooks()) { RtScope r; access(&h._M_parent, 24, true, false, __builtin_return_address(0)); access(p, 32, true, false, __builtin_return_address(0)); }
    real(left, x, p, &h);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
{
    static auto real = (_Rb_tree_node_base* (*)(void*, void*))dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    if (hooks()) { RtScope r; access(&h._M_parent, 24, true, false, __builtin_return_address(0)); access(z, 32, true, false, __builtin_return_address(0)); }
    return real(z, &h);
}
}

int main(int argc, char** argv)
{
    init_real();
    __libc_single_threaded = 0; // fibers count as threads: shared_ptr and friends must use atomics
    std::string prop, scen, out, replay_out; bool list = false, thor = false; double tl = 60; uint64_t maxexec = 0; int budget = -1000; bool fork_each = false;
    std::string choices;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--property") prop = val();
        else if (a == "--scenario") scen = val();
        else if (a == "--out") out = val();
        else if (a == "--thorough") thor = true;
        else if (a == "--time") tl = atof(val().c_str());
        else if (a == "--max-exec") maxexec = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--budget") budget = atoi(val().c_str());
        else if (a == "--known") g_known.push_back(val());
        else if (a == "--fork-each") fork_each = true;
        else if (a == "--replay") choices = val(), g_replaying = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    g_thorough = thor;
    if (list)
    {
        for (auto& e : registry())
            if (prop.empty() || e.first == prop)
                printf("%s\t%s\t%d\t%d\t%d\n", e.first.c_str(), e.second.second.first.c_str(), e.second.first.quick ? 1 : 0,
                        e.second.first.budget_quick, e.second.first.budget_thorough);
        fflush(stdout);
        _exit(0);
    }
    Body* body = nullptr;
    for (auto& e : registry())
        if (e.second.second.first == scen && (prop.empty() || e.first == prop)) { body = &e.second.second.second; g_opt = e.second.first; prop = e.first; }
    if (!body) { fprintf(stderr, "no scenario %s\n", scen.c_str()); _exit(2); }
    if (fork_each) g_opt.fork_each = true;
    int target = budget != -1000 ? budget : (thor ? g_opt.budget_thorough : g_opt.budget_quick);

    auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p; };
    // fixed addresses: object identities are the same in every process
    g_region = (char*)mmap((void*)0x100000000000ull, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (g_region == MAP_FAILED) { perror("mmap region"); _exit(2); }
    g_cells = (Cell*)map(REGION / 8 * sizeof(Cell));
    g_ast = (uint8_t*)map(REGION / 8 + 4096);
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Result* R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_gcells = new std::unordered_map<uintptr_t, Cell>();
    g_obj = new std::unordered_map<void*, Obj>();
    g_prefix = new std::vector<uint8_t>();
    // static-initialisation-order independent warm-ups
    std::cout.flush(); std::cerr.flush(); fprintf(stdout, "%s", ""); fflush(stdout);

    if (g_replaying)
    {
        std::vector<uint8_t> pre; std::stringstream ss(choices); int c; char comma;
        while (ss >> c) { pre.push_back(c); ss >> comma; }
        g_visited = new std::unordered_map<uint64_t, int>();
        pid_t p = fork();
        if (p == 0)
        {
            install_signals();
            if (!g_opt.fork_each) { g_arena = false; bool rc = g_opt.races; g_opt.races = false; run_one(*body, {}, 0); g_opt.races = rc; }
            g_arena = true; g_trace = true; S->tracelen = 0;
            run_one(*body, pre, 1000000);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        printf("%s", S->trace);
        printf("replay status: %s %s\n", S->status == ST_VIOLATION ? "VIOLATION" : S->status == ST_OK ? "ok" : "other", S->msg);
        fflush(stdout);
        _exit(S->status == ST_VIOLATION ? 1 : 0);
    }

    double w0 = wall();
    std::string first_msg; Result* first = nullptr;
    for (int attempt = 0;; ++attempt)
    {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        explore(*body, target, tl - (wall() - w0), maxexec, R);
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    // Static state of the code outlives an execution: if that matters, one process per execution.
    int status = died ? (S->status == ST_ERROR ? ST_ERROR : ST_VIOLATION) : R->status;
    const char* m = died ? S->msg : R->msg;
    bool again = status == ST_ERROR && strstr(m, "nondeterministic replay");
    if (!attempt && !g_opt.fork_each && status == ST_VIOLATION)
    {
        // does it happen without the executions before?
        Shared* keep = (Shared*)malloc(sizeof(Shared)); memcpy((void*)keep, (void*)S, sizeof(Shared));
        std::vector<uint8_t> pre;
        if (died) for (int i = 0; i < std::min(S->nchoices, MAXCH); ++i) pre.push_back(S->ch[i].chosen);
        else pre.assign(R->prefix, R->prefix + R->nprefix);
        S->status = ST_RUNNING;
        pid_t q = fork();
        if (q == 0)
        {
            install_signals();
            g_visited = new std::unordered_map<uint64_t, int>();
            g_arena = false; bool rc = g_opt.races; g_opt.races = false; run_one(*body, {}, 0); g_opt.races = rc;
            g_arena = true; S->status = ST_RUNNING;
            run_one(*body, pre, 1000000);
            _exit(0);
        }
        int sq; while (waitpid(q, &sq, 0) < 0 && errno == EINTR) {}
        again = S->status != ST_VIOLATION && S->status != ST_RUNNING;
        memcpy((void*)S, (void*)keep, sizeof(Shared)); free(keep);
        if (again)
        {
            // a wrong result after other calls in the same process is one; dangling memory may be that of the execution before
            first_msg = m;
            for (auto x : {"memory:", "crash", "data race", "leak:"}) if (first_msg.rfind(x, 0) == 0) { first_msg.clear(); break; }
            first = new Result(*R);
            if (died) { first->nprefix = (int)pre.size(); memcpy(first->prefix, pre.data(), pre.size()); }
        }
    }
    if (again && !attempt && !g_opt.fork_each)
    {
        g_opt.fork_each = true;
        memset((void*)R, 0, sizeof *R);
        memset((void*)S, 0, sizeof *S);
        continue;
    }
    if (died)
    {
        // the explorer itself died during an execution
        R->wall = wall() - w0;
        R->status = S->status == ST_ERROR ? ST_ERROR : ST_VIOLATION;
        if (S->msg[0]) memcpy(R->msg, S->msg, sizeof S->msg); else snprintf(R->msg, sizeof R->msg, "crash: explorer process ended with status %d", st);
        R->nprefix = std::min(S->nchoices, MAXCH); for (int i = 0; i < R->nprefix; ++i) R->prefix[i] = S->ch[i].chosen;
        if (R->status == ST_VIOLATION) { int idx; if (is_known(R->msg, idx)) { R->known[idx]++; R->status = ST_OK; R->completed = -1; } }
    }
    if (R->status == ST_OK && first && !first_msg.empty())
    {
        *R = *first;
        R->status = ST_VIOLATION;
        snprintf(R->msg, sizeof R->msg, "%s [after other executions in the same process]", first_msg.c_str());
    }
    break;
    }
    std::ostringstream o;
    o << "{\"property\":" << jstr(prop) << ",\"scenario\":" << jstr(scen) << ",\"status\":"
      << (R->status == ST_OK ? "\"ok\"" : R->status == ST_VIOLATION ? "\"violation\"" : "\"error\"")
      << ",\"msg\":" << jstr(R->msg) << ",\"executions\":" << R->execs << ",\"pruned\":" << R->pruned << ",\"transitions\":" << R->transitions
      << ",\"states\":" << R->states << ",\"max_choice_depth\":" << R->maxdepth << ",\"completed_bound\":" << R->completed << ",\"target_bound\":" << target
      << ",\"wall\":" << R->wall << ",\"known\":[";
    for (size_t i = 0; i < g_known.size(); ++i) o << (i ? "," : "") << R->known[i];
    o << "],\"counters\":{";
    for (int i = 0; i < S->ncounters; ++i) o << (i ? "," : "") << jstr(S->counters[i].name) << ":" << S->counters[i].n;
    o << "}";
    if (R->status != ST_OK)
    {
        if (g_opt.fork_each) o << ",\"fork_each\":1";
        o << ",\"choices\":[";
        for (int i = 0; i < R->nprefix; ++i) o << (i ? "," : "") << (int)R->prefix[i];
        o << "]";
    }
    o << "}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout);
    else { FILE* f = fopen(out.c_str(), "w"); fputs(o.str().c_str(), f); fclose(f); }
    fflush(stdout);
    _exit(R->status == ST_OK ? 0 : R->status == ST_VIOLATION ? 1 : 2);
}
