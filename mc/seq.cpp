// Sequential exhaustive enumeration: same harness API and command line as the concurrent explorer.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer; each scenario runs in a child process.
#include "mc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <exception>
#include <iostream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {
namespace {
struct Shared
{
    volatile uint64_t progress; char ctx[8192]; char msg[8192]; volatile int status; // 1 ok 2 violation
    uint64_t known[64]; int ncounters; struct { char name[48]; uint64_t n; } counters[64];
    int nsamples; char samples[8][400];
};
Shared* S;
bool g_thorough = false, g_active = false;
bool g_trace = false;
uint64_t g_now = 0;
int64_t g_wall = 0;
std::vector<std::string> g_known;
struct Entry { std::string prop, name; Options o; Body b; };
std::vector<Entry>& reg() { static auto* r = new std::vector<Entry>(); return *r; }
double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
}
Registrar::Registrar(const char* p, const std::string& n, Options o, Body b) { reg().push_back({p, n, o, b}); }
void ctx(const char* s, size_t n)
{
    if (n > sizeof(S->ctx) - 1) n = sizeof(S->ctx) - 1;
    memcpy(S->ctx, s, n); S->ctx[n] = 0; S->progress = S->progress + 1;
    if (g_trace) { fwrite(s, 1, n, stdout); fputc('\n', stdout); }
}
void fail(const std::string& msg)
{
    std::string m = msg + (S->ctx[0] ? std::string(" [case: ") + S->ctx + "]" : "");
    for (size_t i = 0; i < g_known.size(); ++i) if (m.find(g_known[i]) != std::string::npos) { S->known[i]++; return; }
    snprintf(S->msg, sizeof S->msg, "%s", m.c_str());
    S->status = 2;
    _exit(1);
}
void count(const char* what, uint64_t n)
{
    for (int i = 0; i < S->ncounters; ++i) if (!strcmp(S->counters[i].name, what)) { S->counters[i].n += n; return; }
    if (S->ncounters < 64) { strncpy(S->counters[S->ncounters].name, what, 47); S->counters[S->ncounters++].n = n; }
}
void note(const std::string& s)
{
    if (S->nsamples < 8) snprintf(S->samples[S->nsamples++], 400, "%s", s.c_str());
}
uint64_t now_ns() { return g_now; }
void advance_ns(uint64_t n) { g_now += n; }
void set_wall_offset_ns(int64_t n) { g_wall = n; }
bool thorough() { return g_thorough; }
int choose(int) { fprintf(stderr, "choose() is of the concurrent engine\n"); abort(); }
void point() {}
void yield() {}
void mark(uint64_t) {}
int tid() { return 0; }
bool in_execution() { return g_active; }
Quiet::Quiet() {}
Quiet::~Quiet() {}
}
using namespace mc;

// virtual time for the clocks the code under test reads
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!g_active) return (int)syscall(SYS_clock_gettime, c, ts);
    uint64_t n = g_now + (c == CLOCK_MONOTONIC ? 5000ull * 1000000000ull : 1700000000ull * 1000000000ull + (c == CLOCK_REALTIME ? (uint64_t)g_wall : 0));
    ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
    return 0;
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=98:handle_abort=1:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

int main(int argc, char** argv)
{
    std::string prop, scen, out; bool list = false, replay = false; double tl = 600;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--property") prop = val();
        else if (a == "--scenario") scen = val();
        else if (a == "--out") out = val();
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--time") tl = atof(val().c_str());
        else if (a == "--known") g_known.push_back(val());
        else if (a == "--replay") replay = true, val();
        else if (a == "--trace") g_trace = true;
        else { val(); }
    }
    if (list)
    {
        for (auto& e : reg()) if (prop.empty() || e.prop == prop)
            printf("%s\t%s\t%d\t%d\t%d\n", e.prop.c_str(), e.name.c_str(), e.o.quick ? 1 : 0, 0, 0);
        fflush(stdout); _exit(0);
    }
    Entry* en = nullptr;
    for (auto& e : reg()) if (e.name == scen && (prop.empty() || prop == e.prop)) en = &e;
    if (!en) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 2; }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = wall();
    int pfd[2]; if (pipe(pfd)) return 2;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        close(pfd[0]); dup2(pfd[1], 2); close(pfd[1]);
        alarm(0);
        g_active = true;
        try { en->b(); }
        catch (const std::exception& e) { g_active = false; fail(std::string("uncaught exception: ") + e.what()); S->status = 1; _exit(0); }
        catch (...) { g_active = false; fail("uncaught exception of unknown type"); }
        g_active = false;
        S->status = 1;
        _exit(0);
    }
    close(pfd[1]);
    // watchdog: no progress for 12 s is non-termination
    uint64_t last = ~0ull; double lt = wall(); int st = 0; std::string err; bool timedout = false;
    struct timeval tv;
    for (;;)
    {
        fd_set fs; FD_ZERO(&fs); FD_SET(pfd[0], &fs); tv = {0, 50000};
        int r = select(pfd[0] + 1, &fs, nullptr, nullptr, &tv);
        if (r > 0) { char b[4096]; ssize_t n = read(pfd[0], b, sizeof b); if (n > 0) { if (err.size() < 20000) err.append(b, n); } }
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) break;
        if (S->progress != last) { last = S->progress; lt = wall(); }
        else if (wall() - lt > 12)
        {
            kill(p, SIGKILL); waitpid(p, &st, 0);
            snprintf(S->msg, sizeof S->msg, "non-termination: no progress for 12 s [case: %.4000s]", S->ctx); S->status = 2; break;
        }
        if (wall() - t0 > tl) { kill(p, SIGKILL); waitpid(p, &st, 0); timedout = true; break; }
    }
    if (S->status == 0 && !timedout)
    {
        for (;;) { char b[4096]; ssize_t n = read(pfd[0], b, sizeof b); if (n <= 0) break; if (err.size() < 40000) err.append(b, n); }
        std::string key;
        for (const char* k : {"runtime error:", "ERROR: AddressSanitizer:", "terminate called", "what():"})
        {
            size_t q = err.find(k);
            if (q != std::string::npos) { key += err.substr(q, err.find('\n', q) - q) + "; "; }
        }
        if (key.empty()) key = "process ended with status " + std::to_string(st) + " " + err.substr(0, 300);
        std::string m = "crash or undefined behaviour: " + key + " [case: " + S->ctx + "]";
        bool kn = false;
        for (size_t i = 0; i < g_known.size(); ++i) if (m.find(g_known[i]) != std::string::npos) { S->known[i]++; kn = true; }
        snprintf(S->msg, sizeof S->msg, "%s", m.c_str()); S->status = kn ? 1 : 2;
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    uint64_t cases = 0, ops = 0;
    for (int i = 0; i < S->ncounters; ++i) { if (!strcmp(S->counters[i].name, "cases")) cases = S->counters[i].n; if (!strcmp(S->counters[i].name, "ops")) ops = S->counters[i].n; }
    fprintf(f, "{\"property\":%s,\"scenario\":%s,\"status\":\"%s\",\"msg\":%s,\"executions\":%llu,\"pruned\":0,\"transitions\":%llu,\"states\":%llu,"
            "\"max_choice_depth\":0,\"completed_bound\":%d,\"target_bound\":0,\"wall\":%.3f,\"known\":[",
            jstr(en->prop).c_str(), jstr(en->name).c_str(), S->status == 2 ? "violation" : "ok", jstr(S->status == 2 ? S->msg : "").c_str(), (unsigned long long)cases,
            (unsigned long long)(ops ? ops : cases), (unsigned long long)cases, timedout ? -1 : 0, wall() - t0);
    for (size_t i = 0; i < g_known.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)S->known[i]);
    fprintf(f, "],\"counters\":{");
    for (int i = 0; i < S->ncounters; ++i) fprintf(f, "%s%s:%llu", i ? "," : "", jstr(S->counters[i].name).c_str(), (unsigned long long)S->counters[i].n);
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < S->nsamples; ++i) fprintf(f, "%s%s", i ? "," : "", jstr(S->samples[i]).c_str());
    fprintf(f, "]%s}\n", S->status == 2 ? ",\"choices\":[]" : "");
    if (!out.empty()) fclose(f);
    if (replay) { printf("%s\n", S->status == 2 ? S->msg : "ok"); }
    fflush(stdout);
    _exit(S->status == 2 ? 1 : 0);
}
