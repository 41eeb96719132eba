// A stand-in for inotify on a directory tree of two files.
#pragma once
#include "events.hpp"
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <poll.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <future>
#include <event/FileWatcher.hpp>
#include <cpp_utils/event/FileWatcherHandler.hpp>

// The file-system notifications come from the harness: a stand-in for inotify on a directory tree of two files.
namespace {
struct Ino { bool open, watch, nonblock; uint32_t mask; char dir[512]; int n; struct { uint32_t mask; char name[256]; } q[48]; };
Ino g_ino[6];
int g_used;
const char* const DIR_ = "/mcfs/dir/";
const char* const FILE_ = "/mcfs/dir/file.txt";
const char* g_other;    // another file that exists
bool g_exists;
const int FD = 100000;
Ino* ino(int fd) { return mc::in_execution() && fd >= FD && fd < FD + 6 ? &g_ino[fd - FD] : nullptr; }
void fresh() { mc::Quiet q; for (auto& i : g_ino) { i.open = i.watch = i.nonblock = false; i.mask = 0; i.dir[0] = 0; i.n = 0; } g_used = 0; g_exists = true; g_other = nullptr; }
//! Something happens to a file of the directory
void happens(uint32_t mask, const char* name)
{
    {
        mc::Quiet q;
        for (auto& i : g_ino) if (i.open && i.watch && (i.mask & mask) && i.n < 40) { i.q[i.n].mask = mask; strcpy(i.q[i.n++].name, name); }
    }
    mc::mark(0xA00 + mask);
    mc::point();
}
int open_fds() { mc::Quiet q; int n = 0; for (auto& i : g_ino) n += i.open; return n; }
int watches() { mc::Quiet q; int n = 0; for (auto& i : g_ino) n += i.open && i.watch; return n; }
}
namespace {
//! with or without the slash at the end
bool is_dir_of(const char* dir, const char* path)
{
    const char* slash = strrchr(path, '/');
    size_t n = slash ? slash - path : 0, d = strlen(dir);
    if (slash && n == 0) return !strcmp(dir, "/");
    if (d == n + 1 && dir[n] == '/') --d;
    return d == n && d && !strncmp(dir, path, n);
}
}
extern "C" int inotify_init() noexcept { mc::Quiet q; mc::check(g_used < 6, "too many watches"); g_ino[g_used].open = true; return FD + g_used++; }
extern "C" int inotify_init1(int flags) noexcept { int fd = inotify_init(); mc::Quiet q; g_ino[fd - FD].nonblock = flags & IN_NONBLOCK; return fd; }
extern "C" int poll(struct pollfd* fds, nfds_t n, int timeout)
{
    Ino* i = n == 1 ? ino(fds->fd) : nullptr;
    if (!i) { struct timespec ts{timeout / 1000, timeout % 1000 * 1000000l}; return (int)syscall(SYS_ppoll, fds, n, timeout < 0 ? nullptr : &ts, nullptr, 0); }
    if (timeout < 0) mc::wait_until([i] { return i->n > 0; }, "inotify poll");
    else mc::yield();
    mc::Quiet q;
    fds->revents = i->n > 0 ? fds->events & POLLIN : 0;
    return i->n > 0;
}
extern "C" int inotify_add_watch(int fd, const char* dir, uint32_t mask) noexcept
{
    {
        mc::Quiet q;
        Ino* i = ino(fd);
        mc::check(i && i->open, "watch added to a closed descriptor");
        mc::check(!strcmp(dir, DIR_) || !strcmp(dir, FILE_) || ((!strcmp(dir, "./") || !strcmp(dir, ".")) && !(g_other && strchr(g_other, '/'))) || (g_other && (!strcmp(dir, g_other) || is_dir_of(dir, g_other))), [&] { return std::string("watching ") + dir; });
        i->watch = true; i->mask = mask; strcpy(i->dir, dir);
    }
    mc::mark(0xA01);
    return 1;
}
extern "C" int inotify_rm_watch(int fd, int) noexcept
{
    {
        mc::Quiet q;
        Ino* i = ino(fd);
        mc::check(i && i->open, "watch removed from a closed descriptor");
        if (!i->watch) { errno = EINVAL; return -1; }
        i->watch = false;
        i->q[i->n].mask = IN_IGNORED; i->q[i->n++].name[0] = 0;
    }
    mc::mark(0xA02);
    mc::point();
    return 0;
}
extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    Ino* i = ino(fd);
    if (!i) return syscall(SYS_read, fd, buf, n);
    { mc::Quiet q; mc::check(i->open, "reading from a closed descriptor"); }
    { mc::Quiet q; if (i->nonblock && i->n == 0) { errno = EAGAIN; return -1; } }
    mc::wait_until([i] { return i->n > 0; }, "inotify read");
    char* p = (char*)buf;
    mc::Quiet q;
    for (int k = 0; k < i->n; ++k)
    {
        struct inotify_event e; memset(&e, 0, sizeof e);
        e.wd = 1; e.mask = i->q[k].mask; e.len = i->q[k].name[0] ? (strlen(i->q[k].name) + 16) / 16 * 16 : 0;
        memcpy(p, &e, sizeof e); p += sizeof e;
        if (e.len) { memset(p, 0, e.len); strcpy(p, i->q[k].name); p += e.len; }
    }
    i->n = 0;
    return p - (char*)buf;
}
extern "C" int close(int fd)
{
    Ino* i = ino(fd);
    if (!i) return (int)syscall(SYS_close, fd);
    { mc::Quiet q; mc::check(i->open, "a descriptor closed twice"); i->open = false; }
    mc::mark(0xA03);
    return 0;
}
extern "C" int stat(const char* path, struct stat* st) noexcept
{
    if (!mc::in_execution()) return (int)syscall(SYS_newfstatat, -100, path, st, 0);
    mc::Quiet q;
    if (!g_exists || (strcmp(path, FILE_) && strcmp(path, "file.txt") && !(g_other && !strcmp(path, g_other)))) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644;
    return 0;
}
// blocking of std::future goes through the explorer
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, std::chrono::seconds, std::chrono::nanoseconds)
{
    mc::wait_until([a, v] { mc::Quiet q; return *(volatile unsigned*)a != v; }, "future");
    return true;
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { mc::point(); }

