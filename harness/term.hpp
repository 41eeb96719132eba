// A keyboard and a terminal owned by the scenario: every way of reading a character of the standard input is
// redirected to it, its settings are recorded, and what is printed is thrown away.
#pragma once
#include "lin.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <dlfcn.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>

namespace term {

struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Tty
{
    unsigned char keys[8192]; int n, pos; bool eof; int eof_reads, waiting;
    int width;          // columns, -1: not a terminal
    termios attr; int raw;
};
static Tty T;
static const int MAX_EOF = 24;
inline void fresh(int width = 80)
{
    mc::Quiet q;
    static Null null;
    std::cout.rdbuf(&null);
    memset(&T, 0, sizeof T);
    T.width = width; T.attr.c_lflag = ICANON | ECHO | ISIG | IEXTEN; T.attr.c_iflag = 0x55;
}
inline bool untouched() { mc::Quiet q; return T.attr.c_lflag == (ICANON | ECHO | ISIG | IEXTEN) && T.attr.c_iflag == 0x55; }
//! keys arrive
inline void type(const std::string& s)
{
    { mc::Quiet q; for (char c : s) if (T.n < 8192) T.keys[T.n++] = (unsigned char)c; }
    mc::mark(0xE00 + s.size());
    mc::point();
}
inline void end_of_input() { { mc::Quiet q; T.eof = true; } mc::mark(0xEFF); mc::point(); }
inline int consumed() { mc::Quiet q; return T.pos; }
//! a thread is waiting for a key
inline bool waiting() { mc::Quiet q; return T.waiting > 0; }
inline int get()
{
    {
        mc::Quiet q; ++T.waiting;
    }
    bool ready; { mc::Quiet q; ready = T.pos < T.n || T.eof; }
    if (!ready) mc::wait_until([] { return T.pos < T.n || T.eof; }, "a key");
    int r;
    {
        mc::Quiet q; --T.waiting;
        r = T.pos < T.n ? T.keys[T.pos++] : EOF;
        if (r == EOF && ++T.eof_reads > MAX_EOF) mc::fail("the standard input is read again and again after its end");
    }
    mc::mark(0xD00 + (r & 0xff));
    return r;
}
inline bool mine(FILE* f) { return mc::in_execution() && f == stdin; }
template <typename F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

} // namespace term

#undef getc
#undef getchar
extern "C" {
int term_getchar(void) asm("getchar");
int term_getchar(void) { return mc::in_execution() ? term::get() : (term::next<int (*)()>("getchar"))(); }
int term_getchar_unlocked(void) asm("getchar_unlocked");
int term_getchar_unlocked(void) { return mc::in_execution() ? term::get() : (term::next<int (*)()>("getchar_unlocked"))(); }
int getc(FILE* f) { return term::mine(f) ? term::get() : (term::next<int (*)(FILE*)>("getc"))(f); }
int _IO_getc(FILE* f) { return term::mine(f) ? term::get() : (term::next<int (*)(FILE*)>("getc"))(f); }
int fgetc(FILE* f) { return term::mine(f) ? term::get() : (term::next<int (*)(FILE*)>("fgetc"))(f); }
int term_getc_unlocked(FILE* f) asm("getc_unlocked");
int term_getc_unlocked(FILE* f) { return term::mine(f) ? term::get() : (term::next<int (*)(FILE*)>("getc_unlocked"))(f); }
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list a; va_start(a, req); void* p = va_arg(a, void*); va_end(a);
    if (mc::in_execution() && req == TIOCGWINSZ)
    {
        mc::Quiet q;
        if (term::T.width < 0) { errno = ENOTTY; return -1; }
        winsize* w = (winsize*)p; memset(w, 0, sizeof *w); w->ws_col = (unsigned short)term::T.width; w->ws_row = 24;
        return 0;
    }
    return (int)syscall(SYS_ioctl, fd, req, p);
}
int tcgetattr(int fd, termios* t) noexcept
{
    if (!mc::in_execution() || fd != 0) return (term::next<int (*)(int, termios*)>("tcgetattr"))(fd, t);
    mc::Quiet q; *t = term::T.attr; return 0;
}
int tcsetattr(int fd, int how, const termios* t) noexcept
{
    if (!mc::in_execution() || fd != 0) return (term::next<int (*)(int, int, const termios*)>("tcsetattr"))(fd, how, t);
    { mc::Quiet q; term::T.attr = *t; if (!(t->c_lflag & ICANON)) ++term::T.raw; } 
    mc::mark(0xE80);
    return 0;
}
}

namespace term {

// Keys
static const char* const UP = "\033[A", * const DOWN = "\033[B", * const RIGHT = "\033[C", * const LEFT = "\033[D", * const HOME = "\033[H",
        * const END = "\033[F", * const INS = "\033[2~", * const DEL = "\033[3~", * const PGUP = "\033[5~", * const PGDN = "\033[6~";

//! An ideal line editor with a history, over bytes.
struct Editor
{
    std::vector<std::string> history; size_t hpos = 0;
    std::string line; size_t cur = 0;
    std::vector<std::string> out; bool ignoring = false;
    void recall(const std::string& s) { line = s; cur = s.size(); }
    void up() { if (hpos > 0) recall(history[--hpos]); }
    void down() { if (hpos < history.size()) ++hpos; recall(hpos < history.size() ? history[hpos] : ""); }
    //! bytes of one line from p on; false when the input ends before the line does
    bool run(const std::string& s, size_t& p)
    {
        line.clear(); cur = 0;
        auto next = [&]() { return p < s.size() ? (unsigned char)s[p++] : -1; };
        for (;;)
        {
            int c = next();
            if (c < 0) return false;
            if (c == '\n' || c == '\r')
            {
                out.push_back(line);
                if (!ignoring && !line.empty()) { history.push_back(line); hpos = history.size(); }
                return true;
            }
            if (c == 3) { out.push_back(""); return true; }
            if (c == 8 || c == 127) { if (cur > 0) line.erase(--cur, 1); continue; }
            if (c == 27)
            {
                next();
                switch (next())
                {
                    case 'A': up(); break;
                    case 'B': down(); break;
                    case 'C': if (cur < line.size()) ++cur; break;
                    case 'D': if (cur > 0) --cur; break;
                    case 'H': cur = 0; break;
                    case 'F': cur = line.size(); break;
                    case '2': next(); break;
                    case '3': if (next() == '~' && cur < line.size()) line.erase(cur, 1); break;
                    case '5': if (next() == '~') up(); break;
                    case '6': if (next() == '~') down(); break;
                    default: break;
                }
                continue;
            }
            line.insert(line.begin() + cur, (char)c); ++cur;
        }
    }
    //! at most n lines of s
    int lines(const std::string& s, int n) { size_t p = 0; int k = 0; while (k < n && run(s, p)) ++k; used = p; return k; }
    size_t used = 0;
};
inline std::string q(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
    return "\"" + o + "\"";
}
inline std::string q(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += (o.empty() ? "" : ", ") + q(s); return "{" + o + "}"; }

} // namespace term
