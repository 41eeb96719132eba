// engine: seq
// sources: Formatter exception/Exception utils math/math_extension time/time_utils file/file_utils
#include "enum.hpp"
#include <fstream>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;

namespace {
const uid_t ME = 65534, OTHER = 65533;
//! a scratch directory with only known names in it, left from an earlier run at most
struct Scratch
{
    std::string d;
    explicit Scratch(const char* name) : d(std::string("/tmp/mc-c38-") + name) { clean(); if (mkdir(d.c_str(), 0755) != 0 || chmod(d.c_str(), 0777) != 0) { mc::note("scratch directory: " + d); } if (chdir(d.c_str()) != 0) _exit(99); }
    ~Scratch() { if (chdir("/") == 0) clean(); }
    void clean()
    {
        for (const char* n : {"d/in", "file", "link", "dangling", "out", "created"}) unlink((d + "/" + n).c_str());
        for (const char* n : {"d", ""}) { chmod((d + "/" + n).c_str(), 0700); unlink((d + "/d/in").c_str()); rmdir((d + "/" + n).c_str()); }
    }
};
//! what is below: every asked call runs as an unprivileged user (real and effective)
template <typename F> auto as_user(const F& f) -> decltype(f())
{
    bool root = geteuid() == 0;
    if (root && (setgroups(0, nullptr) || setresgid(ME, ME, 0) || setresuid(ME, ME, 0))) _exit(98);
    auto r = f();
    if (root && (setresuid(0, 0, 0) || setresgid(0, 0, 0))) _exit(98);
    return r;
}
std::string listing()
{
    std::string s;
    DIR* d = opendir(".");
    if (d) { std::set<std::string> names; while (auto* e = readdir(d)) if (std::string(e->d_name) != "..") names.insert(e->d_name); closedir(d); for (auto& n : names) { struct stat st; if (lstat(n.c_str(), &st) == 0) s += mc::str(n, " ", st.st_mode, " ", st.st_size, " ", st.st_uid, " ", st.st_mtim.tv_sec, ".", st.st_mtim.tv_nsec, "; "); } }
    return s;
}
void put(const char* name, const std::string& content) { int fd = open(name, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, content.data(), content.size()) != (ssize_t)content.size()) _exit(97); close(fd); }
std::string get(const char* name) { std::ifstream f(name, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
const FileAccessMode MODES[] = {FileAccessMode::exist, FileAccessMode::exec, FileAccessMode::write, FileAccessMode::write_exec, FileAccessMode::read, FileAccessMode::read_exec, FileAccessMode::read_write, FileAccessMode::read_write_exec};
void agree(const char* path, int rights, const char* what, bool exists = true)
{
    for (int m = 0; m < 8; ++m)
    {
        mc::count("cases");
        bool want = exists && (rights & m) == m;
        bool got = as_user([&] { return is_file_accessible(path, MODES[m]); });
        if (got != want) mc::fail(mc::str(what, " '", path, "' asked for ", m, ": ", got ? "accessible" : "not accessible", " with rights ", rights));
    }
    bool got = as_user([&] { return is_file_accessible(path); });
    if (got != exists) mc::fail(mc::str(what, " '", path, "' exists: ", got));
}
}
MC_SCENARIO("C38", "permissions_of_a_file")
{
    Scratch s("perm");
    put("file", "content");
    if (symlink("file", "link")) _exit(97);
    bool root = geteuid() == 0;
    for (int who = 0; who < (root ? 3 : 1); ++who) for (int mode = 0; mode < 512; ++mode)
    {
        mc::ctx(mc::str("owner ", who, " mode ", mode));
        if (root && chown("file", who == 0 ? ME : OTHER, who == 1 ? ME : OTHER)) _exit(97);
        chmod("file", mode);
        int rights = mode >> (who == 0 ? 6 : who == 1 ? 3 : 0) & 7;
        std::string before = listing();
        agree("file", rights, "file"); agree("link", rights, "link to a file");
        if (listing() != before) mc::fail("the check changed something: " + listing() + " before " + before);
        // the reference itself, against opening it
        bool r = as_user([&] { int fd = open("file", O_RDONLY); if (fd >= 0) close(fd); return fd >= 0; });
        bool w = as_user([&] { int fd = open("file", O_WRONLY); if (fd >= 0) close(fd); return fd >= 0; });
        if (root && (r != !!(rights & 4) || w != !!(rights & 2))) { mc::note("the file system does not keep permissions"); _exit(96); }
    }
    if (get("file") != "content") mc::fail("the content changed");
}
MC_SCENARIO("C38", "permissions_of_a_directory")
{
    Scratch s("dir");
    if (mkdir("d", 0755)) _exit(97);
    put("d/in", "x"); chmod("d/in", 0777);
    bool root = geteuid() == 0;
    for (int who = 0; who < (root ? 3 : 1); ++who) for (int mode = 0; mode < 512; ++mode)
    {
        mc::ctx(mc::str("owner ", who, " mode ", mode));
        if (root && chown("d", who == 0 ? ME : OTHER, who == 1 ? ME : OTHER)) _exit(97);
        chmod("d", mode);
        int rights = mode >> (who == 0 ? 6 : who == 1 ? 3 : 0) & 7;
        agree("d", rights, "directory");
        agree("d/", rights, "directory", (rights & 1) || true);
        agree("d/in", 7, "in a directory", rights & 1);       // without the right to search nothing in it is accessible
        agree("d/none", 7, "missing in a directory", false);
    }
    chmod("d", 0755);
}
MC_SCENARIO("C38", "missing_files")
{
    Scratch s("missing");
    put("file", "x"); chmod("file", 0777);
    if (symlink("created", "dangling")) _exit(97);
    std::string before = listing();
    for (const char* p : {"", "created", "./created", "no/such", "file/", "file/in", "dangling", "../mc-c38-missing/created", "file ", " file", "FILE", "fil", "file\n"}) { mc::ctx(p); agree(p, 7, "missing", false); }
    for (size_t n : {254, 255, 256, 4095, 4096, 70000}) { mc::ctx(mc::str("name of ", n)); agree(std::string(n, 'n').c_str(), 7, "missing", false); }
    for (const char* p : {"file", "./file", ".//file", "../mc-c38-missing/file", "/tmp/mc-c38-missing/file"}) { mc::ctx(p); agree(p, 7, "existing"); }
    if (listing() != before) mc::fail("the check changed something: " + listing() + " before " + before);
    // a file that comes and goes
    for (int i = 0; i < 20; ++i) { mc::ctx(mc::str("round ", i)); agree("out", 7, "removed", false); put("out", ""); chmod("out", 0755); if (geteuid() == 0 && chown("out", ME, ME)) _exit(97); agree("out", 7, "created"); chmod("out", 0444); agree("out", 4, "changed"); unlink("out"); }
}
MC_SCENARIO("C38", "sets_of_rights")
{
    for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b)
    {
        en::begin(mc::str(a, " ", b));
        mc::check((int)MODES[a] == a && (int)(MODES[a] | MODES[b]) == (a | b) && (int)(MODES[a] & MODES[b]) == (a & b), "combination of rights");
        for (int c = 0; c < 8; ++c) mc::check((MODES[a] | MODES[b] | MODES[c]) == MODES[a | b | c] && (MODES[a] & MODES[b] & MODES[c]) == MODES[a & b & c], "three");
    }
    mc::check((int)FileAccessMode::exist == 0 && FileAccessMode::read_write == (FileAccessMode::read | FileAccessMode::write), "names");
}

namespace {
std::vector<std::string> lines(const std::string& content, bool strip, bool drop)
{
    std::vector<std::string> out; std::string l;
    for (size_t i = 0; i < content.size() || !l.empty(); ++i)
    {
        if (i < content.size() && content[i] != '\n') { l += content[i]; continue; }
        std::string k; for (char c : l) if (!(strip && c == '\r')) k += c;
        if (!(drop && k.empty())) out.push_back(k);
        l.clear();
        if (i >= content.size()) break;
    }
    return out;
}
void file_with(const std::string& content)
{
    en::begin(en::q(content));
    put("file", content);
    for (int strip = 0; strip < 2; ++strip)
    {
        std::string text;
        for (int drop = 0; drop < 2; ++drop)
        {
            auto want = lines(content, strip, drop);
            auto got = file_to_strings("file", strip, drop);
            if (got != want) mc::fail(mc::str("lines (strip ", strip, " drop empty ", drop, "): ", got.size(), " lines, expected ", want.size(), " first ", got.empty() ? "" : en::q(got[0])));
            if (!drop) for (auto& l : want) text += l + "\n";
        }
        en::same(file_to_string("file", strip), text, "text of the file");
    }
    if (file_to_string("file") != file_to_string("file", true) || file_to_strings("file") != lines(content, true, false) || file_to_strings("file", false) != lines(content, false, false)) mc::fail("default arguments");
    if (get("file") != content) mc::fail("the file changed");
}
}
static struct Reading
{
    Reading()
    {
        // one scenario for each first character: they run in parallel
        for (int k = 0; k < 4; ++k)
        {
            static const char* const names[] = {"reading_text", "reading_blank", "reading_carriage_return", "reading_newline"};
            mc::Options o;
            new mc::Registrar("C38", names[k], o, [k] {
                Scratch s(names[k]);
                static const char first[] = "a \r\n";
                en::strings("a \r\n", 0, mc::thorough() ? 8 : 6, [&](const std::string& c) { file_with(std::string(1, first[k]) + c); });
            });
        }
    }
} g_reading;
MC_SCENARIO("C38", "reading_others")
{
    Scratch s("others");
    file_with("");
    en::strings(std::string("\0\xff\r\n", 4), 0, mc::thorough() ? 6 : 4, [&](const std::string& c) { file_with(c); });
    for (size_t n : {1, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 65536, 200000})
    {
        std::string l(n, 'l');
        file_with(l); file_with(l + "\n"); file_with(l + "\r\n" + l + "\n\n" + l); if (n < 9000) file_with(std::string(n, '\n')); file_with(std::string(n, '\r'));
    }
    for (int n = 0; n < 300; ++n) { std::string t; for (int i = 0; i < n; ++i) t += std::to_string(i) + (i % 3 ? "\n" : "\r\n"); file_with(t); }
}
MC_SCENARIO("C38", "unreadable_files")
{
    Scratch s("unreadable");
    put("file", "x\n"); chmod("file", 0);
    if (symlink("created", "dangling")) _exit(97);
    std::string before = listing();
    for (const char* p : {"", "created", "no/such", "file/in", "dangling", "file"}) for (int strip = 0; strip < 2; ++strip) for (int drop = 0; drop < 2; ++drop)
    {
        en::begin(mc::str("unreadable '", p, "'"));
        if (geteuid() != 0 && std::string(p) == "file") continue;
        bool a = as_user([&] { return en::throws<PreconditionNotMet>([&] { file_to_strings(p, strip, drop); }); });
        bool b = as_user([&] { return en::throws<PreconditionNotMet>([&] { file_to_string(p, strip); }); });
        mc::check(a && b, "a file that cannot be read gave no exception");
    }
    if (listing() != before) mc::fail("reading changed something");
}
