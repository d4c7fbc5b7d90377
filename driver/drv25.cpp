// The program of C25: executes a script of logging operations (written by
// harness/c25.cpp) and writes what it observed to a results file. Built once per
// build configuration of the library; compiled twice (VP_TU=0,1) so that two
// translation units use the library.
//
// drv25 SCRIPT RESULTS; the working directory is private to the run. Tokens are
// separated by blanks, strings are hexadecimal, "-" is the empty string.
#include <xtr/logger.hpp>
#if !VP_SINGLE
#include <xtr/io/fd_storage.hpp>
#include <xtr/io/io_uring_fd_storage.hpp>
#include <xtr/io/posix_fd_storage.hpp>
#include <xtr/detail/commands/frame.hpp>
#include <xtr/detail/commands/pattern.hpp>
#include <xtr/detail/commands/requests.hpp>
#include <xtr/detail/commands/responses.hpp>
#endif

#include <cerrno>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

struct point { int x, y; };
template<> struct fmt::formatter<point>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const point& p, C& c) const { return fmt::format_to(c.out(), "({}, {})", p.x, p.y); }
};

struct values { std::string a, b; long long i; double d; bool t; const std::string* kept; };

void log_tu0(xtr::sink& s, unsigned fam, unsigned level, unsigned shape, const values& v);
void log_tu1(xtr::sink& s, unsigned fam, unsigned level, unsigned shape, const values& v);

#define LV(L, ...)                                                                   \
    switch (fam)                                                                     \
    {                                                                                \
    case 0: XTR_LOGL(L, s, __VA_ARGS__); break;                                      \
    case 1: XTR_TRY_LOGL(L, s, __VA_ARGS__); break;                                  \
    case 2: XTR_LOGL_TS(L, s, 42, __VA_ARGS__); break;                               \
    case 3: XTR_TRY_LOGL_TS(L, s, v.b, __VA_ARGS__); break;                          \
    default: XTR_LOG(s, __VA_ARGS__); break;                                         \
    }
#define S(...)                                                                       \
    switch (level)                                                                   \
    {                                                                                \
    case 1: XTR_LOGL(fatal, s, __VA_ARGS__); break;                                  \
    case 2: LV(error, __VA_ARGS__) break;                                            \
    case 3: LV(warning, __VA_ARGS__) break;                                          \
    case 4: LV(info, __VA_ARGS__) break;                                             \
    default: LV(debug, __VA_ARGS__) break;                                           \
    }                                                                                \
    break;

#if VP_TU == 0
void log_tu0
#else
void log_tu1
#endif
(xtr::sink& s, unsigned fam, unsigned level, unsigned shape, const values& v)
{
    switch (shape)
    {
    case 0: S("nothing")
    case 1: S("{}", v.i)
    case 2: S("{}", v.a)
    case 3: S("{} {}", std::string_view(v.a), v.b.c_str())
    case 4: S("{:.3f} {:#x}", v.d, unsigned(v.i))
    case 5: S("{} {}", v.t, char('a' + unsigned(v.i) % 26))
    case 6: { std::string m(v.a); S("{}/{}", std::move(m), short(v.i)) }
    case 7: S("{}", nocopy(*v.kept))
    case 8: S("{} {:>20} {}", point{int(v.i), 7}, v.b, v.a)
    default: S("{} {} {} {}", v.a, v.i, v.b, v.d)
    }
}

#if VP_TU == 0
// The first logger of a process estimates the TSC frequency by sleeping for up to
// two seconds on some processors. The programs log no TSC times, so it need not.
// Durability is not what is compared (see C07)
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
extern "C" int nanosleep(const timespec*, timespec*) { ::sched_yield(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { ::sched_yield(); return 0; }

namespace
{
    struct fixed_clock
    {
        std::chrono::sys_time<std::chrono::nanoseconds> now() const
        {
            return std::chrono::sys_time<std::chrono::nanoseconds>(std::chrono::nanoseconds(946688523123456789LL));
        }
    };

    FILE* script;
    FILE* results;
    [[noreturn]] void bad(const char* what) { std::fprintf(stderr, "driver: %s\n", what); std::_Exit(99); }
    std::string tok()
    {
        static char b[1 << 16];
        if (std::fscanf(script, "%65535s", b) != 1) bad("script ends");
        return b;
    }
    long long num() { return std::strtoll(tok().c_str(), nullptr, 10); }
    std::string str()
    {
        const std::string t = tok();
        std::string r;
        if (t == "-") return r;
        auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (std::size_t i = 0; i + 1 < t.size(); i += 2) r += char(h(t[i]) * 16 + h(t[i + 1]));
        return r;
    }

    namespace xd = xtr::detail;
    template<typename F> void request(const std::string& path, const F& f)
    {
        const int fd = ::socket(AF_LOCAL, SOCK_SEQPACKET, 0);
        sockaddr_un a{};
        a.sun_family = AF_LOCAL;
        std::memcpy(a.sun_path, path.data(), path.size());
        if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0)
        {
            std::fprintf(results, "cannot connect\n");
            ::close(fd);
            return;
        }
        const timeval tv{20, 0};
        ::setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        if (::send(fd, &f, sizeof f, MSG_NOSIGNAL) != ssize_t(sizeof f)) std::fprintf(results, "cannot send\n");
        char b[4096];
        for (;;)
        {
            ssize_t n = ::recv(fd, b, sizeof b, 0);
            if (n == 0 && (n = ::recv(fd, b, sizeof b, MSG_DONTWAIT)) < 0) n = 0; // see lib/cmd.hpp
            if (n < 0 && errno == EINTR) continue;
            if (n < 0) std::fprintf(results, "no response (%s)\n", std::strerror(errno));
            if (n <= 0) break;
            std::uint32_t id;
            std::memcpy(&id, b, 4);
            if (id == xd::sink_info::frame_id)
            {
                xd::frame<xd::sink_info> r;
                std::memcpy(static_cast<void*>(&r), b, sizeof r);
                std::fprintf(results, "info %s %d\n", r.payload.name, int(r.payload.level));
            }
            else if (id == xd::success::frame_id) std::fprintf(results, "success\n");
            else if (id == xd::error::frame_id)
            {
                xd::frame<xd::error> r;
                std::memcpy(static_cast<void*>(&r), b, sizeof r);
                std::fprintf(results, "error %s\n", r.payload.reason);
            }
            else std::fprintf(results, "unknown response\n");
        }
        ::close(fd);
    }
    xd::pattern pattern()
    {
        xd::pattern p{};
        p.type = xd::pattern_type_t(num());
        p.ignore_case = num() != 0;
        const std::string t = str();
        std::memcpy(p.text, t.data(), t.size());
        return p;
    }
    xtr::log_level_t level(long long l) { return xtr::log_level_t(l); }

    void fatal_op(long long kind, const std::string& path)
    {
        if (kind == 0) { xtr::logger l(path.c_str(), fixed_clock(), xtr::null_command_path); }
        else if (kind == 1) (void)xtr::log_level_from_string(path);
        else if (kind == 2) { xtr::posix_fd_storage st(-1, path); }
        else (void)xtr::make_fd_storage(path.c_str());
    }
}

int main(int, char** av)
{
    script = std::fopen(av[1], "r");
    results = std::fopen(av[2], "w");
    if (!script || !results) bad("cannot open");
    std::setvbuf(results, nullptr, _IOLBF, 0);
    constexpr std::size_t nl = 3, ns = 8;
    std::unique_ptr<xtr::logger> loggers[nl];
    std::unique_ptr<xtr::sink> sinks[ns];
    FILE* files[nl]{};
    std::vector<std::unique_ptr<std::string>> kept;
    for (;;)
    {
        const std::string op = tok();
        if (op == "end") break;
        std::fprintf(results, "%s\n", op.c_str());
        if (op == "logger")
        {
            const auto i = std::size_t(num()), kind = std::size_t(num());
            const std::string path = str(), cmd = str();
            const std::string cp = cmd.empty() ? std::string(xtr::null_command_path) : cmd;
            auto& l = loggers[i];
            switch (kind)
            {
            case 0: l = std::make_unique<xtr::logger>(path.c_str(), fixed_clock(), cp); break;
            case 1:
                files[i] = std::fopen(path.c_str(), "a");
                l = std::make_unique<xtr::logger>(path, files[i], fixed_clock(), cp);
                break;
            case 2: l = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(
                    ::open(path.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600), path, std::size_t(num())), fixed_clock(), cp); break;
            case 3: l = std::make_unique<xtr::logger>(xtr::make_fd_storage(path.c_str()), fixed_clock(), cp); break;
            case 4: l = std::make_unique<xtr::logger>(xtr::make_fd_storage(
                    ::open(path.c_str(), O_CREAT | O_WRONLY, 0600), path), fixed_clock(), cp); break;
            default:
            {
                const auto bc = std::size_t(num()), qs = std::size_t(num());
#if XTR_USE_IO_URING
                l = std::make_unique<xtr::logger>(std::make_unique<xtr::io_uring_fd_storage>(
                    ::open(path.c_str(), O_CREAT | O_WRONLY, 0600), path, bc, qs), fixed_clock(), cp);
#else
                (void)qs;
                l = std::make_unique<xtr::logger>(std::make_unique<xtr::posix_fd_storage>(
                    ::open(path.c_str(), O_CREAT | O_WRONLY, 0600), path, bc), fixed_clock(), cp);
#endif
            }
            }
        }
        else if (op == "unlogger")
        {
            const auto i = std::size_t(num());
            loggers[i].reset();
            if (files[i]) { std::fclose(files[i]); files[i] = nullptr; }
        }
        else if (op == "get")
        {
            const auto k = std::size_t(num()), i = std::size_t(num());
            sinks[k] = std::make_unique<xtr::sink>(loggers[i]->get_sink(str()));
        }
        else if (op == "new") { const auto k = std::size_t(num()); sinks[k] = std::make_unique<xtr::sink>(level(num())); }
        else if (op == "reg") { const auto k = std::size_t(num()), i = std::size_t(num()); loggers[i]->register_sink(*sinks[k], str()); }
        else if (op == "copy") { const auto k = std::size_t(num()); sinks[k] = std::make_unique<xtr::sink>(*sinks[std::size_t(num())]); }
        else if (op == "close") sinks[std::size_t(num())]->close();
        else if (op == "del") sinks[std::size_t(num())].reset();
        else if (op == "open") { const auto k = std::size_t(num()); std::fprintf(results, "is_open %d\n", sinks[k]->is_open()); }
        else if (op == "setlevel") { const auto k = std::size_t(num()); sinks[k]->set_level(level(num())); }
        else if (op == "level") { const auto k = std::size_t(num()); std::fprintf(results, "level %d\n", int(sinks[k]->level())); }
        else if (op == "name") { const auto k = std::size_t(num()); sinks[k]->set_name(str()); }
        else if (op == "deflevel") { const auto i = std::size_t(num()); loggers[i]->set_default_log_level(level(num())); }
        else if (op == "cmdpath") { const auto i = std::size_t(num()); loggers[i]->set_command_path(str()); }
        else if (op == "sync") { auto& s = *sinks[std::size_t(num())]; s.sync(); s.sync(); }
        else if (op == "parse") std::fprintf(results, "parsed %d\n", int(xtr::log_level_from_string(str())));
        else if (op == "defpath")
        {
            const std::string a = xtr::default_command_path(), b = xtr::default_command_path();
            std::fprintf(results, "different %d\n", a != b);
        }
        else if (op == "log")
        {
            const auto k = std::size_t(num());
            const unsigned where = unsigned(num()), fam = unsigned(num()), lv = unsigned(num()), shape = unsigned(num());
            values v;
            v.a = str(); v.b = str(); v.i = num(); v.d = double(num()) / 16; v.t = num() != 0;
            kept.push_back(std::make_unique<std::string>(v.a));
            v.kept = kept.back().get();
            auto& s = *sinks[k];
            if (where == 0) log_tu0(s, fam, lv, shape, v);
            else if (where == 1) log_tu1(s, fam, lv, shape, v);
            else std::thread([&] { log_tu1(s, fam, lv, shape, v); }).join();
        }
        else if (op == "status")
        {
            const std::string p = str();
            xd::frame<xd::status> f{};
            f->pattern = pattern();
            request(p, f);
        }
        else if (op == "cmdlevel")
        {
            const std::string p = str();
            xd::frame<xd::set_level> f{};
            f->level = level(num());
            f->pattern = pattern();
            request(p, f);
        }
        else if (op == "reopen") { const std::string p = str(); request(p, xd::frame<xd::reopen>{}); }
        else if (op == "rename") { const std::string a = str(), b = str(); if (std::rename(a.c_str(), b.c_str()) != 0) bad("rename"); }
        else if (op == "fatal")
        {
            const long long kind = num();
            const std::string path = str();
#if __cpp_exceptions
            try { fatal_op(kind, path); std::fprintf(results, "returned\n"); }
            catch (const std::exception& e) { std::fprintf(results, "caught %s\n", e.what()); }
#else
            fatal_op(kind, path);
            std::fprintf(results, "returned\n");
#endif
        }
        else bad("unknown operation");
    }
    for (auto& s : sinks) s.reset();
    for (auto& l : loggers) l.reset();
    for (auto& f : files) if (f) std::fclose(f);
    std::fprintf(results, "end\n");
    return 0;
}
#endif
