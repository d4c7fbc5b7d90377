// Helpers shared by the harnesses: instrumented back-ends, gates, clocks,
// command clients and log line parsing.
#pragma once

#include "engine.hpp"

#include <xtr/logger.hpp>
#include <xtr/formatters.hpp>

#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

namespace vp
{
    // A clock that always returns the same instant, 2000-01-01 01:02:03.123456
    struct fixed_clock
    {
        std::chrono::sys_time<std::chrono::nanoseconds> now() const
        {
            return std::chrono::sys_time<std::chrono::nanoseconds>(
                std::chrono::nanoseconds(946688523123456789LL));
        }
    };
    inline const std::string fixed_ts = "2000-01-01 01:02:03.123456";

    // ---------------------------------------------------------------- storage
    struct mem_state
    {
        std::mutex m;
        std::string data;                 // everything submitted
        std::size_t flushed = 0;          // data.size() at the last flush
        std::size_t synced = 0;           // data.size() at the last sync
        std::uint64_t nalloc = 0, nsubmit = 0, nflush = 0, nsync = 0, nreopen = 0;
        bool destroyed = false;
        int reopen_result = 0;

        std::string text()
        {
            std::scoped_lock l{m};
            return data;
        }
    };

    struct mem_storage : xtr::storage_interface
    {
        std::shared_ptr<mem_state> st;
        std::vector<char> buf;

        mem_storage(std::shared_ptr<mem_state> s, std::size_t bufsz)
        : st(std::move(s)), buf(bufsz) {}

        ~mem_storage() override
        {
            std::scoped_lock l{st->m};
            st->destroyed = true;
        }
        std::span<char> allocate_buffer() override
        {
            std::scoped_lock l{st->m};
            ++st->nalloc;
            return {buf.data(), buf.size()};
        }
        void submit_buffer(char* p, std::size_t n) override
        {
            std::scoped_lock l{st->m};
            ++st->nsubmit;
            st->data.append(p, n);
        }
        void flush() override
        {
            std::scoped_lock l{st->m};
            ++st->nflush;
            st->flushed = st->data.size();
        }
        void sync() noexcept override
        {
            std::scoped_lock l{st->m};
            ++st->nsync;
            st->synced = st->data.size();
        }
        int reopen() noexcept override
        {
            std::scoped_lock l{st->m};
            ++st->nreopen;
            return st->reopen_result;
        }
    };

    // ------------------------------------------------------------------ gates
    // An argument whose formatting blocks the background thread until the gate
    // is opened.
    struct gate
    {
        struct state
        {
            std::mutex m;
            std::condition_variable cv;
            bool open = false, entered = false;
        };
        std::shared_ptr<state> s = std::make_shared<state>();

        void open()
        {
            std::scoped_lock l{s->m};
            s->open = true;
            s->cv.notify_all();
        }
        void wait_entered()
        {
            std::unique_lock l{s->m};
            s->cv.wait(l, [&] { return s->entered; });
        }
    };

    struct gate_arg
    {
        gate::state* s; // owner outlives the logger
    };

    // ----------------------------------------------------------------- lines
    struct line
    {
        std::string level, ts, name, file, msg;
        unsigned lineno = 0;
    };

    inline std::vector<std::string> split_lines(const std::string& s)
    {
        std::vector<std::string> r;
        std::size_t b = 0;
        while (b < s.size())
        {
            const auto e = s.find('\n', b);
            if (e == std::string::npos) { r.push_back(s.substr(b)); break; }
            r.push_back(s.substr(b, e - b));
            b = e + 1;
        }
        return r;
    }

    // Parses "L <ts: 26 characters> <name> <file>:<line>: <msg>", where name
    // contains no spaces
    inline bool parse_line(const std::string& s, line& l)
    {
        if (s.size() < 30 || s[1] != ' ' || s[28] != ' ') return false;
        l.level = s.substr(0, 1);
        l.ts = s.substr(2, 26);
        auto p = s.find(' ', 29);
        if (p == std::string::npos) return false;
        l.name = s.substr(29, p - 29);
        auto q = s.find(": ", p + 1);
        if (q == std::string::npos) return false;
        const std::string fl = s.substr(p + 1, q - p - 1);
        l.msg = s.substr(q + 2);
        const auto c = fl.find(':');
        l.file = fl.substr(0, c);
        l.lineno = c == std::string::npos ? 0 : unsigned(std::atoi(fl.c_str() + c + 1));
        return true;
    }

    // Reference sanitizer: printable ASCII other than backslash is unchanged,
    // everything else becomes \xHH
    inline std::string sanitized(std::string_view s)
    {
        std::string r;
        char b[8];
        for (unsigned char c : s)
        {
            if (c >= 0x20 && c <= 0x7e && c != '\\') r += char(c);
            else { std::snprintf(b, sizeof b, "\\x%02X", c); r += b; }
        }
        return r;
    }

    inline std::string read_file(const std::string& p)
    {
        std::ifstream f(p, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }

    // Generous bounded wait for an asynchronous effect which must happen; the
    // bound is far beyond anything a loaded machine needs.
    template<typename F>
    bool eventually(F&& f, double seconds = 20)
    {
        const auto t0 = std::chrono::steady_clock::now();
        for (unsigned i = 0;; ++i)
        {
            if (f()) return true;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds)
                return f();
            if (i < 50) std::this_thread::yield();
            else ::usleep(200);
        }
    }

    inline void jitter(unsigned n)
    {
        // A schedule perturbation of drawn strength
        if (n == 0) return;
        if (n < 8) { for (unsigned i = 0; i < n * 40; ++i) asm volatile("" ::: "memory"); }
        else if (n < 14) ::sched_yield();
        else ::usleep(n);
    }

    inline std::size_t count_fds()
    {
        std::size_t n = 0;
        for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; }
        return n;
    }
}

template<>
struct fmt::formatter<vp::gate_arg>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const vp::gate_arg& g, C& c) const
    {
        std::unique_lock l{g.s->m};
        g.s->entered = true;
        g.s->cv.notify_all();
        g.s->cv.wait(l, [&] { return g.s->open; });
        return fmt::format_to(c.out(), "gate");
    }
};
