// A raw client of the command socket, and reference pattern matching.
#pragma once

#include "common.hpp"

#include <xtr/detail/commands/frame.hpp>
#include <xtr/detail/commands/pattern.hpp>
#include <xtr/detail/commands/requests.hpp>
#include <xtr/detail/commands/responses.hpp>

#include <fnmatch.h>
#include <regex.h>

namespace vp
{
    namespace xd = xtr::detail;

    // Did the last connection end with a reset instead of end of file?
    inline bool& was_reset() { static thread_local bool b; return b; }

    // recv which is not fooled by a race in Linux's blocking receive on a
    // SEQPACKET socket: it looks at the queue, then at whether the peer has
    // closed, and so reports end of file if packets and close both come between.
    inline ssize_t recv_packet(int fd, void* p, std::size_t n)
    {
        const ssize_t r = ::recv(fd, p, n, 0);
        if (r != 0) return r;
        const ssize_t r2 = ::recv(fd, p, n, MSG_DONTWAIT);
        return r2 > 0 ? r2 : 0;
    }

    struct client
    {
        int fd = -1;
        client() = default;
        client(const client&) = delete;
        client(client&& o) noexcept : fd(std::exchange(o.fd, -1)) {}
        client& operator=(client&& o) noexcept { std::swap(fd, o.fd); return *this; }
        ~client() { disconnect(); }
        void disconnect() { if (fd >= 0) { ::close(fd); fd = -1; } }

        // Path may begin with NUL (abstract)
        int try_connect(const std::string& path)
        {
            disconnect();
            fd = ::socket(AF_LOCAL, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
            if (fd < 0) infra("socket failed");
            sockaddr_un a{};
            a.sun_family = AF_LOCAL;
            if (path.size() >= sizeof a.sun_path) { disconnect(); return ENAMETOOLONG; }
            std::memcpy(a.sun_path, path.data(), path.size());
            // A full backlog makes a blocking connect wait, which is what is wanted
            int r;
            do r = ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a); while (r != 0 && errno == EINTR);
            if (r != 0)
            {
                const int e = errno;
                disconnect();
                return e;
            }
            const timeval tv{20, 0};
            ::setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
            ::setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
            return 0;
        }
        void connect(const std::string& path)
        {
            if (const int e = try_connect(path)) failf("cannot connect to the command socket: %s", std::strerror(e));
        }
        bool send_raw(const void* p, std::size_t n)
        {
            ssize_t r;
            do r = ::send(fd, p, n, MSG_NOSIGNAL); while (r < 0 && errno == EINTR);
            return r == ssize_t(n);
        }
        template<typename F> void send(const F& f) { if (!send_raw(&f, sizeof f)) failf("cannot send a command: %s", std::strerror(errno)); }

        // Reads every response until the connection is closed by the logger
        std::vector<std::string> replies()
        {
            std::vector<std::string> r;
            was_reset() = false;
            char b[4096];
            for (;;)
            {
                const ssize_t n = recv_packet(fd, b, sizeof b);
                if (n == 0) return r;
                if (n < 0)
                {
                    if (errno == EINTR) continue;
                    if (errno == EAGAIN || errno == EWOULDBLOCK) failf("no response, and the connection was not closed, within 20 s (%zu responses)", r.size());
                    if (errno == ECONNRESET) { was_reset() = true; return r; }
                    failf("receiving a response failed: %s", std::strerror(errno));
                }
                r.emplace_back(b, std::size_t(n));
            }
        }
    };

    enum class rk { info, success, error };
    struct reply { rk kind; xd::sink_info info{}; std::string reason; };

    // Every response must be a well-formed frame
    inline reply parse_reply(const std::string& s)
    {
        reply r{};
        std::uint32_t id;
        if (s.size() < 4) failf("response of %zu bytes is not a frame", s.size());
        std::memcpy(&id, s.data(), 4);
        if (id == xd::sink_info::frame_id && s.size() == sizeof(xd::frame<xd::sink_info>))
        {
            xd::frame<xd::sink_info> f;
            std::memcpy(static_cast<void*>(&f), s.data(), sizeof f);
            r.kind = rk::info;
            r.info = f.payload;
            if (std::memchr(r.info.name, 0, sizeof r.info.name) == nullptr) failf("sink name in a response is not terminated");
        }
        else if (id == xd::success::frame_id && s.size() == sizeof(xd::frame<xd::success>)) r.kind = rk::success;
        else if (id == xd::error::frame_id && s.size() == sizeof(xd::frame<xd::error>))
        {
            xd::frame<xd::error> f;
            std::memcpy(static_cast<void*>(&f), s.data(), sizeof f);
            r.kind = rk::error;
            if (std::memchr(f.payload.reason, 0, sizeof f.payload.reason) == nullptr) failf("reason in a response is not terminated");
            r.reason = f.payload.reason;
            if (r.reason.empty()) failf("error response without a reason");
        }
        else failf("malformed response: id %u, %zu bytes", id, s.size());
        return r;
    }

    template<typename F>
    std::vector<reply> request(const std::string& path, const F& f)
    {
        client c;
        c.connect(path);
        c.send(f);
        std::vector<reply> r;
        for (auto& s : c.replies()) r.push_back(parse_reply(s));
        return r;
    }

    inline xd::pattern make_pattern(xd::pattern_type_t t, bool ic, const std::string& text)
    {
        xd::pattern p{};
        p.type = t;
        p.ignore_case = ic;
        std::memcpy(p.text, text.data(), std::min(text.size(), sizeof p.text));
        return p;
    }

    // Reference: 1 matches, 0 does not, -1 the pattern is invalid
    inline int ref_match(xd::pattern_type_t t, bool ic, const std::string& text, const std::string& name)
    {
        const std::string pat = text.substr(0, 255).c_str();
        switch (t)
        {
        case xd::pattern_type_t::wildcard: return ::fnmatch(pat.c_str(), name.c_str(), ic ? FNM_CASEFOLD : 0) == 0;
        case xd::pattern_type_t::basic_regex:
        case xd::pattern_type_t::extended_regex:
            {
                regex_t re;
                if (::regcomp(&re, pat.c_str(), REG_NOSUB | (ic ? REG_ICASE : 0) | (t == xd::pattern_type_t::extended_regex ? REG_EXTENDED : 0)) != 0) return -1;
                const int r = ::regexec(&re, name.c_str(), 0, nullptr, 0) == 0;
                ::regfree(&re);
                return r;
            }
        default: return 1;
        }
    }

    // Names are related to each other so that patterns select some of them
    inline std::string gen_name(Src& s, bool newlines = false)
    {
        static const char* stem[] = {"net", "Net", "disk", "db", "NET", "a", "net.rx", "net-tx", "Database", "x*y", "[z]", "q\\w",
            "net/tcp", "net/tcp/rx", ".net", "db/.x", "a\xc3\xa4", "$net^"};
        std::string r = stem[s.draw(18)];
        if (newlines && s.chance(40)) r += std::string("\n") + stem[s.draw(18)];
        if (s.chance(600)) r += std::to_string(s.draw(12));
        if (s.chance(80)) r += std::string(s.size(200), 'L');
        if (s.chance(120)) r = "net" + std::string(s.pick<std::size_t>({30, 60, 100, 123, 124, 125, 126}), 'L') + std::to_string(s.draw(12)); // differ late
        if (s.chance(50)) r += " with space";
        return r;
    }

    inline std::string gen_pattern(Src& s, xd::pattern_type_t t)
    {
        static const char* re[] = {"net", "^net", "net[0-9]*$", "^[a-d]", "n.t", "[", "[0-9]", "^$", "", ".*", "a\\|net", "\\(", "x*", "net\\.", "[[:upper:]]", "^.\\{3\\}$", "\\(n\\)et", "[z-a]", "\\", "base$"};
        static const char* ere[] = {"net", "^(net|db)", "net[0-9]+$", "(", "a{2,1}", "n?e+t", "^[A-Z]", "", ".", "[", "*", "(a|b)*c", "net|disk", "^.{4}$", ")", "[[:digit:]]", "\\.", "x{1", "(net", "1$"};
        static const char* wc[] = {"*", "net*", "?et", "[a-d]*", "", "net", "*[0-9]", "[", "x\\*y", "*.rx", "[!n]*", "?", "***", "N*", "\\[z\\]", "*e*", "[z]", "q\\\\w", "db?", "-"};
        std::string r;
        switch (t)
        {
        case xd::pattern_type_t::basic_regex: r = re[s.draw(20)]; break;
        case xd::pattern_type_t::extended_regex: r = ere[s.draw(20)]; break;
        default: r = wc[s.draw(20)]; break;
        }
        if (s.chance(100)) r += s.printable(s.draw(6));
        if (s.chance(60)) r = s.printable(s.draw(12));
        return r;
    }

    // A pattern which generalises (or nearly) a given name
    inline std::string pattern_from_name(Src& s, xd::pattern_type_t t, const std::string& full)
    {
        const std::string name = full.substr(0, 40);
        const bool wild = t == xd::pattern_type_t::wildcard, ere = t == xd::pattern_type_t::extended_regex;
        const std::string special = wild ? "*?[]\\" : ere ? ".[]\\*^$+?(){}|" : ".[]\\*^$";
        std::string r;
        std::size_t i = 0, end = name.size();
        if (!wild)
        {
            if (s.chance(300)) r += '^';
            else if (s.chance(300)) i = s.draw(end + 1);
            if (s.chance(300)) end = i + s.draw(end - i + 1);
        }
        while (i < end)
        {
            const char c = name[i++];
            switch (s.weighted({12, 2, 2, 2, 1}))
            {
            case 0:
                if (special.find(c) != special.npos && !s.chance(100)) r += '\\';
                r += c;
                if (!wild && s.chance(60)) r += '*';
                if (ere && s.chance(60)) r += s.pick({'+', '?'});
                break;
            case 1: r += wild ? '?' : '.'; break;
            case 2:
                i += s.draw(end - i + 1);
                r += wild ? "*" : ".*";
                break;
            case 3:
                if (c == ']' || c == '^' || c == '!' || c == '-' || c == '\\' || c == '[') { r += wild ? '?' : '.'; break; }
                r += s.chance(250) ? (wild ? "[!" : "[^") : "[";
                r += c;
                if (s.chance(500)) r += "a-d";
                r += ']';
                break;
            case 4:
                if (ere) { r += "(x|"; if (special.find(c) != special.npos) r += '\\'; r += c; r += ')'; }
                else r += c;
                break;
            }
        }
        if (!wild && s.chance(250)) r += '$';
        if (wild && s.chance(100)) r += '*';
        if (s.chance(150)) for (auto& c : r) if (s.chance(500)) c = char(std::isupper((unsigned char)c) ? std::tolower((unsigned char)c) : std::toupper((unsigned char)c));
        return r.substr(0, 255);
    }
}
