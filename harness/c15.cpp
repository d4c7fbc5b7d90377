// C15: no client of the command socket can disturb the logger or other clients.
#include "cmd.hpp"

#include <sys/resource.h>

using namespace vp;

vp::Info vp_info{
    "C15",
    "a case is a history over up to 24 (at times 324) simultaneous connections: connecting, sending generated packets (valid requests, requests with changed bytes, lengths, ids, enumerators and unterminated patterns, random bytes, several packets, "
    "passed descriptors), reading all, some or none of the responses, half-closing, disconnecting at any point, or running the process out of descriptors, with 1-6 (occasionally 350) sinks on which messages are logged throughout. Each complete "
    "request of a client that stays is answered as a reference decoder says, every response is well-formed, each connection is then closed, no descriptor is leaked and the log is complete and in order. Non-trivial: at "
    "least one malformed request or early disconnection, and one valid request answered after it.",
    40, 3};

void vp_worker_init() {}

namespace
{
    struct conn
    {
        client c;
        bool sent = false;
        std::string packet;      // the first packet sent
        bool extra = false;      // more packets followed
        bool half = false;
        std::vector<std::string> levels_before;
    };

    struct sinks
    {
        std::vector<std::unique_ptr<xtr::sink>> s;
        std::vector<std::string> name;
        std::vector<unsigned> logged;
    };

    // Reads until the connection is closed; a reset (the logger closed the
    // connection with packets unread) may come before the responses
    std::vector<reply> read_all(client& c)
    {
        std::vector<reply> r;
        char b[4096];
        bool reset = false;
        for (;;)
        {
            const ssize_t n = recv_packet(c.fd, b, sizeof b);
            if (n == 0) return r;
            if (n < 0)
            {
                if (errno == EINTR) continue;
                if (errno == ECONNRESET && !reset) { reset = true; continue; }
                if (errno == ECONNRESET) return r;
                failf("no response, and the connection was not closed, within 20 s (%s, %zu responses)", std::strerror(errno), r.size());
            }
            r.push_back(parse_reply(std::string(b, std::size_t(n))));
        }
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    const std::size_t fds0 = count_fds();
    auto ms = std::make_shared<mem_state>();
    const std::string path = ctx.dir() + "/sock";
    ::unlink(path.c_str());
    const bool many = src.chance(8);
    const unsigned ns = many ? 350 : unsigned(src.range(1, 6));
    bool bad_seen = false, good_after = false;
    sinks sk;
    {
        xtr::logger log(std::make_unique<mem_storage>(ms, 4096), fixed_clock(), path);
        for (unsigned i = 0; i < ns; ++i)
        {
            sk.name.push_back(many ? fmt::format("many{}", i) : gen_name(src));
            sk.s.emplace_back(new xtr::sink);
            log.register_sink(*sk.s.back(), sk.name.back());
            sk.logged.push_back(0);
        }
        // Registration is asynchronous: commands may be served before it
        sk.s.back()->sync();
        const std::size_t fds1 = count_fds();
        std::vector<std::unique_ptr<conn>> cs;

        auto log_some = [&] {
            const unsigned i = unsigned(src.draw(ns));
            for (unsigned k = unsigned(src.range(1, 5)); k; --k) { XTR_LOG(*sk.s[i], "{}:{}", i, sk.logged[i]); ++sk.logged[i]; }
        };

        auto gen_packet = [&]() -> std::string {
            std::string p;
            auto pat = [&](xd::pattern& q) {
                const auto t = src.pick({xd::pattern_type_t::none, xd::pattern_type_t::wildcard, xd::pattern_type_t::basic_regex, xd::pattern_type_t::extended_regex});
                std::string text = gen_pattern(src, t);
                if (t == xd::pattern_type_t::wildcard && src.chance(200)) text = src.anybytes(src.chance(300) ? 256 : src.size(256));
                if (t == xd::pattern_type_t::basic_regex && src.chance(100)) text = std::string(256, 'n'); // unterminated
                q = make_pattern(t, src.chance(300), text);
                if (src.chance(60)) q.type = xd::pattern_type_t(src.pick<int>({4, -1, 1000, 5, 0x7fffffff}));
                if (src.chance(100)) q.ignore_case = (unsigned char)src.draw(256);
            };
            switch (src.draw(3))
            {
            case 0: { xd::frame<xd::status> f; pat(f->pattern); p.assign(reinterpret_cast<char*>(&f), sizeof f); break; }
            case 1:
                {
                    xd::frame<xd::set_level> f;
                    pat(f->pattern);
                    f->level = xtr::log_level_t(src.chance(700) ? int(src.draw(6)) : int(std::int32_t(src.u64())));
                    p.assign(reinterpret_cast<char*>(&f), sizeof f);
                    break;
                }
            case 2: { xd::frame<xd::reopen> f; p.assign(reinterpret_cast<char*>(&f), sizeof f); break; }
            }
            switch (src.weighted({10, 2, 2, 2, 2, 1}))
            {
            case 1: p.resize(src.draw(p.size()) + 1); break;                                   // cut
            case 2: p += src.anybytes(src.chance(200) ? 512 : 1 + src.size(600)); break;        // extended
            case 3: { std::uint32_t id = src.chance(500) ? std::uint32_t(src.draw(12)) : std::uint32_t(src.u64()); std::memcpy(p.data(), &id, 4); break; }
            case 4: p = src.anybytes(1 + src.size(700)); break;                                 // random bytes
            case 5: p = std::string(src.pick<std::size_t>({1, 2, 3, 4, 5, 511, 512, 513, 4096, 60000}), char(src.draw(256))); break;
            }
            return p;
        };

        auto status_reply = [&](const xd::pattern& q, std::size_t& count) -> int { // -1 error, else the number of matching sinks
            count = 0;
            const std::string text(q.text, sizeof q.text);
            for (auto& n : sk.name)
            {
                const int m = ref_match(q.type, q.ignore_case != 0, text, n);
                if (m < 0) return -1;
                count += std::size_t(m);
            }
            return 0;
        };

        // Is the answer right? Returns whether the request was valid
        auto judge = [&](const std::string& p, const std::vector<reply>& r) -> bool {
            auto is_error = [&](const char* why) {
                if (r.size() != 1 || r[0].kind != rk::error) failf("a malformed request (%s, %zu bytes) was not answered with one error but with %zu responses", why, p.size(), r.size());
                return false;
            };
            std::uint32_t id = 0;
            if (p.size() < 4) return is_error("header incomplete");
            std::memcpy(&id, p.data(), 4);
            if (id == xd::reopen::frame_id)
            {
                if (p.size() != sizeof(xd::frame<xd::reopen>)) return is_error("length of reopen");
                if (r.size() != 1 || r[0].kind != rk::success) failf("reopen was not answered with success");
                return true;
            }
            if (id == xd::status::frame_id)
            {
                if (p.size() != sizeof(xd::frame<xd::status>)) return is_error("length of status");
                xd::frame<xd::status> f;
                std::memcpy(static_cast<void*>(&f), p.data(), sizeof f);
                if (int(f->pattern.type) < 0 || int(f->pattern.type) > 3) return false; // not specified
                std::size_t want;
                if (status_reply(f->pattern, want) < 0) return is_error("pattern");
                if (r.size() != want) failf("status was answered with %zu responses, expected %zu", r.size(), want);
                for (auto& x : r) if (x.kind != rk::info) failf("status was answered with something else than sink information");
                return true;
            }
            if (id == xd::set_level::frame_id)
            {
                if (p.size() != sizeof(xd::frame<xd::set_level>)) return is_error("length of set_level");
                xd::frame<xd::set_level> f;
                std::memcpy(static_cast<void*>(&f), p.data(), sizeof f);
                if (int(f->level) < 0 || int(f->level) > 5) return is_error("level");
                if (int(f->pattern.type) < 0 || int(f->pattern.type) > 3) return false;
                std::size_t want;
                if (status_reply(f->pattern, want) < 0) return is_error("pattern");
                if (r.size() != 1 || r[0].kind != rk::success) failf("a valid set-level request was answered with %s", r.empty() ? "nothing" : r[0].reason.c_str());
                return true;
            }
            return is_error("frame id");
        };

        auto finish = [&](conn& c) {
            if (!c.sent)
            {
                // Nothing sent: half-close, then the logger must close too
                ::shutdown(c.c.fd, SHUT_WR);
                if (!read_all(c.c).empty()) failf("a response without a request");
                return;
            }
            const auto r = read_all(c.c);
            if (judge(c.packet, r)) { if (bad_seen) good_after = true; }
            else bad_seen = true;
        };

        if (src.chance(30))
        {
            // A crowd of clients, most of which will be idle
            const unsigned k = unsigned(src.range(30, 300));
            ctx.note("%u connections", k);
            for (unsigned i = 0; i < k; ++i)
            {
                cs.push_back(std::make_unique<conn>());
                cs.back()->c.connect(path);
            }
            ctx.label("crowd");
        }
        std::size_t n = 0;
        const std::size_t lim = many ? 25 : 90;
        while (src.more(n, many ? 8 : 35, lim))
        {
            ++n;
            if (src.chance(400)) log_some();
            if (cs.empty() || src.chance(250))
            {
                if (cs.size() < 24)
                {
                    cs.push_back(std::make_unique<conn>());
                    cs.back()->c.connect(path);
                    ctx.note("connect %zu", cs.size());
                }
                continue;
            }
            const std::size_t i = src.draw(cs.size());
            conn& c = *cs[i];
            switch (src.weighted({10, 6, 3, 2, 1, 2, 1}))
            {
            case 0: // send
                {
                    std::string p = gen_packet();
                    const bool first = !c.sent;
                    ctx.note("send %zu bytes on %zu%s", p.size(), i, first ? "" : " (another)");
                    if (first)
                    {
                        if (!c.c.send_raw(p.data(), p.size())) { if (!c.half) failf("cannot send on a new connection: %s", std::strerror(errno)); break; }
                        c.sent = true;
                        c.packet = p;
                    }
                    else
                    {
                        // The connection may have been closed already
                        (void)::send(c.c.fd, p.data(), p.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
                        c.extra = true;
                    }
                }
                break;
            case 1: // read everything, leave
                ctx.note("finish %zu", i);
                finish(c);
                cs.erase(cs.begin() + std::ptrdiff_t(i));
                break;
            case 2: // leave at once
                ctx.note("disconnect %zu", i);
                bad_seen = true;
                cs.erase(cs.begin() + std::ptrdiff_t(i));
                break;
            case 3: // read one response, if there is one, then leave
                {
                    ctx.note("read some of %zu and disconnect", i);
                    char b[1024];
                    for (unsigned k = unsigned(src.range(1, 3)); k; --k)
                    {
                        const ssize_t r = ::recv(c.c.fd, b, sizeof b, MSG_DONTWAIT);
                        if (r > 0) parse_reply(std::string(b, std::size_t(r)));
                    }
                    bad_seen = true;
                    cs.erase(cs.begin() + std::ptrdiff_t(i));
                }
                break;
            case 4: // half-close
                ctx.note("shutdown %zu", i);
                if (c.sent) { ::shutdown(c.c.fd, SHUT_WR); c.half = true; finish(c); }
                else { finish(c); bad_seen = true; }
                cs.erase(cs.begin() + std::ptrdiff_t(i));
                break;
            case 5: // pass a descriptor along with the request
                {
                    if (c.sent) break;
                    std::string p = gen_packet();
                    msghdr h{};
                    iovec v{p.data(), p.size()};
                    alignas(cmsghdr) char ctl[CMSG_SPACE(sizeof(int) * 2)]{};
                    h.msg_iov = &v;
                    h.msg_iovlen = 1;
                    h.msg_control = ctl;
                    h.msg_controllen = sizeof ctl;
                    auto* cm = CMSG_FIRSTHDR(&h);
                    cm->cmsg_level = SOL_SOCKET;
                    cm->cmsg_type = SCM_RIGHTS;
                    cm->cmsg_len = CMSG_LEN(sizeof(int) * 2);
                    const int f[2] = {c.c.fd, 0};
                    std::memcpy(CMSG_DATA(cm), f, sizeof f);
                    if (::sendmsg(c.c.fd, &h, MSG_NOSIGNAL) < 0) break;
                    ctx.note("send %zu bytes and descriptors on %zu", p.size(), i);
                    c.sent = true;
                    c.packet = p;
                    ctx.label("scm_rights");
                }
                break;
            case 6: // run out of descriptors while clients connect
                {
                    if (!src.chance(300)) break;
                    client nc[3];
                    for (auto& x : nc) x.fd = ::socket(AF_LOCAL, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
                    rlimit rl, low;
                    ::getrlimit(RLIMIT_NOFILE, &rl);
                    const int saved = ::fcntl(2, F_DUPFD_CLOEXEC, 3), nul = ::open("/dev/null", O_WRONLY | O_CLOEXEC);
                    std::fflush(stderr);
                    ::dup2(nul, 2);
                    // Fill holes, so that the limit is reached at once
                    std::vector<int> holes;
                    int top = 0;
                    for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) top = std::max(top, std::atoi(e.path().filename().c_str()));
                    for (;;) { const int f = ::dup(0); if (f < 0) break; holes.push_back(f); if (f > top) break; }
                    low = rl;
                    low.rlim_cur = rlim_t((holes.empty() ? top : holes.back()) + 1);
                    ::setrlimit(RLIMIT_NOFILE, &low);
                    sockaddr_un a{};
                    a.sun_family = AF_LOCAL;
                    std::memcpy(a.sun_path, path.data(), path.size());
                    for (auto& x : nc)
                    {
                        if (::connect(x.fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) infra("connect");
                        const timeval tv{20, 0};
                        ::setsockopt(x.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
                    }
                    ctx.note("out of descriptors");
                    log_some();
                    for (unsigned k = 0; k < std::min(ns, 6u); ++k) sk.s[k]->sync();
                    ::usleep(300);
                    ::setrlimit(RLIMIT_NOFILE, &rl);
                    for (int f : holes) ::close(f);
                    ::dup2(saved, 2);
                    ::close(saved);
                    ::close(nul);
                    xd::frame<xd::reopen> f;
                    for (auto& x : nc)
                    {
                        x.send(f);
                        const auto r = read_all(x);
                        if (r.size() != 1 || r[0].kind != rk::success) failf("a request made while the process was out of descriptors was not answered later");
                    }
                    ctx.label("out_of_descriptors");
                }
                break;
            }
        }
        // A well-behaved client is served, whatever the others do
        {
            xd::frame<xd::status> f;
            f->pattern = make_pattern(xd::pattern_type_t::none, false, "");
            const auto r = request(path, f);
            if (r.size() != ns) failf("status was answered with %zu responses for %u sinks%s", r.size(), ns, was_reset() ? " (connection reset)" : "");
            if (bad_seen) good_after = true;
        }
        for (auto& c : cs) finish(*c);
        cs.clear();
        // Clients that are gone are forgotten, whether or not they were answered
        if (!eventually([&] { return count_fds() == fds1; }))
            failf("%zu file descriptors are open 20 s after the last client has gone, %zu before the first", count_fds(), fds1);
        log_some();
        if (src.chance(500)) for (auto& s : sk.s) s->sync();
        sk.s.clear();
    }
    // The log is complete and in order
    std::vector<unsigned> next(ns);
    for (auto& ln : split_lines(ms->text()))
    {
        const auto p = ln.find(" c15.cpp:");
        const auto q = p == std::string::npos ? p : ln.find(": ", p);
        if (q == std::string::npos) failf("unexpected line %s", quote(ln).c_str());
        unsigned i = 0, k = 0;
        if (std::sscanf(ln.c_str() + q + 2, "%u:%u", &i, &k) != 2 || i >= ns || next[i] != k) failf("unexpected line %s", quote(ln).c_str());
        ++next[i];
    }
    for (unsigned i = 0; i < ns; ++i) if (next[i] != sk.logged[i]) failf("%u of %u messages of sink %u were logged", next[i], sk.logged[i], i);
    if (const auto n = count_fds(); n != fds0) failf("%zu file descriptors are open, %zu before", n, fds0);
    ctx.nontrivial(bad_seen && good_after);
    if (many) ctx.label("many_sinks");
}
