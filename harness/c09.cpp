// C09: back-ends are called as the storage interface promises.
#include "cmd.hpp"

using namespace vp;

vp::Info vp_info{
    "C09",
    "a case is a history of logging bursts on up to 4 sinks from 1-2 threads, closes, re-registrations, syncs, reopen commands and idle periods, on a back-end that hands out exactly sized "
    "buffers of generated, changing capacities (1 byte to 64 KiB) and checks every call: calling thread, outstanding buffers, pointer and size of each submit, contents. At each idle point everything "
    "logged must be submitted and then flushed within a generous time without further stimulus; at the end the concatenation of the buffers must be exactly the log and the numbers of sync and "
    "reopen calls those requested. Non-trivial: at least 3 buffers submitted and one idle point reached.",
    45, 4};

void vp_worker_init() {}

namespace
{
    struct state
    {
        std::mutex m;
        std::string data;
        std::size_t flushed = 0;
        std::uint64_t nsubmit = 0, nsync = 0, nreopen = 0;
        std::thread::id tid{};
        std::unique_ptr<char[]> buf;
        std::size_t cap = 0;
        bool destroyed = false;
        std::vector<std::size_t> caps;
        std::size_t next_cap = 0;
        int reopen_result = 0;

        void thread_check(const char* what)
        {
            if (tid == std::thread::id{}) tid = std::this_thread::get_id();
            else if (tid != std::this_thread::get_id()) failf("%s called from a second thread", what);
            if (destroyed) failf("%s called after destruction", what);
        }
    };

    struct checked : xtr::storage_interface
    {
        std::shared_ptr<state> s;
        explicit checked(std::shared_ptr<state> x) : s(std::move(x)) {}
        ~checked() override
        {
            std::scoped_lock l{s->m};
            if (s->buf) failf("destroyed with a buffer that was never submitted");
            s->destroyed = true;
        }
        std::span<char> allocate_buffer() override
        {
            std::scoped_lock l{s->m};
            s->thread_check("allocate_buffer");
            if (s->buf) failf("allocate_buffer called while a buffer is outstanding");
            s->cap = s->caps[s->next_cap++ % s->caps.size()];
            s->buf.reset(new char[s->cap]);
            std::memset(s->buf.get(), 0x7f, s->cap);
            return {s->buf.get(), s->cap};
        }
        void submit_buffer(char* p, std::size_t n) override
        {
            std::scoped_lock l{s->m};
            s->thread_check("submit_buffer");
            if (!s->buf) failf("submit_buffer called without an outstanding buffer");
            if (p != s->buf.get()) failf("submit_buffer called with another pointer than was allocated");
            if (n == 0 || n > s->cap) failf("submit_buffer called with size %zu for a buffer of %zu", n, s->cap);
            s->data.append(p, n);
            s->buf.reset();
            ++s->nsubmit;
        }
        void flush() override
        {
            std::scoped_lock l{s->m};
            s->thread_check("flush");
            s->flushed = s->data.size();
        }
        void sync() noexcept override
        {
            std::scoped_lock l{s->m};
            s->thread_check("sync");
            ++s->nsync;
        }
        int reopen() noexcept override
        {
            std::scoped_lock l{s->m};
            s->thread_check("reopen");
            ++s->nreopen;
            return s->reopen_result;
        }
    };

    struct msg { unsigned sink; unsigned seq; std::size_t len; };
    std::string text_of(const msg& m) { return fmt::format("{}.{}.{}", m.sink, m.seq, std::string(m.len, char('a' + m.seq % 26))); }
}

void vp_case(Src& src, Ctx& ctx)
{
    auto s = std::make_shared<state>();
    for (std::size_t n = std::size_t(src.range(1, 6)); n; --n)
        s->caps.push_back(src.chance(400) ? src.pick<std::size_t>({1, 2, 64, 4096, 65536, 100, 7}) : 1 + src.size(300));
    const bool with_cmd = src.chance(250);
    const std::string path = with_cmd ? ctx.dir() + "/sock" : "";
    ::unlink(path.c_str());
    const auto user = std::this_thread::get_id();
    std::array<std::vector<msg>, 4> sent;
    std::uint64_t nsync = 0, nreopen = 0;
    std::size_t total = 0; // bytes which must have been submitted
    bool idle = false;
    {
        xtr::logger log(std::make_unique<checked>(s), fixed_clock(), with_cmd ? path : std::string(xtr::null_command_path));
        std::array<std::unique_ptr<xtr::sink>, 4> sk;
        std::size_t n = 0;
        auto add = [&](unsigned i, std::size_t len) {
            msg m{i, unsigned(sent[i].size()), len};
            const std::string t = text_of(m);
            XTR_LOG(*sk[i], "{}", t);
            total += t.size();
            sent[i].push_back(m);
        };
        while (src.more(n, 25, 80))
        {
            ++n;
            const unsigned i = unsigned(src.draw(4));
            if (!sk[i])
            {
                sk[i].reset(new xtr::sink);
                log.register_sink(*sk[i], "S");
            }
            switch (src.weighted({12, 3, 2, 2, 2, 2}))
            {
            case 0:
            case 5:
                {
                    const unsigned c = unsigned(src.range(1, 12));
                    ctx.note("log %u on %u", c, i);
                    for (unsigned k = 0; k < c; ++k) add(i, src.chance(60) ? src.size(3000) : src.draw(40));
                }
                break;
            case 1:
                {
                    // Idle: everything must be submitted and flushed without further stimulus
                    const bool close_first = src.chance(400);
                    ctx.note("idle%s", close_first ? " after close" : "");
                    if (close_first) sk[i].reset();
                    std::size_t want = 0;
                    for (auto& v : sent) for (auto& m : v) want += text_of(m).size();
                    std::size_t lines = 0;
                    for (auto& v : sent) lines += v.size();
                    const bool ok = eventually([&] {
                        std::scoped_lock l{s->m};
                        return !s->buf && s->flushed == s->data.size() && std::size_t(std::count(s->data.begin(), s->data.end(), '\n')) == lines;
                    });
                    std::scoped_lock l{s->m};
                    if (!ok)
                        failf("sinks are idle but not everything was submitted and flushed: %zu of %zu lines submitted, %zu of %zu bytes flushed%s",
                            std::size_t(std::count(s->data.begin(), s->data.end(), '\n')), lines, s->flushed, s->data.size(), s->buf ? ", a buffer is outstanding" : "");
                    idle = true;
                }
                break;
            case 2: ctx.note("close %u", i); sk[i].reset(); break;
            case 3: ctx.note("sync %u", i); sk[i]->sync(); ++nsync; break;
            case 4:
                if (!with_cmd) break;
                {
                    const bool fail = src.chance(300);
                    { std::scoped_lock l{s->m}; s->reopen_result = fail ? ENOSPC : 0; }
                    ctx.note("reopen%s", fail ? " (fails)" : "");
                    sk[i]->sync();
                    ++nsync;
                    const auto r = request(path, xd::frame<xd::reopen>());
                    ++nreopen;
                    if (r.size() != 1 || r[0].kind != (fail ? rk::error : rk::success)) failf("reopen: unexpected response");
                }
                break;
            }
            if (src.chance(150)) jitter(unsigned(src.draw(20)));
        }
    }
    if (!s->destroyed) failf("the back-end was not destroyed");
    if (s->tid == user) failf("back-end functions were called from the user's thread");
    if (s->flushed != s->data.size()) failf("%zu of %zu bytes were flushed when the back-end was destroyed", s->flushed, s->data.size());
    std::array<std::size_t, 4> next{};
    std::size_t k = 0;
    for (auto& ln : split_lines(s->data))
    {
        line l;
        if (!parse_line(ln, l)) failf("malformed line %s", quote(ln).c_str());
        const unsigned i = unsigned(l.msg[0] - '0');
        if (i >= 4 || next[i] >= sent[i].size() || l.msg != text_of(sent[i][next[i]])) failf("unexpected line %s", quote(ln).c_str());
        ++next[i];
        ++k;
    }
    for (unsigned i = 0; i < 4; ++i) if (next[i] != sent[i].size()) failf("%zu of %zu messages of sink %u are in the buffers", next[i], sent[i].size(), i);
    if (s->nsync != nsync) failf("sync called %lu times, requested %lu times", (unsigned long)s->nsync, (unsigned long)nsync);
    if (s->nreopen != nreopen) failf("reopen called %lu times, requested %lu times", (unsigned long)s->nreopen, (unsigned long)nreopen);
    ctx.nontrivial(s->nsubmit >= 3 && idle);
    if (idle) ctx.label("idle_checked");
    if (nreopen) ctx.label("reopen");
}
