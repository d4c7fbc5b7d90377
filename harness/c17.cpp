// C17: the sink queue is a faithful FIFO byte ring of its stated capacity.
#include "common.hpp"

#include <xtr/detail/mirrored_memory_mapping.hpp>
#include <xtr/detail/synchronized_ring_buffer.hpp>

#include <deque>
#include <sys/mman.h>

using namespace vp;

vp::Info vp_info{
    "C17",
    "a case is one of: a history of write/read/clear operations (sizes drawn around 0, the free space and the capacity; blocking, speculative and "
    "non-blocking) on a ring of fixed (4 KiB-128 KiB) or dynamic (any requested) capacity, anonymous or backed by a file at an offset, compared with a queue of bytes; "
    "a producer and a consumer thread exchanging a byte stream in drawn chunk sizes with drawn schedule perturbation; or a history of creating, moving "
    "and writing through mirrored mappings. Non-trivial: data wrapped around the end of the ring, or the mirror was written through.",
    40, 6};

void vp_worker_init() {}

namespace
{
    namespace xd = xtr::detail;

    std::uint8_t byte_at(std::uint64_t pos, std::uint64_t salt)
    {
        std::uint64_t x = (pos + salt) * 0x9E3779B97F4A7C15ull;
        x ^= x >> 29;
        return std::uint8_t(x >> 11);
    }

    // A file (or nothing) to back a mapping, with guard pages around the region
    struct backing
    {
        int fd = -1;
        std::size_t offset = 0, length = 0;
        static constexpr std::size_t page = 4096;

        backing(Src& s, Ctx& ctx, std::size_t len) : length(len)
        {
            const auto k = s.weighted({4, 2, 2});
            if (k == 0) return;
            offset = page * std::size_t(s.draw(3));
            if (k == 1) fd = int(::memfd_create("c17", MFD_CLOEXEC));
            else
            {
                const std::string p = ctx.dir() + "/ring";
                fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
                ::unlink(p.c_str());
            }
            if (fd == -1) infra("backing file");
            std::string fill(offset + length + page, 'G');
            if (::pwrite(fd, fill.data(), fill.size(), 0) != ssize_t(fill.size())) infra("backing file write");
        }
        ~backing() { if (fd != -1) ::close(fd); }

        void check(const std::byte* mem)
        {
            if (fd == -1) return;
            VP_CHECK(::fcntl(fd, F_GETFD) != -1, "the user's descriptor was closed");
            std::string c(offset + length + page, 0);
            if (::pread(fd, c.data(), c.size(), 0) != ssize_t(c.size())) failf("the backing file was truncated");
            for (std::size_t i = 0; i < offset; ++i)
                if (c[i] != 'G') failf("byte %zu of the file, before the mapping's offset %zu, was changed", i, offset);
            for (std::size_t i = offset + length; i < c.size(); ++i)
                if (c[i] != 'G') failf("byte %zu of the file, beyond the mapping (%zu+%zu), was changed", i, offset, length);
            if (std::memcmp(c.data() + offset, mem, length) != 0) failf("the file does not hold the ring's contents at offset %zu", offset);
        }
    };

    template<typename RB>
    void check_mirror(RB& rb)
    {
        const std::size_t c = rb.capacity();
        if (std::memcmp(rb.begin(), rb.begin() + c, c) != 0) failf("the halves of the mapping differ");
    }

    template<typename RB>
    void model_case(RB& rb, Src& src, Ctx& ctx, std::size_t min_capacity, backing* bk)
    {
        const std::size_t cap = rb.capacity();
        VP_CHECK(cap >= min_capacity, "capacity %zu < requested %zu", cap, min_capacity);
        VP_CHECK(std::size_t(rb.end() - rb.begin()) == cap, "begin()/end() do not delimit the capacity");
        std::deque<std::uint8_t> q;
        std::uint64_t wpos = 0, total = 0, drops = 0;
        std::size_t spec_free = cap; // lower bound: free space last seen by the writer
        const std::uint64_t salt = src.draw(1u << 16);
        std::size_t ops = 0;
        bool wrapped = false, dropped = false, full = false;
        auto size_like = [&](std::size_t lim) -> std::size_t {
            if (lim == 0) return 0;
            switch (src.weighted({3, 2, 2, 2, 1}))
            {
            case 0: return std::size_t(src.draw(std::min<std::size_t>(lim, 64) + 1));
            case 1: return lim - std::size_t(src.draw(std::min<std::size_t>(lim, 3) + 1));
            case 2: return lim;
            case 3: return std::size_t(src.draw(lim + 1));
            default: return lim / 2;
            }
        };
        while (src.more(ops++, 40, 400))
        {
            const std::size_t free = cap - q.size();
            switch (src.weighted({6, 5, 2, 2, 1, 1, 1}))
            {
            case 0: // a blocking or speculative write with room
            case 2:
            {
                const bool spec = src.chance(400);
                const std::size_t minsize = size_like(free);
                typename RB::span sp = spec ? rb.write_span_spec(minsize) : rb.write_span(minsize);
                ctx.note("write%s(%zu) -> %zu, free %zu", spec ? "_spec" : "", minsize, std::size_t(sp.size()), free);
                if (!spec) VP_CHECK(sp.size() == free, "write span of %zu bytes, %zu are free", std::size_t(sp.size()), free);
                else
                {
                    VP_CHECK(sp.size() >= minsize && sp.size() <= free, "speculative span of %zu bytes, wanted %zu, %zu are free", std::size_t(sp.size()), minsize, free);
                    VP_CHECK(sp.size() >= spec_free || spec_free > free, "speculative span shrank: %zu, writer had seen %zu", std::size_t(sp.size()), spec_free);
                }
                VP_CHECK(sp.begin() >= rb.begin() && sp.begin() < rb.end(), "write span does not begin in the ring");
                VP_CHECK(std::size_t(sp.begin() - rb.begin()) == total % cap, "write span begins at %zu, expected %zu", std::size_t(sp.begin() - rb.begin()), std::size_t(total % cap));
                const std::size_t n = size_like(sp.size());
                for (std::size_t i = 0; i < n; ++i)
                {
                    const std::uint8_t b = byte_at(wpos++, salt);
                    *(sp.begin() + i) = std::byte(b);
                    q.push_back(b);
                }
                if (sp.begin() + n > rb.end()) wrapped = true;
                if (n == free) full = true;
                spec_free = sp.size() - n;
                rb.reduce_writable(n);
                total += n;
                break;
            }
            case 1: // read
            {
                auto sp = rb.read_span();
                const auto csp = std::as_const(rb).read_span();
                VP_CHECK(sp.size() == q.size(), "read span of %zu bytes, %zu are unread", std::size_t(sp.size()), q.size());
                VP_CHECK(csp.begin() == sp.begin() && csp.end() == sp.end(), "const read span differs");
                VP_CHECK(sp.begin() >= rb.begin() && sp.begin() < rb.end(), "read span does not begin in the ring");
                std::size_t i = 0;
                for (auto b : q)
                {
                    if (std::uint8_t(sp.begin()[i]) != b) failf("byte %zu of %zu unread differs", i, q.size());
                    ++i;
                }
                const std::size_t n = size_like(q.size());
                ctx.note("read %zu of %zu", n, q.size());
                rb.reduce_readable(n);
                q.erase(q.begin(), q.begin() + long(n));
                break;
            }
            case 3: // non-blocking, any size
            {
                const std::size_t minsize = size_like(src.chance(500) ? cap : free);
                const bool spec = src.chance(400);
                auto sp = spec ? rb.template write_span_spec<void(xtr::non_blocking_tag)>(minsize)
                               : rb.template write_span<void(xtr::non_blocking_tag)>(minsize);
                ctx.note("try_write%s(%zu) -> %zu, free %zu", spec ? "_spec" : "", minsize, std::size_t(sp.size()), free);
                if (minsize > free)
                {
                    VP_CHECK(sp.empty() && sp.begin() == nullptr, "non-blocking write of %zu with %zu free gave %zu bytes", minsize, free, std::size_t(sp.size()));
                    ++drops;
                    dropped = true;
                    spec_free = free;
                    break;
                }
                if (spec) VP_CHECK(sp.size() >= minsize && sp.size() <= free, "non-blocking span of %zu, wanted %zu of %zu", std::size_t(sp.size()), minsize, free);
                else VP_CHECK(sp.size() == free, "non-blocking span of %zu bytes, %zu are free", std::size_t(sp.size()), free);
                VP_CHECK(sp.begin() != nullptr && std::size_t(sp.begin() - rb.begin()) == total % cap, "non-blocking span begins in the wrong place");
                const std::size_t n = minsize;
                for (std::size_t i = 0; i < n; ++i)
                {
                    const std::uint8_t b = byte_at(wpos++, salt);
                    *(sp.begin() + i) = std::byte(b);
                    q.push_back(b);
                }
                if (sp.begin() + n > rb.end()) wrapped = true;
                spec_free = sp.size() - n;
                rb.reduce_writable(n);
                total += n;
                break;
            }
            case 4:
            {
                const std::size_t d = rb.dropped_count();
                VP_CHECK(d == drops, "dropped_count() %zu, expected %zu", d, std::size_t(drops));
                drops = 0;
                break;
            }
            case 5:
                check_mirror(rb);
                if (bk) bk->check(rb.begin());
                break;
            case 6:
                if (src.chance(300))
                {
                    ctx.note("clear");
                    rb.clear();
                    q.clear();
                    total = 0; drops = 0; spec_free = cap;
                }
                break;
            }
        }
        check_mirror(rb);
        if (bk) bk->check(rb.begin());
        ctx.nontrivial(wrapped);
        if (wrapped) ctx.label("wrapped");
        if (dropped) ctx.label("full_nonblocking");
        if (full) ctx.label("filled_exactly");
        if (bk && bk->fd != -1) ctx.label("file_backed");
    }

    struct rng
    {
        std::uint64_t s;
        std::uint64_t operator()(std::uint64_t n)
        {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            return (s * 0x2545F4914F6CDD1Dull >> 16) % n;
        }
    };

    template<typename RB>
    void thread_case(RB& rb, Src& src, Ctx& ctx)
    {
        const std::size_t cap = rb.capacity();
        const std::uint64_t salt = src.draw(1u << 16);
        const std::size_t bytes = std::size_t(src.range(1, 24)) * cap + src.draw(cap);
        const std::size_t maxw = src.pick<std::size_t>({16, 64, 700, cap / 2, cap}), maxr = src.pick<std::size_t>({cap, 16, 64, 700, cap / 2});
        const unsigned jw = unsigned(src.pick<unsigned>({0, 4, 12, 20})), jr = unsigned(src.pick<unsigned>({0, 4, 12, 20}));
        const unsigned mode = unsigned(src.draw(4)); // 0 blocking, 1 speculative, 2 non-blocking, 3 mixed
        const std::uint64_t s1 = src.u64() | 1, s2 = src.u64() | 1;
        ctx.note("threads: %zu bytes through %zu, write<=%zu read<=%zu jitter %u/%u mode %u", bytes, cap, maxw, maxr, jw, jr, mode);
        // small chunks: fewer bytes
        const std::size_t limit = std::min(maxw, maxr) <= 64 ? std::min(bytes, 3 * cap + 100) : bytes;

        std::atomic<bool> done{false};
        std::uint64_t fails = 0, seen_drops = 0;
        std::thread prod([&] {
            rng r{s1};
            std::uint64_t pos = 0;
            while (pos < limit)
            {
                const std::size_t want = std::size_t(std::min<std::uint64_t>(1 + r(maxw), limit - pos));
                const unsigned m = mode == 3 ? unsigned(r(4)) : mode;
                typename RB::span sp;
                if (m == 0) sp = rb.write_span(want);
                else if (m == 1) sp = rb.write_span_spec(want);
                else
                {
                    sp = m == 2 ? rb.template write_span<void(xtr::non_blocking_tag)>(want)
                                : rb.template write_span_spec<void(xtr::non_blocking_tag)>(want);
                    if (sp.begin() == nullptr) { ++fails; if (jw) ::sched_yield(); continue; }
                }
                if (sp.size() < want) failf("write span of %zu bytes, %zu were requested", std::size_t(sp.size()), want);
                if (sp.size() > cap) failf("write span of %zu bytes in a ring of %zu", std::size_t(sp.size()), cap);
                const std::size_t n = r(8) == 0 ? std::min<std::size_t>(sp.size(), limit - pos) : want;
                for (std::size_t i = 0; i < n; ++i) sp.begin()[i] = std::byte(byte_at(pos + i, salt));
                rb.reduce_writable(n);
                pos += n;
                if (jw && r(16) == 0) jitter(unsigned(r(jw + 1)));
            }
            done.store(true, std::memory_order_release);
        });
        {
            rng r{s2};
            std::uint64_t pos = 0;
            while (pos < limit)
            {
                auto sp = rb.read_span();
                if (sp.size() > cap) failf("read span of %zu bytes in a ring of %zu", std::size_t(sp.size()), cap);
                if (pos + sp.size() > limit) failf("%zu bytes readable, at most %zu were written", std::size_t(pos + sp.size()), limit);
                if (sp.size() == 0)
                {
                    if (done.load(std::memory_order_acquire) && rb.read_span().size() == 0 && pos < limit)
                        failf("%zu bytes were written, only %zu could be read", limit, std::size_t(pos));
                    if (jr) jitter(unsigned(r(jr + 1)));
                    continue;
                }
                const std::size_t n = r(4) == 0 ? std::size_t(sp.size()) : std::size_t(std::min<std::uint64_t>(1 + r(maxr), sp.size()));
                for (int pass = 0; pass < 2; ++pass)
                {
                    for (std::size_t i = 0; i < (pass ? std::size_t(sp.size()) : n); ++i)
                        if (std::uint8_t(sp.begin()[i]) != byte_at(pos + i, salt))
                            failf("byte %zu of the stream (%zu into a span of %zu) was read wrong (pass %d)", std::size_t(pos + i), i, std::size_t(sp.size()), pass);
                    if (r(6)) break;
                    if (jr) jitter(unsigned(r(jr + 1)));
                }
                rb.reduce_readable(n);
                pos += n;
                if (r(32) == 0) seen_drops += rb.dropped_count();
            }
        }
        prod.join();
        seen_drops += rb.dropped_count();
        VP_CHECK(seen_drops == fails, "%zu refused writes, %zu were counted", std::size_t(fails), std::size_t(seen_drops));
        VP_CHECK(rb.read_span().empty(), "unread data at the end");
        VP_CHECK(rb.write_span().size() == cap, "not all of the ring is free at the end");
        ctx.nontrivial(limit > cap);
        ctx.label("threads");
        if (fails) ctx.label("threads_refused");
    }

    template<typename RB>
    void mapping_checks(RB&) {}

    void mapping_case(Src& src, Ctx& ctx)
    {
        using M = xd::mirrored_memory_mapping;
        struct slot { M m; std::uint64_t tag = 0; std::size_t len = 0; std::unique_ptr<backing> bk; };
        std::vector<std::unique_ptr<slot>> v;
        std::size_t ops = 0;
        bool mirrored = false;
        auto check = [&](slot& s) {
            VP_CHECK(bool(s.m) == (s.len != 0), "operator bool is %d, expected length %zu", int(bool(s.m)), s.len);
            if (!s.len) return;
            VP_CHECK(s.m.length() == s.len, "length %zu, expected %zu", s.m.length(), s.len);
            auto* p = static_cast<std::uint8_t*>(s.m.get());
            for (std::size_t i = 0; i < 2 * s.len; i += 1 + i % 61)
                if (p[i] != byte_at(i % s.len, s.tag)) failf("byte %zu of a mapping of 2x%zu is wrong", i, s.len);
            if (s.bk) s.bk->check(reinterpret_cast<std::byte*>(p));
        };
        auto fill = [&](slot& s) {
            s.tag = src.draw(1u << 20);
            auto* p = static_cast<std::uint8_t*>(s.m.get());
            const bool up = src.chance(500); // write through the upper half
            mirrored |= up;
            for (std::size_t i = 0; i < s.len; ++i)
            {
                const bool hi = up && (i & 1 || src.chance(1));
                p[(hi ? s.len : 0) + i] = byte_at(i, s.tag);
            }
        };
        while (src.more(ops++, 12, 60))
        {
            switch (src.weighted({4, 2, 2, 2, 2}))
            {
            case 0:
            {
                auto s = std::make_unique<slot>();
                const std::size_t pages = std::size_t(src.range(1, 24));
                s->len = pages * 4096;
                s->bk = std::make_unique<backing>(src, ctx, s->len);
                s->m = M(s->len, s->bk->fd, s->bk->fd == -1 ? 0 : s->bk->offset, src.chance(300) ? xd::srb_flags : 0);
                if (s->bk->fd == -1) s->bk.reset();
                ctx.note("map %zu bytes %s", s->len, s->bk ? "file" : "anonymous");
                fill(*s);
                v.push_back(std::move(s));
                break;
            }
            case 1: // a length which is not a multiple of the page size is refused
            {
                const std::size_t len = std::size_t(src.range(1, 100000));
                if (len % 4096 == 0) break;
                bool threw = false;
                try { M m(len); }
                catch (const std::exception&) { threw = true; }
                VP_CHECK(threw, "a mapping of %zu bytes was made", len);
                break;
            }
            case 2: // move construct
                if (!v.empty())
                {
                    auto& a = v[src.draw(v.size())];
                    auto s = std::make_unique<slot>(slot{M(std::move(a->m)), a->tag, a->len, std::move(a->bk)});
                    a->len = 0;
                    ctx.note("move construct");
                    VP_CHECK(!a->m, "a moved-from mapping is not empty");
                    v.push_back(std::move(s));
                }
                break;
            case 3: // move assign over an empty or another mapping
                if (v.size() >= 2)
                {
                    const auto i = src.draw(v.size()), j = src.draw(v.size());
                    if (i == j) break;
                    auto& a = *v[i];
                    auto& b = *v[j];
                    ctx.note("move assign");
                    if (a.len)
                    {
                        // what the target held stays valid until it or the source is destroyed
                        a.m = std::move(b.m);
                        std::swap(a.tag, b.tag);
                        std::swap(a.len, b.len);
                        std::swap(a.bk, b.bk);
                        // unspecified what the source holds: destroy it
                        b.m.~M();
                        new (&b.m) M();
                        b.len = 0;
                        b.bk.reset();
                    }
                    else
                    {
                        a.m = std::move(b.m);
                        a.tag = b.tag; a.len = b.len; a.bk = std::move(b.bk);
                        b.len = 0;
                        VP_CHECK(!b.m, "a moved-from mapping is not empty");
                    }
                }
                break;
            case 4:
                if (!v.empty()) v.erase(v.begin() + long(src.draw(v.size())));
                break;
            }
            for (auto& s : v) check(*s);
        }
        ctx.nontrivial(mirrored);
        ctx.label("mapping");
    }
}

void vp_case(Src& src, Ctx& ctx)
{
#if defined(VP_THREADS)
    const std::size_t mode = 1;
#else
    const std::size_t mode = src.weighted({6, 2, 1});
#endif
    if (mode == 2) { mapping_case(src, ctx); return; }
    auto run = [&](auto& rb, std::size_t minc, backing* bk) {
        if (mode == 0) model_case(rb, src, ctx, minc, bk);
        else thread_case(rb, src, ctx);
    };
    const auto t = src.draw(6);
    switch (t)
    {
    case 0: { backing b(src, ctx, 4096); xd::synchronized_ring_buffer<4096> rb(b.fd, b.offset); run(rb, 4096, &b); break; }
    case 1: { backing b(src, ctx, 8192); xd::synchronized_ring_buffer<8192> rb(b.fd, b.offset); run(rb, 8192, &b); break; }
    case 2: { backing b(src, ctx, 65536); xd::synchronized_ring_buffer<65536> rb(b.fd, b.offset); run(rb, 65536, &b); break; }
    case 3: { backing b(src, ctx, 131072); xd::synchronized_ring_buffer<131072> rb(b.fd, b.offset); run(rb, 131072, &b); break; }
    default:
    {
        std::size_t minc;
        switch (src.draw(4))
        {
        case 0: minc = std::size_t(src.range(1, 5000)); break;
        case 1: minc = std::size_t(src.range(1, 300000)); break;
        case 2: minc = (std::size_t(1) << src.range(0, 18)) + std::size_t(src.draw(3)) - 1; break;
        default: minc = std::size_t(src.range(1, 40)) * 4096; break;
        }
        if (minc == 0) minc = 1;
        ctx.note("dynamic, at least %zu bytes", minc);
        ctx.label("dynamic");
        // the size of the backing file is found from an anonymous ring
        const std::size_t len = xd::synchronized_ring_buffer<xd::dynamic_capacity>(minc).capacity();
        VP_CHECK((len & (len - 1)) == 0 && len >= minc && len % 4096 == 0, "capacity %zu for a request of %zu", len, minc);
        backing b(src, ctx, len);
        xd::synchronized_ring_buffer<xd::dynamic_capacity> rb(minc, b.fd, b.offset);
        VP_CHECK(rb.capacity() == len, "capacity %zu and %zu for the same request", rb.capacity(), len);
        run(rb, minc, &b);
        break;
    }
    }
}
