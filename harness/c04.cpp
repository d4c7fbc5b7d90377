// C04: non-blocking statements never wait; each message is delivered or counted.
#include "common.hpp"

using namespace vp;

vp::Info vp_info{
    "C04",
    "a case is 1-8 rounds over 1-2 sinks: the background thread is stalled (or not), a generated mix of non-blocking "
    "statements (9 shapes, 5 macro families) and of blocking statements that certainly have room is logged until and past the point where the queue is "
    "full, then the thread is released and the sink is synced, closed, closed and reopened, destroyed, or left alone. The log must hold the messages in "
    "order, every blocking message, every non-blocking one for which there was room, and warnings that add up to exactly the number of missing ones; "
    "a statement that waits hangs the case. In race runs 1-3 threads overrun their queues at full speed with the same accounting. Non-trivial: at least one message was dropped and one delivered after it.",
    12, 6};

void vp_worker_init() {}

namespace
{
    constexpr std::size_t cap = XTR_SINK_CAPACITY;

    template<std::size_t N, std::size_t Align>
    struct alignas(Align) blob
    {
        std::uint32_t seed;
        unsigned char data[N];
        explicit blob(std::uint32_t s) : seed(s) { for (std::size_t i = 0; i < N; ++i) data[i] = (unsigned char)(s * 31 + i * 7); }
    };

    std::string payload(std::uint32_t v, std::size_t n)
    {
        std::string s(n, ' ');
        std::uint32_t x = v * 2654435761u + 17;
        for (auto& c : s)
        {
            x = x * 1664525u + 1013904223u;
            c = char('!' + (x >> 24) % 90);
            if (c == '\\' || c == '<' || c == '|') c = '/';
        }
        return s;
    }
}

template<std::size_t N, std::size_t A>
struct fmt::formatter<blob<N, A>>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const blob<N, A>& b, C& c) const
    {
        bool ok = reinterpret_cast<std::uintptr_t>(&b) % A == 0;
        for (std::size_t i = 0; i < N; ++i) ok = ok && b.data[i] == (unsigned char)(b.seed * 31 + i * 7);
        return fmt::format_to(c.out(), "blob{}-{}", b.seed, ok ? "ok" : "CORRUPT");
    }
};

namespace
{
    struct msg
    {
        unsigned shape;
        std::size_t len;
        bool blocking;
        bool must;       // there was certainly room
        int lineno = 0;
        std::string level = "I", ts = fixed_ts;
        std::vector<std::string> fields;
        std::vector<bool> is_str;
        bool no_seq = false;
    };

    std::size_t upper_bound(unsigned shape, std::size_t len)
    {
        switch (shape)
        {
        case 0: return 16;
        case 1: return 32;
        case 2: case 3: case 4: return 64 + len;
        case 5: return 64 + 2 * len;
        case 6: return 64 + 120;
        case 7: return 64 + 64 + 64 + 320;
        default: return 64 + cap / 3;
        }
    }

// Five macro families: blocking, try, try with level, try with timestamp, try with both
#define FAM(...)                                                                                  \
    switch (fam) {                                                                                \
    case 0: XTR_LOG(s, __VA_ARGS__); break;                                                       \
    case 1: XTR_TRY_LOG(s, __VA_ARGS__); break;                                                   \
    case 2: XTR_TRY_LOGL(error, s, __VA_ARGS__); m.level = "E"; break;                            \
    case 3: XTR_TRY_LOG_TS(s, 12345u, __VA_ARGS__); m.ts = "12345"; break;                        \
    default: XTR_TRY_LOGL_TS(warning, s, 67890u, __VA_ARGS__); m.ts = "67890"; m.level = "W"; break; \
    }                                                                                             \
    m.lineno = __LINE__; break;

    void log_it(xtr::sink& s, msg& m, unsigned fam, unsigned seq)
    {
        const std::string str = payload(seq, m.len);
        m.fields.push_back(std::to_string(seq));
        m.is_str.push_back(false);
        auto add = [&](std::string x, bool st) { m.fields.push_back(std::move(x)); m.is_str.push_back(st); };
        switch (m.shape)
        {
        case 0: m.no_seq = true; FAM("plain")
        case 1: FAM("{}", seq)
        case 2: add(str, true); FAM("{}|{}", seq, str)
        case 3: add(str, true); FAM("{}|{}", seq, str.c_str())
        case 4: add(str, true); add("7", false); FAM("{}|{}|{}", seq, std::string_view(str), 7)
        case 5: add(str, true); add(str, true); FAM("{}|{}|{}", seq, str.c_str(), str)
        case 6: add(fmt::format("blob{}-ok", seq), false); FAM("{}|{}", seq, blob<100, 4>(seq))
        case 7: add(fmt::format("blob{}-ok", seq), false); FAM("{}|{}", seq, blob<250, 64>(seq))
        default: add(fmt::format("blob{}-ok", seq), false); FAM("{}|{}", seq, blob<cap / 3 - 200, 4>(seq))
        }
    }
}

namespace
{
    // The queue is overrun at full speed while the background thread is running: what is missing
    // must still be what was counted
    void race_case(Src& src, Ctx& ctx)
    {
        const unsigned nsinks = unsigned(src.range(1, 3));
        auto st = std::make_shared<mem_state>();
        const unsigned n = unsigned(src.pick<unsigned>({2000, 200, 20000, 60000}));
        const unsigned shape = unsigned(src.draw(4)), every = unsigned(src.pick<unsigned>({0, 5, 50, 500})), jit = unsigned(src.draw(16));
        const unsigned blocking = unsigned(src.pick<unsigned>({0, 7, 100}));
        const bool reg = src.chance(300), rate = src.chance(400);
        ctx.note("race: %u sinks, %u messages, shape %u, pause %u every %u, blocking every %u, reopened %d", nsinks, n, shape, jit, every, blocking, reg);
        {
            xtr::logger log(std::make_unique<mem_storage>(st, src.pick<std::size_t>({4096, 100, 65536})), fixed_clock(), xtr::null_command_path);
            std::vector<std::thread> th;
            for (unsigned i = 0; i < nsinks; ++i)
                th.emplace_back([&, i] {
                    xtr::sink s;
                    const std::string name = "S" + std::to_string(i);
                    log.register_sink(s, name);
                    const std::string str = payload(i, 40);
                    for (unsigned k = 0; k < n; ++k)
                    {
                        if (blocking && k % blocking == 0) XTR_LOG(s, "b{}", k);
                        else switch (shape)
                        {
                        case 0: XTR_TRY_LOG(s, "t{}", k); break;
                        case 1: XTR_TRY_LOG(s, "t{}|{}", k, str.c_str()); break;
                        case 2: XTR_TRY_LOG(s, "t{}|{}", k, blob<100, 4>(k)); break;
                        default: XTR_TRY_LOG(s, "t{}|{}", k, str); break;
                        }
                        if (every && k % every == 0) jitter(jit);
                        if (rate && k % 8 == 0) for (int d = 0; d < 300; ++d) asm volatile("" ::: "memory");
                        if (reg && k == n / 2) { s.close(); log.register_sink(s, name); }
                    }
                });
            for (auto& t : th) t.join();
        }
        std::array<std::size_t, 3> got{}, warned{}, next{};
        for (const auto& ln : split_lines(st->data))
        {
            const std::string pre = "W " + fixed_ts + " S";
            const unsigned i = ln.size() > pre.size() ? unsigned(ln[pre.size()] - '0') : 9;
            if (i >= nsinks) failf("malformed line %s", quote(ln).c_str());
            if (ln.size() > 20 && ln.compare(ln.size() - 17, 17, " messages dropped") == 0)
            {
                const long k = std::atol(ln.c_str() + pre.size() + 3);
                if (k <= 0) failf("unexpected count in %s", quote(ln).c_str());
                warned[i] += std::size_t(k);
                continue;
            }
            const auto q = ln.find(": ");
            if (q == std::string::npos) failf("malformed line %s", quote(ln).c_str());
            const std::size_t k = std::size_t(std::atol(ln.c_str() + q + 3));
            if (k < next[i] || k >= n) failf("sink %u: line %s is repeated or out of order (expected %zu or later)", i, quote(ln).c_str(), next[i]);
            if (blocking)
                for (std::size_t j = next[i]; j < k; ++j)
                    if (j % blocking == 0) failf("sink %u: blocking message %zu is missing", i, j);
            next[i] = k + 1;
            ++got[i];
        }
        bool dropped = false;
        for (unsigned i = 0; i < nsinks; ++i)
        {
            if (got[i] + warned[i] != n)
                failf("sink %u: %zu of %u messages are missing but %zu were reported as dropped", i, n - got[i], n, warned[i]);
            dropped |= warned[i] > 0 && got[i] > 0;
        }
        ctx.nontrivial(dropped);
        ctx.label("race");
        if (dropped) ctx.label("race_dropped");
    }
}

void vp_case(Src& src, Ctx& ctx)
{
#if defined(VP_RACE)
    race_case(src, ctx);
    return;
#endif
    const unsigned nsinks = unsigned(src.range(1, 2));
    auto st = std::make_shared<mem_state>();
    std::vector<std::unique_ptr<gate>> gates;
    std::array<std::vector<msg>, 2> sent;
    bool had_gate = false;
    {
        xtr::logger log(std::make_unique<mem_storage>(st, src.pick<std::size_t>({4096, 100, 1})), fixed_clock(), xtr::null_command_path);
        xtr::sink g;
        std::array<std::unique_ptr<xtr::sink>, 2> sinks;
        log.register_sink(g, "G");
        auto open = [&](unsigned i) {
            sinks[i] = std::make_unique<xtr::sink>(xtr::log_level_t::debug);
            log.register_sink(*sinks[i], i ? "S1" : "S0");
        };
        for (unsigned i = 0; i < nsinks; ++i) open(i);

        const unsigned rounds = unsigned(src.range(1, 8));
        for (unsigned r = 0; r < rounds; ++r)
        {
            const bool gated = src.chance(750);
            std::array<std::size_t, 2> used{};
            ctx.note("round %u gated=%d", r, gated);
            if (gated)
            {
                had_gate = true;
                for (unsigned i = 0; i < nsinks; ++i) sinks[i]->sync();
                gates.push_back(std::make_unique<gate>());
                XTR_LOG(g, "{}", gate_arg{gates.back()->s.get()});
                gates.back()->wait_entered();
                // Now every queue is empty and stays as it is filled
            }
            const std::size_t target = src.pick<std::size_t>({cap * 2, cap / 2, cap, cap * 5});
            std::array<std::size_t, 2> tried{};
            std::size_t n = 0;
            while (src.more(n, 60, 400))
            {
                ++n;
                const unsigned i = unsigned(src.draw(nsinks));
                if (tried[i] > target) continue;
                msg m{};
                m.shape = unsigned(src.weighted({4, 5, 4, 4, 3, 3, 3, 2, 2}));
                const bool str = m.shape >= 2 && m.shape <= 5;
                m.len = !str ? 0 : src.chance(150) ? src.size(cap + 100) : src.size(300);
                unsigned fam = unsigned(src.weighted({3, 6, 2, 2, 2}));
                const std::size_t ub = upper_bound(m.shape, m.len) + (fam >= 3 ? 16 : 0);
                m.must = gated ? used[i] + ub <= cap : false;
                if (fam == 0 && gated && !m.must) fam = 1;
                if (fam == 0 && !gated && ub > cap) fam = 1;
                m.blocking = fam == 0;
                m.must |= m.blocking;
                used[i] += ub;
                tried[i] += ub;
                auto& v = sent[i];
                log_it(*sinks[i], m, fam, unsigned(v.size()));
                ctx.note(" sink %u shape %u len %zu family %u%s", i, m.shape, m.len, fam, m.must ? " (room)" : "");
                v.push_back(std::move(m));
            }
            std::thread opener;
            if (gated)
            {
                auto* gp = gates.back().get();
                const auto us = src.draw(200);
                if (src.chance(500)) opener = std::thread([gp, us] { ::usleep(useconds_t(us)); gp->open(); });
                else gp->open();
            }
            for (unsigned i = 0; i < nsinks; ++i)
            {
                const unsigned how = unsigned(src.weighted({4, 3, 3, 3}));
                ctx.note(" end: sink %u %u", i, how);
                switch (how)
                {
                case 0: break;
                case 1: sinks[i]->sync(); break;
                case 2: sinks[i]->close(); log.register_sink(*sinks[i], i ? "S1" : "S0"); break;
                case 3: sinks[i].reset(); open(i); break;
                }
            }
            if (opener.joinable()) opener.join();
        }
        for (auto& s : sinks) s.reset();
        g.close();
    }

    std::array<std::size_t, 2> next{}, missing{}, warned{}, delivered{};
    // Lines of messages without a sequence number since the last one with
    std::array<std::vector<std::pair<int, std::string>>, 2> pending;
    // Messages [next, k) lie between two identified lines: the pending lines must be
    // an order-preserving selection of those of them without a sequence number, and none
    // that had room may be missing
    auto gap = [&](unsigned i, std::size_t k) {
        std::vector<const msg*> c;
        for (std::size_t j = next[i]; j < k; ++j)
        {
            const msg& m = sent[i][j];
            if (m.no_seq) c.push_back(&m);
            else if (m.must)
                failf("sink %u: message %zu (%s) is missing", i, j, m.blocking ? "blocking" : "non-blocking, with room");
        }
        auto& pl = pending[i];
        std::vector<char> ok(pl.size() + 1, 0); // ok[n]: the first n lines matched so far
        ok[0] = 1;
        for (const msg* m : c)
        {
            const std::string head = m->level + " " + m->ts + " S" + std::to_string(i);
            std::vector<char> nx(pl.size() + 1, 0);
            for (std::size_t n = 0; n <= pl.size(); ++n)
            {
                if (!ok[n]) continue;
                if (!m->must) nx[n] = 1;
                if (n < pl.size() && pl[n].first == m->lineno && pl[n].second == head) nx[n + 1] = 1;
            }
            ok = std::move(nx);
        }
        if (!ok[pl.size()])
            failf("sink %u: the %zu lines without arguments written between messages %zu and %zu do not match the %zu logged there", i,
                pl.size(), next[i], k, c.size());
        pl.clear();
    };
    bool after_drop = false;
    for (const auto& ln : split_lines(st->data))
    {
        // "<level> <ts> <name> c04.cpp:<line>: <msg>" or "W <ts> <name>: <n> messages dropped"
        const std::string wpre = "W " + fixed_ts + " S";
        if (ln.size() > 20 && ln.compare(ln.size() - 17, 17, " messages dropped") == 0)
        {
            if (ln.compare(0, wpre.size(), wpre) != 0) failf("unexpected warning %s", quote(ln).c_str());
            const unsigned i = unsigned(ln[wpre.size()] - '0');
            if (i >= nsinks || ln[wpre.size() + 1] != ':') failf("unexpected warning %s", quote(ln).c_str());
            const std::string num = ln.substr(wpre.size() + 3, ln.size() - 17 - wpre.size() - 3);
            const long k = std::atol(num.c_str());
            if (k <= 0 || num != std::to_string(k)) failf("unexpected count in %s", quote(ln).c_str());
            warned[i] += std::size_t(k);
            continue;
        }
        const auto p = ln.find(" c04.cpp:");
        if (p == std::string::npos || p < 3) failf("malformed line %s", quote(ln).c_str());
        if (ln[p - 1] == 'G') continue;
        const unsigned i = unsigned(ln[p - 1] - '0');
        if (i >= nsinks) failf("malformed line %s", quote(ln).c_str());
        const auto q = ln.find(": ", p);
        const std::string body = ln.substr(q + 2);
        const int lineno = std::atoi(ln.c_str() + p + 9);
        auto& v = sent[i];
        const std::string head = ln.substr(0, p);
        if (body == "plain") { pending[i].push_back({lineno, head}); ++delivered[i]; continue; }
        const std::size_t k = std::size_t(std::atol(body.c_str()));
        if (k >= v.size() || k < next[i]) failf("sink %u: line %s is out of order or repeated (expected message %zu or later)", i, quote(ln).c_str(), next[i]);
        const msg& m = v[k];
        bool ok = !m.no_seq && m.lineno == lineno && head == m.level + " " + m.ts + " S" + std::to_string(i);
        std::string b = body;
        for (std::size_t f = 0; ok && f < m.fields.size(); ++f)
        {
            const auto e = f + 1 < m.fields.size() ? b.find('|') : b.size();
            if (e == std::string::npos) { ok = false; break; }
            const std::string got = b.substr(0, e);
            ok = got == m.fields[f] || (got == "<truncated>" && m.is_str[f] && !m.must);
            b.erase(0, e + 1);
        }
        if (!ok) failf("sink %u: message %zu%s was written as %s", i, k, m.must ? " (for which there was room)" : "", quote(ln).c_str());
        gap(i, k);
        after_drop |= k + 1 > ++delivered[i];
        next[i] = k + 1;
    }
    bool dropped = false;
    for (unsigned i = 0; i < nsinks; ++i)
    {
        gap(i, sent[i].size());
        missing[i] = sent[i].size() - delivered[i];
        dropped |= missing[i] > 0;
        if (missing[i] != warned[i])
            failf("sink %u: %zu messages are missing but %zu were reported as dropped", i, missing[i], warned[i]);
    }
    ctx.nontrivial(dropped && after_drop);
    if (dropped) ctx.label("dropped");
    if (after_drop) ctx.label("delivered_after_drop");
    if (had_gate) ctx.label("stalled_consumer");
}
