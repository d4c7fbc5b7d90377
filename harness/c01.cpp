// C01: lossless, exactly-once, in-order delivery of blocking log messages.
#include "common.hpp"

using namespace vp;

vp::Info vp_info{
    "C01",
    "a case is a generated program: 1-4 producer threads, each with 1-3 sinks, a history of "
    "log statements of 14 record shapes (no arguments, integers, strings of 0 bytes to over the queue "
    "capacity in four types, large and over-aligned objects, user timestamps), schedule jitter, an "
    "optional background thread stalled for up to 0.7 s, a generated back-end buffer size and a generated teardown "
    "order; every sink's output must equal, line by line, the generated list. Non-trivial: at least "
    "two sinks or one queue wrap-around, and at least 10 messages.",
    40, 4};

void vp_worker_init() {}

namespace
{
    template<std::size_t N, std::size_t Align>
    struct alignas(Align) blob
    {
        std::uint32_t seed;
        unsigned char data[N];
        explicit blob(std::uint32_t s) : seed(s)
        {
            for (std::size_t i = 0; i < N; ++i) data[i] = (unsigned char)(s * 31 + i * 7);
        }
    };

    struct op { unsigned kind; unsigned sink; std::uint32_t val; std::size_t len; unsigned jit; };

    struct thread_prog
    {
        unsigned nsinks;
        std::vector<op> ops;
        std::vector<unsigned> close_after; // per sink: close in the thread (1) or at the end (0)
    };

    struct out_line { int lineno; std::string msg; };

    std::string payload(std::uint32_t v, std::size_t n)
    {
        std::string s(n, ' ');
        std::uint32_t x = v * 2654435761u + 17;
        for (auto& c : s)
        {
            x = x * 1664525u + 1013904223u;
            c = char('!' + (x >> 24) % 90);
            if (c == '\\') c = '/';
        }
        return s;
    }
}

template<std::size_t N, std::size_t A>
struct fmt::formatter<blob<N, A>>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const blob<N, A>& b, C& c) const
    {
        bool ok = reinterpret_cast<std::uintptr_t>(&b) % A == 0;
        for (std::size_t i = 0; i < N; ++i)
            ok = ok && b.data[i] == (unsigned char)(b.seed * 31 + i * 7);
        return fmt::format_to(c.out(), "blob{}-{}-{}-{}", N, A, b.seed, ok ? "ok" : "CORRUPT");
    }
};

namespace
{
    constexpr std::size_t cap = XTR_SINK_CAPACITY;

    // Executes one log statement and appends the line it must produce
    void exec(xtr::sink& s, const op& o, unsigned seq, std::vector<out_line>& exp)
    {
        std::string m;
        int l = 0;
        const std::string str = payload(o.val, o.len);
        switch (o.kind)
        {
        case 0: XTR_LOG(s, "zero"); l = __LINE__; m = "zero"; break;
        case 1: XTR_LOG(s, "{}", seq); l = __LINE__; m = fmt::format("{}", seq); break;
        case 2: XTR_LOG(s, "{} {}", seq, o.val); l = __LINE__; m = fmt::format("{} {}", seq, o.val); break;
        case 3: XTR_LOG(s, "{} {}", seq, str); l = __LINE__; m = fmt::format("{} {}", seq, str); break;
        case 4: XTR_LOG(s, "{} {}", std::string_view(str), seq); l = __LINE__; m = fmt::format("{} {}", str, seq); break;
        case 5: XTR_LOG(s, "{} {}", seq, str.c_str()); l = __LINE__; m = fmt::format("{} {}", seq, str); break;
        case 6: { std::string t = str; XTR_LOG(s, "{} {}", seq, std::move(t)); l = __LINE__; m = fmt::format("{} {}", seq, str); break; }
        case 7: XTR_LOG(s, "{} {}", seq, blob<100, 8>(o.val)); l = __LINE__; m = fmt::format("{} blob100-8-{}-ok", seq, o.val); break;
        case 8: XTR_LOG(s, "{} {}", seq, blob<40, 32>(o.val)); l = __LINE__; m = fmt::format("{} blob40-32-{}-ok", seq, o.val); break;
        case 9: XTR_LOG(s, "{} {} {}", seq, blob<200, 64>(o.val), str); l = __LINE__; m = fmt::format("{} blob200-64-{}-ok {}", seq, o.val, str); break;
        case 10: XTR_LOG(s, "{} {} {} {}", str, seq, std::string_view(str), str.c_str()); l = __LINE__; m = fmt::format("{} {} {} {}", str, seq, str, str); break;
        case 11: XTR_LOG(s, "{} {}", seq, blob<cap / 3, 4>(o.val)); l = __LINE__; m = fmt::format("{} blob{}-4-{}-ok", seq, cap / 3, o.val); break;
        case 12: XTR_LOG(s, "{} {} {}", (unsigned char)(seq), char('a' + seq % 26), (unsigned short)(o.val)); l = __LINE__; m = fmt::format("{} {} {}", (unsigned char)(seq), char('a' + seq % 26), (unsigned short)(o.val)); break;
        case 13: XTR_LOG_TS(s, fixed_ts, "{}", seq); l = __LINE__; m = fmt::format("{}", seq); break;
        case 14: return;
        }
        exp.push_back({l, std::move(m)});
    }

    std::size_t str_len(Src& src, unsigned kind)
    {
        const std::size_t n = kind == 10 ? 3 : 1;
        switch (src.weighted({8, 6, 3, 1}))
        {
        case 0: return src.draw(40);
        case 1: return src.size(600);
        case 2: return src.size(cap / (n + 1));
        default:
            // up to what certainly fits
            return (cap - 512) / n - src.draw(64);
        }
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    const unsigned nthreads = unsigned(src.range(1, 4));
    const std::size_t bufsz = src.pick<std::size_t>({4096, 1, 7, 64, 1000, 65536, 3, 100});
    const bool gated = src.chance(400);
    const unsigned gate_hold = unsigned(src.draw(20));
    const bool logger_first = src.chance(300);
    const bool long_stall = gated && src.chance(25);
    std::vector<thread_prog> progs(nthreads);
    std::size_t total = 0;
    bool wrapped = false;
    for (auto& p : progs)
    {
        p.nsinks = unsigned(src.range(1, 3));
        const std::size_t mx = src.pick<std::size_t>({8, 30, 120});
        std::size_t bytes = 0;
        while (src.more(p.ops.size(), mx, 4 * mx))
        {
            op o{};
            o.kind = unsigned(src.weighted({4, 6, 4, 8, 4, 6, 3, 3, 3, 3, 3, 2, 3, 2}));
            o.sink = unsigned(src.draw(p.nsinks));
            o.val = std::uint32_t(src.draw(1u << 16));
            o.len = (o.kind >= 3 && o.kind <= 6) || o.kind == 9 || o.kind == 10 ? str_len(src, o.kind) : 0;
            if (o.kind == 9 && o.len > cap - 1024) o.len = cap - 1024;
            o.jit = src.chance(150) ? unsigned(src.draw(20)) : 0;
            bytes += 24 + o.len * (o.kind == 10 ? 3 : 1);
            p.ops.push_back(o);
        }
        total += p.ops.size();
        wrapped |= bytes > cap * p.nsinks;
        for (unsigned i = 0; i < p.nsinks; ++i)
            p.close_after.push_back(unsigned(src.draw(3)));
    }
    ctx.note("threads=%u bufsz=%zu gated=%d long=%d logger_first=%d ops=%zu", nthreads, bufsz, gated, long_stall, logger_first, total);
    for (unsigned t = 0; t < nthreads; ++t)
    {
        ctx.note("thread %u: %u sinks", t, progs[t].nsinks);
        for (auto& o : progs[t].ops)
            ctx.note("  sink %u kind %u val %u len %zu jitter %u", o.sink, o.kind, o.val, o.len, o.jit);
    }

    auto st = std::make_shared<mem_state>();
    gate g;
    std::map<std::string, std::vector<out_line>> expected;
    {
        auto log = std::make_unique<xtr::logger>(
            std::make_unique<mem_storage>(st, bufsz), fixed_clock(), xtr::null_command_path);
        std::optional<xtr::sink> gs;
        int gate_line = 0;
        if (gated)
        {
            gs.emplace();
            log->register_sink(*gs, "G");
            XTR_LOG(*gs, "{}", gate_arg{g.s.get()}); gate_line = __LINE__;
            g.wait_entered();
            expected["G"].push_back({gate_line, "gate"});
        }

        std::vector<std::vector<std::unique_ptr<xtr::sink>>> sinks(nthreads);
        std::vector<std::vector<std::vector<out_line>>> exp(nthreads);
        for (unsigned t = 0; t < nthreads; ++t)
        {
            exp[t].resize(progs[t].nsinks);
            for (unsigned i = 0; i < progs[t].nsinks; ++i)
                sinks[t].push_back(nullptr);
        }
        std::vector<std::thread> threads;
        std::atomic<unsigned> ready{0};
        for (unsigned t = 0; t < nthreads; ++t)
            threads.emplace_back(
                [&, t]
                {
                    auto& p = progs[t];
                    for (unsigned i = 0; i < p.nsinks; ++i)
                    {
                        const std::string name = "T" + std::to_string(t) + "S" + std::to_string(i);
                        if ((t + i) % 2)
                        {
                            sinks[t][i] = std::make_unique<xtr::sink>();
                            log->register_sink(*sinks[t][i], name);
                        }
                        else
                            sinks[t][i].reset(new xtr::sink(log->get_sink(name)));
                    }
                    ++ready;
                    while (ready != nthreads) std::this_thread::yield();
                    std::vector<unsigned> seq(p.nsinks);
                    for (auto& o : p.ops)
                    {
                        jitter(o.jit);
                        exec(*sinks[t][o.sink], o, seq[o.sink]++, exp[t][o.sink]);
                    }
                    for (unsigned i = 0; i < p.nsinks; ++i)
                    {
                        if (p.close_after[i] == 1) sinks[t][i]->close();
                        else if (p.close_after[i] == 2) sinks[t][i].reset();
                    }
                });
        if (gated)
        {
            if (gate_hold > 10) while (ready != nthreads) std::this_thread::yield();
            jitter(gate_hold);
            if (long_stall) ::usleep(700000);
            g.open();
        }
        std::thread destroyer;
        if (logger_first)
        {
            for (auto& t : threads) t.join();
            destroyer = std::thread([&] { log.reset(); });
        }
        else
            for (auto& t : threads) t.join();
        gs.reset();
        for (auto& v : sinks) v.clear();
        if (logger_first) destroyer.join();
        log.reset();
        for (unsigned t = 0; t < nthreads; ++t)
            for (unsigned i = 0; i < progs[t].nsinks; ++i)
                expected["T" + std::to_string(t) + "S" + std::to_string(i)] = exp[t][i];
    }

    VP_CHECK(st->destroyed, "back-end not destroyed with the logger");
    const std::string& data = st->data;
    VP_CHECK(data.empty() || data.back() == '\n', "output does not end in a newline");
    std::map<std::string, std::size_t> next;
    std::size_t n = 0;
    for (const auto& s : split_lines(data))
    {
        line l;
        if (!parse_line(s, l)) failf("malformed line %s", quote(s).c_str());
        const auto e = expected.find(l.name);
        if (e == expected.end()) failf("line of an unknown sink: %s", quote(s).c_str());
        auto& k = next[l.name];
        if (k >= e->second.size()) failf("sink %s: extra (duplicated?) line %s", l.name.c_str(), quote(s).c_str());
        const auto& x = e->second[k];
        if (l.level != "I" || l.ts != fixed_ts || l.file != "c01.cpp" || int(l.lineno) != x.lineno || l.msg != x.msg)
            failf("sink %s message %zu: got %s, expected line %d msg %s", l.name.c_str(), k,
                quote(s).c_str(), x.lineno, quote(x.msg).c_str());
        ++k;
        ++n;
    }
    for (auto& [name, v] : expected)
        if (next[name] != v.size())
            failf("sink %s: %zu of %zu messages were written; first missing: %s", name.c_str(),
                next[name], v.size(), quote(v[next[name]].msg).c_str());

    unsigned nsinks = 0;
    for (auto& p : progs) nsinks += p.nsinks;
    ctx.nontrivial(n >= 10 && (nsinks >= 2 || wrapped));
    if (wrapped) ctx.label("wrapped");
    if (gated) ctx.label("stalled_consumer");
    if (long_stall && wrapped) ctx.label("long_stall_full_queue");
    if (nthreads > 1) ctx.label("multi_thread");
    if (bufsz < 10) ctx.label("tiny_backend_buffer");
    if (logger_first) ctx.label("logger_destroyed_first");
}
