// C03: strings of any length are logged whole, or as <truncated> when the
// message cannot fit in the queue.
#include "common.hpp"

using namespace vp;

vp::Info vp_info{
    "C03",
    "a case is 1-4 message templates (9 shapes of 1-4 strings of four types among other arguments; lengths from "
    "0 to 3x the queue capacity, concentrated on the exact-fit boundary) logged repeatedly at generated queue offsets "
    "with the background thread idle, running or stalled and released later. Each line must be well formed with each string "
    "whole or <truncated>; none is truncated if the message fits; a truncated one must not fit beside the others; "
    "and the same template must give the same result at every offset and queue state. Non-trivial: at least one message "
    "within 128 bytes of the capacity, or longer than it, logged at a non-zero offset.",
    40, 6};

void vp_worker_init() {}

namespace
{
    constexpr std::size_t cap = XTR_SINK_CAPACITY;

    std::string payload(std::uint32_t v, std::size_t n)
    {
        std::string s(n, ' ');
        std::uint32_t x = v * 2654435761u + 17;
        for (auto& c : s)
        {
            x = x * 1664525u + 1013904223u;
            c = char('!' + (x >> 24) % 90);
            if (c == '\\' || c == '<') c = '/';
        }
        return s;
    }

    struct tmpl
    {
        unsigned shape;
        std::vector<std::string> str;
        std::optional<std::vector<bool>> outcome;
        unsigned times = 0;
    };

    unsigned nstr(unsigned shape)
    {
        static const unsigned n[] = {1, 1, 1, 2, 2, 3, 4, 2, 1, 2};
        return n[shape];
    }

    void log_it(xtr::sink& s, tmpl& t, unsigned seq, int& lineno)
    {
        auto& a = t.str;
        switch (t.shape)
        {
        case 0: XTR_LOG(s, "{}|{}", seq, a[0]); lineno = __LINE__; break;
        case 1: XTR_LOG(s, "{}|{}", seq, a[0].c_str()); lineno = __LINE__; break;
        case 2: XTR_LOG(s, "{}|{}", seq, std::string_view(a[0])); lineno = __LINE__; break;
        case 3: XTR_LOG(s, "{}|{}|{}", seq, a[0], a[1].c_str()); lineno = __LINE__; break;
        case 4: XTR_LOG(s, "{}|{}|{}", seq, a[0].data(), std::string_view(a[1])); lineno = __LINE__; break;
        case 5: XTR_LOG(s, "{}|{}|{}|{}", seq, std::string_view(a[0]), a[1].c_str(), a[2]); lineno = __LINE__; break;
        case 6: XTR_LOG(s, "{}|{}|{}|{}|{}", seq, a[0].c_str(), a[1], a[2].c_str(), std::string_view(a[3])); lineno = __LINE__; break;
        case 7: XTR_LOG_TS(s, fixed_ts, "{}|{}|{}", seq, a[0], a[1]); lineno = __LINE__; break;
        case 8: XTR_LOGL(warning, s, "{}|{}", (unsigned long)(seq), a[0]); lineno = __LINE__; break;
        case 9: XTR_LOG(s, "{}|{}|{}", seq, a[1].c_str(), a[1].c_str()); lineno = __LINE__; break;
        }
    }
    const std::string& str_at(const tmpl& t, unsigned i) { return t.shape == 9 ? t.str[1] : t.str[i]; }

    std::size_t gen_len(Src& s, unsigned n)
    {
        switch (s.weighted({5, 6, 4, 3, 3, 2}))
        {
        case 0: return s.draw(60);
        case 1: return cap / n - s.draw(80);          // near the exact fit
        case 2: return s.size(cap - 1);
        case 3: return cap - s.draw(80) - s.draw(600);
        case 4: return cap + s.draw(200) - 100;
        default: return cap + s.size(2 * cap);
        }
    }

    struct ev { unsigned t; int lineno; };
}

void vp_case(Src& src, Ctx& ctx)
{
    std::vector<tmpl> ts;
    const unsigned nt = unsigned(src.range(1, 4));
    bool near = false;
    for (unsigned i = 0; i < nt; ++i)
    {
        tmpl t;
        t.shape = unsigned(src.draw(10));
        std::string d;
        std::size_t sum = 0;
        for (unsigned k = 0; k < nstr(t.shape); ++k)
        {
            const auto n = gen_len(src, nstr(t.shape));
            t.str.push_back(payload(std::uint32_t(src.draw(1000)), n));
            d += " " + std::to_string(n);
            sum += n;
        }
        near |= sum + 128 >= cap;
        ctx.note("template %u: shape %u lengths%s", i, t.shape, d.c_str());
        ts.push_back(std::move(t));
    }
    auto st = std::make_shared<mem_state>();
    std::vector<std::unique_ptr<gate>> gates;
    std::vector<ev> evs;
    bool stalled = false;
    {
        xtr::logger log(std::make_unique<mem_storage>(st, 65536), fixed_clock(), xtr::null_command_path);
        xtr::sink s, g;
        log.register_sink(s, "S");
        log.register_sink(g, "G");
        unsigned seq = 0;
        while (src.more(evs.size(), 10, 40))
        {
            const unsigned mode = unsigned(src.weighted({4, 4, 3}));
            std::thread opener;
            if (mode == 1) { s.sync(); ctx.note("idle"); }
            else if (mode == 2)
            {
                gates.push_back(std::make_unique<gate>());
                auto* gp = gates.back().get();
                XTR_LOG(g, "{}", gate_arg{gp->s.get()});
                gp->wait_entered();
                const auto us = src.chance(6) ? 700000 : src.draw(300);
                ctx.note("stalled, released after %lu us", (unsigned long)us);
                stalled = true;
                opener = std::thread([gp, us] { ::usleep(useconds_t(us)); gp->open(); });
            }
            const unsigned n = unsigned(src.range(1, 4));
            for (unsigned k = 0; k < n; ++k)
            {
                const unsigned t = unsigned(src.draw(nt + 1));
                if (t == nt)
                {
                    // filler, moves the queue offset
                    const std::string f = payload(seq, src.size(cap / 2));
                    ctx.note("filler %zu", f.size());
                    XTR_LOG(s, "{}|filler|{}", seq++, f);
                    evs.push_back({nt, int(f.size())});
                    continue;
                }
                ctx.note("template %u", t);
                int l = 0;
                log_it(s, ts[t], seq++, l);
                ++ts[t].times;
                evs.push_back({t, l});
            }
            if (opener.joinable()) opener.join();
        }
        s.close();
        g.close();
    }

    unsigned seq = 0;
    bool trunc = false;
    for (auto& ln : split_lines(st->data))
    {
        line l;
        const bool ts_tr = ln.compare(0, 14, "I <truncated> ") == 0; // the timestamp is a string too
        if (ts_tr) ln.replace(2, 11, fixed_ts);
        if (!parse_line(ln, l)) failf("malformed line %s", quote(ln).c_str());
        if (l.name == "G") continue;
        if (seq >= evs.size()) failf("extra line %s", quote(ln).c_str());
        const auto& e = evs[seq];
        std::string rest = l.msg;
        const std::string pre = std::to_string(seq) + "|";
        if (rest.compare(0, pre.size(), pre) != 0) failf("message %u: got %s", seq, quote(ln).c_str());
        rest.erase(0, pre.size());
        if (e.t == nt)
        {
            if (rest != "filler|" + payload(seq, std::size_t(e.lineno)))
                failf("message %u (a string of %d bytes in a queue of %zu): got %s", seq, e.lineno, cap, quote(ln).c_str());
            ++seq;
            continue;
        }
        auto& t = ts[e.t];
        if (int(l.lineno) != e.lineno) failf("message %u: wrong line %s", seq, quote(ln).c_str());
        // Find which strings are truncated. Payloads contain neither '<' nor newline; they may
        // contain '|', so parse by position.
        const unsigned n = nstr(t.shape);
        std::vector<bool> tr(n);
        std::size_t total = 0, full = 0;
        for (unsigned k = 0; k < n; ++k)
        {
            const auto& w = str_at(t, k);
            if (rest.compare(0, 11, "<truncated>") == 0) { tr[k] = true; rest.erase(0, 11); }
            else if (rest.compare(0, w.size(), w) == 0) { rest.erase(0, w.size()); full += w.size(); }
            else failf("message %u, string %u of length %zu: got %s, expected %s", seq, k, w.size(), quote(rest).c_str(), quote(w).c_str());
            total += w.size();
            if (k + 1 < n)
            {
                if (rest.empty() || rest[0] != '|') failf("message %u, string %u: followed by %s", seq, k, quote(rest).c_str());
                rest.erase(0, 1);
            }
        }
        if (!rest.empty()) failf("message %u: extra text %s", seq, quote(rest).c_str());
        const std::size_t ts_len = t.shape == 7 ? fixed_ts.size() : 0;
        // record: function pointer, sequence number, a size per string, timestamp
        const std::size_t hdr = 8 + 8 + 4 * (n + 1) + 16;
        for (unsigned k = 0; k < n; ++k)
        {
            trunc |= tr[k];
            if (tr[k] && total + ts_len + hdr <= cap)
                failf("message %u: string %u truncated though the message (%zu bytes of strings) fits in %zu", seq, k, total, cap);
            if (tr[k] && full + str_at(t, k).size() + (ts_tr ? 0 : ts_len) + hdr <= cap)
                failf("message %u: string %u (%zu bytes) truncated though it fits beside the other strings (%zu bytes) in %zu", seq, k, str_at(t, k).size(), full, cap);
        }
        if (l.ts != fixed_ts) failf("message %u: wrong timestamp %s", seq, quote(ln).c_str());
        if (ts_tr && (t.shape != 7 || full + ts_len + hdr <= cap)) failf("message %u: timestamp truncated", seq);
        tr.push_back(ts_tr);
        if (full > cap) failf("message %u: impossible size", seq);
        if (!t.outcome) t.outcome = tr;
        else if (*t.outcome != tr)
            failf("message %u: the same message was truncated differently before", seq);
        ++seq;
    }
    if (seq != evs.size()) failf("%u of %zu messages were written", seq, evs.size());
    bool rep = false;
    for (auto& t : ts) rep |= t.times > 1;
    ctx.nontrivial(near && seq > 1);
    if (trunc) ctx.label("truncated");
    if (near) ctx.label("near_or_over_capacity");
    if (stalled) ctx.label("stalled_consumer");
    if (rep) ctx.label("repeated_template");
}
