// C13: the status command reports exactly the matching sinks, accurately.
// C14: the level command changes exactly the matching sinks.
// Both run the same histories; VP_LEVELS selects the mix of requests.
#include "cmd.hpp"

using namespace vp;

#ifdef VP_LEVELS
#define VP_ID "C14"
#else
#define VP_ID "C13"
#endif

vp::Info vp_info{
    VP_ID,
    "a case is a history over up to 8 sinks of one logger (and one sink of a second logger): creating, registering, renaming, closing, re-registering and destroying sinks with related, duplicate, empty, over-long and special "
    "names, setting levels, dropping messages, and status and set-level requests with generated patterns of every type (valid and invalid, with and without case) and levels (valid and invalid), at times while the logger is "
    "being destroyed. Each status response must be exactly the model's matching open sinks (name, level, capacity, bytes in use, drops), each level request must change exactly the matching ones or be refused and change nothing. "
    "Non-trivial: a request whose pattern selects some but not all open sinks, or a refused request.",
    30, 4};

void vp_worker_init() {}

namespace
{
    struct slot
    {
        std::unique_ptr<xtr::sink> s;
        bool open = false;
        std::string name;
        xtr::log_level_t level = xtr::log_level_t::info;
    };

    using rec = std::tuple<std::string, int, std::size_t, std::size_t, std::size_t>;
    std::string show(const std::vector<rec>& v)
    {
        std::string r;
        for (auto& [n, l, c, b, d] : v) r += fmt::format("[{} level {} capacity {} bytes {} dropped {}] ", quote(n, 40), l, c, b, d);
        return r.empty() ? "nothing" : r;
    }
    constexpr xtr::log_level_t levels[] = {xtr::log_level_t::none, xtr::log_level_t::fatal, xtr::log_level_t::error, xtr::log_level_t::warning, xtr::log_level_t::info, xtr::log_level_t::debug};

    // Sum of the drop warnings written under this name
    std::size_t warned(const std::string& text, const std::string& name)
    {
        std::size_t sum = 0;
        const std::string mid = " " + name + ": ";
        for (auto& l : split_lines(text))
        {
            const auto p = l.find(mid);
            if (l[0] == 'W' && p != std::string::npos && l.find(" messages dropped") != std::string::npos) sum += std::strtoull(l.c_str() + p + mid.size(), nullptr, 10);
        }
        return sum;
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    auto ms = std::make_shared<mem_state>(), ms2 = std::make_shared<mem_state>();
    const std::string path = ctx.dir() + "/sock", path2 = ctx.dir() + "/sock2";
    ::unlink(path.c_str());
    ::unlink(path2.c_str());
    auto log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(ms, 4096), fixed_clock(), path);
    xtr::logger other(std::make_unique<mem_storage>(ms2, 4096), fixed_clock(), path2);
    xtr::sink osink = other.get_sink("net1");
    osink.set_level(xtr::log_level_t::error);

    std::vector<slot> sl(8);
    std::size_t capacity = 0;
    std::size_t reported = 0; // drops on the sink named "dropper"
    std::size_t attempted = 0;
    std::unique_ptr<xtr::sink> dropper;
    auto level_def = xtr::log_level_t::info;
    bool nontrivial = false;

    auto check_levels = [&](const char* when) {
        for (std::size_t i = 0; i < sl.size(); ++i)
            if (sl[i].s && sl[i].s->level() != sl[i].level)
                failf("%s sink %zu (%s, %s) has level %d, expected %d", when, i, quote(sl[i].name, 40).c_str(), sl[i].open ? "open" : "closed", int(sl[i].s->level()), int(sl[i].level));
        if (osink.level() != xtr::log_level_t::error) failf("%s the sink of another logger has changed its level", when);
    };

    auto gen_pat = [&](xd::pattern_type_t& t, bool& ic, std::string& text) {
        t = src.pick({xd::pattern_type_t::none, xd::pattern_type_t::extended_regex, xd::pattern_type_t::basic_regex, xd::pattern_type_t::wildcard, xd::pattern_type_t::wildcard});
        ic = src.chance(400);
        text = gen_pattern(src, t);
        // A name itself, or part of one, as the pattern
        if (src.chance(200))
        {
            std::string n = sl[src.draw(sl.size())].name;
            if (src.chance(300)) n = n.substr(0, n.size() / 2);
            if (src.chance(300)) for (auto& c : n) c = char(std::toupper((unsigned char)c));
            text = n.substr(0, 255);
        }
        else if (src.chance(400)) text = pattern_from_name(src, t, sl[src.draw(sl.size())].name);
        if (t == xd::pattern_type_t::none) text.clear();
        else if (src.chance(60))
        {
            // The field is filled without a terminator: the last character does not count
            std::string pad;
            while (pad.size() + text.size() < 255) pad += t == xd::pattern_type_t::wildcard ? "*" : "z*";
            text = (pad + text).substr(0, 255) + "Q";
            ctx.label("unterminated");
        }
    };

    auto status = [&](std::vector<std::string>* nb = nullptr) {
        (void)nb;
        xd::pattern_type_t t;
        bool ic;
        std::string text;
        gen_pat(t, ic, text);
        xd::frame<xd::status> f;
        f->pattern = make_pattern(t, ic, text);
        if (ic && src.chance(300)) f->pattern.ignore_case = (unsigned char)src.range(1, 255);
        ctx.note("status type %d%s %s", int(t), ic ? " -I" : "", quote(text, 60).c_str());
        const auto r = request(path, f);
#ifdef VP_LEVELS
        check_levels("after a status request");
        return;
#endif
        bool invalid = ref_match(t, ic, text, "") < 0;
        if (invalid)
        {
            if (r.size() != 1 || r[0].kind != rk::error) failf("a status request with an invalid pattern was not answered with one error");
            nontrivial = true;
            ctx.label("invalid_pattern");
            return;
        }
        std::vector<rec> want, got;
        std::size_t nopen = 0;
        for (auto& s : sl)
        {
            if (!s.open) continue;
            ++nopen;
            if (ref_match(t, ic, text, s.name.c_str()) == 1) want.emplace_back(s.name.substr(0, 127), int(s.level), capacity, 0, 0);
        }
        if (dropper)
        {
            ++nopen;
            if (ref_match(t, ic, text, "dropper") == 1) want.emplace_back("dropper", int(dropper->level()), capacity, 0, reported);
        }
        for (auto& x : r)
        {
            if (x.kind != rk::info) failf("a valid status request was answered with %s", x.kind == rk::error ? x.reason.c_str() : "success");
            got.emplace_back(x.info.name, int(x.info.level), x.info.buf_capacity, x.info.buf_nbytes, x.info.dropped_count);
        }
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        if (capacity == 0 && !got.empty())
        {
            // Learn the capacity from the first response; it is at least what was requested
            capacity = std::get<2>(got[0]);
            if (capacity < XTR_SINK_CAPACITY || capacity > 2 * XTR_SINK_CAPACITY + 65536) failf("a capacity of %zu was reported for a sink of %d bytes", capacity, XTR_SINK_CAPACITY);
            for (auto& w : want) std::get<2>(w) = capacity;
        }
        if (want != got) failf("status responses are %s, expected %s", show(got).c_str(), show(want).c_str());
        if (!want.empty() && want.size() < nopen) { nontrivial = true; ctx.label("selects_some"); }
    };

    auto set_level = [&] {
        xd::pattern_type_t t;
        bool ic;
        std::string text;
        gen_pat(t, ic, text);
        xd::frame<xd::set_level> f;
        f->pattern = make_pattern(t, ic, text);
        const bool bad = src.chance(150);
        const int lv = bad ? src.pick<int>({-1, 6, 7, 255, 256, -2147483647 - 1, 2147483647, -5}) : int(src.pick<xtr::log_level_t>({levels[0], levels[1], levels[2], levels[3], levels[4], levels[5]}));
        f->level = xtr::log_level_t(lv);
        ctx.note("set_level %d type %d%s %s", lv, int(t), ic ? " -I" : "", quote(text, 60).c_str());
        const auto r = request(path, f);
#ifndef VP_LEVELS
        // Only what status says afterwards is of interest here
        for (auto& x : sl) if (x.s) x.level = x.s->level();
        return;
#endif
        if (r.size() != 1) failf("a set-level request was answered with %zu responses", r.size());
        const bool invalid = bad || ref_match(t, ic, text, "") < 0;
        if (invalid != (r[0].kind == rk::error) || r[0].kind == rk::info)
            failf("a set-level request which is %s was answered with %s", invalid ? "invalid" : "valid", r[0].kind == rk::error ? r[0].reason.c_str() : "success");
        std::size_t hit = 0, nopen = 0;
        if (!invalid)
        {
            for (auto& s : sl)
                if (s.open)
                {
                    ++nopen;
                    if (ref_match(t, ic, text, s.name.c_str()) == 1) { s.level = xtr::log_level_t(lv); ++hit; }
                }
        }
        check_levels("after a set-level request");
        if (invalid) { nontrivial = true; ctx.label("refused"); }
        else if (hit && hit < nopen) { nontrivial = true; ctx.label("selects_some"); }
    };

    auto requests = [&] {
#ifdef VP_LEVELS
        if (src.chance(250)) status(); else set_level();
#else
        if (src.chance(250)) set_level(); else status();
#endif
    };

    auto sync_all = [&] {
        for (auto& s : sl) if (s.open) s.s->sync();
        if (dropper) dropper->sync();
    };

    std::size_t n = 0;
    bool removed_any = false;
    while (src.more(n, 30, 90))
    {
        ++n;
        auto& s = sl[src.draw(sl.size())];
        switch (src.weighted({10, 6, 3, 3, 4, 1, 2, 1, 1}))
        {
        case 0: sync_all(); requests(); break;
        case 1: // open
            if (s.open) break;
            s.name = src.chance(30) ? "" : gen_name(src, true);
            ctx.note("open %s", quote(s.name, 40).c_str());
            if (!s.s && src.chance(500)) { s.s.reset(new xtr::sink(log->get_sink(s.name))); s.level = level_def; }
            else
            {
                if (!s.s) { s.level = levels[src.draw(6)]; s.s.reset(new xtr::sink(s.level)); }
                log->register_sink(*s.s, s.name);
            }
            s.open = true;
            break;
        case 2: // close
            if (!s.open) break;
            ctx.note("close %s", quote(s.name, 40).c_str());
            if (src.chance(300)) { s.s.reset(); s.name.clear(); }
            else s.s->close();
            s.open = false;
            removed_any = true;
            break;
        case 3: // rename
            if (!s.open) break;
            s.name = gen_name(src, true);
            ctx.note("rename to %s", quote(s.name, 40).c_str());
            s.s->set_name(s.name);
            break;
        case 4:
            if (!s.s) break;
            s.level = levels[src.draw(6)];
            ctx.note("level %d of %s", int(s.level), quote(s.name, 40).c_str());
            s.s->set_level(s.level);
            break;
        case 5: // copy
            {
                auto& d = sl[src.draw(sl.size())];
                if (&d == &s || !s.s || d.s) break;
                ctx.note("copy %s", quote(s.name, 40).c_str());
                d.s.reset(new xtr::sink(*s.s));
                d.open = s.open;
                d.level = s.level;
                d.name = s.name;
            }
            break;
        case 6: // log a little
            if (s.open) { XTR_LOG(*s.s, "hello {}", n); }
            break;
        case 7: // drops
            {
                if (!dropper) { dropper.reset(new xtr::sink); log->register_sink(*dropper, "dropper"); }
                gate g;
                XTR_LOG(*dropper, "{}", gate_arg{g.s.get()});
                g.wait_entered();
                const unsigned k = unsigned(XTR_SINK_CAPACITY / 64 + src.draw(200));
                ctx.note("stall, %u non-blocking messages", k);
                std::array<char, 72> a{};
                for (unsigned i = 0; i < k; ++i) XTR_TRY_LOG(*dropper, "{}", std::string_view(a.data(), 64));
                g.open();
                // The warning is written after the queue has been emptied
                attempted += k + 1;
                const auto before = reported;
                eventually([&] {
                    dropper->sync();
                    const std::string t = ms->text();
                    reported = warned(t, "dropper");
                    std::size_t delivered = 0;
                    for (std::size_t p = 0; (p = t.find(" dropper c13.cpp:", p)) != std::string::npos; ++p) ++delivered;
                    return delivered + reported >= attempted;
                }, 5);
                if (reported > before) ctx.label("drops");
            }
            break;
        case 8: // several requests at once, while bytes are in use
            {
                if (removed_any || dropper) break; // the order of the sinks is known only without removals
                // With the background thread stalled on the last sink, log k
                // messages on one sink and 2k on another: the request is
                // handled before they are
                xtr::sink a, b, c;
                log->register_sink(a, "inuse-a");
                log->register_sink(b, "inuse-b");
                log->register_sink(c, "inuse-c");
                client cl;
                const std::size_t fds = count_fds();
                cl.connect(path);
                // The connection has certainly been accepted once there is a descriptor for either end of it
                bool accepted = false;
                for (unsigned i = 0; i < 1000 && !accepted; ++i)
                {
                    c.sync();
                    accepted = count_fds() >= fds + 2;
                }
                gate g;
                XTR_LOG(c, "{}", gate_arg{g.s.get()});
                g.wait_entered();
                const unsigned k = unsigned(src.range(1, 15));
                for (unsigned i = 0; i < k; ++i) XTR_LOG(a, "{}", i);
                for (unsigned i = 0; i < 2 * k; ++i) XTR_LOG(b, "{}", i);
                xd::frame<xd::status> f;
                f->pattern = make_pattern(xd::pattern_type_t::wildcard, false, "inuse-[ab]");
                cl.send(f);
                ctx.note("status with %u and %u messages queued", k, 2 * k);
                g.open();
                std::map<std::string, std::size_t> nb;
                const auto rs = cl.replies();
                for (auto& x : rs)
                {
                    const auto p = parse_reply(x);
                    if (p.kind == rk::info) nb[p.info.name] = p.info.buf_nbytes;
                }
                if (nb.size() != 2 || rs.size() != 2) failf("status of two sinks with bytes in use: %zu responses", rs.size());
                // If the connection was accepted before the stall then the request is handled before the messages
                // are processed
                const auto x = nb["inuse-a"], y = nb["inuse-b"];
                if (y != 2 * x) failf("%u messages use %zu bytes but %u use %zu", k, x, 2 * k, y);
                if (x && (x < k * sizeof(unsigned) || y > XTR_SINK_CAPACITY)) failf("%u messages are reported to use %zu bytes", k, x);
                if (accepted && !x) failf("%u messages are queued but no bytes are reported to be in use", k);
                if (x) ctx.label("bytes_in_use");
                else ctx.label("accepted_late");
                removed_any = true;
            }
            break;
        }
    }
    // Requests while the logger is being destroyed
    std::thread dt;
    std::size_t nopen = 0;
    for (auto& s : sl) nopen += s.open;
    if (nopen && src.chance(500))
    {
        ctx.note("destroy the logger");
        sync_all();
        dt = std::thread([&] { log.reset(); });
        jitter(unsigned(src.draw(300)));
        const unsigned k = unsigned(src.range(1, 4));
        for (unsigned i = 0; i < k; ++i)
        {
            // At least one sink must stay open, else the logger may be gone
            if (src.chance(300))
            {
                std::size_t open = 0;
                for (auto& s : sl) open += s.open;
                for (auto& s : sl) if (s.open && open > 1) { s.s->close(); s.open = false; ctx.note("close %s", quote(s.name, 40).c_str()); break; }
            }
            sync_all();
            requests();
        }
        ctx.label("during_destruction");
    }
    for (auto& s : sl) s.s.reset();
    dropper.reset();
    if (dt.joinable()) dt.join();
    osink.close();
    ctx.nontrivial(nontrivial);
}
