// C06: log levels filter exactly the less important statements.
#include "common.hpp"

using namespace vp;

#if defined(XTR_NDEBUG) && XTR_NDEBUG
constexpr bool debug_compiled_out = true;
#else
constexpr bool debug_compiled_out = false;
#endif

vp::Info vp_info{
    "C06",
    "a case is a history of up to 150 operations on one logger and up to 6 sinks: create (get_sink, or construct with/without a level and register), copy, "
    "assign, close, re-register, set level (same or other thread), set the logger's default level, and log through any of 40 statements (8 macro families x 4 levels, "
    "and 8 families without a level) whose argument has a side effect. A model predicts for each statement whether it is logged and its argument evaluated, and for each sink its "
    "level. Non-trivial: at least one statement filtered, one logged, and one level changed by something other than set_level.",
    30, 6};

void vp_worker_init() {}

namespace
{
    using L = xtr::log_level_t;
    unsigned evaluated;
    unsigned touch(unsigned v) { ++evaluated; return v; }

#define LEVELS(M, ...)                             \
    switch (lv) {                                  \
    case 0: M(error, __VA_ARGS__); break;          \
    case 1: M(warning, __VA_ARGS__); break;        \
    case 2: M(info, __VA_ARGS__); break;           \
    default: M(debug, __VA_ARGS__); break;         \
    }

    // lv 0..3: error, warning, info, debug; 4: no level given
    void log_it(xtr::sink& s, unsigned fam, unsigned lv, unsigned seq)
    {
        if (lv == 4)
        {
            switch (fam)
            {
            case 0: XTR_LOG(s, "{}", touch(seq)); break;
            case 1: XTR_TRY_LOG(s, "{}", touch(seq)); break;
            case 2: XTR_LOG_TS(s, "t", "{}", touch(seq)); break;
            case 3: XTR_TRY_LOG_TS(s, "t", "{}", touch(seq)); break;
            case 4: XTR_LOG_RTC(s, "{}", touch(seq)); break;
            case 5: XTR_TRY_LOG_RTC(s, "{}", touch(seq)); break;
            case 6: XTR_LOG_TSC(s, "{}", touch(seq)); break;
            default: XTR_TRY_LOG_TSC(s, "{}", touch(seq)); break;
            }
            return;
        }
        switch (fam)
        {
        case 0: LEVELS(XTR_LOGL, s, "{}", touch(seq)) break;
        case 1: LEVELS(XTR_TRY_LOGL, s, "{}", touch(seq)) break;
        case 2: LEVELS(XTR_LOGL_TS, s, "t", "{}", touch(seq)) break;
        case 3: LEVELS(XTR_TRY_LOGL_TS, s, "t", "{}", touch(seq)) break;
        case 4: LEVELS(XTR_LOGL_RTC, s, "{}", touch(seq)) break;
        case 5: LEVELS(XTR_TRY_LOGL_RTC, s, "{}", touch(seq)) break;
        case 6: LEVELS(XTR_LOGL_TSC, s, "{}", touch(seq)) break;
        default: LEVELS(XTR_TRY_LOGL_TSC, s, "{}", touch(seq)) break;
        }
    }

    struct model { L level = L::info; bool open = false; };
    L gen_level(Src& s) { return L(s.pick<int>({int(L::info), int(L::none), int(L::fatal), int(L::error), int(L::warning), int(L::debug)})); }
}

void vp_case(Src& src, Ctx& ctx)
{
    auto st = std::make_shared<mem_state>();
    std::vector<std::pair<unsigned, char>> want;
    bool filtered = false, indirect = false;
    const bool ctor_level = src.chance(500);
    L dflt = ctor_level ? gen_level(src) : L::info;
    ctx.note("default level %d", int(dflt));
    {
        std::optional<xtr::logger> lg;
        lg.emplace(std::make_unique<mem_storage>(st, 4096), fixed_clock(), xtr::null_command_path);
        if (ctor_level) lg->set_default_log_level(dflt);
        xtr::logger& log = *lg;
        std::vector<std::unique_ptr<xtr::sink>> sk(6);
        std::array<model, 6> md;
        unsigned seq = 0;
        std::size_t n = 0;
        while (src.more(n, 50, 150))
        {
            ++n;
            const unsigned i = unsigned(src.draw(6)), j = unsigned(src.draw(6));
            switch (src.weighted({14, 4, 3, 3, 2, 2, 2, 2, 1}))
            {
            case 0:
                if (!sk[i] || !md[i].open) break;
                {
                    const unsigned fam = unsigned(src.draw(8)), lv = unsigned(src.draw(5));
                    static const L lvs[] = {L::error, L::warning, L::info, L::debug};
                    const bool on = lv == 4 || (int(lvs[lv]) <= int(md[i].level) && !(debug_compiled_out && lv == 3));
                    evaluated = 0;
                    ctx.note("log on %u family %u level %u, sink level %d", i, fam, lv, int(md[i].level));
                    log_it(*sk[i], fam, lv, seq);
                    if (evaluated != (on ? 1u : 0u))
                        failf("statement %u with level %u on a sink of level %d: argument evaluated %u times, expected %d", seq, lv, int(md[i].level), evaluated, on);
                    if (on) want.push_back({seq, "EWIDI"[lv]}); else filtered = true;
                    ++seq;
                }
                break;
            case 1:
                if (!sk[i]) break;
                {
                    const L l = gen_level(src);
                    const bool other = src.chance(300);
                    ctx.note("set level of %u to %d%s", i, int(l), other ? " from another thread" : "");
                    if (other) std::thread([&] { sk[i]->set_level(l); }).join();
                    else sk[i]->set_level(l);
                    md[i].level = l;
                }
                break;
            case 2:
                ctx.note("%u: get_sink", i);
                sk[i].reset();
                sk[i].reset(new xtr::sink(log.get_sink("S")));
                md[i] = {dflt, true};
                indirect |= dflt != L::info;
                break;
            case 3:
                {
                    const bool lvl = src.chance(500);
                    const L l = lvl ? gen_level(src) : L::info;
                    ctx.note("%u: construct with %d", i, int(l));
                    sk[i].reset();
                    sk[i].reset(lvl ? new xtr::sink(l) : new xtr::sink());
                    md[i] = {l, false};
                    if (src.chance(800)) { log.register_sink(*sk[i], "S"); md[i].open = true; }
                }
                break;
            case 4:
                if (!sk[j] || i == j) break;
                ctx.note("%u: copy of %u", i, j);
                sk[i].reset();
                sk[i].reset(new xtr::sink(*sk[j]));
                md[i] = md[j];
                indirect = true;
                break;
            case 5:
                if (!sk[j] || !sk[i]) break;
                ctx.note("%u: assigned from %u", i, j);
                *sk[i] = *sk[j];
                md[i] = md[j];
                indirect = true;
                break;
            case 6:
                {
                    dflt = gen_level(src);
                    ctx.note("set default level %d", int(dflt));
                    log.set_default_log_level(dflt);
                }
                break;
            case 7:
                if (!sk[i]) break;
                if (md[i].open) { ctx.note("close %u", i); sk[i]->close(); md[i].open = false; }
                else { ctx.note("register %u", i); log.register_sink(*sk[i], "S"); md[i].open = true; }
                break;
            case 8: ctx.note("destroy %u", i); sk[i].reset(); md[i] = {}; break;
            }
            for (unsigned k = 0; k < 6; ++k)
                if (sk[k] && sk[k]->level() != md[k].level)
                    failf("level of sink %u is %d, expected %d", k, int(sk[k]->level()), int(md[k].level));
        }
        for (auto& s : sk) s.reset();
    }
    std::vector<std::pair<unsigned, char>> got;
    for (auto& ln : split_lines(st->data))
    {
        const auto p = ln.rfind(": ");
        if (p == std::string::npos || ln.find(" S c06.cpp:") == std::string::npos) failf("unexpected line %s", quote(ln).c_str());
        got.push_back({unsigned(std::atoi(ln.c_str() + p + 2)), ln[0]});
    }
    std::sort(got.begin(), got.end());
    for (std::size_t k = 0; k < std::max(got.size(), want.size()); ++k)
    {
        if (k >= got.size() || (k < want.size() && got[k].first > want[k].first)) failf("statement %u was not logged", want[k].first);
        if (k >= want.size() || got[k].first < want[k].first) failf("statement %u was logged though it is filtered", got[k].first);
        if (got[k].second != want[k].second) failf("statement %u was logged with level %c, expected %c", got[k].first, got[k].second, want[k].second);
    }
    ctx.nontrivial(filtered && !want.empty() && indirect);
    if (filtered) ctx.label("filtered");
    if (indirect) ctx.label("level_by_copy_or_default");
}
