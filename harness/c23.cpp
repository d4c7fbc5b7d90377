// C23: every line has the documented prefix for its level, sink and source position.
#include "common.hpp"

#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace vp;

vp::Info vp_info{
    "C23",
    "a case is one of: a history of up to 60 operations on one logger and up to 4 sinks (log through any of 8 macro families at any level or without one from any of 14 source positions, rename, re-register, copy, "
    "change the style - the two provided ones or a table of generated strings - with and without a preceding sync, drop messages behind a stalled consumer), where every line is compared with its "
    "complete expected text; a fatal statement in a child process; or generated strings, near misses of the level names, converted to a level. Non-trivial: at least two styles or names were in use, messages were dropped, "
    "the child was run, or a near miss was converted.",
    30, 6};

namespace
{
    using L = xtr::log_level_t;
    thread_local const char* stmt_file;
    thread_local unsigned stmt_line;

    // lv 0..3: error, warning, info, debug; 4: without a level
#define LV(M, ...)                                                                      \
    switch (lv) { case 0: M(error, __VA_ARGS__); break; case 1: M(warning, __VA_ARGS__); break; \
    case 2: M(info, __VA_ARGS__); break; default: M(debug, __VA_ARGS__); break; }

#define FULL(NAME, BASE)                                                                \
    void NAME(xtr::sink& s, unsigned fam, unsigned lv, unsigned seq) {                  \
        stmt_file = BASE; stmt_line = __LINE__;                                         \
        if (lv == 4) switch (fam) {                                                     \
            case 0: XTR_LOG(s, "m{} {{}}", seq); return;                                \
            case 1: XTR_TRY_LOG(s, "m{} {{}}", seq); return;                            \
            case 2: XTR_LOG_TS(s, "t s", "m{} {{}}", seq); return;                      \
            case 3: XTR_TRY_LOG_TS(s, "t s", "m{} {{}}", seq); return;                  \
            case 4: XTR_LOG_RTC(s, "m{} {{}}", seq); return;                            \
            case 5: XTR_TRY_LOG_RTC(s, "m{} {{}}", seq); return;                        \
            case 6: XTR_LOG_TSC(s, "m{} {{}}", seq); return;                            \
            default: XTR_TRY_LOG_TSC(s, "m{} {{}}", seq); return;                       \
        }                                                                               \
        switch (fam) {                                                                  \
            case 0: LV(XTR_LOGL, s, "m{} {{}}", seq) break;                             \
            case 1: LV(XTR_TRY_LOGL, s, "m{} {{}}", seq) break;                         \
            case 2: LV(XTR_LOGL_TS, s, "t s", "m{} {{}}", seq) break;                   \
            case 3: LV(XTR_TRY_LOGL_TS, s, "t s", "m{} {{}}", seq) break;               \
            case 4: LV(XTR_LOGL_RTC, s, "m{} {{}}", seq) break;                         \
            case 5: LV(XTR_TRY_LOGL_RTC, s, "m{} {{}}", seq) break;                     \
            case 6: LV(XTR_LOGL_TSC, s, "m{} {{}}", seq) break;                         \
            default: LV(XTR_TRY_LOGL_TSC, s, "m{} {{}}", seq) break;                    \
        } }

    // a message without arguments takes another path in the library
#define BRIEF(NAME, BASE)                                                               \
    void NAME(xtr::sink& s, unsigned, unsigned lv, unsigned seq) {                      \
        stmt_file = BASE; stmt_line = __LINE__;                                         \
        if (lv == 4) XTR_LOG(s, "m{} {{}}", seq);                                       \
        else { LV(XTR_LOGL, s, "m{} {{}}", seq) } }

#define NOARGS(NAME, BASE)                                                              \
    void NAME(xtr::sink& s, unsigned fam, unsigned lv, unsigned) {                      \
        stmt_file = BASE; stmt_line = __LINE__;                                         \
        if (lv == 4) switch (fam) {                                                     \
            case 0: XTR_LOG(s, "none"); return;                                         \
            case 1: XTR_TRY_LOG(s, "none"); return;                                     \
            case 2: XTR_LOG_TS(s, "t s", "none"); return;                               \
            case 3: XTR_TRY_LOG_TS(s, "t s", "none"); return;                           \
            case 4: XTR_LOG_RTC(s, "none"); return;                                     \
            case 5: XTR_TRY_LOG_RTC(s, "none"); return;                                 \
            case 6: XTR_LOG_TSC(s, "none"); return;                                     \
            default: XTR_TRY_LOG_TSC(s, "none"); return;                                \
        }                                                                               \
        switch (fam) {                                                                  \
            case 0: LV(XTR_LOGL, s, "none") break;                                      \
            case 1: LV(XTR_TRY_LOGL, s, "none") break;                                  \
            case 2: LV(XTR_LOGL_TS, s, "t s", "none") break;                            \
            case 3: LV(XTR_TRY_LOGL_TS, s, "t s", "none") break;                        \
            case 4: LV(XTR_LOGL_RTC, s, "none") break;                                  \
            case 5: LV(XTR_TRY_LOGL_RTC, s, "none") break;                              \
            case 6: LV(XTR_LOGL_TSC, s, "none") break;                                  \
            default: LV(XTR_TRY_LOGL_TSC, s, "none") break;                             \
        } }

#line 1 "c23_plain.cpp"
    FULL(p0, "c23_plain.cpp")
#line 2147483647 "/an/absolute/path/abs.cpp"
    FULL(p1, "abs.cpp")
#line 99999 "rel/na.args.cpp"
    NOARGS(p2, "na.args.cpp")
#line 12 "a"
    BRIEF(p3, "a")
#line 99 "/root.cpp"
    BRIEF(p4, "root.cpp")
#line 100 "./dot.cpp"
    BRIEF(p5, "dot.cpp")
#line 65536 "a//b"
    BRIEF(p6, "b")
#line 1234567 "../../up/../x.y.z.hpp"
    BRIEF(p7, "x.y.z.hpp")
#line 7 "dir with space/file with space.cpp"
    BRIEF(p8, "file with space.cpp")
#line 8 "back\\slash\\file.cpp"
    BRIEF(p9, "back\\slash\\file.cpp")
#line 80 "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z"
    BRIEF(p10, "z")
#line 81 "p/a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_.cc"
    BRIEF(p11, "a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_a_very_long_file_name_.cc")
#line 82 "x/colon:9: x.cpp"
    BRIEF(p12, "colon:9: x.cpp")
#line 83 "%s/%n%s.cpp"
    BRIEF(p13, "%n%s.cpp")
#line 200 "c23.cpp"
    constexpr auto stmts = std::to_array<void (*)(xtr::sink&, unsigned, unsigned, unsigned)>({p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13});

    // fatal, by family
    void fatal(xtr::sink& s, unsigned fam, unsigned seq)
    {
        stmt_file = "c23.cpp";
        switch (fam)
        {
#line 3000 "c23.cpp"
        case 0: stmt_line = __LINE__; XTR_LOGL(fatal, s, "m{} {{}}", seq); break;
        case 1: stmt_line = __LINE__; XTR_TRY_LOGL(fatal, s, "m{} {{}}", seq); break;
        case 2: stmt_line = __LINE__; XTR_LOGL_TS(fatal, s, "t s", "m{} {{}}", seq); break;
        case 3: stmt_line = __LINE__; XTR_TRY_LOGL_TS(fatal, s, "t s", "m{} {{}}", seq); break;
        case 4: stmt_line = __LINE__; XTR_LOGL_RTC(fatal, s, "m{} {{}}", seq); break;
        case 5: stmt_line = __LINE__; XTR_TRY_LOGL_RTC(fatal, s, "m{} {{}}", seq); break;
        case 6: stmt_line = __LINE__; XTR_LOGL_TSC(fatal, s, "m{} {{}}", seq); break;
        default: stmt_line = __LINE__; XTR_TRY_LOGL_TSC(fatal, s, "m{} {{}}", seq); break;
        }
    }

    // ------------------------------------------------------------ styles
    constexpr unsigned ncustom = 3;
    std::string table[ncustom][6];
    template<unsigned N> const char* custom(L l) { return table[N][unsigned(l)].c_str(); }
    constexpr xtr::log_level_style_t style_fn[] = {xtr::default_log_level_style, xtr::systemd_log_level_style, custom<0>, custom<1>, custom<2>};

    // the documented strings, independent of the library
    std::string style_text(unsigned style, L l)
    {
        static const char* const dflt[] = {"", "F ", "E ", "W ", "I ", "D "};
        static const char* const sysd[] = {"", "<0>", "<3>", "<4>", "<6>", "<7>"};
        return style == 0 ? dflt[unsigned(l)] : style == 1 ? sysd[unsigned(l)] : table[style - 2][unsigned(l)];
    }
    void gen_table(Src& src, Ctx& ctx)
    {
        for (auto& t : table)
            for (auto& s : t)
                s = src.chance(150) ? "" : src.chance(150) ? src.pick<std::string>({"{}", "{", "}", "{{", "%s", "\x1b[31m", "\xc3\xa9 ", "{0}", "\\", ": "}) : src.printable(src.size(src.chance(50) ? 600 : 12));
        ctx.note("style tables: info %s %s %s", quote(table[0][4]).c_str(), quote(table[1][4]).c_str(), quote(table[2][4]).c_str());
    }
    std::string gen_name(Src& src)
    {
        return src.chance(150) ? src.pick<std::string>({"", " ", "{}", "{", "}", "%s%n", "a b", "{0}", "{{}}", ": ", "/", "\\"}) : src.printable(src.size(src.chance(30) ? 300 : 14));
    }

    struct expect
    {
        unsigned lo, hi;     // indexes into the history of styles
        L level;
        int ts;              // 0: fixed clock, 1: "t s", 2: any time
        std::string name, rest;
    };

    void check_line(const std::string& got, const expect& e, const std::vector<unsigned>& styles)
    {
        for (unsigned k = e.lo; k <= e.hi; ++k)
        {
            const std::string p = style_text(styles[k], e.level);
            if (got.compare(0, p.size(), p) != 0) continue;
            std::string r = got.substr(p.size());
            if (e.ts == 0) { if (r.compare(0, fixed_ts.size(), fixed_ts) != 0) continue; r.erase(0, fixed_ts.size()); }
            else if (e.ts == 1) { if (r.compare(0, 3, "t s") != 0) continue; r.erase(0, 3); }
            else
            {
                if (r.size() < 26) continue;
                bool ok = true;
                static const char shape[] = "0000-00-00 00:00:00.000000";
                for (unsigned i = 0; i < 26; ++i) ok &= shape[i] == '0' ? r[i] >= '0' && r[i] <= '9' : r[i] == shape[i];
                if (!ok) continue;
                r.erase(0, 26);
            }
            if (r == " " + e.name + e.rest) return;
        }
        failf("line %s; expected style %s%s, then the %s time, then %s", quote(got, 900).c_str(), quote(style_text(styles[e.lo], e.level)).c_str(),
              e.lo == e.hi ? "" : " (or a later one)", e.ts == 0 ? "fixed" : e.ts == 1 ? "given" : "current", quote(" " + e.name + e.rest, 600).c_str());
    }
    L level_of(unsigned lv) { static const L t[] = {L::error, L::warning, L::info, L::debug, L::info}; return t[lv]; }

    // ------------------------------------------------------------ histories
    void history_case(Src& src, Ctx& ctx)
    {
        gen_table(src, ctx);
        auto st = std::make_shared<mem_state>();
        const unsigned nsinks = unsigned(src.range(1, 4));
        // By sink, in order: the lines of sinks are interleaved in any way
        std::vector<std::vector<expect>> want(nsinks);
        std::vector<unsigned> styles{unsigned(src.draw(5))};
        ctx.note("style %u", styles[0]);
        struct rec { unsigned sink; expect e; };
        std::vector<rec> all;
        bool renamed = false, restyled = false, dropped = false;
        std::size_t nwarn = 0;
        auto warnings = [&] {
            const std::string t = st->text();
            std::size_t r = 0;
            for (std::size_t p = 0; (p = t.find(" messages dropped\n", p)) != std::string::npos; ++p) ++r;
            return r;
        };
        auto body = [&](xtr::logger& log) {
            struct sk { std::unique_ptr<xtr::sink> s; std::string name; bool open = false; };
            std::vector<sk> S(nsinks);
            for (unsigned i = 0; i < nsinks; ++i)
            {
                S[i].name = gen_name(src);
                S[i].s = std::make_unique<xtr::sink>(L::debug);
                log.register_sink(*S[i].s, S[i].name);
                S[i].open = true;
                ctx.note("sink %u is %s", i, quote(S[i].name).c_str());
            }
            unsigned seq = 0;
            std::size_t n = 0;
            while (src.more(n, 25, 60))
            {
                ++n;
                const unsigned i = unsigned(src.draw(nsinks));
                switch (src.weighted({12, 3, 2, 2, 1, 1, 1}))
                {
                case 0:
                {
                    unsigned k = unsigned(src.draw(stmts.size()));
                    if (k == 2 && i != 0) k = 0; // lines without a number are of sink 0
                    const unsigned fam = k > 2 ? 0 : unsigned(src.draw(8)), lv = unsigned(src.draw(5));
                    ctx.note("log on %u, position %u, family %u, level %u", i, k, fam, lv);
                    stmts[k](*S[i].s, fam, lv, seq);
                    all.push_back({i, {unsigned(styles.size() - 1), ~0u, level_of(lv), fam < 2 ? 0 : fam < 4 ? 1 : 2, S[i].name,
                        " " + std::string(stmt_file) + ":" + std::to_string(stmt_line) + (k == 2 ? ": none" : ": m" + std::to_string(seq) + " {}")}});
                    ++seq;
                    break;
                }
                case 1:
                    S[i].name = gen_name(src);
                    ctx.note("rename %u to %s", i, quote(S[i].name).c_str());
                    S[i].s->set_name(S[i].name);
                    renamed = true;
                    break;
                case 2:
                {
                    const unsigned k = unsigned(src.draw(5));
                    const bool sync = src.chance(600);
                    if (sync)
                    {
                        for (auto& x : S) x.s->sync();
                        for (auto& r : all) if (r.e.hi == ~0u) r.e.hi = unsigned(styles.size() - 1);
                    }
                    ctx.note("style %u%s", k, sync ? " after sync" : "");
                    log.set_log_level_style(style_fn[k]);
                    styles.push_back(k);
                    restyled = true;
                    break;
                }
                case 3: // another life of the sink
                    ctx.note("close and register %u", i);
                    S[i].s->close();
                    if (src.chance(500)) S[i].name = gen_name(src);
                    log.register_sink(*S[i].s, S[i].name);
                    renamed = true;
                    break;
                case 4:
                {
                    const unsigned j = unsigned(src.draw(nsinks));
                    if (i == j) break;
                    ctx.note("%u = copy of %u", i, j);
                    *S[i].s = *S[j].s;
                    // the name after copying is the copied sink's
                    S[i].name = S[j].name;
                    renamed = true;
                    break;
                }
                case 5:
                {
                    S[i].s->sync();
                    for (auto& r : all) if (r.sink == i && r.e.hi == ~0u) r.e.hi = unsigned(styles.size() - 1);
                    break;
                }
                default:
                {
                    // overfill one queue behind a stalled consumer: the warning has a prefix too
                    S[i].s->sync();
                    for (auto& r : all) if (r.sink == i && r.e.hi == ~0u) r.e.hi = unsigned(styles.size() - 1);
                    auto g = std::make_unique<gate>();
                    xtr::sink tmp(L::debug);
                    log.register_sink(tmp, "gate");
                    XTR_LOG_TS(tmp, 0, "{}", gate_arg{g->s.get()});
                    g->wait_entered();
                    const unsigned k = unsigned(src.range(700, 800));
                    for (unsigned q = 0; q < k; ++q) XTR_TRY_LOG_TS(*S[i].s, 1, "fill {}", q);
                    g->open();
                    tmp.close();
                    S[i].s->sync();
                    ++nwarn;
                    // the warning follows once the queue is empty
                    if (!eventually([&] { return warnings() >= nwarn; })) failf("no warning of dropped messages appeared");
                    // exactly one warning, whose count other lines give
                    all.push_back({i, {unsigned(styles.size() - 1), unsigned(styles.size() - 1), L::warning, 0, S[i].name, "\x01" + std::to_string(k) + " " + std::to_string(nwarn - 1)}});
                    dropped = true;
                    ctx.note("drop on %u", i);
                    break;
                }
                }
            }
        };
        {
            xtr::logger log(std::make_unique<mem_storage>(st, 4096), fixed_clock(), xtr::null_command_path, style_fn[styles[0]]);
            body(log);
        }
        for (auto& r : all) { if (r.e.hi == ~0u) r.e.hi = unsigned(styles.size() - 1); want[r.sink].push_back(r.e); }
        auto lines = split_lines(st->text());
        std::erase_if(lines, [](const std::string& s) { return s.find("0 gate c23.cpp:") != std::string::npos; });
        // filler lines are counted and removed
        std::vector<std::string> rest;
        std::vector<unsigned long> fills;
        unsigned long fill = 0;
        for (auto& s : lines)
        {
            if (s.find(": fill ") != std::string::npos && s.find("c23.cpp:") != std::string::npos) { ++fill; continue; }
            rest.push_back(s);
            if (s.size() > 17 && s.compare(s.size() - 17, 17, " messages dropped") == 0) { fills.push_back(fill); fill = 0; }
        }
        std::size_t total = 0;
        for (auto& w : want) total += w.size();
        if (rest.size() != total) failf("%zu lines were expected, there are %zu", total, rest.size());
        // The lines of one sink are in order; sequence numbers tell the statement
        std::vector<std::size_t> pos(nsinks, 0);
        std::size_t fpos = 0;
        for (auto& s : rest)
        {
            bool found = false;
            for (unsigned i = 0; i < nsinks && !found; ++i)
            {
                if (pos[i] >= want[i].size()) continue;
                expect e = want[i][pos[i]];
                if (e.rest[0] == '\x01')
                {
                    if (s.size() < 17 || s.compare(s.size() - 17, 17, " messages dropped") != 0) continue;
                    char* endp;
                    const unsigned long k = std::strtoul(e.rest.c_str() + 1, &endp, 10);
                    if (std::strtoul(endp, nullptr, 10) != fpos) continue; // the warnings are in order
                    e.rest = ": " + std::to_string(k - fills.at(fpos)) + " messages dropped";
                    check_line(s, e, styles);
                    ++fpos;
                    found = true;
                }
                else if (e.rest.size() <= s.size() && s.compare(s.size() - e.rest.size(), e.rest.size(), e.rest) == 0)
                {
                    check_line(s, e, styles);
                    found = true;
                }
                if (found) ++pos[i];
            }
            if (!found)
            {
                std::string exp;
                for (unsigned i = 0; i < nsinks; ++i) if (pos[i] < want[i].size()) exp += " " + quote(style_text(styles[want[i][pos[i]].lo], want[i][pos[i]].level) + "<time> " + want[i][pos[i]].name + want[i][pos[i]].rest);
                failf("unexpected line %s; the next expected lines are%s", quote(s, 600).c_str(), exp.c_str());
            }
        }
        ctx.nontrivial(renamed || restyled || dropped);
        if (renamed) ctx.label("renamed");
        if (restyled) ctx.label("restyled");
        if (dropped) ctx.label("dropped");
    }

    // ------------------------------------------------------------ fatal
    void fatal_case(Src& src, Ctx& ctx)
    {
        gen_table(src, ctx);
        const unsigned style = unsigned(src.draw(5)), fam = unsigned(src.draw(8)), lvl = unsigned(src.range(1, 5));
        const bool set = src.chance(500);
        const std::string name = gen_name(src), path = ctx.dir() + "/fatal.log";
        const unsigned before = unsigned(src.draw(5));
        ctx.note("fatal: family %u, style %u, sink %s, %u messages before", fam, style, quote(name).c_str(), before);
        ::unlink(path.c_str());
        const pid_t pid = ::fork();
        if (pid < 0) infra("fork");
        if (pid == 0)
        {
            ::signal(SIGABRT, SIG_DFL);
            const rlimit no{0, 0};
            ::setrlimit(RLIMIT_CORE, &no);
            xtr::logger log(path.c_str(), fixed_clock(), xtr::null_command_path, style_fn[set ? 0 : style]);
            if (set) log.set_log_level_style(style_fn[style]);
            xtr::sink s{L(lvl)};
            log.register_sink(s, name);
            for (unsigned i = 0; i < before; ++i) p0(s, 0, 4, i);
            fatal(s, fam, before);
            ::_exit(99);
        }
        int status = 0;
        while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        const std::string text = read_file(path);
        ::unlink(path.c_str());
        if (!WIFSIGNALED(status) || WTERMSIG(status) != SIGABRT) failf("a fatal statement ended with status 0x%x, not by SIGABRT", unsigned(status));
        auto lines = split_lines(text);
        if (lines.size() != before + 1 || text.back() != '\n') failf("%zu lines after a fatal statement preceded by %u: %s", lines.size(), before, quote(text).c_str());
        std::vector<unsigned> styles{style};
        for (unsigned i = 0; i < before; ++i)
            check_line(lines[i], {0, 0, L::info, 0, name, " c23_plain.cpp:1: m" + std::to_string(i) + " {}"}, styles);
        // the statements of fatal() are on consecutive lines from 3000
        check_line(lines[before], {0, 0, L::fatal, fam < 2 ? 0 : fam < 4 ? 1 : 2, name, " c23.cpp:" + std::to_string(3000 + fam) + ": m" + std::to_string(before) + " {}"}, styles);
        ctx.nontrivial();
        ctx.label("fatal");
    }

    // ------------------------------------------------------------ names of levels
    void names_case(Src& src, Ctx& ctx)
    {
        static const char* const names[] = {"none", "fatal", "error", "warning", "info", "debug"};
        std::size_t n = 0;
        bool near = false;
        while (n++ < 40)
        {
            const unsigned k = unsigned(src.draw(6));
            std::string s = names[k];
            switch (src.draw(12))
            {
            case 0: break;
            case 1: s[src.draw(s.size())] ^= 0x20; break;
            case 2: s.resize(src.draw(s.size())); break;
            case 3: s += std::string(1, char(src.draw(256))); break;
            case 4: s.insert(s.begin(), char(src.draw(256))); break;
            case 5: s.erase(src.draw(s.size()), 1); break;
            case 6: s += s; break;
            case 7: s[src.draw(s.size())] = char(src.draw(256)); break;
            case 8: s += names[src.draw(6)]; break;
            case 9: s = src.anybytes(src.size(20)); break;
            case 10: s = std::to_string(src.range(-1, 7)); break;
            default: std::swap(s[src.draw(s.size())], s[src.draw(s.size())]); break;
            }
            int want = -1;
            for (int i = 0; i < 6; ++i) if (s == names[i]) want = i;
            near |= want < 0;
            // exactly sized copy, not terminated, so that reading past the end is seen
            std::vector<char> buf(s.begin(), s.end());
            int got = -1;
            try { got = int(xtr::log_level_from_string(std::string_view(buf.data(), buf.size()))); }
            catch (const std::invalid_argument&) { got = -1; }
            if (got != want) failf("the level name %s converts to %d, expected %d (-1: rejected)", quote(s).c_str(), got, want);
        }
        for (unsigned l = 0; l < 6; ++l)
            for (unsigned k = 0; k < 2; ++k)
                if (style_fn[k](L(l)) != style_text(k, L(l))) failf("provided style %u gives %s for level %u", k, quote(style_fn[k](L(l))).c_str(), l);
        ctx.nontrivial(near);
        ctx.label("level_names");
    }
}

void vp_worker_init() {}

void vp_case(Src& src, Ctx& ctx)
{
    switch (src.weighted({20, 1, 2}))
    {
    case 0: history_case(src, ctx); break;
    case 1: fatal_case(src, ctx); break;
    default: names_case(src, ctx); break;
    }
}
