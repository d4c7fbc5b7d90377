// C10: a failing message or back-end call never disturbs other messages.
#include "common.hpp"

using namespace vp;

vp::Info vp_info{
    "C10",
    "a case is a history of messages on 1-3 sinks, of which some fail to format (formatter of an argument throws before, within or after its output, at any argument position, with strings and "
    "objects around it; format specification that is only invalid at run time; formatter of the supplied timestamp throws) or throw at the statement (copying or moving an argument fails), in phases during which back-end functions (allocate, submit, flush) "
    "work or throw on a generated schedule, with standard error going to a file, to a full device or nowhere. No failing message appears, every good message logged while the back-end works appears "
    "exactly once, whole and in order, each failure is reported on standard error (if it works), and every argument object is destroyed once. Non-trivial: at least one failure and a good message after it.",
    30, 5};

void vp_worker_init() {}

namespace
{
    std::atomic<long> g_live{0};

    struct counted
    {
        std::string s; // makes the type non-trivial
        explicit counted(std::string x) : s(std::move(x)) { ++g_live; }
        counted(const counted& o) : s(o.s) { ++g_live; }
        counted(counted&& o) noexcept : s(std::move(o.s)) { ++g_live; }
        ~counted() { --g_live; }
    };

    struct bomb
    {
        unsigned id;
        int when; // 0 before any output, 1 after some, 2 after a lot, 3 not at all
    };

    // Copying or moving it throws when the countdown, set for each statement, reaches zero
    thread_local int g_countdown = -1;
    struct copy_bomb
    {
        unsigned id;
        std::shared_ptr<int> p = std::make_shared<int>(1); // leaks are noticed
        explicit copy_bomb(unsigned i) : id(i) { ++g_live; }
        copy_bomb(const copy_bomb& o) : id(o.id), p(o.p) { tick(); ++g_live; }
        copy_bomb(copy_bomb&& o) noexcept(false) : id(o.id), p(o.p) { tick(); ++g_live; }
        ~copy_bomb() { --g_live; }
        static void tick();
    };
    struct copy_failed : std::exception {};
    void copy_bomb::tick() { if (g_countdown >= 0 && g_countdown-- == 0) throw copy_failed(); }

    struct bomb_ts { unsigned id; bool bad; };

    struct boom : std::runtime_error { using runtime_error::runtime_error; };
    template<typename Base> struct named : Base
    {
        std::string text;
        explicit named(std::string t) : text(std::move(t)) {}
        const char* what() const noexcept override { return text.c_str(); }
    };
    // Any standard exception may come out of a formatter or a back-end
    [[noreturn]] void explode(std::uint64_t kind, const std::string& text)
    {
        switch (kind % 8)
        {
        default: throw boom(text);
        case 1: throw named<std::exception>(text);
        case 2: throw named<std::bad_alloc>(text);
        case 3: throw std::out_of_range(text);
        case 4: throw std::system_error(ENOSPC, std::generic_category(), text);
        case 5: throw fmt::format_error(text);
        case 6: throw named<std::bad_cast>(text);
        case 7: throw std::length_error(text);
        }
    }

    struct backend_state
    {
        std::mutex m;
        std::string data;
        std::size_t cap = 64;
        unsigned fail_alloc = 0, fail_submit = 0, fail_flush = 0; // permille
        std::uint64_t rng = 1;
        std::uint64_t thrown = 0;
        std::unique_ptr<char[]> buf;

        bool roll(unsigned permille)
        {
            if (permille == 0) return false;
            rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
            return rng % 1000 < permille;
        }
        void maybe(unsigned permille, const char* what)
        {
            if (roll(permille)) { ++thrown; explode(rng >> 20, fmt::format("backend-{}", what)); }
        }
    };

    struct backend : xtr::storage_interface
    {
        std::shared_ptr<backend_state> s;
        explicit backend(std::shared_ptr<backend_state> x) : s(std::move(x)) {}
        std::span<char> allocate_buffer() override
        {
            std::scoped_lock l{s->m};
            s->maybe(s->fail_alloc, "alloc");
            if (s->buf) failf("a buffer was allocated while another is outstanding");
            s->buf.reset(new char[s->cap]);
            return {s->buf.get(), s->cap};
        }
        void submit_buffer(char* p, std::size_t n) override
        {
            std::scoped_lock l{s->m};
            if (!s->buf || p != s->buf.get() || n == 0 || n > s->cap) failf("submit_buffer: this buffer is not outstanding (submitted twice?)");
            s->maybe(s->fail_submit, "submit");
            s->data.append(p, n);
            s->buf.reset();
        }
        void flush() override
        {
            std::scoped_lock l{s->m};
            s->maybe(s->fail_flush, "flush");
        }
        void sync() noexcept override {}
        int reopen() noexcept override { return 0; }
    };

    struct stderr_guard
    {
        int saved = -1;
        stderr_guard(int mode, const std::string& path)
        {
            std::fflush(stderr);
            saved = ::fcntl(2, F_DUPFD_CLOEXEC, 100);
            const int fd = mode == 0 ? ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600)
                : mode == 1          ? ::open("/dev/full", O_WRONLY)
                                     : ::open("/dev/null", O_RDONLY);
            if (saved < 0 || fd < 0) infra("cannot redirect stderr");
            ::dup2(fd, 2);
            ::close(fd);
        }
        void restore()
        {
            if (saved < 0) return;
            std::fflush(stderr);
            std::clearerr(stderr);
            ::dup2(saved, 2);
            ::close(saved);
            saved = -1;
        }
        ~stderr_guard() { restore(); }
    };
}

template<>
struct fmt::formatter<bomb>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const bomb& b, C& c) const
    {
        auto o = c.out();
        if (b.when == 0) explode(b.id, fmt::format("boom-{}-", b.id));
        o = fmt::format_to(o, "BOMB{}", b.id);
        if (b.when == 1) explode(b.id, fmt::format("boom-{}-", b.id));
        if (b.when == 2)
        {
            o = fmt::format_to(o, "{:#>700}\n", "x");
            explode(b.id, fmt::format("boom-{}-", b.id));
        }
        return o;
    }
};

template<>
struct fmt::formatter<bomb_ts>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const bomb_ts& b, C& c) const
    {
        auto o = c.out();
        if (b.bad)
        {
            o = fmt::format_to(o, "TS{}", b.id);
            explode(b.id, fmt::format("boom-{}-", b.id));
        }
        return fmt::format_to(o, "{}", fixed_ts);
    }
};

template<>
struct fmt::formatter<copy_bomb>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const copy_bomb& b, C& c) const { return fmt::format_to(c.out(), "COPY{}", b.id); }
};

template<>
struct fmt::formatter<counted>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const counted& b, C& c) const { return fmt::format_to(c.out(), "{}", b.s); }
};

namespace
{
    // Each statement begins its message with "<sink>:<id>:" and, when it does
    // not fail, ends it with "|". Returns the text it must show.
    struct stmt
    {
        xtr::sink& s;
        unsigned sink, id;
        bool bad;
        int when;
        std::string str;

        std::string body(unsigned shape) const
        {
            const std::string h = fmt::format("{}:{}:", sink, id);
            switch (shape)
            {
            case 0: return h + fmt::format("BOMB{}|", id);
            case 1: return h + fmt::format("{}BOMB{}{}|", str, id, 5);
            case 2: return h + fmt::format("BOMB{}{}{}|", id, str, str);
            case 3: return h + fmt::format("{}BOMB{}{}|", "cnt", id, "cnt2");
            case 4: return h + fmt::format("{:{}}|", 42, 6);
            case 5: return h + fmt::format("{:.{}}{}|", 1.5, 3, str);
            case 6: return h + fmt::format("{}|", str);
            case 7: return h + fmt::format("{}|", 7);
            case 8: return h + fmt::format("{}BOMB{}{}|", str, id, "cnt");
            case 10: return h + fmt::format("COPY{}|", id);
            case 11: return h + fmt::format("{}COPY{}{}cnt|", str, id, str);
            case 12: return h + fmt::format("{}COPY{}COPY{}{}|", str, id, id, str);
            case 13: return h + fmt::format("COPY{}cnt{}|", id, 3);
            default: return h + fmt::format("{}{}|", str, 9);
            }
        }

        void run(unsigned shape)
        {
            const bomb b{id, bad ? when : 3};
            const copy_bomb cb(id);
            switch (shape)
            {
            case 0: XTR_LOG(s, "{}:{}:{}|", sink, id, b); break;
            case 1: XTR_LOG(s, "{}:{}:{}{}{}|", sink, id, str, b, 5); break;
            case 2: XTR_LOG(s, "{}:{}:{}{}{}|", sink, id, b, str, str.c_str()); break;
            case 3: XTR_LOG(s, "{}:{}:{}{}{}|", sink, id, counted("cnt"), b, counted("cnt2")); break;
            case 4: XTR_LOG(s, "{}:{}:{:{}}|", sink, id, 42, bad ? -6 : 6); break;
            case 5: XTR_LOG(s, "{}:{}:{:.{}}{}|", sink, id, 1.5, bad ? -3 : 3, str); break;
            case 6: XTR_LOG_TS(s, (bomb_ts{id, bad}), "{}:{}:{}|", sink, id, str); break;
            case 7: XTR_LOG_TS(s, (bomb_ts{id, bad}), "{}:{}:{}|", sink, id, 7); break;
            case 8: XTR_LOG(s, "{}:{}:{}{}{}|", sink, id, std::string_view(str), b, counted("cnt")); break;
            case 10: XTR_LOG(s, "{}:{}:{}|", sink, id, cb); break;
            case 11: XTR_LOG(s, "{}:{}:{}{}{}{}|", sink, id, str, cb, str.c_str(), counted("cnt")); break;
            case 12: XTR_LOGL(error, s, "{}:{}:{}{}{}{}|", sink, id, std::string(str), copy_bomb(id), cb, std::string_view(str)); break;
            case 13: XTR_TRY_LOG(s, "{}:{}:{}{}{}|", sink, id, copy_bomb(id), counted("cnt"), 3); break;
            default: XTR_LOG(s, "{}:{}:{}{}|", sink, id, str, 9); break;
            }
        }
        // Is the reason reported for shapes 4 and 5 fmt's own?
    };
}

void vp_case(Src& src, Ctx& ctx)
{
    auto bs = std::make_shared<backend_state>();
    bs->cap = src.chance(500) ? 1 + src.size(400) : src.pick<std::size_t>({65536, 4096, 1, 2, 100});
    bs->rng = src.draw(1u << 30) + 1;
    const int err_mode = int(src.weighted({6, 2, 2}));
    const std::string errpath = ctx.dir() + "/stderr";
    const unsigned nsinks = unsigned(src.range(1, 3));
    const unsigned nphase = unsigned(src.range(1, 4));
    g_live = 0;

    struct sent { unsigned sink, id; std::string text; bool bad; int phase; };
    std::vector<sent> all;
    std::vector<bool> works(nphase);
    std::vector<std::pair<unsigned, unsigned>> gone; // statements that threw
    unsigned bad_fmt_spec = 0;
    bool good_after_bad = false, seen_bad = false;
    {
        stderr_guard g(err_mode, errpath);
        {
            xtr::logger log(std::make_unique<backend>(bs), fixed_clock(), xtr::null_command_path);
            std::vector<std::unique_ptr<xtr::sink>> sk;
            for (unsigned i = 0; i < nsinks; ++i) sk.emplace_back(new xtr::sink(log.get_sink(fmt::format("S{}", i))));
            unsigned id = 0;
            for (unsigned p = 0; p < nphase; ++p)
            {
                works[p] = p + 1 == nphase || !src.chance(500);
                {
                    std::scoped_lock l{bs->m};
                    if (works[p]) bs->fail_alloc = bs->fail_submit = bs->fail_flush = 0;
                    else
                    {
                        const unsigned rate = src.pick<unsigned>({1000, 500, 100});
                        const unsigned which = unsigned(src.draw(7)) + 1;
                        bs->fail_alloc = (which & 1) ? rate : 0;
                        bs->fail_submit = (which & 2) ? rate : 0;
                        bs->fail_flush = (which & 4) ? rate : 0;
                    }
                    ctx.note("phase %u: back-end %s (alloc %u submit %u flush %u)", p, works[p] ? "works" : "fails", bs->fail_alloc, bs->fail_submit, bs->fail_flush);
                }
                std::size_t n = 0;
                while (src.more(n, 20, 60))
                {
                    ++n;
                    const unsigned i = unsigned(src.draw(nsinks));
                    bool bad = src.chance(300);
                    const bool copies = src.chance(150);
                    unsigned shape = unsigned(bad ? src.draw(9) : src.draw(10));
                    const int when = int(src.draw(3));
                    std::string str = src.printable(src.chance(100) ? src.size(600) : src.draw(20));
                    for (auto& c : str) if (c == '\\' || c == ':' || c == '#') c = '/';
                    stmt st{*sk[i], i, id++, bad, when, str};
                    ctx.note("sink %u id %u shape %u %s%d", i, st.id, shape, bad ? "fails at " : "good ", when);
                    if (copies)
                    {
                        // An exception from copying an argument reaches the caller, and the statement has no effect. (A failing
                        // copy of a statement whose message would be dropped may never be made, so wait for room first.)
                        shape = 10 + unsigned(src.draw(4));
                        bad = false;
                        st.bad = false;
                        const int countdown = int(src.draw(8)) - 1;
                        sk[i]->sync();
                        bool thrown = false;
                        g_countdown = countdown;
                        try { st.run(shape); }
                        catch (const copy_failed&) { thrown = true; }
                        const bool exploded = countdown >= 0 && g_countdown < 0;
                        g_countdown = -1;
                        ctx.note("  as shape %u, copy %d fails%s", shape, countdown, thrown ? "" : " (not reached)");
                        if (exploded != thrown) failf("copying an argument threw, but the statement did not");
                        if (thrown)
                        {
                            ctx.label("copy_throws");
                            gone.emplace_back(i, st.id);
                            seen_bad = true;
                            continue;
                        }
                    }
                    else st.run(shape);
                    all.push_back({i, st.id, fmt::format("{} {} S{} c10.cpp:", shape == 12 ? 'E' : 'I', fixed_ts, i) + "@" + st.body(shape), bad, int(p)});
                    if (bad) { seen_bad = true; if (shape == 4 || shape == 5) ++bad_fmt_spec; }
                    else if (seen_bad) good_after_bad = true;
                    if (src.chance(60)) sk[i]->sync();
                }
                for (auto& s : sk) s->sync();
            }
        }
        g.restore();
    }

    if (g_live != 0) failf("%ld argument objects were not destroyed exactly once", g_live.load());

    // Every good message of a working phase occurs exactly once, whole and in
    // order; other good messages at most once; failing ones never
    const auto lines = split_lines(bs->data);
    if (!bs->data.empty() && bs->data.back() != '\n' && works[nphase - 1])
    {
        // Only a fragment of a message whose back-end call failed may be left
        bool any = false;
        for (auto& m : all) any = any || (!works[unsigned(m.phase)]);
        if (!any) failf("the log does not end with a newline");
    }
    bool all_work = true;
    for (bool b : works) all_work = all_work && b;
    std::map<unsigned, unsigned> occurrences;
    std::vector<std::vector<unsigned>> order(nsinks);
    for (auto& ln : lines)
    {
        // Find the last occurrence of a header: everything up to it may only be a
        // fragment left by a failed back-end call
        bool matched = false;
        for (auto& m : all)
        {
            const auto at = m.text.find('@');
            const std::string head = m.text.substr(0, at), tail = ": " + m.text.substr(at + 1);
            if (ln.size() < tail.size() || ln.compare(ln.size() - tail.size(), tail.size(), tail) != 0) continue;
            // <head><digits><tail>
            std::size_t e = ln.size() - tail.size(), d = e;
            while (d > 0 && std::isdigit((unsigned char)ln[d - 1])) --d;
            if (d == e || d < head.size() || ln.compare(d - head.size(), head.size(), head) != 0) continue;
            if (m.bad) failf("message %u failed to format but appears in the log: %s", m.id, quote(ln).c_str());
            if (d != head.size() && all_work) failf("a line has something before its prefix: %s", quote(ln).c_str());
            ++occurrences[m.id];
            order[m.sink].push_back(m.id);
            matched = true;
            break;
        }
        if (!matched && all_work) failf("a line is none of the messages: %s", quote(ln).c_str());
    }
    for (auto& m : all)
    {
        const unsigned n = occurrences.count(m.id) ? occurrences[m.id] : 0;
        if (n > 1) failf("message %u appears %u times", m.id, n);
        if (!m.bad && works[unsigned(m.phase)] && n != 1) failf("message %u (%s), logged while the back-end works, is missing or not intact", m.id, quote(m.text).c_str());
    }
    for (auto& o : order) if (!std::is_sorted(o.begin(), o.end())) failf("messages out of order");
    // A fragment of a failing message must never remain
    for (auto& m : all)
        if (m.bad && all_work && (bs->data.find(fmt::format("BOMB{}#", m.id)) != std::string::npos || bs->data.find(fmt::format(": {}:{}:", m.sink, m.id)) != std::string::npos))
            failf("part of message %u, which failed to format, is in the log", m.id);

    for (auto [sink, id] : gone)
        if (bs->data.find(fmt::format(": {}:{}:", sink, id)) != std::string::npos) failf("statement %u threw, but its message is in the log", id);

    if (err_mode == 0)
    {
        const std::string err = read_file(errpath);
        std::size_t nerr = split_lines(err).size();
        for (auto& m : all)
        {
            if (!m.bad) continue;
            const bool own = err.find(fmt::format("boom-{}-", m.id)) != std::string::npos;
            if (!own && bad_fmt_spec == 0) failf("the failure of message %u was not reported on standard error: %s", m.id, quote(err, 600).c_str());
        }
        std::size_t nbad = 0;
        for (auto& m : all) nbad += m.bad;
        if (nerr < nbad) failf("%zu messages failed but only %zu lines were written to standard error", nbad, nerr);
        if (bs->thrown && err.find("backend-") == std::string::npos) failf("back-end failures were not reported on standard error");
        if (nbad == 0 && bs->thrown == 0 && nerr) failf("nothing failed, but standard error has %s", quote(err).c_str());
    }
    ctx.nontrivial((seen_bad && good_after_bad) || bs->thrown > 0);
    if (bs->thrown) ctx.label("backend_failure");
    if (err_mode) ctx.label("stderr_unusable");
    if (bad_fmt_spec) ctx.label("runtime_format_error");
}
