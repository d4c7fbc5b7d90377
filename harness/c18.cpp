// C18: timestamps show the right UTC time to the microsecond.
#include "common.hpp"

#include <xtr/detail/tsc.hpp>

using namespace vp;

vp::Info vp_info{
    "C18",
    "a case is one of: a logger with a generated clock (12 durations from femtoseconds to days, integral and floating point, stateful or static; times from year 1 to 9999 "
    "biased to second, microsecond, epoch, month, leap-day and year boundaries) set before each of up to 30 statements; statements with generated user timestamps "
    "(xtr::timespec, integers, strings, user types); real-time-clock or TSC statements delayed by a stalled background thread, bounded by the wall clock read before and after; "
    "TSC tick counts at generated distances from now; several sinks with a clock that counts. Every timestamp is compared with an independent calendar computation. "
    "Non-trivial: at least two different timestamps were checked.",
    30, 6};

namespace
{
    // Independent calendar computation (days to civil, proleptic Gregorian)
    std::string render(std::int64_t sec, std::int64_t nanos)
    {
        std::int64_t days = sec / 86400, rem = sec % 86400;
        if (rem < 0) { rem += 86400; --days; }
        // walk 400 year cycles, then years, then months
        std::int64_t y = 1970;
        const std::int64_t cyc = 146097;
        std::int64_t c = days / cyc;
        if (days % cyc < 0) --c;
        y += c * 400;
        days -= c * cyc;
        auto leap = [](std::int64_t yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
        while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; ++y; }
        static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        int m = 0;
        for (;; ++m)
        {
            const int l = ml[m] + (m == 1 && leap(y));
            if (days < l) break;
            days -= l;
        }
        char b[64];
        std::snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%06d", int(y), m + 1, int(days) + 1, int(rem / 3600), int(rem / 60 % 60), int(rem % 60), int(nanos / 1000));
        return b;
    }

    constexpr std::int64_t year1 = -62135596800, year10000 = 253402300800;

    struct when { std::int64_t sec; std::int64_t attos; }; // attos: 10^-18

    std::int64_t gen_sec(Src& s)
    {
        switch (s.draw(6))
        {
        case 0: return s.range(0, 4000000000);
        case 1: return s.range(-100, 100);
        case 2: return s.range(year1, year10000 - 1);
        case 3:
        {
            // month boundaries
            const std::int64_t y = s.range(1900, 2105), mo = s.range(1, 12);
            const std::int64_t yy = mo <= 2 ? y - 1 : y, era = yy / 400, yoe = yy - era * 400;
            const std::int64_t doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
            return (era * 146097 + doe - 719468) * 86400 + s.range(-2, 1);
        }
        case 4: return s.range(-5000000000, 0);
        default:
        {
            static const std::int64_t e[] = {0, -1, 2147483647, 2147483648, 4294967295, 4294967296, -2147483648, -2147483649, 951782400, 951868800, 1709164800, 4107542400, year1, year10000 - 1};
            return e[s.draw(sizeof e / sizeof *e)];
        }
        }
    }

    std::int64_t gen_attos(Src& s)
    {
        constexpr std::int64_t A = 1000000000000000000;
        switch (s.draw(6))
        {
        case 0: return 0;
        case 1: return A - 1 - s.draw(3);
        case 2: return std::int64_t(s.draw(1000000)) * (A / 1000000);          // whole microseconds
        case 3: return std::int64_t(s.range(1, 1000000)) * (A / 1000000) - 1;  // just below one
        case 4: return std::int64_t(s.draw(1000)) * (A / 1000);
        default: return std::int64_t(s.draw(A));
        }
    }

    // A settable clock of a given duration; the count is shared with the test
    template<typename D, int Tag>
    struct test_clock
    {
        using duration = D;
        using rep = typename D::rep;
        using period = typename D::period;
        using time_point = std::chrono::time_point<test_clock, D>;
        static constexpr bool is_steady = false;
        std::shared_ptr<std::atomic<rep>> v = std::make_shared<std::atomic<rep>>();
        time_point now() const { return time_point(D(v->load())); }
    };
    template<typename D>
    struct static_clock
    {
        using duration = D;
        using rep = typename D::rep;
        using period = typename D::period;
        using time_point = std::chrono::time_point<static_clock, D>;
        static constexpr bool is_steady = false;
        static inline std::atomic<rep> v{};
        static time_point now() noexcept { return time_point(D(v.load())); }
    };

    struct user_ts { int a; };

    using i128 = __int128;

    // The instant given by count periods of num/den seconds, as floor seconds and nanoseconds
    void instant(std::int64_t count, std::int64_t num, std::int64_t den, std::int64_t& sec, std::int64_t& nanos)
    {
        const i128 n = i128(count) * num;
        i128 s = n / den, r = n % den;
        if (r < 0) { r += den; --s; }
        sec = std::int64_t(s);
        nanos = std::int64_t(r * 1000000000 / den);
    }

    struct checker
    {
        std::vector<std::string> want;
        std::set<std::string> distinct;
        void expect(std::string t) { distinct.insert(t); want.push_back(std::move(t)); }
    };

    std::string ts_of(const std::string& ln)
    {
        const auto p = ln.find(" S c18.cpp:");
        if (ln.size() < 3 || p == std::string::npos || p < 2) failf("malformed line %s", quote(ln).c_str());
        return ln.substr(2, p - 2);
    }

    void check_log(Ctx& ctx, checker& c, const std::string& data)
    {
        const auto lines = split_lines(data);
        VP_CHECK(lines.size() == c.want.size(), "%zu lines, expected %zu", lines.size(), c.want.size());
        for (std::size_t i = 0; i < lines.size(); ++i)
            if (ts_of(lines[i]) != c.want[i])
                failf("statement %zu: timestamp %s, expected %s", i, quote(ts_of(lines[i])).c_str(), quote(c.want[i]).c_str());
        ctx.nontrivial(c.distinct.size() > 1);
    }

    template<bool Lvalue, typename Clock, typename Set>
    void clock_history(Src& src, Ctx& ctx, Clock clk, Set&& set, std::int64_t num, std::int64_t den, bool fp, std::int64_t lim)
    {
        auto st = std::make_shared<mem_state>();
        checker c;
        bool neg = false;
        {
            // count for an instant: floor((sec + attos) * den / num)
            auto gen = [&] {
                std::int64_t count;
                do
                {
                    const std::int64_t s = gen_sec(src);
                    const i128 a = fp ? i128(src.draw(64)) * (1000000000000000000 / 64) : i128(gen_attos(src));
                    if (den > 1000000000) // finer than nanoseconds: limited range around the epoch
                        count = src.range(-lim, lim);
                    else
                    {
                        i128 x = (i128(s) * den);
                        i128 q = x / num;
                        if (x % num < 0) --q;
                        count = std::int64_t(q) + std::int64_t(a / (1000000000000000000 / (den > num ? den : 1)) % (den > 1 ? den : 1));
                        if (num > 1) count = std::int64_t(q);
                    }
                    std::int64_t ss, nn;
                    instant(count, num, den, ss, nn);
                    if (ss >= year1 && ss < year10000 && count >= -lim && count <= lim) { neg |= ss < 0; break; }
                } while (true);
                return count;
            };
            set(gen());
            // The caller's clock need not outlive the construction of the logger
            auto own = std::make_unique<Clock>(clk);
            using fwd = std::conditional_t<Lvalue, Clock&, Clock&&>;
            xtr::logger log(std::make_unique<mem_storage>(st, 4096), static_cast<fwd>(*own), xtr::null_command_path);
            own.reset();
            xtr::sink s;
            log.register_sink(s, "S");
            s.sync();
            std::size_t n = 0;
            while (src.more(n++, 10, 30))
            {
                const std::int64_t count = gen();
                std::int64_t sec, nanos;
                instant(count, num, den, sec, nanos);
                set(count);
                switch (src.draw(3))
                {
                case 0: XTR_LOG(s, "x"); break;
                case 1: XTR_LOGL(error, s, "{}", 1); break;
                default: XTR_TRY_LOG(s, "{}", "str"); break;
                }
                const std::string r = render(sec, nanos);
                ctx.note("count %ld of %ld/%ld s: %s", long(count), long(num), long(den), r.c_str());
                c.expect(r);
                s.sync();
            }
        }
        check_log(ctx, c, st->text());
        if (neg) ctx.label("before_1970");
        ctx.label("clock");
    }

    template<int Tag, typename D>
    void duration_case(Src& src, Ctx& ctx)
    {
        using rep = typename D::rep;
        const std::int64_t num = D::period::num, den = D::period::den;
        const bool fp = std::is_floating_point_v<rep>;
        const std::int64_t lim = fp ? (std::int64_t(1) << 50) : sizeof(rep) == 4 ? INT32_MAX - 10 : INT64_MAX / 4;
        if (src.chance(500))
        {
            test_clock<D, Tag> clk;
            auto v = clk.v;
            clock_history<Tag % 2 == 0>(src, ctx, clk, [v](std::int64_t c) { v->store(rep(c)); }, num, den, fp, lim);
        }
        else
            clock_history<false>(src, ctx, static_clock<D>(), [](std::int64_t c) { static_clock<D>::v.store(rep(c)); }, num, den, fp, lim);
    }

    // floating point seconds: exactly representable instants
    void fp_case(Src& src, Ctx& ctx)
    {
        using D = std::chrono::duration<double>;
        auto st = std::make_shared<mem_state>();
        checker c;
        test_clock<D, 77> clk;
        auto v = clk.v;
        {
            xtr::logger log(std::make_unique<mem_storage>(st, 4096), clk, xtr::null_command_path);
            xtr::sink s;
            log.register_sink(s, "S");
            s.sync();
            std::size_t n = 0;
            while (src.more(n++, 10, 30))
            {
                const std::int64_t sec = src.range(-4000000000, 4000000000), f = std::int64_t(src.draw(64));
                v->store(double(sec) + double(f) / 64);
                XTR_LOG(s, "x");
                ctx.note("%ld + %ld/64 s", long(sec), long(f));
                c.expect(render(sec, f * 1000000000 / 64));
                s.sync();
            }
        }
        check_log(ctx, c, st->text());
        ctx.label("floating_point");
    }

    // ---------------------------------------------------------------- user timestamps
    void user_case(Src& src, Ctx& ctx)
    {
        auto st = std::make_shared<mem_state>();
        checker c;
        {
            xtr::logger log(std::make_unique<mem_storage>(st, 4096), fixed_clock(), xtr::null_command_path);
            xtr::sink s;
            log.register_sink(s, "S");
            std::size_t n = 0;
            while (src.more(n++, 12, 40))
            {
                std::timespec t;
                t.tv_sec = gen_sec(src);
                t.tv_nsec = long(gen_attos(src) / 1000000000);
                const std::string r = render(t.tv_sec, t.tv_nsec);
                const auto k = src.draw(10);
                ctx.note("kind %u %s", unsigned(k), r.c_str());
                switch (k)
                {
                case 0: XTR_LOG_TS(s, xtr::timespec(t), "x"); c.expect(r); break;
                case 1: { xtr::timespec x(t); XTR_LOGL_TS(warning, s, x, "{}", 1); x.tv_sec = 0; c.expect(r); break; }
                case 2: { const xtr::timespec x(t); XTR_TRY_LOG_TS(s, x, "{} {}", "a", std::string("b")); c.expect(r); break; }
                case 3: XTR_TRY_LOGL_TS(error, s, xtr::timespec(t), "{}", std::string(50, 'z')); c.expect(r); break;
                case 4: XTR_LOG_TS(s, t.tv_sec, "x"); c.expect(std::to_string(t.tv_sec)); break;
                case 5: { std::string x = std::to_string(t.tv_nsec); XTR_LOG_TS(s, x, "{}", 2.5); c.expect(x); break; }
                case 6: XTR_LOG_TS(s, user_ts{int(t.tv_nsec)}, "{}", "s"); c.expect("u" + std::to_string(int(t.tv_nsec))); break;
                case 7: XTR_LOG_TS(s, "static", "x"); c.expect("static"); break;
                case 8: XTR_LOG(s, "x"); c.expect(fixed_ts); break;
                default: XTR_LOGL_TS(error, s, (t.tv_nsec ? 1 : 2), "x {}", 'c'); c.expect(t.tv_nsec ? "1" : "2"); break;
                }
            }
        }
        check_log(ctx, c, st->text());
        ctx.label("user_timestamp");
    }

    // ---------------------------------------------------------------- wall clock
    std::string wall(clockid_t id, std::int64_t shift_ns = 0)
    {
        std::timespec t;
        ::clock_gettime(id, &t);
        std::int64_t n = t.tv_nsec + shift_ns % 1000000000, s = t.tv_sec + shift_ns / 1000000000;
        if (n < 0) { n += 1000000000; --s; }
        if (n >= 1000000000) { n -= 1000000000; ++s; }
        return render(s, n);
    }

    void wall_case(Src& src, Ctx& ctx)
    {
        auto st = std::make_shared<mem_state>();
        struct b { std::string lo, hi; bool tsc; };
        std::vector<b> want;
        gate g;
        const bool stall = src.chance(500);
        const unsigned delay = unsigned(src.pick<unsigned>({0, 2000, 8000, 30000}));
        {
            xtr::logger log(std::make_unique<mem_storage>(st, 4096), std::chrono::system_clock(), xtr::null_command_path);
            xtr::sink s, gs;
            log.register_sink(s, "S");
            if (stall)
            {
                log.register_sink(gs, "G");
                XTR_LOG(gs, "{}", gate_arg{g.s.get()});
                g.wait_entered();
            }
            std::size_t n = 0;
            const unsigned family = unsigned(src.draw(3));
            while (src.more(n++, 10, 40))
            {
                const unsigned k = family == 0 ? unsigned(src.draw(4)) : family == 1 ? 4 + unsigned(src.draw(4)) : unsigned(src.draw(9));
                b x;
                x.tsc = k >= 4 && k < 8;
                constexpr std::int64_t tol = 200000000;
                x.lo = x.tsc ? wall(CLOCK_REALTIME, -tol) : wall(CLOCK_REALTIME_COARSE);
                switch (k)
                {
                case 0: XTR_LOG_RTC(s, "x"); break;
                case 1: XTR_LOGL_RTC(error, s, "{}", 1); break;
                case 2: XTR_TRY_LOG_RTC(s, "{}", std::string("abc")); break;
                case 3: XTR_TRY_LOGL_RTC(warning, s, "{}", "abc"); break;
                case 4: XTR_LOG_TSC(s, "x"); break;
                case 5: XTR_LOGL_TSC(error, s, "{}", 1); break;
                case 6: XTR_TRY_LOG_TSC(s, "{}", std::string("abc")); break;
                case 7: XTR_TRY_LOGL_TSC(warning, s, "{}", "abc"); break;
                default: XTR_LOG(s, "x"); break;
                }
                x.hi = wall(CLOCK_REALTIME, x.tsc ? tol : 0);
                if (k == 8)
                {
                    if (stall) x.hi = "9999"; // read later
                    else { s.sync(); x.hi = wall(CLOCK_REALTIME); x.lo = want.empty() ? wall(CLOCK_REALTIME, -60000000000) : x.lo; }
                    // the clock may have been read earlier in the same pass over the sinks
                    x.lo = "0000";
                }
                ctx.note("kind %u in [%s, %s]", k, x.lo.c_str(), x.hi.c_str());
                want.push_back(x);
                if (src.chance(200)) ::usleep(useconds_t(src.draw(3000)));
            }
            if (stall) { ::usleep(delay); g.open(); }
        }
        auto lines = split_lines(st->text());
        if (stall)
        {
            if (lines.empty()) failf("nothing was logged");
            bool found = false;
            for (std::size_t i = 0; i < lines.size(); ++i)
                if (lines[i].find(" G c18.cpp:") != std::string::npos) { lines.erase(lines.begin() + long(i)); found = true; break; }
            VP_CHECK(found, "the stalling message is missing");
        }
        VP_CHECK(lines.size() == want.size(), "%zu lines, expected %zu", lines.size(), want.size());
        std::string last_tsc;
        std::set<std::string> d;
        for (std::size_t i = 0; i < lines.size(); ++i)
        {
            const auto t = ts_of(lines[i]);
            d.insert(t);
            if (t.size() != 26 || t < want[i].lo || t > want[i].hi)
                failf("statement %zu: timestamp %s, expected between %s and %s", i, quote(t).c_str(), want[i].lo.c_str(), want[i].hi.c_str());
            if (want[i].tsc)
            {
                if (t < last_tsc) failf("statement %zu: timestamp %s is before the previous one, %s", i, t.c_str(), last_tsc.c_str());
                last_tsc = t;
            }
        }
        ctx.nontrivial(lines.size() > 1);
        ctx.label(last_tsc.empty() ? "rtc" : "tsc");
        if (stall) ctx.label("delayed");
    }

    std::int64_t mono_nanos()
    {
        std::timespec t;
        ::clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec * 1000000000L + t.tv_nsec;
    }
    std::int64_t ref_nanos;
    std::uint64_t ref_ticks;

    // Tick counts at any distance from now
    void tick_case(Src& src, Ctx& ctx)
    {
        using xtr::detail::tsc;
        const double hz = double(xtr::detail::get_tsc_hz());
        // The frequency, measured independently since this process started: the conversion is
        // right only if it uses the rate at which the counter really advances
        while (mono_nanos() - ref_nanos < 500000000) ::usleep(10000);
        const std::int64_t e = mono_nanos() - ref_nanos;
        const double measured = double(tsc::now().ticks - ref_ticks) * 1e9 / double(e);
        if (std::abs(hz - measured) > 0.05 * measured)
            failf("the counter advances %.0f times a second but is converted at %.0f", measured, hz);
        // in a fresh thread: the conversion keeps per-thread state
        std::thread([&] {
            std::size_t n = 0;
            while (src.more(n++, 12, 60))
            {
                // seconds from now; never before the counter's zero
                const std::uint64_t base = tsc::now().ticks;
                double d;
                switch (src.draw(4))
                {
                case 0: d = double(src.range(-1000000, 1000000)) / 1e6; break;
                case 1: d = double(src.range(0, 200)); break;
                case 2: d = double(src.range(-3600, 3600)); break;
                default: d = double(src.range(0, 86400 * 30)); break;
                }
                if (d < 0 && -d * hz > double(base) - 1) d = -(double(base) - 1) / hz / 2;
                const std::uint64_t t = std::uint64_t(std::int64_t(base) + std::int64_t(d * hz));
                std::timespec w0, w1;
                ::clock_gettime(CLOCK_REALTIME, &w0);
                const std::timespec r = tsc::to_timespec(tsc{t});
                const std::timespec r2 = tsc::to_timespec(tsc{t + 1 + src.draw(1000000)});
                ::clock_gettime(CLOCK_REALTIME, &w1);
                const double lo = double(w0.tv_sec - r.tv_sec) + double(w0.tv_nsec - r.tv_nsec) / 1e9 + d;
                const double hi = double(w1.tv_sec - r.tv_sec) + double(w1.tv_nsec - r.tv_nsec) / 1e9 + d;
                ctx.note("%+.6f s: error within [%.6f, %.6f]", d, lo, hi);
                const double tol = 0.2 + 1e-4 * (60 + std::abs(d));
                if (hi < -tol || lo > tol) failf("a tick count %+.6f s from now was converted to a time %.6f s off", d, lo);
                VP_CHECK(r.tv_nsec >= 0 && r.tv_nsec < 1000000000, "tv_nsec %ld", r.tv_nsec);
                // d may lie close to the point where the clocks are synchronised again
                const bool resync = d > 55;
                if (!resync && (r2.tv_sec < r.tv_sec || (r2.tv_sec == r.tv_sec && r2.tv_nsec < r.tv_nsec)))
                    failf("a later tick count was converted to an earlier time");
                const std::string shown = fmt::format("{}", tsc{t});
                const std::string want = render(r.tv_sec, r.tv_nsec);
                if (!resync && shown != want) failf("tick count printed as %s, converted to %s", shown.c_str(), want.c_str());
            }
        }).join();
        ctx.nontrivial();
        ctx.label("ticks");
    }

    // Several sinks: a counting clock never appears to run backwards in the log, and a statement
    // is never stamped with a time from before the passes over the sinks that could have read it
    void order_case(Src& src, Ctx& ctx)
    {
        auto st = std::make_shared<mem_state>();
        const unsigned ns = unsigned(src.range(2, 4));
        struct exp { std::int64_t lo, hi; };
        std::vector<exp> want;
        test_clock<std::chrono::seconds, 88> clk;
        auto v = clk.v;
        {
            xtr::logger log(std::make_unique<mem_storage>(st, 4096), clk, xtr::null_command_path);
            std::vector<std::unique_ptr<xtr::sink>> s;
            for (unsigned i = 0; i < ns; ++i) { s.push_back(std::make_unique<xtr::sink>()); log.register_sink(*s[i], "S"); }
            std::size_t n = 0;
            std::int64_t t = 0;
            // one clock value per statement; each statement is synced, so each pass reads at most ns + 1 values
            while (src.more(n++, 20, 80))
            {
                v->store(++t);
                const unsigned i = unsigned(src.draw(ns));
                XTR_LOG(*s[i], "x");
                s[i]->sync();
                want.push_back({std::max<std::int64_t>(0, t - std::int64_t(ns) - 2), t});
                ctx.note("t=%ld sink %u", long(t), i);
            }
        }
        const auto lines = split_lines(st->text());
        VP_CHECK(lines.size() == want.size(), "%zu lines, expected %zu", lines.size(), want.size());
        std::string last;
        for (std::size_t i = 0; i < lines.size(); ++i)
        {
            const std::string t = ts_of(lines[i]), lo = render(want[i].lo, 0), hi = render(want[i].hi, 0);
            if (t < lo || t > hi) failf("statement %zu: timestamp %s, the clock was between %s and %s", i, t.c_str(), lo.c_str(), hi.c_str());
            if (t < last) failf("statement %zu: timestamp %s is before the previous line's %s", i, t.c_str(), last.c_str());
            last = t;
        }
        ctx.nontrivial(lines.size() > 1);
        ctx.label("order");
    }
}

template<>
struct fmt::formatter<user_ts>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const user_ts& b, C& c) const { return fmt::format_to(c.out(), "u{}", b.a); }
};

void vp_worker_init()
{
    ref_nanos = mono_nanos();
    ref_ticks = xtr::detail::tsc::now().ticks;
    (void)xtr::detail::get_tsc_hz();
}

void vp_case(Src& src, Ctx& ctx)
{
    using namespace std::chrono;
    switch (src.weighted({10, 3, 3, 2, 2, 1}))
    {
    case 0:
        switch (src.draw(12))
        {
        case 0: duration_case<0, nanoseconds>(src, ctx); break;
        case 1: duration_case<1, microseconds>(src, ctx); break;
        case 2: duration_case<2, milliseconds>(src, ctx); break;
        case 3: duration_case<3, seconds>(src, ctx); break;
        case 4: duration_case<4, minutes>(src, ctx); break;
        case 5: duration_case<5, duration<std::int64_t, std::ratio<86400>>>(src, ctx); break;
        case 6: duration_case<6, duration<std::int64_t, std::ratio<1, 3>>>(src, ctx); break;
        case 7: duration_case<7, duration<std::int64_t, std::pico>>(src, ctx); break;
        case 8: duration_case<8, duration<std::int64_t, std::femto>>(src, ctx); break;
        case 9: duration_case<9, duration<std::int32_t, std::ratio<1>>>(src, ctx); break;
        case 10: duration_case<10, duration<std::int64_t, std::ratio<1, 10000000>>>(src, ctx); break;
        default: duration_case<11, duration<std::int64_t, std::ratio<1, 60>>>(src, ctx); break;
        }
        break;
    case 1: user_case(src, ctx); break;
    case 2: wall_case(src, ctx); break;
    case 3: tick_case(src, ctx); break;
    case 4: order_case(src, ctx); break;
    default: fp_case(src, ctx); break;
    }
}
