// C20: log statements make no system calls and allocate no memory.
#include "common.hpp"

#include <csignal>
#include <linux/prctl.h>
#include <malloc.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

using namespace vp;

vp::Info vp_info{
    "C20",
    "a case is up to 200 log statements (36 statement shapes over all macro families, scalar and string arguments in every form, string lengths up to beyond the queue capacity) "
    "on 1-2 sinks with the background thread running or stalled, the queue from empty to full (blocking statements only where there is certainly room). While a statement runs, "
    "the calling thread's system calls raise SIGSYS (syscall user dispatch) and its heap allocations are counted; both must be zero. Non-trivial: at least ten statements were executed.",
    20, 6};

// ------------------------------------------------------------ instruments
namespace
{
    thread_local volatile char selector __attribute__((tls_model("initial-exec"))) = 0; // 0 allow, 1 block
    thread_local unsigned long allocs __attribute__((tls_model("initial-exec"))) = 0;
    thread_local bool armed __attribute__((tls_model("initial-exec"))) = false;
    bool have_dispatch = false;
    const char* volatile current = "";

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#define PR_SYS_DISPATCH_OFF 0
#define PR_SYS_DISPATCH_ON 1
#endif

    void on_sys(int, siginfo_t* si, void*)
    {
        selector = 0;
        armed = false;
        failf("system call %d was made by the statement at line %s", si->si_syscall, current);
    }

    bool dispatch_on()
    {
        return ::prctl(PR_SET_SYSCALL_USER_DISPATCH, PR_SYS_DISPATCH_ON, 0, 0, &selector) == 0;
    }
}

extern "C"
{
    void* __libc_malloc(std::size_t);
    void* __libc_calloc(std::size_t, std::size_t);
    void* __libc_realloc(void*, std::size_t);
    void* __libc_memalign(std::size_t, std::size_t);
    void __libc_free(void*);
    void* malloc(std::size_t n) { if (armed) ++allocs; return __libc_malloc(n); }
    void* calloc(std::size_t n, std::size_t m) { if (armed) ++allocs; return __libc_calloc(n, m); }
    void* realloc(void* p, std::size_t n) { if (armed) ++allocs; return __libc_realloc(p, n); }
    void* memalign(std::size_t a, std::size_t n) { if (armed) ++allocs; return __libc_memalign(a, n); }
    void* aligned_alloc(std::size_t a, std::size_t n) { if (armed) ++allocs; return __libc_memalign(a, n); }
    int posix_memalign(void** p, std::size_t a, std::size_t n) { if (armed) ++allocs; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
    void free(void* p) { __libc_free(p); }
}

void vp_worker_init()
{
    struct sigaction sa{};
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    ::sigaction(SIGSYS, &sa, nullptr);
    have_dispatch = dispatch_on();
    (void)xtr::detail::get_tsc_hz();
}

namespace
{
    constexpr std::size_t cap = XTR_SINK_CAPACITY;

    inline void arm(const char* where)
    {
        current = where;
        armed = true;
        if (have_dispatch) selector = 1;
    }
    inline void disarm()
    {
        selector = 0;
        armed = false;
        if (allocs) failf("%lu heap allocations were made by the statement at line %s", allocs, current);
    }
    enum class color { red = 1, blue = 7 };
    struct pod { int a; double b; char c[20]; };
}

template<> struct fmt::formatter<color>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(color v, C& c) const { return fmt::format_to(c.out(), "{}", int(v)); }
};
template<> struct fmt::formatter<pod>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const pod& v, C& c) const { return fmt::format_to(c.out(), "{}", v.a); }
};

#define STR1(x) #x
#define STR2(x) STR1(x)
#define ARMED(...) do { arm(STR2(__LINE__)); __VA_ARGS__; disarm(); } while (0)

// the statement as each macro family, with and without blocking
#define FAMS(...)                                                                                                  \
    switch (fam) {                                                                                                 \
    case 0: if (blk) ARMED(XTR_LOG(s, __VA_ARGS__)); else ARMED(XTR_TRY_LOG(s, __VA_ARGS__)); break;               \
    case 1: if (blk) ARMED(XTR_LOGL(error, s, __VA_ARGS__)); else ARMED(XTR_TRY_LOGL(error, s, __VA_ARGS__)); break; \
    case 2: if (blk) ARMED(XTR_LOG_TS(s, 12345, __VA_ARGS__)); else ARMED(XTR_TRY_LOG_TS(s, 12345, __VA_ARGS__)); break; \
    case 3: if (blk) ARMED(XTR_LOGL_TS(warning, s, tsstr, __VA_ARGS__)); else ARMED(XTR_TRY_LOGL_TS(warning, s, tsstr, __VA_ARGS__)); break; \
    case 4: if (blk) ARMED(XTR_LOG_RTC(s, __VA_ARGS__)); else ARMED(XTR_TRY_LOG_RTC(s, __VA_ARGS__)); break;       \
    case 5: if (blk) ARMED(XTR_LOGL_RTC(info, s, __VA_ARGS__)); else ARMED(XTR_TRY_LOGL_RTC(info, s, __VA_ARGS__)); break; \
    case 6: if (blk) ARMED(XTR_LOG_TSC(s, __VA_ARGS__)); else ARMED(XTR_TRY_LOG_TSC(s, __VA_ARGS__)); break;       \
    case 7: if (blk) ARMED(XTR_LOGL_TSC(debug, s, __VA_ARGS__)); else ARMED(XTR_TRY_LOGL_TSC(debug, s, __VA_ARGS__)); break; \
    } break;

void vp_case(Src& src, Ctx& ctx)
{
    auto st = std::make_shared<mem_state>();
    std::vector<std::unique_ptr<gate>> gates;
    std::vector<std::unique_ptr<std::string>> keep;
    std::size_t executed = 0;
    bool full = false, stalled = false;
    const unsigned ns = unsigned(src.range(1, 2));
    {
        xtr::logger log(std::make_unique<mem_storage>(st, 4096), fixed_clock(), xtr::null_command_path);
        std::array<std::unique_ptr<xtr::sink>, 2> sinks;
        xtr::sink gs;
        for (unsigned i = 0; i < ns; ++i)
        {
            sinks[i] = std::make_unique<xtr::sink>(src.chance(500) ? xtr::log_level_t::debug : xtr::log_level_t::info);
            log.register_sink(*sinks[i], "S");
        }
        log.register_sink(gs, "G");
        const unsigned rounds = unsigned(src.range(1, 4));
        for (unsigned r = 0; r < rounds; ++r)
        {
            const bool stall = src.chance(600);
            stalled |= stall;
            for (unsigned i = 0; i < ns; ++i) sinks[i]->sync();
            if (stall)
            {
                gates.push_back(std::make_unique<gate>());
                XTR_LOG(gs, "{}", gate_arg{gates.back()->s.get()});
                gates.back()->wait_entered();
            }
            std::array<std::size_t, 2> used{};
            std::size_t n = 0;
            while (src.more(n++, 20, 60))
            {
                const unsigned which = unsigned(src.draw(ns));
                xtr::sink& s = *sinks[which];
                const unsigned shape = unsigned(src.draw(20)), fam = unsigned(src.draw(8));
                const std::size_t len = src.chance(100) ? src.size(cap + 200) : src.size(200);
                // upper bound of the record
                const std::size_t ub = 400 + (shape >= 5 ? 3 * len : 0);
                if (!stall && src.chance(300)) { s.sync(); used[which] = 0; }
                // room: nothing is read from a stalled queue; a running one only gets emptier
                const bool room = used[which] + ub <= cap;
                bool blk = room && src.chance(500);
                if (!room) full = true;
                used[which] += ub;
                ctx.note("sink %u shape %u family %u length %zu blocking %d%s", which, shape, fam, len, int(blk), stall ? " stalled" : "");
                std::string a(len, 'a'), b(len, 'b'), tsstr("2020");
                const std::string_view v(a);
                int x = int(len);
                std::string* kept = nullptr;
                if (shape == 10 || shape == 16) { keep.push_back(std::make_unique<std::string>(a)); kept = keep.back().get(); }
                const char* cp = a.c_str();
                char arr[64] = "some characters";
                pod pd{1, 2.0, "x"};
                std::unique_ptr<int> up;
                std::shared_ptr<int> sp;
                ++executed;
                switch (shape)
                {
                case 0: FAMS("plain")
                case 1: FAMS("{}", x)
                case 2: FAMS("{} {} {} {}", 1, 2.5, 'c', true)
                case 3: FAMS("{} {} {} {} {} {} {} {}", 1u, 2l, 3ul, short(4), 5.0f, (void*)nullptr, (unsigned char)7, -8ll)
                case 4: FAMS("{} {}", color::blue, pd)
                case 5: FAMS("{}", a)
                case 6: FAMS("{}", cp)
                case 7: FAMS("{}", v)
                case 8: FAMS("{}", std::move(a))
                case 9: FAMS("{}", arr)
                case 10: FAMS("{}", nocopy(*kept))
                case 11: FAMS("{} {}", a, b)
                case 12: FAMS("{} {} {}", a, x, b)
                case 13: FAMS("{} {} {} {}", x, cp, v, arr)
                case 14: FAMS("{} {}", std::move(a), std::move(b))
                case 15: FAMS("{} {} {}", 1.5, std::move(b), cp)
                case 16: FAMS("{} {}", nocopy(kept->c_str()), a)
                case 17: FAMS("{:>10} {:x} {:.3f}", v, x, 2.0)
                case 18: FAMS("{} {} {} {} {} {} {} {} {} {}", 1, "two", 3.0, a, 'b', x, v, 4ul, cp, std::move(b))
                case 19: FAMS("literal {} {}", "text", "more")
                }
            }
            if (stall) gates.back()->open();
        }
        for (unsigned i = 0; i < ns; ++i) sinks[i]->close();
        gs.close();
    }
    ctx.nontrivial(executed >= 10);
    ctx.label(have_dispatch ? "syscalls_monitored" : "syscalls_NOT_monitored");
    if (full) ctx.label("queue_full");
    if (stalled) ctx.label("stalled");
}
