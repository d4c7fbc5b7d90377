// C02: a message shows the values its arguments had at the log statement, and
// argument objects are destroyed exactly once.
#include "common.hpp"

#include <bitset>
#include <deque>
#include <list>
#include <tuple>
#include <unordered_set>

using namespace vp;


namespace c02
{
    inline std::mutex live_m;
    inline std::unordered_set<const void*> live;
    inline std::atomic<unsigned> evals{0};

    // An object whose lifetime is monitored
    struct tracked_base
    {
        static constexpr std::uint32_t alive = 0x600dca5e, gone = 0xdeadbeef;
        std::uint32_t magic = alive;
        void add()
        {
            std::scoped_lock l{live_m};
            if (!live.insert(this).second) failf("object constructed over a live object");
        }
        void remove()
        {
            std::scoped_lock l{live_m};
            if (live.erase(this) != 1) failf("object destroyed twice, or never constructed");
            if (magic != alive) failf("object overwritten before it was destroyed");
            magic = gone;
        }
    };

    template<std::size_t Align, bool Copyable>
    struct alignas(Align) tracked : tracked_base
    {
        int v;
        explicit tracked(int x) : v(x) { add(); }
        tracked(const tracked& o) noexcept requires Copyable : tracked_base(), v(o.v) { chk(o); add(); }
        tracked(tracked&& o) noexcept : tracked_base(), v(o.v) { chk(o); o.v = -999; add(); }
        tracked& operator=(const tracked&) = delete;
        ~tracked() { remove(); v = -777; }
        static void chk(const tracked& o) { if (o.magic != alive) failf("copied from a dead object"); }
        bool ok() const { return magic == alive && reinterpret_cast<std::uintptr_t>(this) % Align == 0; }
    };

    struct tiny { unsigned char c; };
    template<std::size_t N> struct pod { unsigned char b[N]; };
    struct alignas(32) vec4 { double x, y, z, w; };
    enum class colour { red, green, blue };
}

template<std::size_t A, bool C>
struct fmt::formatter<c02::tracked<A, C>>
{
    template<typename P> constexpr auto parse(P& c) { return c.begin(); }
    template<typename X> auto format(const c02::tracked<A, C>& t, X& c) const
    {
        return fmt::format_to(c.out(), "T{}{}", t.v, t.ok() ? "" : "CORRUPT");
    }
};
template<>
struct fmt::formatter<c02::tiny> : fmt::formatter<int>
{
    template<typename X> auto format(const c02::tiny& t, X& c) const { return fmt::formatter<int>::format(t.c, c); }
};
template<std::size_t N>
struct fmt::formatter<c02::pod<N>>
{
    template<typename P> constexpr auto parse(P& c) { return c.begin(); }
    template<typename X> auto format(const c02::pod<N>& t, X& c) const
    {
        auto o = c.out();
        for (auto b : t.b) o = fmt::format_to(o, "{:02x}", b);
        return o;
    }
};
template<>
struct fmt::formatter<c02::vec4>
{
    template<typename P> constexpr auto parse(P& c) { return c.begin(); }
    template<typename X> auto format(const c02::vec4& t, X& c) const
    {
        return fmt::format_to(c.out(), "<{} {} {} {}{}>", t.x, t.y, t.z, t.w,
            reinterpret_cast<std::uintptr_t>(&t) % 32 ? "MISALIGNED" : "");
    }
};
template<>
struct fmt::formatter<c02::colour> : fmt::formatter<string_view>
{
    template<typename X> auto format(c02::colour k, X& c) const
    {
        return fmt::formatter<string_view>::format(k == c02::colour::red ? "red" : k == c02::colour::green ? "green" : "blue", c);
    }
};

namespace c02
{
    inline std::string text(Src& s)
    {
        std::string r = s.printable(s.size(s.chance(80) ? 400 : 30));
        for (auto& c : r) if (c == '\\') c = '/';
        return r;
    }

    // ------------------------------------------------------------ argument kinds
    // pass() is the expression given to the log statement, ref() its value for
    // the reference, scramble() overwrites the caller's variable afterwards.
    template<typename T> struct scalar
    {
        T v;
        T& pass() { ++evals; return v; }
        T ref() const { return v; }
        void scramble() { v = T(~0ull); }
    };

    template<int K> struct kind;
    template<> struct kind<0> : scalar<int> { explicit kind(Src& s) : scalar{int(s.u64())} {} };
    template<> struct kind<1> : scalar<unsigned char> { explicit kind(Src& s) : scalar{(unsigned char)s.draw(256)} {} };
    template<> struct kind<2> : scalar<char> { explicit kind(Src& s) : scalar{char('!' + s.draw(90))} {} void scramble() { v = '~'; } };
    template<> struct kind<3> : scalar<bool> { explicit kind(Src& s) : scalar{s.draw(2) == 1} {} void scramble() { v = !v; } };
    template<> struct kind<4> : scalar<std::int64_t> { explicit kind(Src& s) : scalar{std::int64_t(s.u64())} {} };
    template<> struct kind<5> : scalar<std::uint64_t> { explicit kind(Src& s) : scalar{s.u64()} {} };
    template<> struct kind<6> : scalar<short> { explicit kind(Src& s) : scalar{short(s.u64())} {} };
    template<> struct kind<7>
    {
        float v;
        explicit kind(Src& s) : v(float(std::int32_t(s.u64())) / float(s.range(1, 1000))) {}
        float pass() { ++evals; return v; }
        float ref() const { return v; }
        void scramble() { v = 1; }
    };
    template<> struct kind<8>
    {
        double v;
        explicit kind(Src& s)
        {
            const std::uint64_t u = s.u64();
            switch (s.draw(3))
            {
            case 0: v = double(std::int64_t(u)) / 1000; break;
            case 1: std::memcpy(&v, &u, 8); if (v != v) v = 0; break;
            default: v = double(std::int32_t(u)); break;
            }
        }
        double& pass() { ++evals; return v; }
        double ref() const { return v; }
        void scramble() { v = -1; }
    };
    template<> struct kind<9>
    {
        const void* v;
        explicit kind(Src& s) : v(reinterpret_cast<const void*>(s.u64())) {}
        const void*& pass() { ++evals; return v; }
        const void* ref() const { return v; }
        void scramble() { v = nullptr; }
    };
    struct str_base
    {
        std::string v;
        std::string keep;
        explicit str_base(Src& s) : v(text(s)), keep(v) {}
        std::string ref() const { return keep; }
        void scramble() { std::fill(v.begin(), v.end(), '#'); std::string().swap(v); }
    };
    template<> struct kind<10> : str_base { using str_base::str_base; std::string& pass() { ++evals; return v; } };
    template<> struct kind<11> : str_base { using str_base::str_base; const std::string& pass() { ++evals; return v; } };
    template<> struct kind<12> : str_base { using str_base::str_base; std::string&& pass() { ++evals; return std::move(v); } };
    template<> struct kind<13> : str_base { using str_base::str_base; std::string_view pass() { ++evals; return v; } };
    template<> struct kind<14> : str_base { using str_base::str_base; const char* pass() { ++evals; return v.c_str(); } };
    template<> struct kind<15> : str_base { using str_base::str_base; char* pass() { ++evals; return v.data(); } };
    template<> struct kind<16>
    {
        char a[24];
        std::string keep;
        explicit kind(Src& s) : a{} { keep = text(s).substr(0, 23); std::memcpy(a, keep.data(), keep.size()); }
        char (&pass())[24] { ++evals; return a; }
        std::string ref() const { return keep; }
        void scramble() { std::memset(a, '#', 23); }
    };
    template<> struct kind<17>
    {
        std::optional<tracked<4, true>> v; int keep;
        explicit kind(Src& s) { keep = int(s.draw(10000)); v.emplace(keep); }
        tracked<4, true>& pass() { ++evals; return *v; }
        std::string ref() const { return fmt::format("T{}", keep); }
        void scramble() { v.reset(); }
    };
    template<> struct kind<18>
    {
        std::optional<tracked<8, true>> v; int keep;
        explicit kind(Src& s) { keep = int(s.draw(10000)); v.emplace(keep); }
        tracked<8, true>&& pass() { ++evals; return std::move(*v); }
        std::string ref() const { return fmt::format("T{}", keep); }
        void scramble() { v.reset(); }
    };
    template<> struct kind<19>
    {
        std::optional<tracked<8, false>> v; int keep;
        explicit kind(Src& s) { keep = int(s.draw(10000)); v.emplace(keep); }
        tracked<8, false>&& pass() { ++evals; return std::move(*v); }
        std::string ref() const { return fmt::format("T{}", keep); }
        void scramble() { v.reset(); }
    };
    template<> struct kind<20>
    {
        vec4 v, keep;
        explicit kind(Src& s) { v = {double(s.draw(1000)), 1.5, double(s.draw(9)), -1}; keep = v; }
        vec4& pass() { ++evals; return v; }
        const vec4& ref() const { return keep; }
        void scramble() { v = {}; }
    };
    template<> struct kind<21>
    {
        std::optional<tracked<64, true>> v; int keep;
        explicit kind(Src& s) { keep = int(s.draw(10000)); v.emplace(keep); }
        const tracked<64, true>& pass() { ++evals; return *v; }
        std::string ref() const { return fmt::format("T{}", keep); }
        void scramble() { v.reset(); }
    };
    template<> struct kind<22>
    {
        std::vector<int> v, keep;
        explicit kind(Src& s) { while (s.more(v.size(), 4, 40)) v.push_back(int(s.u64())); keep = v; }
        std::vector<int>& pass() { ++evals; return v; }
        const std::vector<int>& ref() const { return keep; }
        void scramble() { for (auto& x : v) x = 0; std::vector<int>().swap(v); }
    };
    template<> struct kind<23>
    {
        std::map<std::string, int> v, keep;
        explicit kind(Src& s) { while (s.more(v.size(), 3, 20)) v[s.printable(s.draw(20)) + std::to_string(v.size())] = int(s.u64()); keep = v; }
        std::map<std::string, int>&& pass() { ++evals; return std::move(v); }
        const std::map<std::string, int>& ref() const { return keep; }
        void scramble() { v.clear(); }
    };
    template<> struct kind<24>
    {
        colour v, keep;
        explicit kind(Src& s) : v(colour(s.draw(3))), keep(v) {}
        colour& pass() { ++evals; return v; }
        colour ref() const { return keep; }
        void scramble() { v = colour((int(keep) + 1) % 3); }
    };
    template<> struct kind<25> : scalar<tiny> { explicit kind(Src& s) : scalar{tiny{(unsigned char)s.draw(256)}} {} void scramble() { v.c = ~v.c; } tiny ref() const { return k; } tiny k = v; };
    template<> struct kind<26>
    {
        long double v;
        explicit kind(Src& s) : v((long double)(std::int64_t(s.u64())) / 16) {}
        long double& pass() { ++evals; return v; }
        long double ref() const { return v; }
        void scramble() { v = 0; }
    };
    template<> struct kind<27>
    {
        __int128 v;
        explicit kind(Src& s) { v = __int128(s.u64()) << 64; v |= s.u64(); }
        __int128& pass() { ++evals; return v; }
        __int128 ref() const { return v; }
        void scramble() { v = 0; }
    };
    template<int N> struct pod_kind
    {
        pod<N> v, keep;
        explicit pod_kind(Src& s) { auto x = s.draw(256); for (auto& b : v.b) b = (unsigned char)(x = x * 5 + 3); keep = v; }
        pod<N>& pass() { ++evals; return v; }
        const pod<N>& ref() const { return keep; }
        void scramble() { for (auto& b : v.b) b = 0; }
    };
    template<> struct kind<28> : pod_kind<3> { using pod_kind::pod_kind; };
    template<> struct kind<29> : pod_kind<13> { using pod_kind::pod_kind; };
    template<> struct kind<30> : pod_kind<150> { using pod_kind::pod_kind; };
    template<> struct kind<31>
    {
        std::pair<int, std::string> v, keep;
        explicit kind(Src& s) : v(int(s.draw(100)), text(s)), keep(v) {}
        std::pair<int, std::string>& pass() { ++evals; return v; }
        const std::pair<int, std::string>& ref() const { return keep; }
        void scramble() { v = {}; }
    };
    template<> struct kind<32> // passed by reference; the caller keeps it alive
    {
        std::string v;
        explicit kind(Src& s) : v(text(s)) {}
        std::string& pass() { ++evals; return v; }
        std::string ref() const { return v; }
        void scramble() {}
    };
    constexpr int nkinds = 32; // kind 32 needs nocopy() in the statement

    struct expectation { int lineno; std::string msg; std::string ts; };

    struct stmt
    {
        virtual ~stmt() = default;
        virtual void run(xtr::sink&, unsigned family) = 0;
        virtual void scramble() = 0;
        expectation e;
        unsigned nargs = 0;
    };

#define ARGS1 std::get<0>(h).pass()
#define ARGS2 ARGS1, std::get<1>(h).pass()
#define ARGS3 ARGS2, std::get<2>(h).pass()
#define ARGS4 ARGS3, std::get<3>(h).pass()
#define ARGS5 ARGS4, std::get<4>(h).pass()
#define ARGS6 ARGS5, std::get<5>(h).pass()
#define FAM(FMT, ...)                                                            \
    e.lineno = __LINE__;                                                         \
    if constexpr (Fam == 0) XTR_LOG(s, FMT, __VA_ARGS__);                        \
    else if constexpr (Fam == 1) XTR_TRY_LOG(s, FMT, __VA_ARGS__);               \
    else if constexpr (Fam == 2) XTR_LOG_TS(s, "stamp", FMT, __VA_ARGS__);       \
    else XTR_TRY_LOG_TS(s, "stamp", FMT, __VA_ARGS__);

    template<int Fam, int... K>
    struct combo : stmt
    {
        std::tuple<kind<K>...> h;
        explicit combo(Src& s) : h{kind<K>(s)...} { nargs = sizeof...(K); }

        void run(xtr::sink& s, unsigned) override
        {
            std::apply([&](auto&... k) {
                std::string m;
                ((m += fmt::format("{}|", k.ref())), ...);
                e.msg = m;
            }, h);
            e.ts = Fam >= 2 ? "stamp" : fixed_ts;
            const unsigned before = evals;
            if constexpr (sizeof...(K) == 1) { FAM("{}|", ARGS1) }
            else if constexpr (sizeof...(K) == 2) { FAM("{}|{}|", ARGS2) }
            else if constexpr (sizeof...(K) == 3) { FAM("{}|{}|{}|", ARGS3) }
            else if constexpr (sizeof...(K) == 4) { FAM("{}|{}|{}|{}|", ARGS4) }
            else if constexpr (sizeof...(K) == 5) { FAM("{}|{}|{}|{}|{}|", ARGS5) }
            else { FAM("{}|{}|{}|{}|{}|{}|", ARGS6) }
            if (evals - before != sizeof...(K)) failf("arguments evaluated %u times instead of %zu", evals - before, sizeof...(K));
        }
        void scramble() override { std::apply([](auto&... k) { (k.scramble(), ...); }, h); }
    };

    constexpr unsigned mix(unsigned x)
    {
        x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16;
        return x;
    }
    constexpr int ncombos = 120;
    // String kinds are over-represented: they take the more complex path
    constexpr int kind_at(int i, int pos)
    {
        const unsigned r = mix(unsigned(i * 7 + pos) * 2654435761u + 12345);
        if (r % 3 == 0) return 10 + int((r >> 8) % 7);
        return int((r >> 8) % nkinds);
    }
    constexpr int arity_at(int i) { return i < 32 ? 1 : 1 + int(mix(unsigned(i) + 99) % 6); }
    constexpr int fam_at(int i) { return int(mix(unsigned(i) + 5) % 8) < 5 ? 0 : int(mix(unsigned(i) + 7) % 4); }

    template<int I, int... P>
    std::unique_ptr<stmt> make_combo(Src& s, std::integer_sequence<int, P...>)
    {
        // The first 32 combos are the single kinds
        return std::make_unique<combo<fam_at(I), (arity_at(I) == 1 && I < nkinds ? I : kind_at(I, P))...>>(s);
    }
    template<int I>
    std::unique_ptr<stmt> make_one(Src& s)
    {
        return make_combo<I>(s, std::make_integer_sequence<int, arity_at(I)>());
    }
    using maker = std::unique_ptr<stmt> (*)(Src&);
    constexpr int nparts = 8, per_part = ncombos / nparts;
    template<int Part> maker get_maker(int);
#define DEFINE_PART(P) \
    template<> maker get_maker<P>(int i) { return pick_maker<P>(i, std::make_integer_sequence<int, per_part>()); }
    template<int Part, int... I>
    maker pick_maker(int i, std::integer_sequence<int, I...>)
    {
        static constexpr maker m[] = {&make_one<Part * per_part + I>...};
        return m[i];
    }
    template<> maker get_maker<0>(int); template<> maker get_maker<1>(int); template<> maker get_maker<2>(int);
    template<> maker get_maker<3>(int); template<> maker get_maker<4>(int); template<> maker get_maker<5>(int);
    template<> maker get_maker<6>(int); template<> maker get_maker<7>(int);
    DEFINE_PART(VP_PART)
}

#if VP_PART == 0
vp::Info vp_info{
    "C02",
    "a case is a list of up to 60 log statements over 1-2 sinks, each drawn from 120 compiled argument "
    "combinations (1-6 arguments out of 33 argument kinds: scalars of every width, seven string kinds, "
    "containers, over-aligned, move-only and lifetime-tracked objects, l- and r-values; 4 macro families) or from "
    "30 statements with format specifications, with generated values; the background thread is stalled "
    "until the caller has overwritten and freed all variables (or runs freely), and the queue begins at its start or near its end. Each line must equal "
    "fmt::format of the values at the statement; tracked objects must be destroyed exactly once. "
    "Non-trivial: the background thread formatted at least 3 statements after their variables were overwritten.",
    40, 6};

void vp_worker_init() {}

namespace c02
{
    inline maker maker_at(int i)
    {
        switch (i / per_part)
        {
        case 0: return get_maker<0>(i % per_part);
        case 1: return get_maker<1>(i % per_part);
        case 2: return get_maker<2>(i % per_part);
        case 3: return get_maker<3>(i % per_part);
        case 4: return get_maker<4>(i % per_part);
        case 5: return get_maker<5>(i % per_part);
        case 6: return get_maker<6>(i % per_part);
        default: return get_maker<7>(i % per_part);
        }
    }

    // Statements with format specifications
    struct spec_stmt : stmt
    {
        unsigned which;
        std::string s1, s2, k1, k2;
        int i; std::uint64_t u; double d; int w; const char* p = nullptr;
        std::vector<int> vec;
        explicit spec_stmt(Src& s) : which(unsigned(s.draw(30))), s1(text(s)), s2(text(s)),
            i(int(s.u64())), u(s.u64()), d(double(std::int32_t(s.u64())) / 64), w(int(s.draw(30)))
        {
            k1 = s1; k2 = s2;
            for (int n = int(s.draw(4)); n; --n) vec.push_back(n);
        }
#define S(FMT, ...) { e.lineno = __LINE__; e.msg = fmt::format(FMT, __VA_ARGS__); XTR_LOG(s, FMT, __VA_ARGS__); break; }
#define ST(FMT, ...) { e.lineno = __LINE__; e.msg = fmt::format(FMT, __VA_ARGS__); e.ts = "stamp"; XTR_LOG_TS(s, "stamp", FMT, __VA_ARGS__); break; }
        void run(xtr::sink& s, unsigned) override
        {
            e.ts = fixed_ts;
            switch (which)
            {
            case 0: S("{:>20}|", s1)
            case 1: S("{:<20}|{}", s1, i)
            case 2: S("{:^20}|{:x}", std::string_view(s1), i)
            case 3: S("{:*^20}|", s1.c_str())
            case 4: S("{:.5}|{:08}", s1, i)
            case 5: S("{:>10.4}|{:+}", s1, i)
            case 6: S("{:#x} {:#o} {:#b}", u, u, u)
            case 7: S("{:.3f} {:e} {:g}", d, d, d)
            case 8: S("{:>{}}|", i, w)
            case 9: S("{:>{}}|", s1, w)
            case 10: S("{:.{}}|{:<{}}|", s1, w, s2, w)
            case 11: S("{}{}", s1, s2)
            case 12: S("{:_<3}{:_>3}{:_^3}", s1, i, s2)
            case 13: S("{:>5} {:<30} {}", i, s1, s2)
            case 14: S("{{}} {{{}}} {}", s1, i)
            case 15: S("{:5}|{:c}", true, char('a' + i % 7 * (i % 7)))
            case 16: S("{:>08.3f}|{: }", d, i)
            case 17: S("{:020}|{:<10d}|{:s}", u, i, s1)
            case 18: S("{}{}{}", std::string_view(s1), s2, s1.c_str())
            case 19: S("{}", s1 + s2)
            case 20: S("{:>40}|{}", s1 + s2, s2)
            case 21: { std::string t = s1; e.lineno = __LINE__; e.msg = fmt::format("{:~<15}|{}", s1, i); XTR_LOG(s, "{:~<15}|{}", std::move(t), i); break; }
            case 22: ST("{:>20}|", s1)
            case 23: ST("{} {:>10.4}|{:+}", s2, s1, i)
            case 24: ST("{} {:>{}}", s1, s2, w)
            case 25: ST("{:.3f}", d)
            case 26: { e.lineno = __LINE__; e.msg = fmt::format("{:x<30}|", s1); XTR_LOG(s, "{:x<30}|", nocopy(s1)); break; }
            case 27: { e.lineno = __LINE__; e.msg = fmt::format("{} {} {}", i, s1, s2); XTR_LOG(s, "{} {} {}", i, nocopy(s1), s2); break; }
            case 28: { e.lineno = __LINE__; e.msg = fmt::format("{} {}", s1, s2); XTR_LOG(s, "{} {}", nocopy(s1.c_str()), nocopy(std::string_view(s2))); break; }
            case 29: S("literal {} text {} tail", s1, d)
            }
        }
        void scramble() override
        {
            const bool by_ref = which >= 26 && which <= 28;
            if (!by_ref) { std::fill(s1.begin(), s1.end(), '#'); std::string().swap(s1); }
            if (which != 28) { std::fill(s2.begin(), s2.end(), '#'); std::string().swap(s2); }
            i = 0; u = 0; d = 0; w = 1;
        }
    };
}

using namespace c02;

void vp_case(Src& src, Ctx& ctx)
{
    {
        std::scoped_lock l{live_m};
        live.clear();
    }
    const bool gated = src.chance(800);
    const unsigned nsinks = unsigned(src.range(1, 2));
    const std::size_t bufsz = src.pick<std::size_t>({4096, 64, 1, 65536});
    // How far the queue has advanced beforehand: records may lie across its end
    const std::size_t lead = src.chance(500) ? XTR_SINK_CAPACITY - 100 - src.size(4000) : 0;
    std::vector<std::unique_ptr<stmt>> prog;
    std::vector<unsigned> on;
    while (src.more(prog.size(), 20, 60))
    {
        if (src.chance(250)) { prog.push_back(std::make_unique<spec_stmt>(src)); ctx.note("spec %u", static_cast<spec_stmt&>(*prog.back()).which); }
        else
        {
            const auto k = src.draw(ncombos);
            ctx.note("combination %u (%d arguments, family %d)", unsigned(k), arity_at(int(k)), fam_at(int(k)));
            prog.push_back(maker_at(int(k))(src));
        }
        on.push_back(unsigned(src.draw(nsinks)));
    }
    ctx.note("gated=%d sinks=%u bufsz=%zu lead=%zu", gated, nsinks, bufsz, lead);

    auto st = std::make_shared<mem_state>();
    gate g;
    {
        xtr::logger log(std::make_unique<mem_storage>(st, bufsz), fixed_clock(), xtr::null_command_path);
        xtr::sink gs;
        std::array<xtr::sink, 2> sinks;
        for (unsigned i = 0; i < nsinks; ++i) log.register_sink(sinks[i], i ? "S1" : "S0");
        if (lead)
        {
            const std::string filler(lead, 'f');
            for (unsigned i = 0; i < nsinks; ++i) { XTR_LOG(sinks[i], "{}", filler); sinks[i].sync(); sinks[i].sync(); } // twice: the queue's space is freed after the first
            std::scoped_lock l{st->m};
            st->data.clear();
            st->flushed = st->synced = 0;
        }
        if (gated)
        {
            log.register_sink(gs, "G");
            XTR_LOG(gs, "{}", gate_arg{g.s.get()});
            g.wait_entered();
        }
        for (std::size_t i = 0; i < prog.size(); ++i)
        {
            prog[i]->run(sinks[on[i]], 0);
            prog[i]->scramble();
        }
        g.open();
        gs.close();
        for (auto& s : sinks) s.close();
    }
    // Every object left must belong to the caller, who has none
    {
        std::scoped_lock l{live_m};
        if (!live.empty()) failf("%zu argument objects were never destroyed", live.size());
    }

    std::array<std::size_t, 2> next{};
    auto advance = [&](unsigned sk) {
        while (next[sk] < prog.size() && on[next[sk]] != sk) ++next[sk];
    };
    advance(0);
    advance(1);
    for (const auto& s : split_lines(st->data))
    {
        // "I <ts> <name> c02.cpp:<line>: <msg>"
        const auto p = s.find(" S0 "), q = s.find(" S1 ");
        if (s.find(" G ") != std::string::npos && s.size() > 4 && s.substr(s.size() - 4) == "gate") continue;
        const unsigned sk = p < q ? 0 : 1;
        advance(sk);
        if (next[sk] >= prog.size()) failf("extra line %s", quote(s).c_str());
        const auto& e = prog[next[sk]]->e;
        const std::string want = fmt::format("I {} S{} c02.cpp:{}: {}", e.ts, sk, e.lineno, e.msg);
        if (s != want)
            failf("statement %zu: got %s, expected %s", next[sk], quote(s, 600).c_str(), quote(want, 600).c_str());
        ++next[sk];
    }
    advance(0);
    advance(1);
    for (unsigned k = 0; k < 2; ++k)
        if (next[k] < prog.size())
            failf("sink S%u: statement %zu is missing from the log:\n%s", k, next[k], quote(st->data, 2000).c_str());
    ctx.nontrivial(gated && prog.size() >= 3);
    if (gated) ctx.label("formatted_after_scramble");
    if (gated && lead) ctx.label("across_queue_end");
}
#endif
