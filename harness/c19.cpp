// C19: containers, maps, tuples and pairs are formatted completely and in order.
#include "common.hpp"

#include <deque>
#include <forward_list>
#include <list>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

using namespace vp;

vp::Info vp_info{
    "C19",
    "a case is up to 16 values of 36 container, map, tuple and pair types (nested up to four deep, element types integral, floating point, bool, char, string and a user type; "
    "0-3 elements mostly, up to 4000 sometimes) formatted directly with {fmt} and through log statements (copied, moved, among other arguments, the caller's object "
    "changed or destroyed afterwards, back-end buffers down to one byte), compared with a reference printer that shares no code with the formatters. Non-trivial: some value had at least two elements.",
    30, 6};

void vp_worker_init() {}

struct point { int x, y; bool operator<(const point& o) const { return std::tie(x, y) < std::tie(o.x, o.y); } bool operator==(const point&) const = default; };

template<>
struct fmt::formatter<point>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const point& p, C& c) const { return fmt::format_to(c.out(), "<{};{}>", p.x, p.y); }
};

namespace
{
    // ------------------------------------------------------------ reference
    template<typename T> struct ref { static void put(std::string& o, const T& v) { o += fmt::format("{}", v); } };
    template<typename T> void put(std::string& o, const T& v) { ref<T>::put(o, v); }
    template<typename It> void seq(std::string& o, It b, It e)
    {
        o += '[';
        for (bool first = true; b != e; ++b, first = false)
        {
            if (!first) o += ", ";
            put<std::decay_t<decltype(*b)>>(o, *b);
        }
        o += ']';
    }
    template<typename It> void assoc(std::string& o, It b, It e)
    {
        o += '{';
        for (bool first = true; b != e; ++b, first = false)
        {
            if (!first) o += ", ";
            put(o, b->first);
            o += ": ";
            put(o, b->second);
        }
        o += '}';
    }
#define SEQ(...) { static void put(std::string& o, const __VA_ARGS__& v) { seq(o, v.begin(), v.end()); } };
#define ASSOC(...) { static void put(std::string& o, const __VA_ARGS__& v) { assoc(o, v.begin(), v.end()); } };
    template<typename T> struct ref<std::vector<T>> SEQ(std::vector<T>)
    template<> struct ref<std::vector<bool>>
    {
        static void put(std::string& o, const std::vector<bool>& v)
        {
            o += '[';
            for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ", "; o += v[i] ? "true" : "false"; }
            o += ']';
        }
    };
    template<typename T> struct ref<std::list<T>> SEQ(std::list<T>)
    template<typename T> struct ref<std::deque<T>> SEQ(std::deque<T>)
    template<typename T> struct ref<std::forward_list<T>> SEQ(std::forward_list<T>)
    template<typename T> struct ref<std::set<T>> SEQ(std::set<T>)
    template<typename T> struct ref<std::multiset<T>> SEQ(std::multiset<T>)
    template<typename T> struct ref<std::unordered_set<T>> SEQ(std::unordered_set<T>)
    template<typename T, std::size_t N> struct ref<std::array<T, N>> { static void put(std::string& o, const std::array<T, N>& v) { seq(o, v.begin(), v.end()); } };
    template<typename K, typename V> struct ref<std::map<K, V>> { static void put(std::string& o, const std::map<K, V>& v) { assoc(o, v.begin(), v.end()); } };
    template<typename K, typename V> struct ref<std::multimap<K, V>> { static void put(std::string& o, const std::multimap<K, V>& v) { assoc(o, v.begin(), v.end()); } };
    template<typename K, typename V> struct ref<std::unordered_map<K, V>> { static void put(std::string& o, const std::unordered_map<K, V>& v) { assoc(o, v.begin(), v.end()); } };
    template<typename A, typename B> struct ref<std::pair<A, B>>
    {
        static void put(std::string& o, const std::pair<A, B>& v) { o += '('; ::put(o, v.first); o += ", "; ::put(o, v.second); o += ')'; }
    };
    template<typename... T> struct ref<std::tuple<T...>>
    {
        static void put(std::string& o, const std::tuple<T...>& v)
        {
            o += '(';
            bool first = true;
            std::apply([&](const auto&... x) { ((o += first ? "" : ", ", first = false, ::put(o, x)), ...); }, v);
            o += ')';
        }
    };

    // ------------------------------------------------------------ generators
    struct G
    {
        Src& s;
        bool many = false, big = false;
        std::size_t n()
        {
            std::size_t k = s.chance(8) ? std::size_t(s.draw(4000)) : std::size_t(s.weighted({3, 3, 3, 3, 1, 1}));
            if (k > 60) { if (big) k = 3; big = true; }
            many |= k >= 2;
            return k;
        }
    };
    template<typename T> struct gen;
    template<typename T> T make(G& g) { return gen<T>::get(g); }
    template<> struct gen<int> { static int get(G& g) { return g.s.chance(100) ? int(g.s.u64()) : int(g.s.range(-100, 1000)); } };
    template<> struct gen<unsigned char> { static unsigned char get(G& g) { return (unsigned char)g.s.draw(256); } };
    template<> struct gen<long> { static long get(G& g) { return long(g.s.u64()); } };
    template<> struct gen<bool> { static bool get(G& g) { return g.s.draw(2); } };
    template<> struct gen<char> { static char get(G& g) { return char('a' + g.s.draw(26)); } };
    template<> struct gen<double> { static double get(G& g) { return g.s.pick<double>({0.0, 1.5, -2.25, 1e300, 3.0, 0.1}); } };
    template<> struct gen<point> { static point get(G& g) { return {int(g.s.draw(10)), int(g.s.draw(10))}; } };
    template<> struct gen<std::string>
    {
        static std::string get(G& g)
        {
            std::string r = g.s.printable(g.s.chance(50) ? g.s.size(300) : g.s.draw(8));
            if (g.s.chance(100)) r += g.s.pick<const char*>({", ", "{}", "]", "{", "}", ": ", "(", "%s", "{0}"});
            return r;
        }
    };
    template<typename C> C make_seq(G& g)
    {
        C c;
        for (std::size_t i = g.n(); i; --i) c.insert(c.end(), make<typename C::value_type>(g));
        return c;
    }
    template<typename T> struct gen<std::vector<T>> { static auto get(G& g) { return make_seq<std::vector<T>>(g); } };
    template<typename T> struct gen<std::list<T>> { static auto get(G& g) { return make_seq<std::list<T>>(g); } };
    template<typename T> struct gen<std::deque<T>> { static auto get(G& g) { return make_seq<std::deque<T>>(g); } };
    template<typename T> struct gen<std::set<T>> { static auto get(G& g) { return make_seq<std::set<T>>(g); } };
    template<typename T> struct gen<std::multiset<T>> { static auto get(G& g) { return make_seq<std::multiset<T>>(g); } };
    template<typename T> struct gen<std::unordered_set<T>> { static auto get(G& g) { return make_seq<std::unordered_set<T>>(g); } };
    template<typename T> struct gen<std::forward_list<T>>
    {
        static auto get(G& g) { std::forward_list<T> l; for (std::size_t i = g.n(); i; --i) l.push_front(make<T>(g)); return l; }
    };
    template<typename T, std::size_t N> struct gen<std::array<T, N>>
    {
        static auto get(G& g) { std::array<T, N> a{}; for (auto& x : a) x = make<T>(g); g.many |= N >= 2; return a; }
    };
    template<typename C> C make_map(G& g)
    {
        C c;
        for (std::size_t i = g.n(); i; --i) { auto k = make<typename C::key_type>(g); c.insert({std::move(k), make<typename C::mapped_type>(g)}); }
        return c;
    }
    template<typename K, typename V> struct gen<std::map<K, V>> { static auto get(G& g) { return make_map<std::map<K, V>>(g); } };
    template<typename K, typename V> struct gen<std::multimap<K, V>> { static auto get(G& g) { return make_map<std::multimap<K, V>>(g); } };
    template<typename K, typename V> struct gen<std::unordered_map<K, V>> { static auto get(G& g) { return make_map<std::unordered_map<K, V>>(g); } };
    template<typename A, typename B> struct gen<std::pair<A, B>> { static auto get(G& g) { g.many = true; A a = make<A>(g); return std::pair<A, B>(std::move(a), make<B>(g)); } };
    template<typename... T> struct gen<std::tuple<T...>> { static auto get(G& g) { g.many |= sizeof...(T) > 1; return std::tuple<T...>{make<T>(g)...}; } };

    template<typename... T> struct types {};
    using all = types<
        std::vector<int>, std::vector<bool>, std::vector<std::string>, std::list<double>, std::deque<char>, std::forward_list<int>,
        std::set<std::string>, std::multiset<int>, std::unordered_set<int>, std::array<int, 4>, std::array<std::string, 1>, std::array<int, 0>,
        std::map<int, int>, std::map<std::string, std::string>, std::multimap<int, double>, std::unordered_map<std::string, int>,
        std::pair<int, std::string>, std::pair<std::pair<int, int>, double>, std::tuple<int>, std::tuple<int, std::string, double>,
        std::tuple<char, bool, long, point, int, std::string, int>, std::vector<std::vector<int>>, std::vector<std::pair<int, std::string>>,
        std::map<std::string, std::vector<int>>, std::map<int, std::map<int, std::string>>, std::tuple<std::vector<int>, std::map<int, int>>,
        std::vector<std::tuple<int, std::vector<std::pair<int, int>>>>, std::list<std::deque<std::set<int>>>, std::pair<std::vector<int>, std::vector<std::string>>,
        std::vector<point>, std::map<point, point>, std::vector<unsigned char>, std::array<std::array<std::vector<int>, 2>, 3>,
        std::vector<std::vector<std::vector<std::vector<int>>>>, std::tuple<std::tuple<std::tuple<int, int>, int>, int>, std::map<std::pair<int, int>, std::tuple<int, std::string>>>;

    struct run
    {
        Src& src;
        Ctx& ctx;
        xtr::sink& s;
        std::vector<std::string> want;
        bool many = false;

        template<typename T> void one()
        {
            G g{src};
            T v = make<T>(g);
            many |= g.many;
            std::string r;
            put(r, v);
            const std::string direct = fmt::format("{}", v), c = fmt::format("{}", std::as_const(v));
            if (direct != r || c != r) failf("formatted as %s, expected %s", quote(direct, 800).c_str(), quote(r, 800).c_str());
            const auto k = src.draw(8);
            ctx.note("how %u: %s", unsigned(k), quote(r).c_str());
            constexpr bool unordered = requires(T t) { t.hash_function(); };
            switch (unordered ? 1 : k)
            {
            case 0: XTR_LOG(s, "{}", v); v = T(); want.push_back(r); break;
            case 1: XTR_LOG(s, "{}", std::move(v)); want.push_back(r); break;
            case 2: { const T c2 = v; XTR_TRY_LOG(s, "{}", c2); want.push_back(r); break; }
            case 3: XTR_LOG(s, "{} {} {}", 1, v, "s"); v = T(); want.push_back("1 " + r + " s"); break;
            case 4: XTR_LOG(s, "{} {}", std::string("str"), std::as_const(v)); v = T(); want.push_back("str " + r); break;
            case 5: XTR_LOG(s, "{}{}", v, v); want.push_back(r + r); break;
            case 6: XTR_LOGL(error, s, "[{}]", T(v)); want.push_back("[" + r + "]"); break;
            default: XTR_LOG_TS(s, 5, "{} {}", v, std::move(v)); want.push_back(r + " " + r); break;
            }
        }
        template<typename... T> void pick(types<T...>)
        {
            using F = void (run::*)();
            static constexpr F f[] = {&run::one<T>...};
            (this->*f[src.draw(sizeof...(T))])();
        }
    };
}

void vp_case(Src& src, Ctx& ctx)
{
    auto st = std::make_shared<mem_state>();
    std::vector<std::string> want;
    {
        xtr::logger log(std::make_unique<mem_storage>(st, src.pick<std::size_t>({4096, 64, 1})), fixed_clock(), xtr::null_command_path);
        xtr::sink s;
        log.register_sink(s, "S");
        run r{src, ctx, s, {}};
        gate g;
        xtr::sink gs;
        const bool stall = src.chance(400);
        if (stall)
        {
            log.register_sink(gs, "G");
            XTR_LOG(gs, "{}", gate_arg{g.s.get()});
            g.wait_entered();
        }
        std::size_t n = 0;
        while (src.more(n++, 5, 16)) r.pick(all());
        if (stall) g.open();
        s.close();
        gs.close();
        want = std::move(r.want);
        ctx.nontrivial(r.many);
        if (stall) ctx.label("stalled");
    }
    std::size_t i = 0;
    for (const auto& ln : split_lines(st->text()))
    {
        if (ln.find(" G c19.cpp:") != std::string::npos) continue;
        const auto p = ln.find(": ", ln.find(" S c19.cpp:"));
        if (p == std::string::npos) failf("malformed line %s", quote(ln).c_str());
        if (i >= want.size()) failf("extra line %s", quote(ln).c_str());
        if (ln.substr(p + 2) != want[i]) failf("value %zu was logged as %s, expected %s", i, quote(ln.substr(p + 2), 800).c_str(), quote(want[i], 800).c_str());
        ++i;
    }
    VP_CHECK(i == want.size(), "%zu lines, expected %zu", i, want.size());
}
