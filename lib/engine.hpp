// A small choice-sequence property-based testing engine (in the style of
// Hypothesis): every random decision a case makes is a recorded integer, so a
// failing case is a plain list of integers that can be replayed and shrunk.
//
// Cases run in forked worker processes; crashes, sanitizer reports and hangs
// are attributed to the case that was running. A failure is confirmed by
// re-running it in fresh processes, then shrunk, then written to a replay file.
#pragma once

#include <atomic>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>

namespace vp
{
    // ---------------------------------------------------------------- choices
    class Src
    {
    public:
        // Random generation
        Src(std::uint64_t seed, std::uint64_t idx);
        // Replay
        explicit Src(std::vector<std::uint64_t> ch);

        // A value in [0, n). Zero is the simplest value.
        std::uint64_t draw(std::uint64_t n);

        // True with probability permille/1000; shrinks towards false.
        bool chance(unsigned permille) { return draw(1000) >= 1000 - permille; }

        // Inclusive range, shrinks towards lo
        std::int64_t range(std::int64_t lo, std::int64_t hi)
        {
            return lo + std::int64_t(draw(std::uint64_t(hi - lo) + 1));
        }

        // Index into weights; shrinks towards index zero
        std::size_t weighted(std::initializer_list<unsigned> w)
        {
            std::uint64_t sum = 0;
            for (auto x : w) sum += x;
            std::uint64_t v = draw(sum);
            std::size_t i = 0;
            for (auto x : w)
            {
                if (v < x) return i;
                v -= x;
                ++i;
            }
            return 0;
        }

        template<typename T>
        const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

        template<typename T>
        T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }

        // Loop control: expected `avg` iterations, never more than `max`.
        bool more(std::size_t done, std::size_t avg, std::size_t max)
        {
            if (done >= max) return false;
            return draw(avg + 1) != 0;
        }

        // A size in [0, max], skewed towards small values and powers of two
        std::size_t size(std::size_t max);

        std::uint64_t u64();

        // Bytes
        std::string printable(std::size_t n);
        std::string anybytes(std::size_t n);

        const std::vector<std::uint64_t>& choices() const { return ch_; }
        void set_mirror(std::uint64_t* area, std::size_t cap) { mirror_ = area; mcap_ = cap; }

    private:
        std::uint64_t next();
        std::uint64_t s_[2]{};
        std::vector<std::uint64_t> ch_;
        std::size_t pos_ = 0;
        bool replay_;
        std::uint64_t* mirror_ = nullptr;
        std::size_t mcap_ = 0;
    };

    // ---------------------------------------------------------------- context
    class Ctx
    {
    public:
        void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
        void label(const char* l);
        __attribute__((format(printf, 2, 3))) void note(const char* f, ...);
        const std::string& dir();  // private scratch directory of this worker
        bool thorough() const { return thorough_; }
        // Mark the case as not usable (an environment problem)
        [[noreturn]] void infra(const std::string& why);

        bool nontrivial_ = false;
        bool thorough_ = false;
        std::vector<std::string> labels_;
        std::string dir_;
        char* notes_ = nullptr;
        std::size_t notes_cap_ = 0, notes_len_ = 0;
    };

    // Report a violation and end this worker. May be called from any thread.
    [[noreturn]] void die(const std::string& msg);
    [[noreturn]] __attribute__((format(printf, 1, 2))) void failf(const char* f, ...);
    [[noreturn]] void infra(const std::string& why);

#define VP_CHECK(COND, ...)                                                   \
    do {                                                                      \
        if (!(COND)) [[unlikely]]                                             \
            ::vp::failf("check failed: " #COND " -- " __VA_ARGS__);           \
    } while (0)

    std::string quote(std::string_view s, std::size_t max = 300);

    struct Info
    {
        const char* id;
        const char* rule;
        double timeout = 30;     // seconds after which a case counts as hung
        unsigned workers = 4;
    };
}

// Supplied by the harness
extern vp::Info vp_info;
void vp_case(vp::Src&, vp::Ctx&);
void vp_worker_init();
