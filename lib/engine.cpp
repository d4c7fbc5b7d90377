#include "engine.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp
{
    namespace
    {
        constexpr std::size_t max_choices = 1 << 18;
        constexpr std::size_t max_notes = 1 << 16;

        struct Shared
        {
            std::atomic<std::uint64_t> idx;       // running case + 1, 0 = none
            std::atomic<std::uint64_t> start_ms;
            std::atomic<std::uint64_t> next;      // case being run, or to be run next
            std::atomic<std::uint32_t> stop;      // begin no further case
            std::atomic<std::uint32_t> failed;    // 1 = die() called, 2 = infra
            char msg[8192];
            std::uint64_t nchoices;
            std::uint64_t choices[max_choices];
            char notes[max_notes];
        };

        Shared* g_shared;   // in workers: this worker's area
        int g_out = -1;     // results file of this worker

        std::uint64_t now_ms()
        {
            using namespace std::chrono;
            return std::uint64_t(
                duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count());
        }

        std::uint64_t splitmix(std::uint64_t& x)
        {
            std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }

        void write_all(int fd, const std::string& s)
        {
            std::size_t n = 0;
            while (n < s.size())
            {
                const auto r = ::write(fd, s.data() + n, s.size() - n);
                if (r < 0) { if (errno == EINTR) continue; return; }
                n += std::size_t(r);
            }
        }

        std::string json_str(std::string_view s)
        {
            std::string r = "\"";
            char b[8];
            for (unsigned char c : s)
            {
                if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
                else if (c == '\n') r += "\\n";
                else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
                else r += char(c);
            }
            return r + "\"";
        }
    }

    // -------------------------------------------------------------------- Src
    Src::Src(std::uint64_t seed, std::uint64_t idx) : replay_(false)
    {
        std::uint64_t x = seed * 0x9e3779b97f4a7c15ULL + idx * 0xd1342543de82ef95ULL + 12345;
        s_[0] = splitmix(x);
        s_[1] = splitmix(x);
    }

    Src::Src(std::vector<std::uint64_t> ch) : ch_(std::move(ch)), replay_(true) {}

    std::uint64_t Src::next()
    {
        // xoroshiro128+
        const std::uint64_t a = s_[0];
        std::uint64_t b = s_[1];
        const std::uint64_t r = a + b;
        b ^= a;
        s_[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s_[1] = (b << 37) | (b >> 27);
        return r;
    }

    std::uint64_t Src::draw(std::uint64_t n)
    {
        if (n == 0) n = 1;
        std::uint64_t v;
        if (replay_)
        {
            v = pos_ < ch_.size() ? ch_[pos_] : 0;
            if (v >= n) v = n - 1;
            if (pos_ < ch_.size()) ch_[pos_] = v; else ch_.push_back(v);
        }
        else
        {
            v = (next() >> 11) % n;
            if (n > (1ULL << 53)) v = next() % n;
            ch_.push_back(v);
        }
        if (mirror_ && pos_ < mcap_)
        {
            mirror_[1 + pos_] = v;
            mirror_[0] = pos_ + 1;
        }
        ++pos_;
        return v;
    }

    std::size_t Src::size(std::size_t max)
    {
        // bucket by number of bits, then uniform within the bucket
        unsigned bits = 0;
        while ((max >> bits) != 0) ++bits;
        const auto b = draw(bits + 1);
        if (b == 0) return 0;
        const std::size_t lo = std::size_t(1) << (b - 1);
        std::size_t hi = (std::size_t(1) << b) - 1;
        if (hi > max) hi = max;
        if (lo > max) return max;
        return lo + draw(hi - lo + 1);
    }

    std::uint64_t Src::u64()
    {
        switch (draw(4))
        {
        case 0: return draw(256);
        case 1: return draw(1ULL << 32);
        case 2: return draw(~0ULL);
        default: return ~0ULL - draw(256);
        }
    }

    std::string Src::printable(std::size_t n)
    {
        // One choice per string keeps sequences short: content derived from a
        // drawn seed, which is itself a recorded choice.
        std::uint64_t x = draw(1ULL << 32);
        const bool plain = x == 0;
        std::string s(n, 'a');
        if (!plain)
            for (auto& c : s)
                do c = char(' ' + splitmix(x) % 95); while (c == '\\');
        return s;
    }

    std::string Src::anybytes(std::size_t n)
    {
        std::uint64_t x = draw(1ULL << 32);
        const bool plain = x == 0;
        std::string s(n, 'a');
        if (!plain)
            for (auto& c : s)
                c = char(splitmix(x));
        return s;
    }

    // -------------------------------------------------------------------- Ctx
    void Ctx::label(const char* l)
    {
        if (std::find(labels_.begin(), labels_.end(), l) == labels_.end())
            labels_.push_back(l);
    }

    void Ctx::note(const char* f, ...)
    {
        if (notes_ == nullptr || notes_len_ + 2 >= notes_cap_) return;
        va_list ap;
        va_start(ap, f);
        const int n = std::vsnprintf(notes_ + notes_len_, notes_cap_ - notes_len_ - 1, f, ap);
        va_end(ap);
        if (n > 0)
            notes_len_ = std::min(notes_len_ + std::size_t(n), notes_cap_ - 2);
        notes_[notes_len_++] = '\n';
        notes_[notes_len_] = '\0';
    }

    const std::string& Ctx::dir() { return dir_; }

    void Ctx::infra(const std::string& why) { vp::infra(why); }

    void die(const std::string& msg)
    {
        static std::atomic<bool> once{false};
        if (!once.exchange(true))
        {
            std::strncpy(g_shared->msg, msg.c_str(), sizeof(g_shared->msg) - 1);
            g_shared->failed = 1;
            ::_exit(3);
        }
        for (;;) ::pause();
    }

    void infra(const std::string& why)
    {
        std::strncpy(g_shared->msg, why.c_str(), sizeof(g_shared->msg) - 1);
        g_shared->failed = 2;
        ::_exit(4);
    }

    void failf(const char* f, ...)
    {
        char b[6000];
        va_list ap;
        va_start(ap, f);
        std::vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        die(b);
    }

    std::string quote(std::string_view s, std::size_t max)
    {
        std::string r = "\"";
        char b[8];
        std::size_t n = 0;
        for (unsigned char c : s)
        {
            if (n++ >= max) { r += "...(" + std::to_string(s.size()) + ")"; break; }
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c == '\n') r += "\\n";
            else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += char(c);
        }
        return r + "\"";
    }

    // ------------------------------------------------------------- the runner
    namespace
    {
        struct Opts
        {
            std::uint64_t seed = 1, cases = 1000, skip = 0;
            unsigned workers = 0;
            double budget = 60, timeout = 0, shrink = 45;
            std::string scratch, out, replay, replay_out;
            bool thorough = false, verbose = false;
        } o;

        struct Outcome
        {
            enum Kind { ok, fail, crash, hang, infra } kind = ok;
            std::string msg;
            std::vector<std::uint64_t> choices;
            std::string notes;
            bool bad() const { return kind == fail || kind == crash || kind == hang; }
            const char* name() const
            {
                static const char* n[] = {"ok", "fail", "crash", "hang", "infra"};
                return n[kind];
            }
        };

        std::string read_file(const std::string& p, std::size_t max)
        {
            std::ifstream f(p, std::ios::binary);
            std::stringstream ss;
            ss << f.rdbuf();
            std::string s = ss.str();
            if (s.size() > max) s = s.substr(0, max / 2) + "\n...\n" + s.substr(s.size() - max / 2);
            return s;
        }

        Shared* map_shared()
        {
            void* p = ::mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE,
                             MAP_SHARED|MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
            return static_cast<Shared*>(p);
        }

        void rm_rf(const std::string& d)
        {
            if (d.rfind(o.scratch, 0) != 0 || d.size() <= o.scratch.size()) return;
            const pid_t p = ::fork();
            if (p == 0)
            {
                ::execl("/bin/rm", "rm", "-rf", d.c_str(), nullptr);
                ::_exit(1);
            }
            if (p > 0) ::waitpid(p, nullptr, 0);
        }

        void child_setup(Shared* sh, const std::string& dir, const std::string& errfile)
        {
            g_shared = sh;
            ::prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::setpgid(0, 0);
            ::mkdir(dir.c_str(), 0777);
            const int fd = ::open(errfile.c_str(), O_CREAT|O_TRUNC|O_RDWR|O_APPEND, 0666);
            if (fd >= 0) { ::dup2(fd, 2); if (fd != 2) ::close(fd); }
            rlimit rl{0, 0};
            ::setrlimit(RLIMIT_CORE, &rl);
            vp_worker_init();
        }

        void run_one(Src& src, Ctx& ctx, Shared* sh, std::uint64_t idx)
        {
            sh->nchoices = 0;
            sh->notes[0] = '\0';
            sh->failed = 0;
            sh->start_ms = now_ms();
            sh->idx = idx + 1;
            src.set_mirror(&sh->nchoices, max_choices - 1);
            ctx.notes_ = sh->notes;
            ctx.notes_cap_ = max_notes;
            ctx.notes_len_ = 0;
            ctx.thorough_ = o.thorough;
            vp_case(src, ctx);
            sh->idx = 0;
        }

        void collect(Outcome& out, Shared* sh, int status, bool hung, const std::string& errfile)
        {
            const auto n = std::min<std::uint64_t>(sh->nchoices, max_choices - 1);
            out.choices.assign(sh->choices, sh->choices + n);
            out.notes = sh->notes;
            if (hung) { out.kind = Outcome::hang; out.msg = "case did not finish (hang)"; return; }
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { out.kind = Outcome::ok; return; }
            if (sh->failed == 1) { out.kind = Outcome::fail; out.msg = sh->msg; return; }
            if (sh->failed == 2) { out.kind = Outcome::infra; out.msg = sh->msg; return; }
            out.kind = Outcome::crash;
            std::ostringstream ss;
            if (WIFSIGNALED(status)) ss << "killed by signal " << WTERMSIG(status);
            else ss << "exited with status " << WEXITSTATUS(status);
            const std::string err = read_file(errfile, 6000);
            // The system running out of resources is not a verdict
            if ((WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) ||
                err.find("Resource temporarily unavailable") != std::string::npos ||
                err.find("ReserveShadowMemoryRange failed") != std::string::npos ||
                err.find("unexpected memory mapping") != std::string::npos)
                out.kind = Outcome::infra;
            ss << "; stderr: " << err;
            out.msg = ss.str();
        }

        // Runs a single case in a fresh process
        Outcome run_isolated(const std::vector<std::uint64_t>* ch, std::uint64_t idx, double timeout)
        {
            static Shared* sh = map_shared();
            static unsigned counter = 0;
            const std::string dir = o.scratch + "/iso" + std::to_string(counter++);
            const std::string errfile = dir + ".err";
            sh->failed = 0; sh->idx = 0; sh->nchoices = 0; sh->notes[0] = 0; sh->msg[0] = 0;
            const pid_t p = ::fork();
            if (p == -1) { Outcome r; r.kind = Outcome::infra; r.msg = "fork"; return r; }
            if (p == 0)
            {
                child_setup(sh, dir, errfile);
                Src src = ch ? Src(*ch) : Src(o.seed, idx);
                Ctx ctx;
                ctx.dir_ = dir;
                run_one(src, ctx, sh, idx);
                ::_exit(0);
            }
            const auto t0 = now_ms();
            int status = 0;
            bool hung = false;
            for (;;)
            {
                const pid_t r = ::waitpid(p, &status, WNOHANG);
                if (r == p) break;
                if (double(now_ms() - t0) > timeout * 1000)
                {
                    hung = true;
                    ::kill(-p, SIGKILL);
                    ::kill(p, SIGKILL);
                    ::waitpid(p, &status, 0);
                    break;
                }
                ::usleep(1000);
            }
            ::kill(-p, SIGKILL);
            Outcome out;
            collect(out, sh, status, hung, errfile);
            rm_rf(dir);
            ::unlink(errfile.c_str());
            return out;
        }

        struct Worker
        {
            pid_t pid = -1;
            Shared* sh = nullptr;
            std::uint64_t next = 0; // next case index for this worker
            std::string dir, err, res;
        };

        void start_worker(Worker& w, unsigned n, unsigned nworkers)
        {
            w.sh->idx = 0; w.sh->failed = 0; w.sh->msg[0] = 0; w.sh->next = w.next; w.sh->stop = 0;
            const std::uint64_t first = w.next;
            const pid_t p = ::fork();
            if (p == -1) { std::perror("fork"); std::exit(2); }
            if (p != 0) { w.pid = p; return; }
            child_setup(w.sh, w.dir, w.err);
            g_out = ::open(w.res.c_str(), O_CREAT|O_WRONLY|O_APPEND, 0666);
            unsigned samples = 0;
            (void)n;
            for (std::uint64_t i = first; i < o.cases && !w.sh->stop; i += nworkers)
            {
                w.sh->next = i;
                (void)!::ftruncate(2, 0);
                Src src(o.seed, i);
                Ctx ctx;
                ctx.dir_ = w.dir;
                run_one(src, ctx, w.sh, i);
                std::uint64_t h = 1469598103934665603ULL;
                for (auto c : src.choices()) { h ^= c; h *= 1099511628211ULL; h ^= h >> 29; }
                std::string line = "C " + std::to_string(i) + " " + std::to_string(h) +
                    (ctx.nontrivial_ ? " 1" : " 0");
                for (auto& l : ctx.labels_) line += " " + l;
                line += "\n";
                if (ctx.nontrivial_ && samples < 2)
                {
                    ++samples;
                    line += "S " + json_str(std::string_view(w.sh->notes).substr(0, 1500)) + "\n";
                }
                write_all(g_out, line);
            }
            ::_exit(0);
        }

        std::vector<std::uint64_t> shrink(
            std::vector<std::uint64_t> best, Outcome& bo, unsigned tries, double timeout)
        {
            const auto t0 = now_ms();
            unsigned evals = 0;
            auto expired = [&] { return double(now_ms() - t0) > o.shrink * 1000 || evals > 1500; };
            auto attempt = [&](std::vector<std::uint64_t> c) -> bool
            {
                if (expired()) return false;
                for (unsigned t = 0; t < tries; ++t)
                {
                    ++evals;
                    Outcome r = run_isolated(&c, 0, timeout);
                    if (r.bad())
                    {
                        // normalise: what the case actually consumed
                        auto used = r.choices;
                        while (!used.empty() && used.back() == 0) used.pop_back();
                        if (used.size() > best.size()) return false;
                        if (used.size() == best.size() && !(used < best)) return false;
                        best = used;
                        bo = r;
                        return true;
                    }
                }
                return false;
            };
            while (!best.empty() && best.back() == 0) best.pop_back();
            bool improved = true;
            while (improved && !expired())
            {
                improved = false;
                // delete chunks
                for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1 && !expired(); k /= 2)
                {
                    for (std::size_t i = 0; i + 1 <= best.size() && !expired();)
                    {
                        auto c = best;
                        const auto e = std::min(i + k, c.size());
                        c.erase(c.begin() + long(i), c.begin() + long(e));
                        if (attempt(c)) improved = true; else i += k;
                    }
                    if (k == 1) break;
                }
                // zero chunks
                for (std::size_t k = std::max<std::size_t>(best.size() / 4, 1); k >= 1 && !expired(); k /= 2)
                {
                    for (std::size_t i = 0; i < best.size() && !expired(); i += k)
                    {
                        auto c = best;
                        bool any = false;
                        for (std::size_t j = i; j < std::min(i + k, c.size()); ++j)
                        { any |= c[j] != 0; c[j] = 0; }
                        if (any && attempt(c)) improved = true;
                    }
                    if (k == 1) break;
                }
                // lower values
                for (std::size_t i = 0; i < best.size() && !expired(); ++i)
                {
                    std::uint64_t lo = 0;
                    while (i < best.size() && best[i] > lo && !expired())
                    {
                        auto c = best;
                        c[i] = lo + (best[i] - lo) / 2;
                        if (c[i] == best[i]) break;
                        if (attempt(c)) improved = true;
                        else lo = c[i] + 1;
                    }
                }
            }
            return best;
        }

        void write_replay(const Outcome& out, const std::vector<std::uint64_t>& ch, std::uint64_t idx)
        {
            std::ofstream f(o.replay_out);
            f << "{\n \"property\": " << json_str(vp_info.id)
              << ",\n \"seed\": " << o.seed << ",\n \"case\": " << idx
              << ",\n \"thorough\": " << (o.thorough ? "true" : "false")
              << ",\n \"kind\": " << json_str(out.name())
              << ",\n \"message\": " << json_str(out.msg)
              << ",\n \"description\": " << json_str(out.notes)
              << ",\n \"choices\": [";
            for (std::size_t i = 0; i < ch.size(); ++i)
                f << (i ? "," : "") << ch[i];
            f << "]\n}\n";
        }

        std::vector<std::uint64_t> read_choices(const std::string& path)
        {
            const std::string s = read_file(path, 1u << 30);
            std::vector<std::uint64_t> v;
            auto p = s.find("\"choices\"");
            if (p == std::string::npos) return v;
            p = s.find('[', p);
            const char* c = s.c_str() + p + 1;
            for (;;)
            {
                while (*c == ' ' || *c == ',' || *c == '\n') ++c;
                if (*c == ']' || *c == '\0') break;
                char* e;
                v.push_back(std::strtoull(c, &e, 10));
                if (e == c) break;
                c = e;
            }
            return v;
        }
    }

    int engine_main(int argc, char** argv)
    {
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") o.seed = std::stoull(val());
            else if (a == "--cases") o.cases = std::stoull(val());
            else if (a == "--skip") o.skip = std::stoull(val());
            else if (a == "--workers") o.workers = unsigned(std::stoul(val()));
            else if (a == "--budget") o.budget = std::stod(val());
            else if (a == "--timeout") o.timeout = std::stod(val());
            else if (a == "--shrink") o.shrink = std::stod(val());
            else if (a == "--scratch") o.scratch = val();
            else if (a == "--out") o.out = val();
            else if (a == "--replay") o.replay = val();
            else if (a == "--replay-out") o.replay_out = val();
            else if (a == "--thorough") o.thorough = true;
            else if (a == "-v") o.verbose = true;
            else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
        }
        if (o.scratch.empty()) { std::fprintf(stderr, "--scratch required\n"); return 2; }
        if (o.workers == 0) o.workers = vp_info.workers;
        if (o.timeout == 0) o.timeout = vp_info.timeout;
        std::signal(SIGPIPE, SIG_IGN);

        if (!o.replay.empty())
        {
            const auto ch = read_choices(o.replay);
            unsigned bad = 0;
            Outcome last;
            for (int t = 0; t < 20 && bad == 0; ++t)
            {
                last = run_isolated(&ch, 0, o.timeout);
                bad += last.bad();
            }
            std::printf("replay: %s\n%s\n%s\n", last.name(), last.msg.c_str(), last.notes.c_str());
            return bad ? 1 : 0;
        }

        const auto t0 = now_ms();
        auto paused = t0 - t0; // time spent confirming failures
        const unsigned W = o.workers;
        std::vector<Worker> ws(W);
        for (unsigned n = 0; n < W; ++n)
        {
            ws[n].sh = map_shared();
            ws[n].next = o.skip + n;
            ws[n].dir = o.scratch + "/w" + std::to_string(n);
            ws[n].err = ws[n].dir + ".err";
            ws[n].res = ws[n].dir + ".res";
            if (ws[n].next < o.cases) start_worker(ws[n], n, W);
        }

        struct Seen { std::uint64_t idx; Outcome out; };
        std::vector<Seen> unconfirmed;
        unsigned infra = 0;
        bool violation = false, budget_hit = false; // after the budget cases are ended, not begun
        Outcome final_out;
        std::string infra_msg;

        auto kill_all = [&]
        {
            for (auto& w : ws)
                if (w.pid > 0)
                {
                    ::kill(-w.pid, SIGKILL);
                    ::kill(w.pid, SIGKILL);
                    ::waitpid(w.pid, nullptr, 0);
                    w.pid = -1;
                    w.next = w.sh->next; // re-run the case it was running
                }
        };

        for (;;)
        {
            bool running = false;
            for (unsigned n = 0; n < W; ++n)
            {
                auto& w = ws[n];
                if (w.pid <= 0) continue;
                int status = 0;
                const pid_t r = ::waitpid(w.pid, &status, WNOHANG);
                bool hung = false;
                if (r == 0)
                {
                    const auto idx = w.sh->idx.load();
                    if (idx != 0 && double(now_ms() - w.sh->start_ms) > o.timeout * 1000 &&
                        w.sh->idx.load() == idx)
                    {
                        hung = true;
                        ::kill(-w.pid, SIGKILL);
                        ::kill(w.pid, SIGKILL);
                        ::waitpid(w.pid, &status, 0);
                    }
                    else { running = true; continue; }
                }
                if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) { w.pid = -1; w.next = o.cases; continue; }
                // worker ended abnormally
                ::kill(-w.pid, SIGKILL);
                w.pid = -1;
                const std::uint64_t idx = w.sh->idx ? w.sh->idx - 1 : w.next;
                Outcome out;
                collect(out, w.sh, status, hung, w.err);
                rm_rf(w.dir);
                w.next = idx + W;
                if (o.verbose) std::fprintf(stderr, "case %lu: %s: %s\n", (unsigned long)idx, out.name(), out.msg.c_str());
                if (!out.bad())
                {
                    ++infra;
                    infra_msg = out.msg;
                    if (infra < 50 && w.next < o.cases && !budget_hit) { start_worker(w, n, W); running = true; }
                    continue;
                }
                // confirm
                kill_all();
                unsigned rep = 0, runs = 0;
                // a hang that depends on the schedule may need many runs to occur again
                const bool hang = out.kind == Outcome::hang;
                const unsigned max_runs = hang ? 1000 : 40, want = hang ? 1 : 3;
                Outcome conf = out;
                const auto c0 = now_ms();
                while (runs < max_runs && rep < want && double(now_ms() - c0) < (hang ? 75000 : 45000))
                {
                    Outcome r2 = run_isolated(nullptr, idx, o.timeout);
                    ++runs;
                    if (r2.bad()) { ++rep; conf = r2; }
                }
                const bool enough = rep >= 1;
                if (enough)
                {
                    violation = true;
                    const double st = out.kind == Outcome::hang ? std::min(o.timeout, 5.0) : o.timeout;
                    const unsigned tries = rep == runs ? 1 : std::min(5u, 1 + runs / rep);
                    Outcome bo = conf;
                    auto ch = conf.choices;
                    ch = shrink(ch, bo, tries, st);
                    if (out.kind == Outcome::hang)
                    {
                        // the shrunk case must hang at the full timeout too
                        Outcome r3 = run_isolated(&ch, 0, o.timeout);
                        if (!r3.bad()) { ch = conf.choices; bo = conf; }
                    }
                    final_out = bo;
                    write_replay(bo, ch, idx);
                    std::printf("FAILURE case=%lu kind=%s reproduced=%u/%u\n%s\n--- case (shrunk, %zu choices)\n%s\n",
                        (unsigned long)idx, bo.name(), rep, runs, bo.msg.c_str(), ch.size(), bo.notes.c_str());
                    goto done;
                }
                unconfirmed.push_back({idx, out});
                paused += now_ms() - c0;
                {
                    unsigned nh = 0;
                    for (auto& u : unconfirmed) nh += u.out.kind != Outcome::hang;
                    if (nh >= 2)
                    {
                        violation = true;
                        final_out = out;
                        write_replay(out, out.choices, idx);
                        std::printf("FAILURE case=%lu kind=%s (schedule dependent, seen %u times)\n%s\n--- case\n%s\n",
                            (unsigned long)idx, out.name(), nh, out.msg.c_str(), out.notes.c_str());
                        goto done;
                    }
                }
                for (unsigned m = 0; m < W && !budget_hit; ++m)
                    if (ws[m].next < o.cases)
                    {
                        start_worker(ws[m], m, W);
                        running = true;
                    }
                break;
            }
            if (!running) break;
            if (double(now_ms() - t0 - paused) > o.budget * 1000) 
            {
                // cases in progress are waited for, as one of them may be hung
                budget_hit = true;
                for (auto& w : ws) w.sh->stop = 1;
            }
            ::usleep(5000);
        }
    done:
        kill_all();

        // merge results
        std::unordered_set<std::uint64_t> distinct;
        std::set<std::uint64_t> seen;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
        for (auto& w : ws)
        {
            std::ifstream f(w.res);
            std::string line;
            while (std::getline(f, line))
            {
                if (line.rfind("C ", 0) == 0)
                {
                    std::istringstream is(line.substr(2));
                    std::uint64_t i, h; int nt; std::string l;
                    is >> i >> h >> nt;
                    if (!seen.insert(i).second) continue;
                    if (nt) distinct.insert(h);
                    while (is >> l) ++labels[l];
                }
                else if (line.rfind("S ", 0) == 0 && samples.size() < 5)
                    samples.push_back(line.substr(2));
            }
        }
        if (!o.out.empty())
        {
            std::ofstream f(o.out);
            f << "{\"evaluations\": " << seen.size() << ", \"distinct_nontrivial\": " << distinct.size()
              << ", \"rule\": " << json_str(vp_info.rule)
              << ", \"violation\": " << (violation ? "true" : "false")
              << ", \"unconfirmed\": " << unconfirmed.size()
              << ", \"infra\": " << infra
              << ", \"infra_msg\": " << json_str(infra_msg)
              << ", \"budget_hit\": " << (budget_hit ? "true" : "false")
              << ", \"labels\": {";
            bool first = true;
            for (auto& [k, v] : labels) { f << (first ? "" : ", ") << json_str(k) << ": " << v; first = false; }
            f << "}, \"samples\": [";
            for (std::size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << samples[i];
            f << "], \"wall_s\": " << double(now_ms() - t0) / 1000 << "}\n";
        }
        for (auto& u : unconfirmed)
            std::printf("note: case %lu %s once and could not be reproduced: %s\n%s\n",
                (unsigned long)u.idx, u.out.name(), u.out.msg.c_str(), u.out.notes.substr(0, 1500).c_str());
        for (auto& w : ws) rm_rf(w.dir);
        return violation ? 1 : 0;
    }
}

int main(int argc, char** argv)
{
    return vp::engine_main(argc, argv);
}
