// C07: after sync() everything logged before it is in storage, even if the
// process dies; fatal statements do not lose anything.
#include "uring.hpp"

#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace vp;

vp::Info vp_info{
    "C07",
    "a case is a generated program of 1-3 threads, each with its own sink, logging messages of generated sizes and calling sync() at generated points. In-memory mode: at each return from "
    "sync() the back-end must have received all of the sink's messages, been flushed after them and then synced. File mode: the program runs in a child process on a posix or io_uring file "
    "back-end with generated buffer capacity, queue and batch size, on io_uring also under failing submissions, short, repeated, interrupted, reordered and late completions; the child reports each completed sync and is killed with SIGKILL after a generated report, kills itself right after a sync, or executes a "
    "fatal statement; the file must then hold every synced message in full and in order, and must have held them when fsync was last called before the report. Non-trivial: at least one sync "
    "completed with at least two messages before it, or a fatal statement with at least one before it.",
    40, 6};

namespace
{
    struct shared
    {
        std::atomic<std::uint64_t> fsyncs;
        std::atomic<std::uint64_t> fsync_size;
    };
    shared* sh;
}

extern "C"
{
    int __real_fsync(int);
    int __real_fdatasync(int);
    static void seen(int fd)
    {
        struct stat sb{};
        if (sh && ::fstat(fd, &sb) == 0)
        {
            sh->fsync_size = std::uint64_t(sb.st_size);
            ++sh->fsyncs;
        }
    }
    // Data reaching the disk is the kernel's business; what matters here is that
    // the call is made, and what the file contained at that time.
    int __wrap_fsync(int fd) { seen(fd); return 0; }
    int __wrap_fdatasync(int fd) { seen(fd); return 0; }
}

void vp_worker_init()
{
    sh = static_cast<shared*>(::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    // Run once here anything that is initialized once per process
    xtr::logger l(std::make_unique<mem_storage>(std::make_shared<mem_state>(), 64), fixed_clock(), xtr::null_command_path);
}

namespace
{
    struct op { unsigned kind; std::size_t len; unsigned jit; };
    struct prog { std::vector<op> ops; };

    std::string payload(std::uint32_t v, std::size_t n)
    {
        std::string s(n, ' ');
        std::uint32_t x = v * 2654435761u + 17;
        for (auto& c : s)
        {
            x = x * 1664525u + 1013904223u;
            c = char('!' + (x >> 24) % 90);
            if (c == '\\') c = '/';
        }
        return s;
    }

    std::string text_of(unsigned t, unsigned seq, std::size_t len) { return fmt::format("#{}.{} {};", t, seq, payload(t * 1000 + seq, len)); }

    void log_one(xtr::sink& s, unsigned t, unsigned seq, std::size_t len)
    {
        if (seq % 3 == 0) XTR_LOG(s, "#{}.{} {};", t, seq, payload(t * 1000 + seq, len));
        else { const std::string p = payload(t * 1000 + seq, len); XTR_LOG(s, "#{}.{} {};", t, seq, p.c_str()); }
    }

    // The first n messages of sink t occur in data, in order, each a complete line
    bool has_all(const std::string& data, const prog& p, unsigned t, unsigned n, std::string& why)
    {
        const std::string pre = ": #" + std::to_string(t) + ".";
        std::size_t pos = 0;
        unsigned seq = 0;
        for (auto& o : p.ops)
        {
            if (o.kind != 0) continue;
            if (seq == n) return true;
            const auto at = data.find(pre, pos);
            const std::string want = ": " + text_of(t, seq, o.len) + "\n";
            if (at == std::string::npos || data.compare(at, want.size(), want) != 0)
            {
                why = fmt::format("message {} of sink {} {}", seq, t, at == std::string::npos ? std::string("is not there") :
                    "is damaged or out of order: " + quote(data.substr(at, 120)));
                return false;
            }
            pos = at + want.size();
            ++seq;
        }
        return true;
    }

    struct report { unsigned t, n; std::uint64_t fsyncs, size; };

    void memory_mode(Src& src, Ctx& ctx, const std::vector<prog>& ps)
    {
        struct strict : mem_storage
        {
            bool slow = false;
            using mem_storage::mem_storage;
            void sync() noexcept override
            {
                {
                    std::scoped_lock l{st->m};
                    if (st->flushed != st->data.size()) failf("sync() called with %zu submitted bytes not flushed", st->data.size() - st->flushed);
                }
                if (std::exchange(slow, false)) ::usleep(1500000);
                mem_storage::sync();
            }
        };
        auto st = std::make_shared<mem_state>();
        const std::size_t bs = src.pick<std::size_t>({4096, 1, 50, 65536});
        bool nt = false;
        {
            auto sp = std::make_unique<strict>(st, bs);
            sp->slow = src.chance(3);
            if (sp->slow) ctx.label("slow_sync");
            xtr::logger log(std::move(sp), fixed_clock(), xtr::null_command_path);
            std::vector<xtr::sink> sinks(ps.size());
            for (unsigned t = 0; t < ps.size(); ++t) log.register_sink(sinks[t], "S" + std::to_string(t));
            std::vector<std::thread> th;
            std::atomic<bool> nta{false};
            for (unsigned t = 0; t < ps.size(); ++t)
                th.emplace_back([&, t] {
                    unsigned n = 0;
                    for (auto& o : ps[t].ops)
                    {
                        jitter(o.jit);
                        if (o.kind == 0) log_one(sinks[t], t, n++, o.len);
                        else
                        {
                            const auto before = [&] { std::scoped_lock l{st->m}; return st->nsync; }();
                            sinks[t].sync();
                            std::string data;
                            {
                                std::scoped_lock l{st->m};
                                if (st->nsync == before) failf("sync() returned without the back-end's sync being called");
                                data = st->data.substr(0, st->synced);
                            }
                            std::string why;
                            if (!has_all(data, ps[t], t, n, why)) failf("after sync(): %s", why.c_str());
                            if (n >= 2) nta = true;
                        }
                    }
                });
            for (auto& x : th) x.join();
            nt = nta;
        }
        ctx.nontrivial(nt);
        ctx.label("memory");
    }

    [[noreturn]] void child(const std::vector<prog>& ps, const std::string& path, unsigned backend, std::size_t cap, std::size_t q,
        std::size_t batch, int wfd, unsigned ending, unsigned fam, unsigned fatal_thread, xtr::log_level_t fatal_level)
    {
        ::signal(SIGABRT, SIG_DFL);
        ::alarm(60);
        const int null = ::open("/dev/null", O_WRONLY);
        ::dup2(null, 2);
        std::unique_ptr<xtr::logger> log;
        if (backend == 0)
            log.reset(new xtr::logger(path.c_str(), fixed_clock(), xtr::null_command_path));
        else
        {
            const int fd = ::open(path.c_str(), O_CREAT | O_WRONLY | (batch % 2 && backend != 3 ? O_APPEND : 0), 0600);
            xtr::storage_interface_ptr s;
            if (backend == 1) s = std::make_unique<xtr::posix_fd_storage>(fd, path, cap);
            else if (backend == 2) s = std::make_unique<xtr::io_uring_fd_storage>(fd, path, cap, q, batch);
            else s = std::make_unique<faulty_uring>(fd, path, cap, q, batch);
            ::close(fd);
            log.reset(new xtr::logger(std::move(s), fixed_clock(), xtr::null_command_path));
        }
        std::vector<xtr::sink> sinks(ps.size());
        for (unsigned t = 0; t < ps.size(); ++t) log->register_sink(sinks[t], "S" + std::to_string(t));
        auto body = [&](unsigned t) {
            unsigned n = 0;
            for (auto& o : ps[t].ops)
            {
                jitter(o.jit);
                if (o.kind == 0) log_one(sinks[t], t, n++, o.len);
                else
                {
                    const auto before = sh->fsyncs.load();
                    sinks[t].sync();
                    report r{t, n, sh->fsyncs - before, sh->fsync_size};
                    if (::write(wfd, &r, sizeof r) != sizeof r) ::_exit(3);
                }
            }
            if (ending == 2 && t == fatal_thread)
            {
                auto& s = sinks[t];
                s.set_level(fatal_level);
                switch (fam)
                {
                case 0: XTR_LOGL(fatal, s, "#{}.fatal", t); break;
                case 1: XTR_TRY_LOGL(fatal, s, "#{}.fatal", t); break;
                case 2: XTR_LOGL_TS(fatal, s, "ts", "#{}.fatal", t); break;
                case 3: XTR_TRY_LOGL_TS(fatal, s, "ts", "#{}.fatal", t); break;
                case 4: XTR_LOGL_RTC(fatal, s, "#{}.fatal", t); break;
                case 5: XTR_TRY_LOGL_RTC(fatal, s, "#{}.fatal", t); break;
                case 6: XTR_LOGL_TSC(fatal, s, "#{}.fatal", t); break;
                default: XTR_TRY_LOGL_TSC(fatal, s, "#{}.fatal", t); break;
                }
                ::_exit(4); // survived a fatal statement
            }
        };
        std::vector<std::thread> th;
        for (unsigned t = 1; t < ps.size(); ++t) th.emplace_back(body, t);
        body(0);
        for (auto& x : th) x.join();
        if (ending == 1)
        {
            // everything synced, then killed at once
            for (unsigned t = 0; t < ps.size(); ++t)
            {
                unsigned n = 0;
                for (auto& o : ps[t].ops) n += o.kind == 0;
                const auto before = sh->fsyncs.load();
                sinks[t].sync();
                report r{t, n, sh->fsyncs - before, sh->fsync_size};
                if (::write(wfd, &r, sizeof r) != sizeof r) ::_exit(3);
            }
            ::kill(::getpid(), SIGKILL);
        }
        ::pause();
        ::_exit(5);
    }

    void file_mode(Src& src, Ctx& ctx, const std::vector<prog>& ps)
    {
        const unsigned backend = unsigned(src.weighted({1, 8, 6, 8}));
        const std::size_t cap = src.pick<std::size_t>({256, 4096, 16, 1000, 65536, 1});
        const std::size_t q = src.pick<std::size_t>({8, 1, 2, 64, 16});
        const std::size_t batch = src.pick<std::size_t>({1, 2, 8, 32, 5, 3});
        const unsigned ending = unsigned(src.weighted({4, 3, 3})); // killed by us, by itself, fatal
        const unsigned fam = unsigned(src.draw(8));
        const unsigned ft = unsigned(src.draw(ps.size()));
        const auto fl = xtr::log_level_t(src.pick<int>({int(xtr::log_level_t::info), int(xtr::log_level_t::fatal), int(xtr::log_level_t::debug), int(xtr::log_level_t::none)}));
        unsigned syncs = 0;
        for (auto& p : ps) for (auto& o : p.ops) syncs += o.kind != 0;
        const unsigned kill_after = ending == 0 && syncs ? unsigned(src.draw(syncs)) + 1 : 0;
        const unsigned kill_delay = unsigned(src.draw(20));
        if (backend == 3)
        {
            uf.reset(src.draw(1u << 30));
            auto rate = [&](unsigned pm) { return src.chance(pm) ? src.pick<unsigned>({30, 200, 600}) : 0u; };
            uf.submit_fails = rate(300);
            uf.shorten = rate(300);
            uf.eagain = rate(200);
            uf.wait_eintr = rate(500);
            uf.reorder = rate(300);
            uf.deferred = src.chance(700);
            ctx.note("submit_fails %u shorten %u eagain %u eintr %u reorder %u deferred %d", uf.submit_fails, uf.shorten, uf.eagain, uf.wait_eintr, uf.reorder, int(uf.deferred));
        }
        ctx.note("backend %u capacity %zu queue %zu batch %zu ending %u family %u thread %u level %d kill_after %u", backend, cap, q, batch, ending, fam, ft, int(fl), kill_after);

        const std::string path = ctx.dir() + "/log";
        ::unlink(path.c_str());
        sh->fsyncs = 0;
        sh->fsync_size = 0;
        int pfd[2];
        if (::pipe(pfd) != 0) infra("pipe failed");
        const pid_t pid = ::fork();
        if (pid < 0) infra("fork failed");
        if (pid == 0)
        {
            ::close(pfd[0]);
            child(ps, path, backend, cap, q, batch, pfd[1], ending, fam, ft, fl);
        }
        ::close(pfd[1]);
        std::vector<report> rs;
        if (ending == 0 && kill_after == 0) { ::usleep(1000 + kill_delay * 100); ::kill(pid, SIGKILL); }
        for (report r; ::read(pfd[0], &r, sizeof r) == ssize_t(sizeof r);)
        {
            rs.push_back(r);
            if (ending == 0 && rs.size() == kill_after)
            {
                jitter(kill_delay);
                ::kill(pid, SIGKILL);
            }
        }
        ::close(pfd[0]);
        int status = 0;
        ::waitpid(pid, &status, 0);
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) failf("the child hung");
        if (ending == 2)
        {
            if (!WIFSIGNALED(status) || WTERMSIG(status) != SIGABRT)
                failf("a fatal statement did not abort the process (status %x)", unsigned(status));
        }
        else if (!WIFSIGNALED(status) || WTERMSIG(status) != SIGKILL)
            failf("the child ended unexpectedly (status %x)", unsigned(status));

        const std::string data = read_file(path);
        std::string why;
        bool nt = false;
        for (auto& r : rs)
        {
            if (r.fsyncs == 0) failf("sync() of sink %u returned without fsync being called", r.t);
            if (!has_all(data, ps[r.t], r.t, r.n, why)) failf("file after the process died, synced up to message %u: %s", r.n, why.c_str());
            if (!has_all(data.substr(0, r.size), ps[r.t], r.t, r.n, why))
                failf("when fsync was called for sync() after message %u: %s", r.n, why.c_str());
            nt |= r.n >= 2;
        }
        if (ending == 2)
        {
            unsigned n = 0;
            for (auto& o : ps[ft].ops) n += o.kind == 0;
            if (!has_all(data, ps[ft], ft, n, why)) failf("file after a fatal statement: %s", why.c_str());
            const std::string f = ": #" + std::to_string(ft) + ".fatal\n";
            const auto at = data.find(f);
            if (fl == xtr::log_level_t::none)
            {
                if (at != std::string::npos) failf("a fatal message was logged on a sink of level none");
            }
            else
            {
                if (at == std::string::npos) failf("the fatal message is not in the file");
                const auto last = data.rfind(": #" + std::to_string(ft) + ".");
                if (last != at) failf("messages follow the fatal message of their sink");
            }
            nt |= n >= 1;
            ctx.label("fatal");
        }
        ctx.nontrivial(nt);
        ctx.label(backend == 0 ? "default_file" : backend == 1 ? "posix_file" : backend == 2 ? "io_uring_file" : "faulty_io_uring_file");
        if (ending == 0) ctx.label("killed");
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    const bool mem = src.chance(300);
    std::vector<prog> ps(std::size_t(src.range(1, 3)));
    for (auto& p : ps)
    {
        while (src.more(p.ops.size(), 14, 60))
        {
            op o{};
            o.kind = src.chance(220) ? 1 : 0;
            o.len = o.kind ? 0 : src.chance(100) ? src.size(3000) : src.draw(60);
            o.jit = src.chance(200) ? unsigned(src.draw(20)) : 0;
            p.ops.push_back(o);
        }
    }
    for (unsigned t = 0; t < ps.size(); ++t)
    {
        std::string d;
        for (auto& o : ps[t].ops) d += o.kind ? " sync" : " " + std::to_string(o.len);
        ctx.note("thread %u:%s", t, d.c_str());
    }
    if (mem) memory_mode(src, ctx, ps);
    else file_mode(src, ctx, ps);
}
