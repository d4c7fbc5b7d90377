// C24: loggers, sinks and back-ends release every resource they take.
#include "cmd.hpp"

#include <xtr/detail/file_descriptor.hpp>
#include <xtr/detail/memory_mapping.hpp>
#include <xtr/detail/mirrored_memory_mapping.hpp>
#include <xtr/io/fd_storage.hpp>
#include <xtr/io/io_uring_fd_storage.hpp>
#include <xtr/io/posix_fd_storage.hpp>

#include <liburing.h>
#include <sys/mman.h>
#include <dirent.h>
#include <new>
#include <system_error>

using namespace vp;

vp::Info vp_info{
    "C24",
    "a case is one of: a history of up to 40 operations on descriptor, mapping and mirrored mapping wrappers (open, move, assign, swap, reset, release, destroy), where after every operation the open descriptors and mapped pages "
    "must be exactly those the wrappers hold or have released; or a history of up to 30 operations on loggers, sinks and back-ends of every kind (create in every way, log, sync, copy, rename, reopen, connect and leave clients, send "
    "commands, replace the command path, destroy) with a failure injected into a drawn call (open, dup, mmap, mremap, socket, bind, listen, accept, io_uring setup and registration, thread start, memory allocation), where a failed creation must leave nothing behind at once, and "
    "nothing may be left at the end: descriptors, mappings, threads, blocks of memory, compiled expressions, sockets in the directory. In some cases standard input is closed. A closed descriptor is replaced by a guard, so that closing it again is seen. Non-trivial: a failure was injected and reported, or at least 5 resources were taken.",
    40, 8};

// ---------------------------------------------------------------- the monitor
namespace
{
    enum call { c_open, c_dup, c_mmap, c_mremap, c_socket, c_bind, c_listen, c_accept, c_qinit, c_regbuf, c_thread, c_new, n_calls };
    const char* const call_name[] = {"open", "dup", "mmap", "mremap", "socket", "bind", "listen", "accept", "io_uring_queue_init", "io_uring_register_buffers", "thread_start", "new"};
    std::atomic<int> countdown[n_calls];      // 0: not armed; fails when it becomes 0
    std::atomic<unsigned> injected[n_calls];
    bool fire(call c)
    {
        int v = countdown[c].load();
        if (v <= 0) return false;
        if (--countdown[c] == 0) { ++injected[c]; return true; }
        return false;
    }

    std::mutex mon;
    std::set<std::uintptr_t> pages;           // mapped by the library
    std::set<int> guards;                     // descriptors closed in this case
    int null_fd = -1;
    std::atomic<bool> active{false};          // inside a case
    std::atomic<long> rings{0}, regexes{0}, blocks{0};
    std::atomic<unsigned long> taken{0};
    thread_local bool new_armed = false;
    struct lock_mon // the monitor's own allocations do not fail
    {
        bool saved = std::exchange(new_armed, false);
        std::scoped_lock<std::mutex> l{mon};
        ~lock_mon() { new_armed = saved; }
    };
    constexpr std::uintptr_t page = 4096;
}

void* operator new(std::size_t n)
{
    if (new_armed && fire(c_new)) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++blocks;
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::align_val_t a)
{
    if (new_armed && fire(c_new)) throw std::bad_alloc();
    void* p = std::aligned_alloc(std::size_t(a), (n + std::size_t(a) - 1) / std::size_t(a) * std::size_t(a));
    if (!p) throw std::bad_alloc();
    ++blocks;
    return p;
}
void* operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (p) --blocks; std::free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }

extern "C"
{
    int __real_open(const char*, int, ...);
    int __real_dup(int);
    int __real_close(int);
    void* __real_mmap(void*, std::size_t, int, int, int, off_t);
    int __real_munmap(void*, std::size_t);
    void* __real_mremap(void*, std::size_t, std::size_t, int, ...);
    int __real_socket(int, int, int);
    int __real_bind(int, const sockaddr*, socklen_t);
    int __real_listen(int, int);
    int __real_accept4(int, sockaddr*, socklen_t*, int);
    int __real_io_uring_queue_init(unsigned, io_uring*, unsigned);
    void __real_io_uring_queue_exit(io_uring*);
    int __real_io_uring_register_buffers(io_uring*, const iovec*, unsigned);
    int __real_regcomp(regex_t*, const char*, int);
    void __real_regfree(regex_t*);
    void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void*, void*, void (*)());

    int __wrap_open(const char* p, int fl, int mode)
    {
        if (fire(c_open)) { errno = EMFILE; return -1; }
        ++taken;
        return __real_open(p, fl, mode);
    }
    int __wrap_dup(int fd)
    {
        if (fire(c_dup)) { errno = EMFILE; return -1; }
        ++taken;
        return __real_dup(fd);
    }
    int __wrap_close(int fd)
    {
        if (!active) return __real_close(fd);
        lock_mon l;
        if (guards.count(fd)) failf("descriptor %d was closed twice", fd);
        if (::fcntl(fd, F_GETFD) == -1) failf("descriptor %d was closed, but is not open", fd);
        // closes the file and keeps the number from being used again
        if (::dup2(null_fd, fd) != fd) infra("dup2");
        guards.insert(fd);
        return 0;
    }
    void* __wrap_mmap(void* a, std::size_t n, int prot, int fl, int fd, off_t o)
    {
        if (!active) return __real_mmap(a, n, prot, fl, fd, o);
        if (fire(c_mmap)) { errno = ENOMEM; return MAP_FAILED; }
        void* p = __real_mmap(a, n, prot, fl, fd, o);
        if (p != MAP_FAILED)
        {
            ++taken;
            lock_mon l;
            for (std::uintptr_t q = std::uintptr_t(p); q < std::uintptr_t(p) + n; q += page) pages.insert(q);
        }
        return p;
    }
    int __wrap_munmap(void* a, std::size_t n)
    {
        if (!active) return __real_munmap(a, n);
        lock_mon l;
        if (n == 0) failf("munmap of no bytes at %p", a);
        for (std::uintptr_t q = std::uintptr_t(a); q < std::uintptr_t(a) + n; q += page)
            if (!pages.erase(q)) failf("munmap of %zu bytes at %p: the page at offset %zu is not mapped (any more)", n, a, std::size_t(q - std::uintptr_t(a)));
        return __real_munmap(a, n);
    }
    void* __wrap_mremap(void* a, std::size_t o, std::size_t n, int fl, void* to)
    {
        if (fire(c_mremap)) { errno = ENOMEM; return MAP_FAILED; }
        void* p = fl & MREMAP_FIXED ? __real_mremap(a, o, n, fl, to) : __real_mremap(a, o, n, fl);
        if (p != MAP_FAILED && active)
        {
            lock_mon l;
            for (std::uintptr_t q = std::uintptr_t(a); q < std::uintptr_t(a) + o; q += page) pages.erase(q);
            for (std::uintptr_t q = std::uintptr_t(p); q < std::uintptr_t(p) + n; q += page) pages.insert(q);
        }
        return p;
    }
    int __wrap_socket(int a, int b, int c)
    {
        if (fire(c_socket)) { errno = EMFILE; return -1; }
        ++taken;
        return __real_socket(a, b, c);
    }
    int __wrap_bind(int fd, const sockaddr* a, socklen_t n)
    {
        if (fire(c_bind)) { errno = EACCES; return -1; }
        return __real_bind(fd, a, n);
    }
    int __wrap_listen(int fd, int n)
    {
        if (fire(c_listen)) { errno = EADDRINUSE; return -1; }
        return __real_listen(fd, n);
    }
    int __wrap_accept4(int fd, sockaddr* a, socklen_t* n, int fl)
    {
        if (fire(c_accept)) { errno = ECONNABORTED; return -1; }
        return __real_accept4(fd, a, n, fl);
    }
    int __wrap_io_uring_queue_init(unsigned n, io_uring* r, unsigned fl)
    {
        if (fire(c_qinit)) return -EMFILE;
        const int e = __real_io_uring_queue_init(n, r, fl);
        if (e == 0) { ++rings; ++taken; }
        return e;
    }
    void __wrap_io_uring_queue_exit(io_uring* r)
    {
        if (--rings < 0) failf("an io_uring was released twice");
        __real_io_uring_queue_exit(r);
    }
    int __wrap_io_uring_register_buffers(io_uring* r, const iovec* v, unsigned n)
    {
        if (fire(c_regbuf)) return -ENOMEM;
        return __real_io_uring_register_buffers(r, v, n);
    }
    int __wrap_regcomp(regex_t* r, const char* s, int fl)
    {
        const int e = __real_regcomp(r, s, fl);
        if (e == 0) ++regexes;
        return e;
    }
    void __wrap_regfree(regex_t* r)
    {
        if (--regexes < 0) failf("an expression was freed twice");
        __real_regfree(r);
    }
    void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* self, void* state, void (*dep)())
    {
        if (fire(c_thread)) throw std::system_error(EAGAIN, std::generic_category(), "injected");
        __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, state, dep);
    }
}

namespace
{
    std::set<int> open_fds()
    {
        std::set<int> r;
        DIR* d = ::opendir("/proc/self/fd");
        if (!d) infra("opendir");
        while (auto* e = ::readdir(d))
            if (e->d_name[0] != '.') r.insert(std::atoi(e->d_name));
        r.erase(::dirfd(d));
        ::closedir(d);
        return r;
    }
    std::set<int> live_fds()
    {
        std::scoped_lock l{mon};
        std::set<int> r = open_fds();
        for (int g : guards)
            if (!r.erase(g)) failf("descriptor %d had been closed, and was closed again by the kernel on request of an io_uring", g);
        return r;
    }
    std::size_t tasks()
    {
        std::size_t n = 0;
        DIR* d = ::opendir("/proc/self/task");
        if (!d) infra("opendir");
        while (auto* e = ::readdir(d))
        {
            if (e->d_name[0] == '.') continue;
            // the kernel's workers of an io_uring are its own
            char path[64], comm[32] = {};
            std::snprintf(path, sizeof path, "/proc/self/task/%.20s/comm", e->d_name);
            if (FILE* f = std::fopen(path, "r"))
            {
                if (std::fgets(comm, sizeof comm, f) && std::strncmp(comm, "iou-", 4) != 0) ++n;
                std::fclose(f);
            }
        }
        ::closedir(d);
        return n;
    }
    void end_guards()
    {
        for (int g : guards) __real_close(g);
        guards.clear();
    }
    void disarm() { for (auto& c : countdown) c = 0; new_armed = false; }
    std::string fd_text(int fd)
    {
        char b[300];
        const ssize_t n = ::readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof b);
        return std::to_string(fd) + (n > 0 ? " -> " + std::string(b, std::size_t(n)) : "");
    }
    std::string extra(const std::set<int>& before, const std::set<int>& now)
    {
        std::string s;
        for (int f : now) if (!before.count(f)) s += " " + fd_text(f);
        return s;
    }

    // ------------------------------------------------------------ wrappers
    void wrapper_case(Src& src, Ctx& ctx)
    {
        const std::set<int> before = live_fds();
        bool failed = false;
        {
            std::vector<std::optional<xd::file_descriptor>> F(5);
            std::vector<std::optional<xd::memory_mapping>> M(5);
            std::vector<std::optional<xd::mirrored_memory_mapping>> D(4);
            std::set<int> own;                          // released to the harness
            std::vector<std::pair<void*, std::size_t>> ownm;
            auto verify = [&] {
                std::set<int> want = before;
                for (int f : own) want.insert(f);
                for (auto& f : F) if (f && *f) { if (!want.insert(f->get()).second) failf("two wrappers hold descriptor %d", f->get()); }
                const auto now = live_fds();
                if (now != want) failf("open descriptors are not those held by the wrappers: extra%s; missing%s", extra(want, now).c_str(), extra(now, want).c_str());
                std::set<std::uintptr_t> pg;
                auto add = [&](const void* a, std::size_t n) {
                    for (std::uintptr_t q = std::uintptr_t(a); q < std::uintptr_t(a) + n; q += page)
                        if (!pg.insert(q).second) failf("two wrappers hold the page %p", reinterpret_cast<void*>(q));
                };
                for (auto& m : M) if (m && *m) add(m->get(), m->length());
                for (auto& m : D) if (m && *m) add(m->get(), 2 * m->length());
                for (auto& [a, n] : ownm) add(a, n);
                std::scoped_lock l{mon};
                if (pg != pages) failf("%zu pages are mapped, the wrappers hold %zu", pages.size(), pg.size());
            };
            std::size_t n = 0;
            while (src.more(n, 18, 40))
            {
                ++n;
                const unsigned i = unsigned(src.draw(5)), j = unsigned(src.draw(5));
                const unsigned op = unsigned(src.draw(7)), what = unsigned(src.draw(3));
                ctx.note("%s: operation %u on %u, %u", what == 0 ? "descriptor" : what == 1 ? "mapping" : "mirrored mapping", op, i, j);
                if (what == 0)
                {
                    switch (op)
                    {
                    case 0:
                        F[i].reset();
                        if (src.chance(250)) countdown[c_open] = 1;
                        try { F[i].emplace(src.chance(200) ? "/nonexistent/x" : "/dev/null", O_RDONLY); } catch (const std::system_error&) { failed = true; F[i].reset(); }
                        disarm();
                        break;
                    case 1: if (i != j && F[j]) { F[i].reset(); F[i].emplace(std::move(*F[j])); } break;
                    case 2: if (F[i] && F[j]) *F[i] = std::move(*F[j]); break;
                    case 3: F[i].reset(); break;
                    case 4: if (F[i]) { if (const int f = F[i]->release(); f >= 0) own.insert(f); } break;
                    case 5:
                        if (!F[i]) F[i].emplace();
                        if (src.chance(500) || own.empty()) F[i]->reset();
                        else { const int f = *own.begin(); own.erase(f); F[i]->reset(f); }
                        break;
                    default: if (F[i] && F[j]) { using std::swap; swap(*F[i], *F[j]); } break;
                    }
                }
                else if (what == 1)
                {
                    switch (op)
                    {
                    case 0:
                        M[i].reset();
                        if (src.chance(250)) countdown[c_mmap] = 1;
                        try { M[i].emplace(nullptr, page * std::size_t(src.range(1, 5)), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS); } catch (const std::system_error&) { failed = true; M[i].reset(); }
                        disarm();
                        break;
                    case 1: if (i != j && M[j]) { M[i].reset(); M[i].emplace(std::move(*M[j])); } break;
                    case 2: if (M[i] && M[j]) *M[i] = std::move(*M[j]); break;
                    case 3: M[i].reset(); break;
                    case 4: if (M[i] && *M[i]) { ownm.emplace_back(M[i]->get(), M[i]->length()); M[i]->release(); } break;
                    case 5:
                        if (!M[i]) M[i].emplace();
                        if (src.chance(500) || ownm.empty()) M[i]->reset();
                        else { M[i]->reset(ownm.back().first, ownm.back().second); ownm.pop_back(); }
                        break;
                    default: if (M[i] && M[j]) { using std::swap; swap(*M[i], *M[j]); } break;
                    }
                }
                else
                {
                    const unsigned a = i % 4, b = j % 4;
                    switch (op)
                    {
                    case 0: case 4: case 5:
                    {
                        D[a].reset();
                        const std::size_t len = page * std::size_t(src.range(1, 3)) + (src.chance(100) ? 100 : 0);
                        const bool file = src.chance(400);
                        int fd = -1;
                        if (file)
                        {
                            fd = ::memfd_create("c24", 0);
                            if (fd < 0 || ::ftruncate(fd, off_t(page * 4)) != 0) infra("memfd");
                        }
                        if (src.chance(500)) { countdown[src.chance(400) && !file ? c_mremap : c_mmap] = int(src.range(1, file ? 3 : 2)); }
                        try { D[a].emplace(len, fd); } catch (const std::exception&) { failed = true; D[a].reset(); }
                        disarm();
                        if (fd >= 0) __real_close(fd);
                        if (D[a])
                        {
                            static_cast<char*>(D[a]->get())[7] = 'x';
                            if (static_cast<char*>(D[a]->get())[7 + D[a]->length()] != 'x') failf("a mirrored mapping is not mirrored");
                        }
                        break;
                    }
                    case 1: if (a != b && D[b]) { D[a].reset(); D[a].emplace(std::move(*D[b])); } break;
                    case 2: if (D[a] && D[b]) *D[a] = std::move(*D[b]); break;
                    default: D[a].reset(); break;
                    }
                }
                verify();
            }
            F.clear();
            M.clear();
            D.clear();
            verify();
            for (int f : own) ::close(f);
            for (auto& [a, k] : ownm) ::munmap(a, k);
        }
        const auto now = live_fds();
        if (now != before) failf("descriptors are still open:%s", extra(before, now).c_str());
        if (!pages.empty()) failf("%zu pages are still mapped", pages.size());
        end_guards();
        ctx.nontrivial(failed || taken >= 5);
        ctx.label("wrappers");
        if (failed) ctx.label("wrapper_failure");
    }

    // ------------------------------------------------------------ histories
    struct outcome { unsigned failures = 0, created = 0; bool uring = false, client = false, reopened = false; };

    struct quiet_stderr
    {
        int saved;
        quiet_stderr() : saved(::fcntl(2, F_DUPFD_CLOEXEC, 100)) { ::dup2(null_fd, 2); }
        ~quiet_stderr() { ::dup2(saved, 2); __real_close(saved); }
    };

    void history(Src& src, Ctx& ctx, const std::string& d, outcome& o)
    {
        struct lg
        {
            std::unique_ptr<xtr::logger> l;
            std::vector<std::unique_ptr<xtr::sink>> s;
            std::string cmd;
            FILE* fp = nullptr;
            int ufd = -1;
        };
        std::vector<lg> L;
        std::vector<std::unique_ptr<xtr::storage_interface>> S;  // used directly
        std::vector<int> ufds;                                   // the user's
        std::vector<client> C;
        unsigned seq = 0;

        // Runs a creation with a failure drawn into it; what is left behind is checked at once
        auto attempt = [&](bool logger, bool memory, auto&& f) {
            const bool inject = src.chance(400);
            call c = n_calls;
            if (inject)
            {
                c = logger ? src.pick<call>({c_open, c_dup, c_mmap, c_mremap, c_qinit, c_regbuf, c_thread, c_new, c_new, c_socket, c_bind, c_listen})
                        : src.pick<call>({c_open, c_dup, c_qinit, c_regbuf, c_new});
                if (c == c_new && !memory) c = c_dup;
                const int n = int(src.range(1, c == c_new ? 8 : 2));
                ctx.note("  with failure of %s number %d", call_name[c], n);
                countdown[c] = n;
            }
            const std::set<int> fds = live_fds();
            std::size_t pg;
            { std::scoped_lock l{mon}; pg = pages.size(); }
            const long r = rings;
            const std::size_t t = tasks();
            bool ok = true;
            new_armed = c == c_new;
            try { f(); }
            catch (const std::exception& e) { ok = false; new_armed = false; ctx.note("  failed: %s", e.what()); }
            new_armed = false;
            const bool fired = inject && countdown[c] == 0;
            disarm();
            if (!ok)
            {
                ++o.failures;
                if (!fired && !inject) failf("creation failed without an injected failure");
                // (other loggers may have accepted connections meanwhile)
                auto now = live_fds();
                std::scoped_lock l{mon};
                std::erase_if(now, [&](int f) { return guards.count(f) || fd_text(f).find("socket:") != std::string::npos; });
                if (const std::string e = extra(fds, now); !e.empty()) failf("after a failed creation, these descriptors remain:%s", e.c_str());
                const std::size_t pg2 = pages.size();
                if (pg2 != pg) failf("after a failed creation, %zu pages remain mapped", pg2 - pg);
                if (rings != r) failf("after a failed creation, an io_uring remains");
                if (!eventually([&] { return tasks() <= t; })) failf("after a failed creation, a thread remains");
            }
            else { ++o.created; if (fired) ++o.failures; }
            return ok;
        };
        auto destroy_logger = [&](std::size_t i) {
            lg& x = L[i];
            x.s.clear();
            x.l.reset();
            struct stat sb;
            if (!x.cmd.empty() && x.cmd[0] != '\0' && ::lstat(x.cmd.c_str(), &sb) == 0) failf("the socket %s remains after its logger is gone", x.cmd.c_str());
            if (x.fp)
            {
                if (::fcntl(::fileno(x.fp), F_GETFD) == -1 || guards.count(::fileno(x.fp))) failf("the user's stream was closed");
                std::fclose(x.fp);
            }
            L.erase(L.begin() + long(i));
        };

        std::size_t n = 0;
        while (src.more(n, 14, 30))
        {
            ++n;
            const std::size_t i = L.empty() ? 0 : src.draw(L.size());
            switch (src.weighted({5, 4, 5, 3, 3, 3, 2, 3, 3, 2, 1}))
            {
            case 0: // a logger
            {
                if (L.size() >= 3) break;
                const std::string path = d + "/log" + std::to_string(src.draw(3));
                const unsigned kind = unsigned(src.draw(5));
                const unsigned cp = unsigned(src.draw(4));
                std::string cmd = cp == 0 ? d + "/cmd" + std::to_string(seq++) : cp == 1 ? std::string(1, '\0') + d + "/abs" + std::to_string(seq++) : xtr::null_command_path;
                ctx.note("logger kind %u, command path %u", kind, cp);
                lg x;
                if (cp <= 1) x.cmd = cmd;
                if (kind == 1 || kind == 2)
                {
                    x.fp = std::fopen(path.c_str(), "a");
                    if (!x.fp) infra("fopen");
                }
                                auto make = [&] {
                    switch (kind)
                    {
                    case 0: x.l.reset(new xtr::logger(path.c_str(), fixed_clock(), cmd)); break;
                    case 1: x.l.reset(new xtr::logger(x.fp, fixed_clock(), cmd)); break;
                    case 2: x.l.reset(new xtr::logger(path, x.fp, fixed_clock(), cmd)); break;
                    case 3: x.l.reset(new xtr::logger(std::make_unique<xtr::posix_fd_storage>(ufds.empty() ? null_fd : ufds.back(), path), fixed_clock(), cmd)); break;
                    default:
                    {
                        auto st = std::make_shared<mem_state>();
                        x.l.reset(new xtr::logger(std::make_unique<mem_storage>(st, 4096), fixed_clock(), cmd));
                        break;
                    }
                    }
                };
                // std::bad_alloc is not injected if a command path is opened: that function is noexcept
                const bool ok = attempt(true, cp > 1, [&] { make(); });
                if (ok)
                {
                    client c;
                    if (!x.cmd.empty() && c.try_connect(x.cmd) != 0) x.cmd.clear(); // a failure was injected into its creation
                    L.push_back(std::move(x));
                }
                else if (x.fp)
                {
                    if (::fcntl(::fileno(x.fp), F_GETFD) == -1 || guards.count(::fileno(x.fp))) failf("the user's stream was closed");
                    std::fclose(x.fp);
                }
                break;
            }
            case 1: // a back-end of its own
            {
                const std::string path = d + "/st" + std::to_string(src.draw(3));
                const unsigned kind = unsigned(src.draw(5));
                ctx.note("back-end kind %u", kind);
                int fd = -1;
                if (kind != 0)
                {
                    fd = __real_open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
                    if (fd < 0) infra("open");
                    ufds.push_back(fd);
                }
                xtr::storage_interface_ptr p;
                const std::size_t q = std::size_t(src.range(1, 40)), cap = std::size_t(src.range(1, 5000)), bs = std::size_t(src.range(1, 40));
                S.reserve(S.size() + 1);
                if (attempt(false, true, [&] {
                    switch (kind)
                    {
                    case 0: p = xtr::make_fd_storage(path.c_str()); break;
                    case 1: p = xtr::make_fd_storage(fd, path); break;
                    case 2: p = std::make_unique<xtr::posix_fd_storage>(fd, path, cap); break;
                    default: p = std::make_unique<xtr::io_uring_fd_storage>(fd, path, cap, q, bs); o.uring = true; break;
                    }
                })) S.push_back(std::move(p));
                break;
            }
            case 2: // use a back-end
                if (!S.empty())
                {
                    auto& s = *S[src.draw(S.size())];
                    const unsigned k = unsigned(src.range(1, 20));
                    for (unsigned q = 0; q < k; ++q)
                    {
                        auto b = s.allocate_buffer();
                        const std::size_t len = src.size(std::min<std::size_t>(b.size(), 3000));
                        std::memset(b.data(), 'x', len);
                        s.submit_buffer(b.data(), len);
                    }
                    if (src.chance(300)) s.flush();
                    if (src.chance(200)) { s.flush(); s.sync(); }
                    if (src.chance(300))
                    {
                        const bool f = src.chance(300);
                        if (f) countdown[c_open] = 1;
                        s.flush();
                        const int e = s.reopen();
                        if (f && e == 0) failf("reopen succeeded although open failed");
                        disarm();
                        o.reopened = true;
                    }
                    ctx.note("%u buffers", k);
                }
                break;
            case 3: // a sink
                if (!L.empty() && L[i].s.size() < 6)
                {
                    L[i].s.reserve(8);
                    const unsigned kind = unsigned(src.draw(3));
                    const std::size_t nm = src.chance(400) ? std::size_t(src.range(1, 60)) : 0;
                    ctx.note("sink kind %u on logger %zu", kind, i);
                    std::unique_ptr<xtr::sink> s;
                    const bool inj = src.chance(300);
                    if (inj) countdown[src.chance(500) ? c_mmap : c_mremap] = 1;
                    std::size_t pg;
                    { std::scoped_lock l{mon}; pg = pages.size(); }
                    try
                    {
                        if (kind == 0) s.reset(new xtr::sink(L[i].l->get_sink("s" + std::string(nm, 'n'))));
                        else if (kind == 1) { s.reset(new xtr::sink()); L[i].l->register_sink(*s, "r" + std::string(nm, 'n')); }
                        else if (!L[i].s.empty()) s.reset(new xtr::sink(*L[i].s[src.draw(L[i].s.size())]));
                    }
                    catch (const std::exception& e)
                    {
                        disarm();
                        if (!inj) failf("creating a sink failed: %s", e.what());
                        std::size_t pg2;
                        { std::scoped_lock l{mon}; pg2 = pages.size(); }
                        if (pg2 != pg) failf("after failing to create a sink, %zu pages remain mapped", pg2 - pg);
                        ++o.failures;
                    }
                    disarm();
                    if (s) L[i].s.push_back(std::move(s));
                }
                break;
            case 4: // log
                if (!L.empty() && !L[i].s.empty())
                {
                    auto& s = *L[i].s[src.draw(L[i].s.size())];
                    if (!s.is_open()) break;
                    const unsigned k = unsigned(src.range(1, 60));
                    const std::string text = src.printable(src.size(200));
                    for (unsigned q = 0; q < k; ++q)
                    {
                        if (src.chance(500)) XTR_LOG(s, "{} {}", q, text);
                        else XTR_TRY_LOG(s, "{} {}", std::string(text), std::vector<int>{1, 2, 3});
                    }
                    if (src.chance(300)) s.sync();
                    if (src.chance(200)) s.set_name(text);
                }
                break;
            case 5: // close, copy, destroy a sink
                if (!L.empty() && !L[i].s.empty())
                {
                    const std::size_t a = src.draw(L[i].s.size()), b = src.draw(L[i].s.size());
                    switch (src.draw(3))
                    {
                    case 0: L[i].s[a]->close(); break;
                    case 1: *L[i].s[a] = *L[i].s[b]; break;
                    default: L[i].s.erase(L[i].s.begin() + long(a)); break;
                    }
                }
                break;
            case 6: // the command path
                if (!L.empty())
                {
                    const bool good = src.chance(700);
                    const std::string p = good ? d + "/cmd" + std::to_string(seq++) : d + "/missing/x";
                    const unsigned f = unsigned(src.draw(5));
                    if (f == 1) countdown[c_socket] = 1;
                    if (f == 2) countdown[c_bind] = 1;
                    if (f == 3) countdown[c_listen] = 1;
                    ctx.note("command path, failure %u", f);
                    L[i].l->set_command_path(p);
                    disarm();
                    struct stat sb;
                    if (!L[i].cmd.empty() && L[i].cmd[0] != '\0' && ::lstat(L[i].cmd.c_str(), &sb) == 0) failf("the socket %s remains after it was replaced", L[i].cmd.c_str());
                    const bool is = good && (f == 0 || f == 4);
                    if (!is && ::lstat(p.c_str(), &sb) == 0) failf("the socket %s remains although creating it failed", p.c_str());
                    L[i].cmd = is ? p : "";
                }
                break;
            case 7: // commands
                if (!L.empty() && !L[i].cmd.empty())
                {
                    o.client = true;
                    client c;
                    const unsigned k = unsigned(src.draw(7));
                    ctx.note("client %u", k);
                    if (k == 5) countdown[c_accept] = 1;
                    c.connect(L[i].cmd);
                    if (k == 0 || k == 1 || k == 2)
                    {
                        xd::frame<xd::status> f;
                        f->pattern = make_pattern(k == 0 ? xd::pattern_type_t::extended_regex : k == 1 ? xd::pattern_type_t::basic_regex : xd::pattern_type_t::wildcard, src.chance(500), src.pick<std::string>({"", "a*", "(s|r)", "(", "[", "[a-z]+\\(x\\)"}));
                        c.send(f);
                        if (src.chance(700)) c.replies();
                    }
                    else if (k == 3)
                    {
                        xd::frame<xd::reopen> f;
                        const bool fail = src.chance(300);
                        if (fail) countdown[c_open] = 1;
                        c.send(f);
                        c.replies();
                        disarm();
                        o.reopened = true;
                    }
                    else if (k == 4) { c.send_raw("rubbish", 7); }
                    else if (k == 5)
                    {
                        // wait until the failure has happened
                        if (!eventually([&] { return countdown[c_accept] == 0; })) failf("the connection was not accepted");
                    }
                    if (k == 6 && C.size() < 10) C.push_back(std::move(c)); // stays
                    disarm();
                }
                break;
            case 8:
                if (!S.empty()) { S.erase(S.begin() + long(src.draw(S.size()))); ctx.note("destroy back-end"); }
                break;
            case 9:
                if (!L.empty()) { ctx.note("destroy logger %zu", i); destroy_logger(i); }
                break;
            default:
                if (!C.empty()) C.erase(C.begin() + long(src.draw(C.size())));
                break;
            }
        }
        while (!L.empty()) destroy_logger(L.size() - 1);
        S.clear();
        C.clear();
        for (int f : ufds)
        {
            if (::fcntl(f, F_GETFD) == -1 || guards.count(f)) failf("the user's descriptor %d was closed", f);
            __real_close(f);
        }
    }

    void history_case(Src& src, Ctx& ctx)
    {
        const std::string d = ctx.dir() + "/c";
        std::filesystem::remove_all(d);
        std::filesystem::create_directories(d);
        const std::set<int> before = live_fds();
        const std::size_t t = tasks();
        outcome o;
        const long b = blocks;
        {
            quiet_stderr q;
            history(src, ctx, d, o);
        }
        { const auto now = live_fds(); if (now != before) failf("descriptors are still open:%s", extra(before, now).c_str()); }
        if (!pages.empty()) failf("%zu pages are still mapped", pages.size());
        if (rings != 0) failf("%ld io_urings were not released", rings.load());
        if (regexes != 0) failf("%ld compiled expressions were not freed", regexes.load());
        if (!eventually([&] { return tasks() <= t; })) failf("%zu threads remain, there were %zu", tasks(), t);
        end_guards();
        const long lost = blocks - b;
        if (lost > 0) failf("%ld blocks of memory were not freed", lost);
        for (auto& e : std::filesystem::directory_iterator(d))
            if (e.is_socket()) failf("the socket %s remains", e.path().c_str());
        std::filesystem::remove_all(d);
        ctx.nontrivial(o.failures > 0 || taken >= 5);
        if (o.failures) ctx.label("failure_injected");
        if (o.uring) ctx.label("io_uring");
        if (o.client) ctx.label("clients");
        if (o.reopened) ctx.label("reopened");
        for (int c = 0; c < n_calls; ++c) if (injected[c]) ctx.label(call_name[c]);
    }
}

void vp_worker_init()
{
    null_fd = ::fcntl(__real_open("/dev/null", O_RDWR | O_CLOEXEC), F_DUPFD_CLOEXEC, 200);
    // one-time allocations of the libraries
    fmt::format("{} {}", 1.5, xtr::timespec{});
    {
        xtr::logger log(std::make_unique<mem_storage>(std::make_shared<mem_state>(), 4096), fixed_clock(), xtr::null_command_path);
        auto s = log.get_sink("x");
        XTR_LOG(s, "{} {}", 1, "two");
        XTR_LOG_TSC(s, "{}", 1);
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    disarm();
    for (auto& i : injected) i = 0;
    taken = 0;
    // As in a daemon, standard input may be closed, so that zero is a descriptor like any other
    int saved = -1;
    if (src.chance(150))
    {
        saved = ::fcntl(0, F_DUPFD_CLOEXEC, 150);
        if (saved < 0) infra("F_DUPFD");
        __real_close(0);
        ctx.note("standard input is closed");
        ctx.label("stdin_closed");
    }
    active = true;
    if (src.weighted({3, 1}) == 0) history_case(src, ctx);
    else wrapper_case(src, ctx);
    active = false;
    if (saved >= 0)
    {
        ::dup2(saved, 0);
        __real_close(saved);
    }
}
