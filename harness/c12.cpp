// C12: reopening (rotation) loses, duplicates and reorders nothing.
#include "cmd.hpp"
#include "uring.hpp"

using namespace vp;

vp::Info vp_info{
    "C12",
    "a case is a log file written through posix_fd_storage, io_uring_fd_storage (generated capacity, queue and batch size, injected reordered completions, exhausted queue, failed submissions, short and EAGAIN writes, interrupted waits) or "
    "make_fd_storage (io_uring setup failing or not), either directly (buffers) or through a logger with 1-3 logging threads and the reopen command, with a generated history of rotations: rename, removal, nothing, another "
    "file put in place, reopen made to fail (directory gone, path is a directory, no reopen path). The contents of every file the log went through must be exactly those of the reference, and the reply must say whether the reopen "
    "succeeded. Non-trivial: at least one rotation with data written before and after it.",
    30, 5};

void vp_worker_init() {}

namespace { bool g_fail_queue_init = false; bool g_eintr_open = false; unsigned g_eintr_n = 0; }

extern "C"
{
    int __real_io_uring_queue_init(unsigned, io_uring*, unsigned);
    int __wrap_io_uring_queue_init(unsigned n, io_uring* r, unsigned f)
    {
        if (g_fail_queue_init) return -ENOMEM;
        return __real_io_uring_queue_init(n, r, f);
    }
}

namespace
{
    // One file the log went through; held open so that its contents can be read
    // whatever happens to its name
    struct file
    {
        int fd;
        ino_t ino;
        std::string want;         // direct mode
        std::string got()
        {
            std::string r;
            char b[8192];
            ssize_t n;
            off_t o = 0;
            while ((n = ::pread(fd, b, sizeof b, o)) > 0) { r.append(b, std::size_t(n)); o += n; }
            return r;
        }
    };

    mode_t g_umask = 022;

    struct rotation
    {
        std::string dir, path;
        std::vector<file> files;
        unsigned serial = 0;

        ~rotation() { for (auto& f : files) ::close(f.fd); }
        void init(const std::string& d, std::string initial)
        {
            dir = d;
            std::filesystem::remove_all(dir);
            std::filesystem::remove_all(dir + ".gone");
            std::filesystem::create_directory(dir);
            path = dir + "/log";
            { std::ofstream f(path, std::ios::binary); f << initial; }
            adopt(std::move(initial));
        }
        // The log now goes to the file at the path
        void adopt(std::string initial)
        {
            const int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
            if (fd < 0) failf("the log file was not created at its path");
            struct stat st;
            ::fstat(fd, &st);
            // Whoever created it, the file has the permissions of an ordinary file
            if ((st.st_mode & 0777) != (0666 & ~g_umask)) failf("the log file has mode %o with umask %o", unsigned(st.st_mode & 0777), unsigned(g_umask));
            for (auto& f : files)
                if (f.ino == st.st_ino)
                {
                    if (&f != &files.back()) failf("an old file is back");
                    ::close(fd);
                    return;
                }
            files.push_back({fd, st.st_ino, std::move(initial)});
        }
    };

    const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

    enum how { renamed, removed, nothing, replaced, dir_gone, is_dir };

    // Prepares the rotation; returns the contents already at the path and
    // whether the reopen has to succeed
    bool prepare(rotation& r, how h, std::string& existing)
    {
        existing.clear();
        std::error_code ec; // without a reopen path there may be no file at the path
        const std::string away = fmt::format("{}.{}", r.path, r.serial++);
        switch (h)
        {
        case renamed: std::filesystem::rename(r.path, away, ec); return true;
        case removed: std::filesystem::remove(r.path, ec); return true;
        case nothing: return true;
        case replaced:
            std::filesystem::rename(r.path, away, ec);
            existing = fmt::format("existing {}\n", r.serial);
            { std::ofstream f(r.path); f << existing; }
            return true;
        case dir_gone: std::filesystem::rename(r.dir, r.dir + ".gone"); return false;
        case is_dir:
            std::filesystem::rename(r.path, away, ec);
            std::filesystem::create_directory(r.path);
            return false;
        }
        return true;
    }
    void undo(rotation& r, how h)
    {
        std::error_code ec;
        if (h == dir_gone) std::filesystem::rename(r.dir + ".gone", r.dir);
        if (h == is_dir)
        {
            std::filesystem::remove(r.path);
            std::filesystem::rename(fmt::format("{}.{}", r.path, r.serial - 1), r.path, ec);
        }
    }

    bool g_loose = false; // order within files opened for append is not checked (known finding)

    void check_file(file& f, std::size_t i, const char* when)
    {
        const std::string got = f.got();
        if (got == f.want) return;
        if (g_loose)
        {
            std::string a = got, b = f.want;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a == b) return;
        }
        std::size_t d = 0;
        while (d < got.size() && d < f.want.size() && got[d] == f.want[d]) ++d;
        failf("%s file %zu has %zu bytes, expected %zu, first difference at %zu: got %s, expected %s", when, i, got.size(), f.want.size(), d, quote(got.substr(d, 60)).c_str(),
            quote(f.want.substr(d, 60)).c_str());
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    g_umask = src.pick<mode_t>({022, 0, 027, 077, 002});
    ::umask(g_umask);
    rotation rot;
    rot.init(ctx.dir() + "/d", src.chance(300) ? std::string(src.size(500), 'i') + "\n" : "");
    const std::size_t initial = rot.files[0].want.size();
    const std::string errpath = ctx.dir() + "/err";

    const bool direct = src.chance(600);
    const unsigned kind = unsigned(src.weighted({35, 60, 5})); // posix, io_uring, factory
    const bool have_path = !src.chance(80);
    const bool append = src.chance(500);
    const std::size_t cap = src.chance(100) ? src.pick<std::size_t>({1, 4096, 65536}) : 1 + src.size(1000);
    const std::size_t queue = 1 + src.size(31), batch = 1 + src.draw(queue + 2);
    uf.reset(src.draw(1u << 30));
    g_fail_queue_init = false;
    int fd = ::open(rot.path.c_str(), O_WRONLY | O_CLOEXEC | (append ? O_APPEND : 0));
    if (fd < 0) infra("open");
    if (!append) ::lseek(fd, 0, SEEK_END);
    const int saved = ::fcntl(2, F_DUPFD_CLOEXEC, 100);
    { const int e = ::open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600); ::dup2(e, 2); ::close(e); }
    const std::string reopen_path = have_path ? rot.path : std::string(xtr::null_reopen_path);
    xtr::storage_interface_ptr st;
    bool path_form = false;
    if (kind == 0) st = std::make_unique<xtr::posix_fd_storage>(fd, reopen_path, cap);
    else if (kind == 1)
    {
        auto rate = [&](unsigned pm) { return src.chance(pm) ? src.pick<unsigned>({30, 200, 600}) : 0u; };
        uf.submit_fails = direct ? rate(200) : 0;
        uf.sqe_null = direct ? rate(300) : 0;
        uf.wait_eintr = rate(200);
        uf.reorder = rate(400);
        uf.shorten = direct ? rate(250) : 0;
        uf.eagain = direct ? rate(250) : 0;
        uf.deferred = !uf.reorder && src.chance(400); // reordering would reorder appended data
        st = std::make_unique<faulty_uring>(fd, reopen_path, cap, queue, batch);
    }
    else
    {
        g_fail_queue_init = src.chance(500);
        if (src.chance(500)) { st = xtr::make_fd_storage(rot.path.c_str()); path_form = true; }
        else st = xtr::make_fd_storage(fd, reopen_path);
        g_fail_queue_init = false;
    }
    const bool can = have_path || path_form;
    ::close(fd);
    ctx.note("%s, %s, capacity %zu queue %zu batch %zu, %s, %s", direct ? "direct" : "logger", kind == 0 ? "posix" : kind == 1 ? "io_uring" : "factory", cap, queue, batch, append ? "append" : "write", can ? "reopen path" : "no reopen path");

    unsigned nrot = 0, nfail = 0;
    bool before = false, after = false;
    // Data that has to be resubmitted to a file opened for append comes after
    // the writes which were in progress (see C11)
    auto loose = [&](std::size_t i) { g_loose = uf.overlapping_fault && queue > 1 && (i > 0 || append || nrot > 0); };
    auto gen_how = [&] { return how(src.weighted({10, 4, 3, 3, 2, 2})); };

    if (direct)
    {
        std::size_t n = 0, total = 0;
        while (src.more(n, 40, 200))
        {
            ++n;
            if (src.chance(150))
            {
                const how h = gen_how();
                std::string existing;
                const bool ok = prepare(rot, h, existing) && can;
                ctx.note("rotate: %d, expected to %s", int(h), ok ? "succeed" : "fail");
                const int e = st->reopen();
                if ((e == 0) != ok) failf("reopen returned %d (%s)", e, std::strerror(e));
                if (e < 0) failf("reopen returned a negative error number %d", e);
                if (ok)
                {
                    rot.adopt(existing);
                    ++nrot;
                    if (total) before = true;
                }
                else { undo(rot, h); ++nfail; }
            }
            const auto s = st->allocate_buffer();
            if (kind == 1) uf_check_free(s);
            std::memset(s.data(), '#', s.size());
            const std::size_t k = src.chance(500) ? s.size() : 1 + src.draw(s.size());
            const std::size_t m = std::min<std::size_t>(k, 3000);
            for (std::size_t i = 0; i < m; ++i) s[i] = letters[(total + i + (total + i) / 61) % 62];
            total += m;
            rot.files.back().want.append(s.data(), m);
            if (before) after = true;
            uf.may_null = true;
            st->submit_buffer(s.data(), m);
            uf.may_null = false;
            ctx.note("submit %zu", m);
            if (src.chance(100)) st->flush();
            if (src.chance(60))
            {
                st->flush();
                st->sync();
                for (std::size_t i = 0; i < rot.files.size(); ++i) loose(i), check_file(rot.files[i], i, "after sync");
            }
        }
        st->flush();
        st.reset();
        for (std::size_t i = 0; i < rot.files.size(); ++i) loose(i), check_file(rot.files[i], i, "at the end");
    }
    else
    {
        const std::string sock = ctx.dir() + "/sock";
        ::unlink(sock.c_str());
        const unsigned nthreads = unsigned(src.range(1, 3));
        struct thr { std::vector<unsigned> len; std::atomic<unsigned> synced{0}; unsigned every; };
        std::vector<std::unique_ptr<thr>> t;
        for (unsigned i = 0; i < nthreads; ++i)
        {
            t.emplace_back(new thr);
            const unsigned c = unsigned(src.range(5, 120));
            for (unsigned k = 0; k < c; ++k) t.back()->len.push_back(unsigned(src.chance(50) ? src.size(800) : src.draw(50)));
            t.back()->every = unsigned(src.range(1, 20));
        }
        struct ev { how h; unsigned jit; };
        std::vector<ev> evs;
        while (src.more(evs.size(), 4, 12)) evs.push_back({gen_how(), unsigned(src.draw(400))});
        // For messages of the main sink: the file they must be in
        std::vector<std::size_t> main_file;
        auto text = [](unsigned s, unsigned i, unsigned len) { return fmt::format("{}.{}.{}", s, i, std::string(len, letters[i % 62])); };
        {
            xtr::logger log(std::move(st), fixed_clock(), sock);
            xtr::sink m = log.get_sink("M");
            std::vector<std::thread> th;
            std::atomic<bool> go{false};
            for (unsigned i = 0; i < nthreads; ++i)
                th.emplace_back([&, i] {
                    auto s = log.get_sink(fmt::format("T{}", i));
                    while (!go) ::sched_yield();
                    for (unsigned k = 0; k < t[i]->len.size(); ++k)
                    {
                        XTR_LOG(s, "{}", text(i, k, t[i]->len[k]));
                        if (k % t[i]->every == 0) ::sched_yield();
                    }
                });
            go = true;
            auto log_main = [&] {
                XTR_LOG(m, "{}", text(9, unsigned(main_file.size()), 10));
                main_file.push_back(rot.files.size() - 1);
            };
            for (auto& e : evs)
            {
                for (unsigned k = unsigned(1 + e.jit % 3); k; --k) log_main();
                jitter(e.jit % 40);
                m.sync();
                std::string existing;
                const bool ok = prepare(rot, e.h, existing) && can;
                ctx.note("rotate: %d, expected to %s", int(e.h), ok ? "succeed" : "fail");
                const auto r = request(sock, xd::frame<xd::reopen>());
                if (r.size() != 1) failf("reopen was answered with %zu responses", r.size());
                if ((r[0].kind == rk::success) != ok || r[0].kind == rk::info) failf("reopen was answered with %s", r[0].kind == rk::success ? "success although it cannot succeed" : r[0].reason.c_str());
                if (ok) { rot.adopt(existing); ++nrot; before = true; }
                else { undo(rot, e.h); ++nfail; }
                log_main();
                if (before) after = true;
            }
            for (auto& x : th) x.join();
        }
        std::vector<unsigned> next(10);
        for (std::size_t i = 0; i < rot.files.size(); ++i)
        {
            std::string got = rot.files[i].got();
            const std::string& pre = rot.files[i].want; // what was there before
            if (got.compare(0, pre.size(), pre) != 0) failf("existing contents of file %zu were overwritten", i);
            got.erase(0, pre.size());
            if (!got.empty() && got.back() != '\n') failf("file %zu ends within a line", i);
            for (auto& ln : split_lines(got))
            {
                line l;
                if (!parse_line(ln, l)) failf("malformed line %s in file %zu", quote(ln).c_str(), i);
                const unsigned s = unsigned(l.msg[0] - '0');
                if (s != 9 && s >= nthreads) failf("unexpected line %s", quote(ln).c_str());
                const unsigned k = next[s]++;
                const std::string want = s == 9 ? text(9, k, 10) : k < t[s]->len.size() ? text(s, k, t[s]->len[k]) : "(nothing)";
                if (l.msg != want) failf("file %zu has %s where %s is expected", i, quote(l.msg, 60).c_str(), quote(want, 60).c_str());
                if (s == 9 && main_file[k] != i) failf("message %u of the main sink is in file %zu, expected in file %zu", k, i, main_file[k]);
            }
        }
        if (next[9] != main_file.size()) failf("%u of %zu messages of the main sink are in the files", next[9], main_file.size());
        for (unsigned i = 0; i < nthreads; ++i)
            if (next[i] != t[i]->len.size()) failf("%u of %zu messages of thread %u are in the files", next[i], t[i]->len.size(), i);
    }
    std::fflush(stderr);
    ::dup2(saved, 2);
    ::close(saved);
    (void)initial;
    ctx.nontrivial(nrot > 0 && before && after);
    if (nfail) ctx.label("reopen_fails");
    if (nrot) ctx.label("rotated");
    ctx.label(direct ? "direct" : "logger");
    if (uf.n_reorder) ctx.label("uring_reorder");
    if (uf.n_short || uf.n_eagain) ctx.label("uring_partial");
    if (uf.n_null) ctx.label("uring_sqe_null");
}
