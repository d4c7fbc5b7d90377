// C11: file back-ends write exactly the submitted bytes despite partial I/O.
#include "uring.hpp"

using namespace vp;

vp::Info vp_info{
    "C11",
    "a case is a file (existing contents, opened for append or at a position, or new), a back-end (posix_fd_storage, io_uring_fd_storage with generated buffer capacity, queue and batch size, or make_fd_storage from a path, "
    "descriptor or FILE, with io_uring setup failing or not) and a history of buffers of generated fill, flushes and syncs, under injected faults: short, interrupted and failed write(2); for io_uring failing submissions, short, EAGAIN "
    "and failed writes, exhausted submission queue, interrupted waits, reordered completions and writes done as late as their completion on a real ring. The file must equal the reference file (the concatenation at its place; regions of failed writes exempt), "
    "also at each sync; no buffer may be handed out while in use; a wait with nothing in progress or a hang is a violation. Non-trivial: at least 3 buffers, and a fault or a buffer reused.",
    30, 5};

void vp_worker_init() {}

// ---------------------------------------------------------------- write(2)
namespace
{
    struct
    {
        bool active = false;
        unsigned shorten = 0, eintr = 0, hard = 0;
        int error = 0;         // of the last submission
        std::size_t done = 0;  // bytes of the last submission that were written
        std::uint64_t rng = 1;
        unsigned consecutive = 0;
        std::uint64_t n = 0;
        std::uint64_t next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
        bool roll(unsigned p) { return p && next() % 1000 < p; }
    } wf;
    bool g_fail_queue_init = false;
    bool g_fail_register = false;
}

extern "C"
{
    ssize_t __real_write(int, const void*, size_t);
    ssize_t __wrap_write(int fd, const void* p, size_t n)
    {
        if (wf.active)
        {
            if (wf.consecutive < 4 && wf.roll(wf.eintr)) { ++wf.consecutive; ++wf.n; errno = EINTR; return -1; }
            wf.consecutive = 0;
            if (wf.roll(wf.hard))
            {
                ++wf.n;
                static const int e[] = {EIO, ENOSPC, EDQUOT, EFBIG, EPIPE};
                errno = wf.error = e[wf.next() % 5];
                return -1;
            }
            if (n > 1 && wf.roll(wf.shorten)) { ++wf.n; n = 1 + wf.next() % (n - 1); }
            const ssize_t r = __real_write(fd, p, n);
            if (r > 0) wf.done += std::size_t(r);
            return r;
        }
        return __real_write(fd, p, n);
    }
    int __real_io_uring_queue_init(unsigned, io_uring*, unsigned);
    int __wrap_io_uring_queue_init(unsigned n, io_uring* r, unsigned f)
    {
        if (g_fail_queue_init) return -ENOMEM;
        return __real_io_uring_queue_init(n, r, f);
    }
    int __real_io_uring_register_buffers(io_uring*, const iovec*, unsigned);
    int __wrap_io_uring_register_buffers(io_uring* r, const iovec* v, unsigned n)
    {
        if (g_fail_register) return -ENOMEM;
        return __real_io_uring_register_buffers(r, v, n);
    }
}

namespace
{
    char byte_at(std::uint64_t off) { std::uint64_t x = (off + 1) * 0x9E3779B97F4A7C15ull; return char('!' + (x >> 33) % 90); }
}

void vp_case(Src& src, Ctx& ctx)
{
    enum { posix, uring, factory } kind = decltype(posix)(src.weighted({30, 67, 3}));
    const std::string path = ctx.dir() + "/log";
    const std::string errpath = ctx.dir() + "/err";

    // ---- the file
    const std::size_t initial = src.chance(500) ? src.size(3000) : 0;
    std::string model(initial, 'i');
    { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << model; }
    const bool append = kind == factory ? src.chance(500) : src.chance(400);
    std::size_t pos = append ? initial : (src.chance(600) ? initial : src.draw(initial + 1));
    int fd = ::open(path.c_str(), O_WRONLY | (append ? O_APPEND : 0));
    if (fd < 0) infra("open failed");
    if (!append) { if (::lseek(fd, off_t(pos), SEEK_SET) < 0) infra("lseek"); }

    // ---- the back-end
    uf.reset(src.draw(1u << 30));
    wf = {};
    wf.rng = src.draw(1u << 30) | 1;
    const std::size_t cap = src.chance(100) ? src.pick<std::size_t>({1, 2, 4096, 65536}) : 1 + src.size(2000);
    const std::size_t queue = std::size_t(1 + src.size(31));
    const std::size_t batch = src.chance(100) ? 1000 : src.draw(queue + 4);
    g_fail_queue_init = g_fail_register = false;
    xtr::storage_interface_ptr st;
    FILE* fp = nullptr;
    std::string what;
    const int saved = ::fcntl(2, F_DUPFD_CLOEXEC, 100);
    {
        const int e = ::open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        ::dup2(e, 2);
        ::close(e);
    }
    bool path_form = false;
    switch (kind)
    {
    case posix:
        wf.shorten = src.chance(700) ? src.pick<unsigned>({50, 300, 900}) : 0;
        wf.eintr = src.chance(500) ? src.pick<unsigned>({50, 300}) : 0;
        wf.hard = src.chance(300) ? src.pick<unsigned>({20, 200}) : 0;
        st = std::make_unique<xtr::posix_fd_storage>(fd, xtr::null_reopen_path, cap);
        what = fmt::format("posix capacity {} short {} eintr {} hard {}", cap, wf.shorten, wf.eintr, wf.hard);
        break;
    case uring:
        {
            auto rate = [&](unsigned pm) { return src.chance(pm) ? src.pick<unsigned>({30, 200, 600}) : 0u; };
            uf.submit_fails = rate(300);
            uf.shorten = rate(400);
            uf.eagain = rate(300);
            uf.hard_error = src.chance(120) && !append ? 60 : 0;
            uf.sqe_null = rate(300);
            uf.wait_eintr = rate(200);
            uf.reorder = rate(400);
            // Writes to a file opened for append must be done in order
            uf.deferred = (!append || !uf.reorder) && src.chance(400);
            st = std::make_unique<faulty_uring>(fd, xtr::null_reopen_path, cap, queue, batch);
            what = fmt::format("io_uring capacity {} queue {} batch {} submit_fails {} shorten {} eagain {} hard {} null {} eintr {} reorder {} deferred {}", cap, queue, batch, uf.submit_fails, uf.shorten,
                uf.eagain, uf.hard_error, uf.sqe_null, uf.wait_eintr, uf.reorder, uf.deferred);
        }
        break;
    case factory:
        g_fail_queue_init = src.chance(300);
        g_fail_register = !g_fail_queue_init && src.chance(300);
        wf.shorten = 200;
        switch (src.draw(3))
        {
        case 0: st = xtr::make_fd_storage(fd); what = "make_fd_storage(fd)"; break;
        case 1:
            fp = ::fdopen(::dup(fd), append ? "a" : "w");
            st = xtr::make_fd_storage(fp);
            what = "make_fd_storage(FILE*)";
            break;
        case 2:
            // Opens for append
            st = xtr::make_fd_storage(path.c_str());
            path_form = true;
            pos = initial;
            what = "make_fd_storage(path)";
            break;
        }
        if (g_fail_queue_init || g_fail_register) what += " falling back";
        break;
    }
    // The caller may close its descriptor at once
    if (src.chance(500)) { ::close(fd); fd = -1; }
    if (fp && src.chance(500)) { ::fclose(fp); fp = nullptr; }
    ctx.note("%s; %zu existing bytes, %s at %zu", what.c_str(), initial, append || path_form ? "append" : "write", pos);

    // ---- the history
    std::size_t at = append || path_form ? model.size() : pos;
    const bool appending = append || path_form;
    std::size_t nbuf = 0, total = 0;
    auto put = [&](const char* p, std::size_t n) {
        if (appending) model.append(p, n);
        else
        {
            if (model.size() < at + n) model.resize(at + n);
            std::memcpy(model.data() + at, p, n);
        }
        at += n;
    };
    auto compare = [&](const char* when) {
        std::string got = read_file(path);
        std::string want = model;
        // Regions of failed writes are exempt
        if (!uf.failed.empty())
        {
            if (got.size() < want.size()) got.resize(want.size(), '?');
            for (auto& [o, n] : uf.failed)
                for (std::uint64_t k = o; k < o + n && k < want.size(); ++k) got[k] = want[k] = '?';
        }
        if (got == want) return;
        if (appending && uf.overlapping_fault && queue > 1)
        {
            // Known finding: data that must be resubmitted to a file opened for
            // append comes after the writes that were in progress. Nothing may
            // be missing or repeated.
            std::string a = got, b = want;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a == b) { ctx.label("known_append_reorder"); return; }
        }
        std::size_t d = 0;
        while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
        failf("%s the file has %zu bytes, expected %zu, first difference at %zu: got %s, expected %s", when, got.size(), want.size(), d, quote(got.substr(d, 60)).c_str(), quote(want.substr(d, 60)).c_str());
    };
    std::set<char*> seen;
    bool reused = false;
    const std::size_t lim = kind == factory ? 40 : 250;
    while (src.more(nbuf, kind == factory ? 8 : 40, lim))
    {
        ++nbuf;
        const auto s = st->allocate_buffer();
        if (s.empty() || (kind != factory && s.size() != cap)) failf("a buffer of %zu bytes was handed out, the capacity is %zu", s.size(), cap);
        if (kind == uring) uf_check_free(s);
        if (!seen.insert(s.data()).second) reused = true;
        std::memset(s.data(), '#', s.size());
        const std::size_t n = src.chance(500) ? s.size() : 1 + src.draw(s.size());
        for (std::size_t k = 0; k < n; ++k) s[k] = byte_at(total + k);
        total += n;
        ctx.note("submit %zu", n);
        wf.active = true;
        wf.error = 0;
        wf.done = 0;
        uf.may_null = true;
        if (wf.hard)
        {
            // A failed write is reported, and what was not written by then is not written
            int reported = 0;
            try { st->submit_buffer(s.data(), n); }
            catch (const std::system_error& e) { reported = e.code().value(); }
            if (reported != wf.error) failf("a write failed with error %d, submit_buffer reported %d", wf.error, reported);
            if (wf.error) ctx.label("posix_error");
            put(s.data(), wf.error ? wf.done : n);
        }
        else
        {
            put(s.data(), n);
            st->submit_buffer(s.data(), n);
        }
        uf.may_null = false;
        if (src.chance(100))
        {
            ctx.note("flush");
            st->flush();
            // What has been flushed arrives without any further call, unless something has to be repeated
            if (kind != uring || !(uf.submit_fails || uf.shorten || uf.eagain || uf.hard_error || uf.deferred))
            {
                if (!eventually([&] { return read_file(path) == model; }, 10)) compare("10 s after a flush");
                ctx.label("flushed");
            }
        }
        if (src.chance(60))
        {
            ctx.note("flush, sync");
            st->flush();
            st->sync();
            wf.active = false;
            compare("after sync");
        }
        wf.active = false;
    }
    if (src.chance(700)) st->flush();
    st.reset();
    std::fflush(stderr);
    ::dup2(saved, 2);
    ::close(saved);
    if (fd >= 0) ::close(fd);
    if (fp) ::fclose(fp);
    compare("after the back-end was destroyed");
    const std::uint64_t faults = wf.n + uf.n_submit_fail + uf.n_short + uf.n_eagain + uf.n_hard + uf.n_null + uf.n_eintr + uf.n_reorder;
    ctx.nontrivial(nbuf >= 3 && (faults || reused));
    ctx.label(kind == posix ? "posix" : kind == uring ? "io_uring" : "factory");
    if (uf.n_short) ctx.label("uring_short");
    if (uf.n_eagain) ctx.label("uring_eagain");
    if (uf.n_reorder) ctx.label("uring_reorder");
    if (uf.n_null) ctx.label("uring_sqe_null");
    if (uf.n_deferred) ctx.label("uring_deferred");
    if (uf.n_submit_fail) ctx.label("uring_submit_fail");
    if (!appending && pos > 0) ctx.label("at_position");
}
