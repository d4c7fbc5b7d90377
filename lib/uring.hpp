// An io_uring back-end whose calls to liburing pass through a fault injector.
// The injector works on the real ring, so the kernel still does the writing.
#pragma once

#include "common.hpp"

#include <xtr/io/fd_storage.hpp>
#include <xtr/io/io_uring_fd_storage.hpp>
#include <xtr/io/posix_fd_storage.hpp>

#include <liburing.h>

namespace vp
{
    struct uring_faults
    {
        // Rates in permille
        unsigned submit_fails = 0, shorten = 0, eagain = 0, hard_error = 0, sqe_null = 0, wait_eintr = 0, reorder = 0;
        std::uint64_t rng = 1;

        // Do the writing when the completion is delivered, the latest time at which the kernel may
        bool deferred = false;

        bool roll(unsigned permille)
        {
            if (!permille) return false;
            return next() % 1000 < permille;
        }
        std::uint64_t next()
        {
            rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
            return rng;
        }

        // State
        std::vector<io_uring_sqe*> prepared;      // handed out, not submitted
        struct op { std::uint64_t user_data, addr; std::uint32_t len; std::uint64_t off; int fake; int dfd; };
        std::vector<op> in_flight;
        std::vector<std::pair<std::uint64_t, std::uint32_t>> failed; // file regions with a hard error
        std::size_t handed = 0, completed = 0;
        unsigned consecutive = 0;
        bool may_null = false;
        std::uint64_t n_submit_fail = 0, n_short = 0, n_eagain = 0, n_hard = 0, n_null = 0, n_eintr = 0, n_reorder = 0, n_deferred = 0;
        bool overlapping_fault = false; // a partial or repeated write

        void reset(std::uint64_t seed) { *this = uring_faults{}; rng = seed | 1; for (int i = 0; i < 8; ++i) next(); }
    };

    inline uring_faults uf;

    inline int uf_submit(io_uring* r)
    {
        if (uf.consecutive < 3 && uf.roll(uf.submit_fails)) { ++uf.consecutive; ++uf.n_submit_fail; return uf.next() % 2 ? -EAGAIN : -EBUSY; }
        uf.consecutive = 0;
        for (auto* e : uf.prepared)
        {
            uring_faults::op o{e->user_data, e->addr, e->len, e->off, 0, -1};
            if (e->opcode == IORING_OP_WRITE_FIXED || e->opcode == IORING_OP_WRITE)
            {
                if (uf.roll(uf.eagain)) { o.fake = -EAGAIN; ++uf.n_eagain; }
                else if (uf.roll(uf.hard_error)) { o.fake = -EIO; ++uf.n_hard; uf.failed.emplace_back(e->off, e->len); }
                else if (e->len > 1 && uf.roll(uf.shorten))
                {
                    e->len = uf.next() % 8 ? 1 + unsigned(uf.next() % (e->len - 1)) : 0; // at times nothing at all is written
                    ++uf.n_short;
                    uf.overlapping_fault = true;
                }
                if (o.fake) uf.overlapping_fault = true;
                else if (uf.deferred)
                {
                    o.len = e->len;
                    o.dfd = ::fcntl(e->fd, F_DUPFD_CLOEXEC, 200); // the kernel takes a reference too
                    if (o.dfd < 0) o.fake = -EBADF;
                    ++uf.n_deferred;
                }
                if (o.fake || o.dfd >= 0)
                {
                    const auto ud = e->user_data;
                    ::io_uring_prep_nop(e);
                    e->user_data = ud;
                }
            }
            else o.addr = o.len = 0;
            uf.in_flight.push_back(o);
        }
        uf.prepared.clear();
        return ::io_uring_submit(r);
    }

    inline io_uring_sqe* uf_get_sqe(io_uring* r)
    {
        // A null result is possible only if something is in progress, and is
        // only given to the first request of a submission
        if (std::exchange(uf.may_null, false) && uf.handed > uf.completed && uf.roll(uf.sqe_null)) { ++uf.n_null; return nullptr; }
        auto* e = ::io_uring_get_sqe(r);
        if (e) { uf.prepared.push_back(e); ++uf.handed; }
        return e;
    }

    inline int uf_wait_cqe(io_uring* r, io_uring_cqe** cqe)
    {
        if (uf.consecutive < 3 && uf.roll(uf.wait_eintr)) { ++uf.consecutive; ++uf.n_eintr; return -EINTR; }
        uf.consecutive = 0;
        if (uf.in_flight.empty()) failf("waiting for a completion although no operation is in progress: the back-end would wait forever");
        const bool re = uf.roll(uf.reorder);
        const unsigned want = re ? unsigned(1 + uf.next() % uf.in_flight.size()) : 1;
        if (re && want > 1)
        {
            if (const int e = ::io_uring_wait_cqe_nr(r, cqe, want)) return e;
            // Exchange the first completion with another one that is ready
            io_uring_cqe* ready[64];
            const unsigned n = ::io_uring_peek_batch_cqe(r, ready, 64);
            if (n > 1)
            {
                const unsigned k = unsigned(uf.next() % n);
                if (k)
                {
                    std::swap(ready[0]->user_data, ready[k]->user_data);
                    std::swap(ready[0]->res, ready[k]->res);
                    std::swap(ready[0]->flags, ready[k]->flags);
                    ++uf.n_reorder;
                }
            }
            *cqe = ready[0];
        }
        else if (const int e = ::io_uring_wait_cqe(r, cqe)) return e;
        for (auto it = uf.in_flight.begin(); it != uf.in_flight.end(); ++it)
            if (it->user_data == (*cqe)->user_data)
            {
                if (it->fake) (*cqe)->res = it->fake;
                else if (it->dfd >= 0)
                {
                    auto* const p = reinterpret_cast<const char*>(it->addr);
                    const ssize_t n = it->off == std::uint64_t(-1) ? ::write(it->dfd, p, it->len) : ::pwrite(it->dfd, p, it->len, off_t(it->off));
                    (*cqe)->res = n < 0 ? -errno : int(n);
                    ::close(it->dfd);
                }
                uf.in_flight.erase(it);
                ++uf.completed;
                return 0;
            }
        failf("a completion for an unknown operation");
    }

    inline int uf_sqring_wait(io_uring* r) { return ::io_uring_sqring_wait(r); }
    inline int uf_peek_cqe(io_uring* r, io_uring_cqe** c) { return ::io_uring_peek_cqe(r, c); }

    struct faulty_uring : xtr::io_uring_fd_storage
    {
        faulty_uring(int fd, std::string reopen, std::size_t cap, std::size_t queue, std::size_t batch)
        : io_uring_fd_storage(fd, std::move(reopen), cap, queue, batch, uf_submit, uf_get_sqe, uf_wait_cqe, uf_sqring_wait, uf_peek_cqe) {}
    };

    // A buffer that has just been handed out must not be in use
    inline void uf_check_free(std::span<char> s)
    {
        const auto b = reinterpret_cast<std::uint64_t>(s.data()), e = b + s.size();
        for (auto& o : uf.in_flight)
            if (o.len && o.addr < e && b < o.addr + o.len) failf("a buffer was handed out while its data is still being written");
        for (auto* q : uf.prepared)
            if ((q->opcode == IORING_OP_WRITE_FIXED || q->opcode == IORING_OP_WRITE) && q->addr < e && b < q->addr + q->len)
                failf("a buffer was handed out while its data has not been submitted");
    }
}
