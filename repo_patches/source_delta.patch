From 71812a973ffb2c99c8d7ddbba7fed91e257587b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:43 +0000
Subject: [PATCH 01/28] fix: floor clock readings before the epoch to whole
 seconds

The adjustment was computed and discarded, so times before 1970 (or any
clock reading whose cast rounds up) were printed with a negative fraction.
---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..a448f2d 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -344,7 +344,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From 12acc842a712b122053e82ebb7105a32242130fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:43 +0000
Subject: [PATCH 02/28] fix: do not skip a user sink in status/level commands
 after logger destruction begins

The control sink was assumed to be at index zero, but when it is closed by
the logger destructor another sink is swapped into its place.
---
 include/xtr/detail/consumer.hpp |  4 +++-
 src/consumer.cpp                | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index e2bda1d..ec6d597 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -66,7 +66,8 @@ public:
     consumer(buffer&& bf, sink* control, std::string command_path)
     :
         buf(std::move(bf)),
-        sinks_({{control, "control", 0}})
+        sinks_({{control, "control", 0}}),
+        control_(control)
     {
         set_command_path(std::move(command_path));
     }
@@ -88,6 +89,7 @@ private:
     void reopen_handler(int fd, detail::reopen&);
 
     std::vector<sink_handle> sinks_;
+    const sink* const control_;
     std::unique_ptr<
         detail::command_dispatcher,
         detail::command_dispatcher_deleter> cmds_;
diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..c24c079 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -193,9 +193,10 @@ void xtr::detail::consumer::status_handler(int fd, detail::status& st)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
+        if (s.p == control_)
+            continue;
 
         if (!(*matcher)(s.name.c_str()))
             continue;
@@ -235,9 +236,10 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
+        if (s.p == control_)
+            continue;
 
         if (!(*matcher)(s.name.c_str()))
             continue;
-- 
2.43.0


From 357ca0fd730fe783223f5e406cb300821273fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 03/28] fix: flush data logged just before a sink is closed

When the records preceding a close were read together with the close,
no flush was scheduled, so if no other sink became active the data was
never passed to the back-end while the logger remained alive.
---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index c24c079..3a1a4da 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -98,6 +98,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            // Anything logged before the sink was closed must still be flushed
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0


From 3c820593e2de8ffa9721562baa40ff5c5ce2cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 04/28] fix: report messages dropped by a sink that is then
 closed

The dropped count was only reported once the queue was seen to be empty,
which never happens if the records are read together with the close, so
the documented dropped message warning was lost.
---
 include/xtr/detail/consumer.hpp |  2 ++
 src/consumer.cpp                | 37 +++++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index ec6d597..15abca2 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -57,6 +57,7 @@ private:
         sink* p;
         std::string name;
         std::size_t dropped_count = 0;
+        std::size_t unreported_dropped_count = 0;
     };
 
 public:
@@ -84,6 +85,7 @@ public:
     bool destroy = false;
 
 private:
+    void report_dropped(sink_handle& s, const char* ts) noexcept;
     void status_handler(int fd, detail::status&);
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 3a1a4da..d068646 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -69,6 +69,11 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
 
         destroy = false;
 
+        // If the sink is being closed then it may not be accessed once its
+        // records have been processed, so obtain the dropped count first. The
+        // count is reported once the queue is empty (or the sink is closed).
+        sinks_[n].unreported_dropped_count += sinks_[n]->buf_.dropped_count();
+
         if (ts_stale)
         {
             fmt::format_to(ts, "{}", xtr::timespec{clock()});
@@ -95,6 +100,7 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
 
         if (destroy)
         {
+            report_dropped(sinks_[n], ts);
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
@@ -106,18 +112,10 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
         sinks_[n]->buf_.reduce_readable(
             sink::ring_buffer::size_type(pos - span.begin()));
 
-        std::size_t n_dropped;
-        if (sinks_[n]->buf_.read_span().empty() &&
-            (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
+        if (sinks_[n]->buf_.read_span().empty())
         {
-            detail::print(
-                buf,
-                "{}{} {}: {} messages dropped\n",
-                log_level_t::warning,
-                ts,
-                sinks_[n].name,
-                n_dropped);
-            sinks_[n].dropped_count += n_dropped;
+            sinks_[n].unreported_dropped_count += sinks_[n]->buf_.dropped_count();
+            report_dropped(sinks_[n], ts);
         }
 
         // flushing may be late/early if sinks is modified, doesn't matter
@@ -125,6 +123,23 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
     }
 }
 
+XTR_FUNC
+void xtr::detail::consumer::report_dropped(sink_handle& s, const char* ts) noexcept
+{
+    if (s.unreported_dropped_count == 0)
+        return;
+
+    detail::print(
+        buf,
+        "{}{} {}: {} messages dropped\n",
+        log_level_t::warning,
+        ts,
+        s.name,
+        s.unreported_dropped_count);
+    s.dropped_count += s.unreported_dropped_count;
+    s.unreported_dropped_count = 0;
+}
+
 XTR_FUNC
 void xtr::detail::consumer::add_sink(sink& s, const std::string& name)
 {
-- 
2.43.0


From 1a5c4347e627cb24a46f986c122fd1378ba89de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 05/28] fix: reject negative levels in the set level command

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index d068646..22a0efb 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -235,7 +235,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From b63f0e71b2ef0a6dcc3df1b01014292c8f262fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 06/28] fix: do not read past the end of the poll set after a
 disconnect

If the last entry was erased then pollfds_[i] no longer exists.
---
 src/command_dispatcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_dispatcher.cpp b/src/command_dispatcher.cpp
index 2566293..c7db65b 100644
--- a/src/command_dispatcher.cpp
+++ b/src/command_dispatcher.cpp
@@ -168,7 +168,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
             process_socket_read(pollfds_[i]);
             --nfds;
         }
-        if (fd != pollfds_[i].fd.get())
+        if (i == pollfds_.size() || fd != pollfds_[i].fd.get())
             --i; // Adjust for erased item
     }
 }
-- 
2.43.0


From 1c1a506f762c8ea6624944eb7e7f481c2f2335e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 07/28] fix: accept any value for the ignore case flag received
 in a command

The flag is copied from the socket, reading a bool holding a value other
than zero or one is undefined behaviour.
---
 include/xtr/detail/commands/pattern.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/commands/pattern.hpp b/include/xtr/detail/commands/pattern.hpp
index cde5971..02667e4 100644
--- a/include/xtr/detail/commands/pattern.hpp
+++ b/include/xtr/detail/commands/pattern.hpp
@@ -28,7 +28,7 @@ namespace xtr::detail
     struct pattern
     {
         pattern_type_t type;
-        bool ignore_case;
+        unsigned char ignore_case; // not bool as any value may be received
         char text[256];
     };
 }
-- 
2.43.0


From b874aa0142cddbb07dc758a7821d5e711b2dafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 08/28] fix: make set_command_path, set_log_level_style and
 set_default_log_level thread-safe

The control sink was written to by sync() without holding its mutex, and
the default log level was a plain variable shared between threads, but
all logger functions are documented to be thread-safe.
---
 include/xtr/logger.hpp | 3 ++-
 src/logger.cpp         | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index a448f2d..10d49df 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -354,7 +355,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_ = log_level_t::info;
 
     friend sink;
 };
diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..b68092d 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -43,7 +43,8 @@ void xtr::logger::register_sink(sink& s, std::string name) noexcept
 XTR_FUNC
 void xtr::logger::set_command_path(std::string path) noexcept
 {
-    post(
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [s = std::move(path)](detail::consumer& c, auto&) mutable
         {
             c.set_command_path(std::move(s));
@@ -54,7 +55,8 @@ void xtr::logger::set_command_path(std::string path) noexcept
 XTR_FUNC
 void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 {
-    post(
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [=](detail::consumer& c, auto&)
         {
             c.buf.lstyle = level_style;
-- 
2.43.0


From 5af1cdf3135d4e4e3c7dfa7854045503675f3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 09/28] fix: accept the documented level 'none' in xtrctl

---
 src/xtrctl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 0149c2b..699c532 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -56,7 +56,7 @@ namespace
             "\n"
             "  status [pattern]             Displays sink statuses\n"
             "  level <level> [pattern]      Sets sink log levels. Valid levels are;\n"
-            "                               fatal, error, warning, info, debug\n"
+            "                               none, fatal, error, warning, info, debug\n"
             "  reopen                       Reopens the log file\n"
             "\n"
             "The pattern accepted by the status and level commands is by default a\n"
@@ -115,9 +115,11 @@ int main(int argc, char* argv[])
     xtr::log_level_t log_level = xtr::log_level_t::none;
     xtrd::pattern_type_t pattern_type = xtrd::pattern_type_t::none;
     bool status = false;
+    bool set_level = false;
     bool reopen = false;
 
     std::map<std::string, xtr::log_level_t> levels_map{
+        {"none", xtr::log_level_t::none},
         {"fatal", xtr::log_level_t::fatal},
         {"error", xtr::log_level_t::error},
         {"warning", xtr::log_level_t::warning},
@@ -146,6 +148,7 @@ int main(int argc, char* argv[])
         if (levels_map.count(argv[2]) == 0)
             usage(argv[0], EXIT_FAILURE, "Invalid log level");
         log_level = levels_map[argv[2]];
+        set_level = true;
         ++optind;
     }
     else if (argv[1] == "--help"sv)
@@ -219,7 +222,7 @@ int main(int argc, char* argv[])
         if (nwritten != sizeof(st))
             err("Error writing to socket");
     }
-    else if (log_level != xtr::log_level_t::none)
+    else if (set_level)
     {
         xtrd::frame<xtrd::set_level> sl;
         sl->level = log_level;
-- 
2.43.0


From e6f5130430e1645aaea5011cb161457ae3745c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 10/28] fix: clear stale user data from the io_uring close
 operation queued by reopen

Once the submission queue has wrapped the SQE holds a pointer to a buffer,
so completion of the close was treated as a short write of that buffer.
---
 src/io_uring_fd_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..2141526 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -170,6 +170,9 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // ensure that all previous writes complete before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // The SQE may have been used before, in which case it still contains a
+    // pointer to a buffer. A null pointer identifies the close operation.
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From bee66db91ab506e3fb0de79652b3226835ccd4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 11/28] fix: retain the reopen path when falling back to
 posix_fd_storage

---
 src/fd_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..9669f61 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -69,7 +69,8 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            // reopen_path is not moved as it is needed below if this fails
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 4010acaacc59a3ab63b61c7e016dbc2f0e44f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 12/28] fix: do not leak the file descriptor opened by
 make_fd_storage

---
 src/fd_storage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index 9669f61..95ab55f 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -39,17 +40,18 @@
 XTR_FUNC
 xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
 {
-    const int fd =
+    // make_fd_storage duplicates the descriptor, so it must be closed here
+    const detail::file_descriptor fd(
         XTR_TEMP_FAILURE_RETRY(
             ::open(
                 path,
                 O_CREAT|O_APPEND|O_WRONLY,
-                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));
+                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH)));
 
-    if (fd == -1)
+    if (!fd)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    return make_fd_storage(fd.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 44340590f4e5a57196c8158534bffabe979d6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 13/28] fix: begin io_uring writes at the current position of
 the file

Writes began at offset zero, overwriting existing contents unless the file
was opened with O_APPEND (posix_fd_storage begins at the current position).
---
 src/io_uring_fd_storage.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 2141526..d40c38d 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -31,6 +31,8 @@
 #include <cstring>
 #include <limits>
 
+#include <unistd.h>
+
 XTR_FUNC
 xtr::io_uring_fd_storage::io_uring_fd_storage(
     int fd,
@@ -53,6 +55,12 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
     io_uring_sqring_wait_func_(io_uring_sqring_wait_func),
     io_uring_peek_cqe_func_(io_uring_peek_cqe_func)
 {
+    // Writes are made at explicit offsets, which must begin at the current file
+    // position, as write(2) would do. If this fails then the file is not
+    // seekable, so offsets are ignored.
+    if (const ::off_t offset = ::lseek(fd_.get(), 0, SEEK_CUR); offset > 0)
+        offset_ = std::size_t(offset);
+
     if (buffer_capacity > std::numeric_limits<decltype(io_uring_cqe::res)>::max())
         detail::throw_invalid_argument("buffer_capacity too large");
 
-- 
2.43.0


From 464ab8e3b37d3a3d3d44e9b633805f32d3fa060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 14/28] fix: limit the io_uring batch size to the queue size

If batch_size exceeded queue_size then no buffer was ever submitted and the
logger waited forever, a batch_size of zero caused a division by zero.
---
 src/io_uring_fd_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index d40c38d..77aa99a 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,7 @@
 
 #include <liburing.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -48,7 +49,9 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
 :
     fd_storage_base(fd, std::move(reopen_path)),
     buffer_capacity_(buffer_capacity),
-    batch_size_(batch_size),
+    // A batch larger than the queue could never be filled, so would never be
+    // submitted
+    batch_size_(std::max(std::min(batch_size, queue_size), std::size_t{1})),
     io_uring_submit_func_(io_uring_submit_func),
     io_uring_get_sqe_func_(io_uring_get_sqe_func),
     io_uring_wait_cqe_func_(io_uring_wait_cqe_func),
-- 
2.43.0


From 7180b23eee03e505436a15a9b455ee6888977bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 15/28] fix: do not leak the io_uring instance if registering
 buffers fails

---
 src/io_uring_fd_storage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 77aa99a..c1c601e 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -222,6 +222,7 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     if (const int errnum =
         ::io_uring_register_buffers(&ring_, &iov[0], unsigned(iov.size())))
     {
+        ::io_uring_queue_exit(&ring_);
         detail::throw_system_error_fmt(
             -errnum,
             "xtr::io_uring_fd_storage::allocate_buffers: "
-- 
2.43.0


From 3706630b7256a53bb239767826c019b036003885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 16/28] fix: always synchronize the TSC with the wall clock
 before its first use

Within a minute of the TSC being reset no synchronization took place, so
timestamps near the epoch were produced.
---
 src/tsc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..2c822dc 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -160,7 +160,7 @@ std::timespec xtr::detail::tsc::to_timespec(tsc ts)
     static const double tsc_multiplier = 1e9 / double(get_tsc_hz());
 
     // Sync up TSC and wall clocks every minute
-    if (ts.ticks > last_tsc.ticks + one_minute_ticks)
+    if (last_tsc.ticks == 0 || ts.ticks > last_tsc.ticks + one_minute_ticks)
     {
         last_tsc = tsc::now();
         std::timespec temp;
-- 
2.43.0


From 8497e78af7f386fbd04a98459dcf6b81c54f4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 17/28] fix: do not terminate if reporting a logging error
 fails

fmt::print throws if stderr cannot be written to, and formatting the
timestamp throws if that was the original error. Both were thrown out of
noexcept functions.
---
 include/xtr/detail/print.hpp | 21 +++++++++++++++------
 src/buffer.cpp               | 19 +++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/xtr/detail/print.hpp b/include/xtr/detail/print.hpp
index 6713e4b..c409902 100644
--- a/include/xtr/detail/print.hpp
+++ b/include/xtr/detail/print.hpp
@@ -26,6 +26,7 @@
 
 #include <fmt/format.h>
 
+#include <cstdio>
 #include <iterator>
 #include <stdexcept>
 #include <string>
@@ -64,13 +65,21 @@ namespace xtr::detail
         catch (const std::exception& e)
         {
             using namespace std::literals::string_view_literals;
-            fmt::print(
-                stderr,
-                "{}{}: Error writing log: {}\n"sv,
-                buf.lstyle(log_level_t::error),
-                ts,
-                e.what());
             buf.line.clear();
+            try
+            {
+                fmt::print(
+                    stderr,
+                    "{}{}: Error writing log: {}\n"sv,
+                    buf.lstyle(log_level_t::error),
+                    ts,
+                    e.what());
+            }
+            catch (const std::exception&)
+            {
+                // Either ts cannot be formatted or stderr cannot be written to
+                std::fprintf(stderr, "Error writing log: %s\n", e.what());
+            }
         }
 #endif
     }
diff --git a/src/buffer.cpp b/src/buffer.cpp
index 021c71a..035e379 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -61,12 +61,19 @@ void xtr::detail::buffer::flush() noexcept
     catch (const std::exception& e)
     {
         using namespace std::literals::string_view_literals;
-        fmt::print(
-            stderr,
-            "{}{}: Error flushing log: {}\n"sv,
-            lstyle(log_level_t::error),
-            detail::get_time<XTR_CLOCK_WALL>(),
-            e.what());
+        try
+        {
+            fmt::print(
+                stderr,
+                "{}{}: Error flushing log: {}\n"sv,
+                lstyle(log_level_t::error),
+                detail::get_time<XTR_CLOCK_WALL>(),
+                e.what());
+        }
+        catch (const std::exception&)
+        {
+            // stderr cannot be written to, there is nowhere to report to
+        }
     }
 #endif
 }
-- 
2.43.0


From b49dbb64e36a107859746d765740f66ae88457a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:55 +0000
Subject: [PATCH 18/28] fix: support format specifications for string arguments

String arguments with a width, fill, alignment or precision were rejected
with "unknown format specifier" and the message was lost, although format
strings are documented to follow the syntax of {fmt}.
---
 include/xtr/detail/string_ref.hpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 5a76114..4fe7fde 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -23,8 +23,9 @@
 
 #include "sanitize.hpp"
 
-#include <fmt/core.h>
+#include <fmt/format.h>
 
+#include <iterator>
 #include <string>
 #include <string_view>
 
@@ -71,40 +72,30 @@ namespace xtr::detail
 namespace fmt
 {
     template<>
-    struct formatter<xtr::detail::string_ref<const char*>>
+    struct formatter<xtr::detail::string_ref<const char*>> : formatter<string_view>
     {
-        template<typename ParseContext>
-        constexpr auto parse(ParseContext &ctx)
-        {
-            return ctx.begin();
-        }
-
         template<typename FormatContext>
         auto format(xtr::detail::string_ref<const char*> ref, FormatContext &ctx) const
         {
-            auto pos = ctx.out();
+            memory_buffer buf;
+            auto pos = std::back_inserter(buf);
             while (*ref.str != '\0')
                 xtr::detail::sanitize_char_to(pos, *ref.str++);
-            return pos;
+            return formatter<string_view>::format({buf.data(), buf.size()}, ctx);
         }
     };
 
     template<>
-    struct formatter<xtr::detail::string_ref<std::string_view>>
+    struct formatter<xtr::detail::string_ref<std::string_view>> : formatter<string_view>
     {
-        template<typename ParseContext>
-        constexpr auto parse(ParseContext &ctx)
-        {
-            return ctx.begin();
-        }
-
         template<typename FormatContext>
         auto format(const xtr::detail::string_ref<std::string_view> ref, FormatContext &ctx) const
         {
-            auto pos = ctx.out();
+            memory_buffer buf;
+            auto pos = std::back_inserter(buf);
             for (const char c : ref.str)
                 xtr::detail::sanitize_char_to(pos, c);
-            return pos;
+            return formatter<string_view>::format({buf.data(), buf.size()}, ctx);
         }
     };
 }
-- 
2.43.0


From dbbee197937f5e1efc5981ea6b51c61cfaae56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:55 +0000
Subject: [PATCH 19/28] fix: sanitize string arguments passed as r-values

Strings moved into the log record (including temporaries) were formatted
without escaping unprintable characters and terminal escape sequences.
---
 include/xtr/detail/string_table.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..b9cad81 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -55,12 +55,23 @@ namespace xtr::detail
     };
 
     template<typename T>
-    requires (!std::same_as<std::remove_cvref_t<T>, string_table_entry>)
+    requires
+        (!std::same_as<std::remove_cvref_t<T>, string_table_entry> &&
+         !std::same_as<std::remove_cvref_t<T>, std::string>)
     T&& transform_string_table_entry(const std::byte*, T&& value)
     {
         return std::forward<T>(value);
     }
 
+    // Strings that were moved into the record are sanitized when formatted, in
+    // the same way as strings that were copied into the string table.
+    inline string_ref<std::string_view> transform_string_table_entry(
+        const std::byte*,
+        const std::string& value)
+    {
+        return string_ref<std::string_view>(value);
+    }
+
     inline string_ref<std::string_view> transform_string_table_entry(
         std::byte*& pos,
         string_table_entry entry)
-- 
2.43.0


From 6eeb0909e0c78dc6319d844910380e8c30b1028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:30 +0000
Subject: [PATCH 20/28] fix: allow over-aligned arguments to be logged together
 with strings

The unqualified call to align did not find detail::align, so a log statement
with both a string and an argument with an alignment greater than that of a
function pointer did not compile.
---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0


From 51812cb589c366320efffdef6d96b522b62be895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:15 +0000
Subject: [PATCH 21/28] fix: do not submit a buffer twice if allocating the
 next one fails

---
 src/buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.cpp b/src/buffer.cpp
index 035e379..8bcd4c8 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -121,7 +121,11 @@ XTR_FUNC
 void xtr::detail::buffer::next_buffer()
 {
     if (pos_ != begin_) [[likely]] // if not the first call to push_back
+    {
         storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
+        // If allocate_buffer throws then the buffer must not be used again
+        pos_ = begin_ = end_ = nullptr;
+    }
     const std::span<char> s = storage_->allocate_buffer();
     begin_ = s.data();
     end_ = begin_ + s.size();
-- 
2.43.0


From 537315c77729d5e1a8142053ae2e2bf3bde59771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:36 +0000
Subject: [PATCH 22/28] fix: do not wait forever for io_uring operations whose
 submission failed

---
 src/io_uring_fd_storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index c1c601e..3c11a43 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -257,6 +257,11 @@ void xtr::io_uring_fd_storage::wait_for_one_cqe()
     int errnum;
 
 retry:
+    // If submitting failed (e.g. with EAGAIN) then SQEs remain in the submission
+    // queue. If nothing else is in progress then no CQE would ever be received.
+    while (::io_uring_sq_ready(&ring_) >= pending_cqe_count_)
+        io_uring_submit_func_(&ring_);
+
 #if XTR_IO_URING_POLL
     while ((errnum = io_uring_peek_cqe_func_(&ring_, &cqe)) == -EAGAIN)
         ;
-- 
2.43.0


From 9a4e5431dbcaae1ed34ad8543de48e6ce4a8e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:03 +0000
Subject: [PATCH 23/28] fix: wait for writes in progress when reopening with
 io_uring

---
 src/io_uring_fd_storage.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 3c11a43..79570a4 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -176,15 +176,19 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 XTR_FUNC
 void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
 {
-    // As write events might be in-flight, closing the file descriptor must
-    // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
-    // ensure that all previous writes complete before closing.
+    // Writes that are in-flight must complete before the file descriptor is
+    // replaced, because if a write is short then the remainder must be written
+    // to the same file. IOSQE_IO_DRAIN is not used to do this as writes to the
+    // new file (which is opened in append mode) would then be deferred, and
+    // io_uring may start deferred writes in any order.
+    while (pending_cqe_count_ > 0)
+        wait_for_one_cqe();
+
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
     // The SQE may have been used before, in which case it still contains a
     // pointer to a buffer. A null pointer identifies the close operation.
     ::io_uring_sqe_set_data(sqe, nullptr);
-    sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
 
-- 
2.43.0


From e5a04c12247eb44311b62f74b9cf179c6e5e84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 24/28] fix: do not access the first character of an empty
 string in strzcpy

---
 include/xtr/detail/strzcpy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/strzcpy.hpp b/include/xtr/detail/strzcpy.hpp
index ac03246..99f4f2b 100644
--- a/include/xtr/detail/strzcpy.hpp
+++ b/include/xtr/detail/strzcpy.hpp
@@ -31,7 +31,7 @@ namespace xtr::detail
     void strzcpy(char (&dst)[DstSz], const Src& src)
     {
         const std::size_t n = std::min(DstSz - 1, std::size(src));
-        std::memcpy(dst, &src[0], n);
+        std::memcpy(dst, std::data(src), n);
         dst[n] = '\0';
     }
 }
-- 
2.43.0


From 86abd8106a801401ad14f25472e9320f9127b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:48 +0000
Subject: [PATCH 25/28] fix: do not lose the command socket if set_command_path
 is given the current path

---
 src/consumer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 22a0efb..c4e040b 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -152,6 +152,10 @@ void xtr::detail::consumer::set_command_path(std::string path) noexcept
     if (path == null_command_path)
         return;
 
+    // The existing socket (if any) is closed first, as otherwise if the path is
+    // unchanged then binding the new socket would fail, and the destruction of
+    // the old socket would then remove the path
+    cmds_.reset();
     cmds_.reset(new detail::command_dispatcher(std::move(path)));
 
     // Reset if failed to open
-- 
2.43.0


From de788d1cdf7414380364dc763b5d9c582865d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 26/28] fix: do not unmap part of a mirrored mapping twice if
 creating it fails

Both the reservation and the mirror (which lies within it) were unmapped. In
between another thread may have mapped something else there.
---
 src/mirrored_memory_mapping.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mirrored_memory_mapping.cpp b/src/mirrored_memory_mapping.cpp
index 70c05f0..7de2981 100644
--- a/src/mirrored_memory_mapping.cpp
+++ b/src/mirrored_memory_mapping.cpp
@@ -139,6 +139,7 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
 
         if (!m_)
         {
+            mirror.release(); // is part of reserve, so must not be unmapped twice
             throw_system_error(
                 errno,
                 "xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping: "
@@ -180,10 +181,13 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         fd,
         offset);
 
+    // mirror is part of reserve, so if creating m_ fails then it is unmapped by
+    // reserve, otherwise it will be recreated in ~mirrored_memory_mapping
+    mirror.release();
+
     m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset);
 
     reserve.release(); // mapping was destroyed when m_ was created
-    mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
 }
 
 XTR_FUNC
-- 
2.43.0


From 4c4ed915bcff8abe22a57a387987b022f7f05e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:54 +0000
Subject: [PATCH 27/28] fix: do not leak the io_uring instance if allocating
 buffers fails

Allocating memory may fail (e.g. due to a large buffer capacity), in which case
the destructor is not invoked.
---
 src/io_uring_fd_storage.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 79570a4..64209a9 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -86,7 +86,19 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
             "io_uring_queue_init failed");
     }
 
-    allocate_buffers(queue_size);
+#if __cpp_exceptions
+    try
+    {
+#endif
+        allocate_buffers(queue_size);
+#if __cpp_exceptions
+    }
+    catch (...)
+    {
+        ::io_uring_queue_exit(&ring_);
+        throw;
+    }
+#endif
 }
 
 XTR_FUNC
@@ -226,7 +238,6 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     if (const int errnum =
         ::io_uring_register_buffers(&ring_, &iov[0], unsigned(iov.size())))
     {
-        ::io_uring_queue_exit(&ring_);
         detail::throw_system_error_fmt(
             -errnum,
             "xtr::io_uring_fd_storage::allocate_buffers: "
-- 
2.43.0


From 7f007a616c1eca40c23345ca6f394561455328f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:19 +0000
Subject: [PATCH 28/28] fix: build without exceptions when io_uring is
 available

---
 src/fd_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index 95ab55f..5608f65 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -69,10 +69,13 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
 
     if (errno != ENOSYS)
     {
+#if __cpp_exceptions
         try
         {
+#endif
             // reopen_path is not moved as it is needed below if this fails
             return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
+#if __cpp_exceptions
         }
         catch (const std::exception& e)
         {
@@ -81,6 +84,7 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
                    "io_uring_fd_storage error: "
                 << e.what() << "\n";
         }
+#endif
     }
 #endif
     return std::make_unique<posix_fd_storage>(fd, std::move(reopen_path));
-- 
2.43.0

