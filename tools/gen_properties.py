#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Every blocking message reaches the back-end exactly once and in order",
 """Every message logged through a blocking log macro on an open sink is written to the back-end exactly once,
 as one complete newline-terminated line carrying its sink's name, and the messages of one sink are written in the order
 in which they were logged. This holds for any number of threads and sinks, any mix of message sizes, however full the
 sink's queue becomes and however the background thread is delayed. Once all sinks are closed and the logger is destroyed
 nothing logged is missing, repeated, torn or attributed to another sink.""",
 ["schedules", "histories", "inputs", "configurations"],
 "All interleavings of producer threads and the background thread, all histories of log statements, all back-end buffer sizes, all teardown orders.",
 "The tests log a handful of messages from one thread, or one fixed pattern from several; they do not reach queue wrap-around with mixed record shapes, stalled consumers and generated back-end buffer sizes together.",
 ["include/xtr/sink.hpp", "include/xtr/detail/synchronized_ring_buffer.hpp", "include/xtr/detail/trampolines.hpp", "src/consumer.cpp", "src/buffer.cpp"],
 [("single-producer single-consumer ring with release/acquire publication", "include/xtr/detail/synchronized_ring_buffer.hpp"),
  ("background thread drains every sink's records in order", "src/consumer.cpp run()"),
  ("line assembled completely before being copied to back-end buffers", "src/buffer.cpp append_line()")],
 observe=["bytes passed to storage_interface::submit_buffer"])

prop("C02", "A message shows its arguments' values at the time of the log call",
 """The text of a message is what {fmt} produces for its format string (including field width, precision and other format
 specifications) and the values its arguments had when the log statement executed, whatever happens to the caller's
 variables afterwards. This holds for scalars, strings of every accepted type, standard library objects, over-aligned and
 move-only objects, in any number and order, and an argument object that is copied or moved into the log is destroyed exactly once.""",
 ["inputs", "histories", "schedules"],
 "All argument values, all combinations of the supported argument categories in a message, and all times at which the background thread may format the message, including long after the caller has overwritten or freed its variables.",
 "The tests check single values of single types and format the message almost immediately; combinations of alignments, string tables and object lifetimes with delayed formatting are not covered.",
 ["include/xtr/sink.hpp", "include/xtr/detail/string_table.hpp", "include/xtr/detail/trampolines.hpp", "include/xtr/detail/string_ref.hpp", "include/xtr/detail/print.hpp", "include/xtr/detail/is_c_string.hpp"],
 [("arguments captured by value in a lambda constructed in the queue", "include/xtr/sink.hpp make_lambda/copy"),
  ("string contents copied behind the record", "include/xtr/detail/string_table.hpp"),
  ("record destroyed by the trampoline after formatting", "include/xtr/detail/trampolines.hpp")],
 observe=["formatted output", "constructor/destructor counts of argument objects"])

prop("C03", "Strings of any length are logged whole, or as <truncated> if they cannot fit",
 """A string argument of a blocking log statement is written in full, whatever its length, type or position, whenever the
 message fits in the sink's queue capacity, even if the statement must wait for the background thread to free space.
 A string that cannot fit is replaced by "<truncated>" in its place, and neither the other arguments of that message nor any
 neighbouring message is altered by it.""",
 ["inputs", "schedules", "configurations"],
 "All lengths of all string arguments of a message (from empty to several times the queue capacity), all positions of the write offset in the queue, all states of the background thread.",
 "The tests use a few fixed lengths against one queue capacity and one queue offset; the exact-fit boundary at every wrap position is not sampled.",
 ["include/xtr/detail/string_table.hpp", "include/xtr/sink.hpp", "include/xtr/detail/synchronized_ring_buffer.hpp"],
 [("string table built in place, extended as the consumer frees space", "include/xtr/detail/string_table.hpp build_string_table"),
  ("mirrored mapping makes wrapped records contiguous", "src/mirrored_memory_mapping.cpp")],
 observe=["bytes passed to storage_interface::submit_buffer"])

prop("C04", "Non-blocking log statements never wait; each message is delivered or counted",
 """A non-blocking (TRY) log statement returns without waiting for the background thread, even if the queue is full and the
 background thread is stalled. Each such message either appears in the log, in order, exactly once (a string for which there is
 not enough room at that moment may show as "<truncated>"), or is dropped because the queue was full; the numbers given in
 "messages dropped" warnings written under the sink's name add up to exactly the number of messages dropped, including when the
 sink is closed directly afterwards. Blocking messages are never dropped, and nothing is dropped when there is room.""",
 ["histories", "schedules", "inputs"],
 "All mixes of blocking and non-blocking statements of all record shapes, all fill levels of the queue, all stalls of the background thread, all teardown orders.",
 "One test fills one queue once with one record shape; accounting across record shapes, repeated fill/drain rounds and close is not covered.",
 ["include/xtr/sink.hpp", "include/xtr/log_macros.hpp", "include/xtr/detail/tags.hpp", "include/xtr/detail/synchronized_ring_buffer.hpp", "include/xtr/detail/string_table.hpp", "src/consumer.cpp"],
 [("non_blocking_tag makes write_span fail instead of spin", "include/xtr/detail/synchronized_ring_buffer.hpp write_span"),
  ("dropped count reported by the background thread", "src/consumer.cpp report_dropped")],
 state=[("dropped_count_", "messages dropped and not yet collected", "include/xtr/detail/synchronized_ring_buffer.hpp")],
 observe=["formatted output", "return of the log statement while the background thread is blocked"])

prop("C05", "No unprintable byte of a string argument reaches the log",
 """Every string argument, however it is passed (by value, r-value, view, C string, character array, or by reference through
 nocopy), is written with each byte outside printable ASCII, and each backslash, replaced by \\\\xHH in upper-case hexadecimal and all
 other bytes unchanged. No string argument can therefore start a new log line or emit a terminal escape sequence.""",
 ["inputs"],
 "All byte strings, all string argument types, all combinations with other arguments.",
 "The tests sanitize a few fixed strings of some argument types.",
 ["include/xtr/detail/sanitize.hpp", "include/xtr/detail/string_ref.hpp", "include/xtr/detail/string_table.hpp"],
 [("sanitize_char_to", "include/xtr/detail/sanitize.hpp"), ("string_ref formatters", "include/xtr/detail/string_ref.hpp")],
 observe=["formatted output"])

prop("C06", "Log levels filter exactly the less important statements",
 """A statement with an explicit level is logged if and only if its level is at least as important as the sink's level at that
 moment, and if it is filtered its arguments are not evaluated; statements without a level are logged as info regardless of the sink's level.
 A sink created by get_sink has the logger's default level at that time (info unless it has been set), a sink constructed on its own has the level it was constructed with (info if none was given) and
 keeps it when it is registered, closed or registered again, a copied or assigned sink takes the level of its source, and a level set from any thread takes effect for the sink's following statements.""",
 ["histories", "inputs", "schedules"],
 "All sequences of level changes, sink creations, copies and assignments, all statement levels in every macro family.",
 "The tests check a few level/statement pairs; macro families, copies and default levels are not crossed with each other.",
 ["include/xtr/log_macros.hpp", "include/xtr/sink.hpp", "src/sink.cpp", "src/logger.cpp", "src/log_level.cpp"],
 [("level test in XTR_LOGL_TAGS", "include/xtr/log_macros.hpp"), ("level copied on assignment", "src/sink.cpp operator=")],
 observe=["formatted output", "side effects of argument expressions"])

prop("C07", "After sync() everything logged before it is in storage, even if the process dies",
 """When a sink's sync() returns, every message logged on that sink before the call has been passed to the back-end, and the back-end's
 flush and sync functions have been called after the last of them. For file logs the messages are then in the file in full and in order even
 if the process is killed immediately afterwards, and a fatal log statement leaves its own message and all earlier ones of the sink in the file before aborting the
 process.""",
 ["crash_points", "histories", "schedules", "configurations"],
 "All histories of logging and syncing on several sinks, all points at which the process may be killed, both file back-ends.",
 "The tests call sync() on a live process and never kill it; the io_uring batching boundary is not crossed with it.",
 ["src/sink.cpp", "src/consumer.cpp", "src/buffer.cpp", "src/io_uring_fd_storage.cpp", "src/posix_fd_storage.cpp", "src/fd_storage_base.cpp", "include/xtr/log_macros.hpp"],
 [("sync request is a queue record executed by the background thread", "src/sink.cpp sync/sync_post"),
  ("io_uring storage waits for all completions", "src/io_uring_fd_storage.cpp sync()")],
 observe=["file contents after SIGKILL/abort", "order of back-end calls", "fsync calls"])

prop("C08", "Sinks behave as their lifecycle is documented over any history",
 """Over any history of creating, registering, copying, assigning (including from a closed sink or to itself), renaming, closing,
 re-registering and destroying sinks, possibly across several loggers, each sink is open exactly when the history says so, and each message goes to the logger the sink
 was connected to at that time, under the name it had at that time. Destroying a logger waits until every sink connected to it has disconnected, no message accepted before is lost,
 and closed sinks can be reused.""",
 ["histories", "schedules"],
 "All sequences of the lifecycle operations over several loggers and sinks with logging in between, all interleavings with the background thread.",
 "The tests exercise each lifecycle operation once or twice, not in sequence with each other.",
 ["src/sink.cpp", "include/xtr/sink.hpp", "src/logger.cpp", "src/consumer.cpp", "include/xtr/logger.hpp"],
 [("add/close/rename are queue records", "src/sink.cpp"), ("logger destructor joins the consumer", "include/xtr/logger.hpp"), ("queue cleared on close", "src/sink.cpp close()")],
 observe=["formatted output of each logger", "is_open()", "completion of the logger destructor"])

prop("C09", "Back-ends are called as the storage interface promises",
 """All functions of a custom back-end are called from the logger's background thread only. A buffer is never requested while
 another is outstanding, is submitted exactly once with the pointer that was returned and a size between one and its capacity, and the concatenation of
 submitted buffers is the log, for any buffer capacity. Whenever all sinks are idle, everything logged has been submitted and flush has been called after it
 (including messages of a sink that has since been closed); sync and reopen are called only on request, and the back-end is destroyed after all of this with nothing outstanding.""",
 ["histories", "configurations", "schedules"],
 "All log histories, all sequences of buffer capacities returned by the back-end, all idle periods.",
 "The tests' back-ends do not check the protocol, and use one fixed buffer size.",
 ["src/buffer.cpp", "src/consumer.cpp", "include/xtr/io/storage_interface.hpp", "src/sink.cpp"],
 [("buffer cursor management", "src/buffer.cpp append/next_buffer/flush"), ("flush countdown when all sinks are empty", "src/consumer.cpp run()")],
 observe=["calls to the storage interface"])

prop("C10", "A failing message or back-end call never disturbs other messages",
 """If formatting a message throws a standard exception (bad format specification, throwing formatter of an argument or of a user-supplied timestamp), nothing of that message appears in the log, an error
 is reported on standard error, and every other message is written unchanged. If copying or moving an argument into the log throws, the exception reaches the caller and the statement has no other effect. If a back-end function throws, or standard error cannot be written to, the process and the background thread
 carry on, and once the back-end works again later messages are logged intact.""",
 ["fault_sequences", "inputs", "histories"],
 "All positions and kinds of throwing messages in a history, all placements of back-end failures.",
 "The tests throw from one formatter once; position, partial output before the throw, timestamps and unwritable stderr are not covered.",
 ["include/xtr/detail/print.hpp", "src/buffer.cpp", "src/consumer.cpp"],
 [("exception handling around formatting", "include/xtr/detail/print.hpp print"), ("exception handling around flushing", "src/buffer.cpp flush")],
 observe=["formatted output", "stderr", "process survival"])

prop("C11", "File back-ends write exactly the submitted bytes despite partial I/O",
 """For any sequence of buffers submitted to a file back-end, with any buffer capacity, queue size and batch size, the file receives exactly
 the concatenation of the buffers after its existing contents (or from the descriptor's current position), also when writes are interrupted or partial, and for io_uring when submissions
 are retried or completions arrive late or out of order. A failed write(2) is reported to the caller. Flushed data reaches the file without further calls. No buffer is handed out again while its data is still being written, and the back-end always makes progress.""",
 ["fault_sequences", "configurations", "inputs", "schedules"],
 "All buffer sequences, all configurations, all patterns of short writes, EINTR, EAGAIN and completion orders.",
 "The tests inject one short write or one EAGAIN at a fixed point with the default configuration.",
 ["src/posix_fd_storage.cpp", "src/io_uring_fd_storage.cpp", "src/fd_storage_base.cpp", "src/fd_storage.cpp"],
 [("write loop", "src/posix_fd_storage.cpp submit_buffer"), ("completion processing and resubmission", "src/io_uring_fd_storage.cpp wait_for_one_cqe/resubmit_buffer"), ("free list of registered buffers", "src/io_uring_fd_storage.cpp allocate_buffer/free_buffer")],
 state=[("pending_cqe_count_", "operations whose completion has not been seen", "include/xtr/io/io_uring_fd_storage.hpp"), ("offset_", "file offset of the next buffer", "include/xtr/io/io_uring_fd_storage.hpp")],
 observe=["file contents", "buffer contents at write time"])

prop("C12", "Reopening (rotation) loses, duplicates and reorders nothing",
 """When the log file is renamed or removed and then reopened, all messages processed before the reopen are in the old file and all after it are in the new file at the path, each exactly once and
 in order, for any number of rotations at any point of logging. If the reopen fails (or no reopen path was given) an error is reported to the requester and logging continues in the
 old file without loss. Log files created by opening or reopening a path have the permissions of any new file (0666 less the umask).""",
 ["histories", "fault_sequences", "schedules"],
 "All histories of logging and reopening, both file back-ends, all failures of opening the new file.",
 "The tests reopen a few times around single messages.",
 ["src/fd_storage_base.cpp", "src/io_uring_fd_storage.cpp", "src/consumer.cpp", "src/fd_storage.cpp"],
 [("flush before reopen", "src/consumer.cpp reopen_handler"), ("close queued behind pending writes", "src/io_uring_fd_storage.cpp replace_fd")],
 observe=["contents of each rotated file", "reopen command response"])

prop("C13", "The status command reports exactly the matching sinks, accurately",
 """A status request is answered with one record for each open sink whose name matches the pattern (basic or extended regular expression or wildcard, optionally ignoring case; no pattern matches all) and for
 nothing else. Each record gives the sink's name (cut to the field size), current level, capacity, bytes in use and total of dropped messages reported so far, and an invalid pattern is
 answered with an error.""",
 ["inputs", "histories"],
 "All sets of sinks and names, all patterns of every type, all lifecycle states including while the logger is being destroyed.",
 "The tests use a few names and patterns.",
 ["src/consumer.cpp", "src/matcher.cpp", "src/regex_matcher.cpp", "src/wildcard_matcher.cpp", "src/command_dispatcher.cpp", "include/xtr/detail/commands/responses.hpp", "include/xtr/detail/strzcpy.hpp"],
 [("status handler", "src/consumer.cpp status_handler"), ("matchers", "src/*_matcher.cpp")],
 observe=["frames received by a client"])

prop("C14", "The level command changes exactly the matching sinks",
 """A set-level request with a valid level and pattern sets the level of every open sink whose name matches, changes no other sink, and is answered with success once this has taken effect.
 A request with an invalid level or invalid pattern is answered with an error and changes nothing.""",
 ["inputs", "histories"],
 "All sets of sinks, names, patterns, pattern types and 32-bit level values.",
 "The tests use a few names, patterns and levels.",
 ["src/consumer.cpp", "src/matcher.cpp", "src/regex_matcher.cpp", "src/wildcard_matcher.cpp", "src/command_dispatcher.cpp"],
 [("set level handler", "src/consumer.cpp set_level_handler")],
 observe=["sink::level()", "frames received by a client"])

prop("C15", "No client of the command socket can disturb the logger or other clients",
 """Whatever bytes, packets, packet lengths, connection patterns or disconnections clients produce on the command socket (apart from regular expressions which the C library itself cannot evaluate in reasonable time and memory), the process neither crashes nor stalls, logging continues without loss, and other clients' valid requests
 are answered correctly. A malformed request is answered with an error frame, every response is a well-formed frame, and each connection is closed after its request has been answered.""",
 ["inputs", "histories", "schedules"],
 "All byte strings, all numbers and orders of connects, sends, partial reads and disconnects of several clients.",
 "The tests send a handful of malformed frames from one client at a time.",
 ["src/command_dispatcher.cpp", "include/xtr/detail/commands/recv.hpp", "include/xtr/detail/commands/send.hpp", "include/xtr/detail/commands/frame.hpp", "src/consumer.cpp"],
 [("frame validation", "src/command_dispatcher.cpp process_socket_read"), ("non-blocking replies", "src/command_dispatcher.cpp process_socket_write")],
 observe=["frames received by clients", "log output", "process survival"])

prop("C16", "xtrctl does what its arguments say and reports the outcome",
 """For any command line, xtrctl performs the requested status, level or reopen command on the matching sinks of the given socket and exits with zero, printing the sinks sorted by name or "Success";
 otherwise it changes nothing, prints a reason, and exits with a non-zero status. All documented levels ('none', 'fatal', 'error', 'warning', 'info', 'debug'), options and option positions are accepted.""",
 ["inputs", "programs"],
 "All command lines built from the documented grammar and malformed variants of them, against all sets of sinks.",
 "There are no tests of xtrctl.",
 ["src/xtrctl.cpp", "include/xtr/detail/commands/ios.hpp", "include/xtr/detail/commands/connect.hpp"],
 [("argument parsing and reply printing", "src/xtrctl.cpp main")],
 observe=["exit status, stdout and stderr of xtrctl", "sink::level()", "back-end reopen calls"])

prop("C17", "The sink queue is a faithful FIFO byte ring of its stated capacity",
 """The queue between a producer and the background thread delivers exactly the bytes written, in order, for any sequence of write and read sizes and any interleaving of the two threads: the writable span is always contiguous and is the free space, the readable span is always contiguous and is
 the unread data, and free plus unread never exceeds the capacity. The capacity is at least what was requested and the two halves of its memory mapping are mirror images, whether anonymous or backed by a
 file.""",
 ["histories", "schedules", "configurations"],
 "All sequences of span/reduce operations at all offsets, fixed and dynamic capacities, two threads.",
 "The tests do a few fixed writes and reads.",
 ["include/xtr/detail/synchronized_ring_buffer.hpp", "src/mirrored_memory_mapping.cpp", "src/memory_mapping.cpp", "src/pagesize.cpp"],
 [("free-running counters masked by the capacity", "include/xtr/detail/synchronized_ring_buffer.hpp"), ("double mapping", "src/mirrored_memory_mapping.cpp")],
 observe=["spans returned by the queue", "bytes read"])

prop("C18", "Timestamps show the right UTC time to the microsecond",
 """The timestamp of a message from a basic macro is the time returned by the logger's clock when the message was read from the queue (one reading may serve all messages read in one pass over the sinks), rendered in UTC as YYYY-MM-DD hh:mm:ss.uuuuuu rounded down to the microsecond, for any clock precision and any time including before
 1970. The logger keeps its own copy of the clock: the object given to its constructor need not outlive the call. Macros taking a timestamp print exactly that timestamp, real-time-clock macros print the wall-clock time of the statement, and TSC macros print a time that agrees with the wall clock at the statement to within clock
 estimation error and, between its once-a-minute synchronisations with the wall clock, never runs backwards.""",
 ["inputs", "configurations", "histories"],
 "All clock values of years 0000-9999, all clock duration types, all user timestamps, all delays between statement and formatting.",
 "The tests use one fixed time.",
 ["include/xtr/logger.hpp", "include/xtr/timespec.hpp", "src/tsc.cpp", "include/xtr/detail/tsc.hpp", "include/xtr/detail/get_time.hpp", "src/consumer.cpp", "include/xtr/log_macros.hpp"],
 [("make_clock", "include/xtr/logger.hpp"), ("timespec formatter", "include/xtr/timespec.hpp"), ("TSC to wall clock conversion", "src/tsc.cpp")],
 observe=["timestamp field of log lines"])

prop("C19", "Containers, maps, tuples and pairs are formatted completely and in order",
 """With the provided formatters, any sequence container is printed as [a, b, ...], any map as {k: v, ...} and any tuple or pair as (a, b, ...), with every element in iteration order formatted as {fmt} formats it on its own, to any nesting depth and for any
 size including empty, and the values are those at the time of the log statement.""",
 ["inputs"],
 "All contents, sizes and nestings of the supported container kinds.",
 "The tests format a few fixed containers.",
 ["include/xtr/formatters.hpp"],
 [("formatter specializations", "include/xtr/formatters.hpp")],
 observe=["formatted output"])

prop("C20", "Log statements make no system calls and allocate no memory",
 """Executing a log statement of any kind, blocking or non-blocking, with any combination of scalar and string arguments, performs no heap allocation and no system call in the calling thread while there is room in the queue,
 and a non-blocking statement performs none even if the queue is full.""",
 ["inputs", "histories"],
 "All statement kinds and argument combinations, all queue states with room.",
 "No test observes allocations or system calls.",
 ["include/xtr/sink.hpp", "include/xtr/detail/string_table.hpp", "include/xtr/log_macros.hpp", "include/xtr/detail/tsc.hpp", "include/xtr/detail/get_time.hpp", "include/xtr/detail/synchronized_ring_buffer.hpp"],
 [("in-place construction in a pre-faulted queue", "include/xtr/sink.hpp")],
 observe=["malloc/free calls of the thread", "system calls of the thread"])

prop("C21", "All logger functions may be called concurrently from any thread",
 """Any functions of one logger may be called concurrently from any number of threads, together with logging on separate sinks and with reading or setting sink levels from other threads, without data races, deadlocks, lost registrations or lost
 messages. Each call has taken effect when it returns, as if the calls had been made one at a time.""",
 ["schedules", "histories"],
 "All interleavings of get_sink, register_sink, set_command_path, set_log_level_style, set_default_log_level, set_level and logging.",
 "The tests call logger functions from one thread at a time.",
 ["src/logger.cpp", "include/xtr/logger.hpp", "include/xtr/sink.hpp", "src/consumer.cpp"],
 [("control mutex", "include/xtr/logger.hpp control_mutex_"), ("atomic sink level", "include/xtr/sink.hpp level_")],
 observe=["ThreadSanitizer reports", "formatted output", "completion of all calls"])

prop("C22", "The command socket exists exactly where and while it should",
 """A logger given a command path listens on exactly that path (file system or abstract) until the path is replaced or the logger is gone, after which the path is removed; with the null path no socket is created, and if
 the path cannot be used an error is reported and logging works without a command socket. Default paths are unique within the process, contain the process id, and lie in $XDG_RUNTIME_DIR, else /run/user/<uid>, else $TMPDIR, else /tmp, using the first
 writable one as documented.""",
 ["histories", "configurations"],
 "All sequences of command path changes over several loggers, all valid and invalid paths, all settings of the environment variables.",
 "The tests open a few paths once.",
 ["src/command_path.cpp", "src/command_dispatcher.cpp", "src/consumer.cpp", "src/logger.cpp"],
 [("socket creation and removal", "src/command_dispatcher.cpp"), ("default path", "src/command_path.cpp")],
 observe=["file system", "connect(2) to the path", "default_command_path()"])

prop("C23", "Every line has the documented prefix for its level, sink and source position",
 """Every line starts with the string the logger's level style gives for the statement's level, followed by the timestamp, a space, the sink's name at that point in the sink's history, a space, the source file's base name, a colon and line number, then the message.
 A style set on the logger applies to all statements made after the call returns, the two provided styles give their documented prefixes for every level, and level names convert to levels exactly, anything else being
 rejected.""",
 ["inputs", "histories", "configurations"],
 "All levels in all macro families, all sequences of style changes and renames, all strings as level names.",
 "The tests check a few prefixes and names.",
 ["src/log_level.cpp", "include/xtr/log_macros.hpp", "include/xtr/detail/string.hpp", "include/xtr/detail/print.hpp", "src/logger.cpp", "src/sink.cpp"],
 [("format string assembled at compile time", "include/xtr/log_macros.hpp"), ("style applied when formatting", "include/xtr/detail/print.hpp")],
 observe=["formatted output", "log_level_from_string()"])

prop("C24", "Loggers, sinks and back-ends release every resource they take",
 """Once loggers, sinks and back-ends have been destroyed, over any history of creating and using them, including failures to create them, the process holds no file descriptor, memory mapping, thread, socket path or heap memory more than
 before. A descriptor passed in by the user is left open, and a descriptor or mapping whose wrapper has been moved from or released is never closed or unmapped twice.""",
 ["histories", "fault_sequences"],
 "All histories of construction, use, rotation, command traffic and destruction, with failures injected into descriptor, mapping and io_uring setup calls.",
 "The tests do not look at resources, except for leaks seen by LeakSanitizer on their own paths.",
 ["src/fd_storage.cpp", "src/fd_storage_base.cpp", "src/io_uring_fd_storage.cpp", "src/file_descriptor.cpp", "src/memory_mapping.cpp", "src/mirrored_memory_mapping.cpp", "src/command_dispatcher.cpp"],
 [("RAII wrappers", "include/xtr/detail/file_descriptor.hpp, include/xtr/detail/memory_mapping.hpp"), ("error paths", "src/mirrored_memory_mapping.cpp")],
 observe=["/proc/self/fd", "/proc/self/maps", "/proc/self/task", "calls to close and munmap", "LeakSanitizer"])

prop("C25", "Every supported build configuration behaves the same",
 """A program's log files, return values and command responses do not depend on how the library is built: with or without assertions (NDEBUG), with or without exceptions, with or without io_uring or its polling mode, with gcc or clang,
 as compiled sources or as the generated single header used by several translation units, and with any sink capacity that holds the messages. Without exceptions, an error that would have been thrown prints the same message to standard error and the
 program ends by abort(3); an unusable command path is an error in no configuration.""",
 ["inputs", "histories", "configurations"],
 "All programs over the public interface, in all documented build configurations.",
 "The test suite is built in one configuration; its results say nothing about code behind #if or assert in the others.",
 ["src/throw.cpp", "src/fd_storage.cpp", "src/io_uring_fd_storage.cpp", "src/buffer.cpp", "src/memory_mapping.cpp", "include/xtr/config.hpp", "include/xtr/detail/print.hpp", "scripts/make_single_include.sh"],
 [("error reporting without exceptions", "src/throw.cpp"), ("choice of back-end", "src/fd_storage.cpp make_fd_storage"), ("configuration macros", "include/xtr/config.hpp")],
 observe=["log files", "command responses", "exit status and standard error of the program"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
