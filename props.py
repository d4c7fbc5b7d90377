"""Which harness runs decide each property, and how large each tier is."""

PROPS = {
    "C01": dict(
        technique="stateful property-based testing of generated multi-threaded logging programs against a list model (ASan/UBSan and TSan builds)",
        note="Every generated program's output is compared line by line with the list of messages the program logged; schedules are sampled "
             "(jitter, stalled consumer, core contention), not enumerated.",
        runs=[
        dict(harness="c01", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=9000, budget=25, cases_t=300000, budget_t=400),
        dict(harness="c01", variant="tsan", label="tsan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=1200, budget=20, cases_t=60000, budget_t=300),
    ]),
}
PROPS["C02"] = dict(
    technique="property-based differential testing against {fmt} over generated argument combinations, with lifetime monitors",
    note="Oracle: fmt::format on copies of the values taken at the statement. Argument type combinations are compiled in (120 pseudo-random "
         "combinations of 32 kinds plus 30 format specifications); values, order, sinks and delays are generated.",
    runs=[
        dict(harness="c02", parts=8, variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             cases=40000, budget=30, cases_t=1000000, budget_t=500),
    ])
PROPS["C03"] = dict(
    technique="property-based and metamorphic testing of string lengths at every queue offset (validity predicate plus same-template-same-result relation)",
    note="Lengths are concentrated on the exact-fit boundary; the exact record overhead is not assumed (40 bytes of slack), the metamorphic relation decides the boundary itself.",
    runs=[
        dict(harness="c03", variant="asan", label="asan-4k", defs=["XTR_SINK_CAPACITY=4096"],
             cases=12000, budget=20, cases_t=400000, budget_t=300),
        dict(harness="c03", variant="asan", label="asan-64k", defs=["XTR_SINK_CAPACITY=65536", "NDEBUG"],
             cases=1500, budget=15, cases_t=40000, budget_t=200),
    ])
PROPS["C04"] = dict(
    technique="stateful property-based testing with a stalled consumer; accounting oracle (missing messages = sum of drop warnings) and room model",
    note="Whether a message may be dropped is decided from an upper bound of the record sizes in a queue known to be empty at the stall; the sum of the "
         "warnings is compared after close, when it is exact.",
    runs=[
        dict(harness="c04", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=15000, budget=22, cases_t=500000, budget_t=450),
        dict(harness="c04", variant="plain", label="race", defs=["XTR_SINK_CAPACITY=4096", "VP_RACE=1"], workers=4,
             cases=3000, budget=12, cases_t=60000, budget_t=200),
    ])
PROPS["C05"] = dict(
    technique="property-based testing against a reference sanitizer over byte strings in every accepted string form",
    note="Byte content is drawn to cover all 256 values and the edges of the printable range. Strings inside containers or user types are not string arguments and are not covered.",
    runs=[
        dict(harness="c05", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             cases=40000, budget=25, cases_t=1000000, budget_t=400),
    ])
PROPS["C06"] = dict(
    technique="model-based property testing over level/lifecycle histories, with side-effecting arguments",
    note="All 40 level/family statements are compiled in (plus a build with XTR_NDEBUG, in which debug statements must vanish); histories are generated.",
    runs=[
        dict(harness="c06", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             cases=15000, budget=25, cases_t=400000, budget_t=400),
        dict(harness="c06", variant="debug", label="ndebug", defs=["XTR_SINK_CAPACITY=65536", "XTR_NDEBUG=1"],
             cases=6000, budget=10, cases_t=100000, budget_t=100),
    ])
PROPS["C07"] = dict(
    technique="crash-point property testing: generated programs in child processes killed at generated points, file contents against the sync history",
    level="fault_enumeration",
    note="Process death is real (SIGKILL/abort at generated points); power loss is represented by the contents of the file at the time fsync is called "
         "(fsync is replaced by a recorder), so the kernel's own durability is trusted.",
    runs=[
        dict(harness="c07", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             link=["-Wl,--wrap=fsync,--wrap=fdatasync"],
             cases=9000, budget=30, cases_t=100000, budget_t=500),
    ])
PROPS["C08"] = dict(
    technique="model-based stateful property testing of sink/logger lifecycle histories",
    note="The model tracks connection and name of each sink; that the destructor of a logger waits is observed by the back-end not being destroyed while a sink is connected. Operations "
         "documented as preconditions (registering an open sink, logging on a closed one) are not generated.",
    runs=[
        dict(harness="c08", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=8000, budget=25, cases_t=300000, budget_t=400),
        dict(harness="c08", variant="tsan", label="tsan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=800, budget=15, cases_t=30000, budget_t=200),
    ])
PROPS["C09"] = dict(
    technique="stateful property testing with a protocol-checking back-end (history invariants, concatenation oracle, bounded liveness at idle points)",
    note="That idle data is flushed is a liveness property: it is decided with a 20 s bound where the code needs microseconds.",
    runs=[
        dict(harness="c09", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192"],
             cases=10000, budget=25, cases_t=300000, budget_t=400),
    ])
PROPS["C10"] = dict(
    technique="property-based fault injection: throwing formatters, timestamps and back-end functions on generated schedules, against a list model of the log",
    note="Exceptions are derived from std::exception. A message during whose submission the back-end throws may be lost or cut; messages before and after it may not.",
    runs=[
        dict(harness="c10", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             cases=15000, budget=25, cases_t=400000, budget_t=400),
    ])
PROPS["C11"] = dict(
    technique="model-based property testing of buffer histories with injected I/O faults (write(2) and the liburing calls) against a reference file",
    note="io_uring faults are injected around a real ring, so the kernel's handling of correct requests is real; a short or EAGAIN write with others in progress on a descriptor opened for append is a known finding and is "
         "only checked for loss and duplication.",
    level="fault_enumeration",
    runs=[
        dict(harness="c11", variant="asan", label="asan",
             link=["-Wl,--wrap=write,--wrap=io_uring_queue_init,--wrap=io_uring_register_buffers"],
             cases=20000, budget=25, cases_t=600000, budget_t=400),
    ])
PROPS["C12"] = dict(
    technique="stateful property testing of rotation histories (back-ends directly and through the reopen command) against reference files",
    note="Every file is held open by the harness so that removed files are compared too. After a partial io_uring write the order within a file opened for append is not compared (the known finding of C11).",
    runs=[
        dict(harness="c12", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             link=["-Wl,--wrap=io_uring_queue_init"],
             cases=15000, budget=25, cases_t=400000, budget_t=400),
    ])
PROPS["C13"] = dict(
    technique="model-based stateful property testing of status requests over generated sink histories; reference pattern matching with the C library",
    note="Bytes in use are compared exactly when nothing is queued (zero), and metamorphically when something is (2k messages use twice the bytes of k).",
    runs=[
        dict(harness="c13", workers=2, variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192"],
             cases=10000, budget=25, cases_t=300000, budget_t=400),
    ])
PROPS["C14"] = dict(
    technique="model-based stateful property testing of set-level requests over generated sink histories; reference pattern matching with the C library",
    note="Levels of all sinks, open and closed and of another logger, are compared with the model directly after each response.",
    runs=[
        dict(harness="c13", workers=2, variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192", "VP_LEVELS=1"],
             cases=10000, budget=25, cases_t=300000, budget_t=400),
    ])
PROPS["C15"] = dict(
    technique="stateful fuzzing of the command socket with generated packets and connection histories against a reference decoder (ASan/UBSan build)",
    note="Regular expressions are drawn from a grammar without nested bounded repetition, whose cost in the C library's regcomp is unbounded; responses to unknown pattern types are only checked for form.",
    runs=[
        dict(harness="c15", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=40000, budget=30, cases_t=400000, budget_t=400),
    ])
PROPS["C16"] = dict(
    technique="property-based testing of generated command lines run with the real xtrctl against a reference interpretation of the command line",
    note="Patterns are shorter than the 256 byte field; option abbreviations and permutation are those of getopt_long.",
    runs=[
        dict(harness="c16", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192"], xtrctl=True,
             cases=2500, budget=25, cases_t=100000, budget_t=400),
    ])
PROPS["C17"] = dict(
    technique="model-based property testing of ring histories against a byte queue, two-thread stream testing (ASan/UBSan build), and mapping histories",
    note="Schedules between the two threads are sampled with drawn perturbation; the TSan build adds the happens-before check, which is what weakened memory orders violate.",
    runs=[
        dict(harness="c17", variant="asan", label="asan",
             cases=25000, budget=22, cases_t=800000, budget_t=400),
        dict(harness="c17", variant="tsan", label="tsan", defs=["VP_THREADS=1"],
             cases=1500, budget=12, cases_t=60000, budget_t=300),
    ])
PROPS["C18"] = dict(
    technique="property-based testing of generated clocks, timestamps and tick counts against an independent calendar computation; wall-clock bounds for RTC and TSC statements",
    note="TSC times are compared with the wall clock with a tolerance of 0.2 s plus 0.01% of the distance (scheduling between reading the two clocks is not controlled); "
         "the frequency itself is the one the library reads or estimates. Years 1 to 9999.",
    runs=[
        dict(harness="c18", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             cases=20000, budget=25, cases_t=600000, budget_t=400),
    ])
PROPS["C19"] = dict(
    technique="property-based testing of generated values of 36 container types against a reference printer, directly and through log statements",
    note="Types are compiled in, values and sizes generated. Strings inside containers are printable (they are not sanitized, see C05).",
    runs=[
        dict(harness="c19", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=65536"],
             cases=20000, budget=25, cases_t=600000, budget_t=400),
    ])
PROPS["C20"] = dict(
    technique="property-based testing of generated statements with a runtime monitor of the calling thread (syscall user dispatch and an interposed allocator)",
    note="The monitor is exact for the calling thread: any system call it makes while the statement runs raises SIGSYS. Where the kernel lacks syscall user dispatch only the heap is monitored (evidence class syscalls_NOT_monitored). "
         "Arguments are scalars, plain structs and strings; a blocking statement is only required to be free of system calls while there is room.",
    runs=[
        dict(harness="c20", variant="plain", label="plain", defs=["XTR_SINK_CAPACITY=4096"], link=["-Wl,-z,now"],
             cases=20000, budget=15, cases_t=600000, budget_t=300),
        dict(harness="c20", variant="debug", label="debug", defs=["XTR_SINK_CAPACITY=65536"], link=["-Wl,-z,now"],
             cases=8000, budget=10, cases_t=200000, budget_t=200),
    ])
PROPS["C21"] = dict(
    technique="stateful property testing of generated multi-threaded programs over the logger's functions (TSan and ASan builds), list models and last-writer relations as oracle",
    note="Schedules are sampled; the TSan build decides data races from happens-before, so a race need not actually collide. Functions called by one thread only are checked exactly, "
         "functions called by several against the set of values set.",
    runs=[
        dict(harness="c21", variant="tsan", label="tsan", defs=["XTR_SINK_CAPACITY=8192"],
             cases=2500, budget=20, cases_t=80000, budget_t=400),
        dict(harness="c21", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=4096"],
             cases=5000, budget=15, cases_t=150000, budget_t=300),
    ])
PROPS["C22"] = dict(
    technique="model-based stateful property testing of command path histories (connections, directory contents and error output against the model) and of generated environments for default paths",
    note="Unwritable directories are tested in a child that has become an unprivileged user. Whether /run/user/<uid> is writable is pretended (access(2) is replaced for it). set_command_path with the null path while a socket exists is unspecified and not generated.",
    runs=[
        dict(harness="c22", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192"],
             link=["-Wl,--wrap=access"],
             cases=4000, budget=25, cases_t=120000, budget_t=400),
    ])
PROPS["C23"] = dict(
    technique="model-based stateful property testing of style, name and statement histories; every line compared with its complete expected text",
    note="Source positions (14, through #line) and macro families are compiled in; style tables, names and histories are generated. Messages logged before a style change and not synced may have either style.",
    runs=[
        dict(harness="c23", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192"],
             cases=12000, budget=25, cases_t=400000, budget_t=400),
    ])
PROPS["C24"] = dict(
    technique="stateful property testing with fault injection and a resource monitor (descriptors with guards against a second close, mapped pages, threads, io_urings, memory blocks, compiled expressions, sockets)",
    note="Mappings made inside liburing and memory allocated inside libc are seen only through the io_uring and regcomp counts. Memory exhaustion is injected where functions are not noexcept.",
    level="fault_enumeration",
    runs=[
        dict(harness="c24", variant="asan", label="asan", defs=["XTR_SINK_CAPACITY=8192"],
             link=["-Wl," + ",".join("--wrap=" + f for f in ("open", "dup", "close", "mmap", "munmap", "mremap", "socket", "bind", "listen", "accept4", "io_uring_queue_init", "io_uring_queue_exit",
                   "io_uring_register_buffers", "regcomp", "regfree", "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"))],
             cases=10000, budget=25, cases_t=300000, budget_t=400),
        dict(harness="c24", variant="plain", label="release", defs=["XTR_SINK_CAPACITY=8192"],
             link=["-Wl," + ",".join("--wrap=" + f for f in ("open", "dup", "close", "mmap", "munmap", "mremap", "socket", "bind", "listen", "accept4", "io_uring_queue_init", "io_uring_queue_exit",
                   "io_uring_register_buffers", "regcomp", "regfree", "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"))],
             cases=4000, budget=12, cases_t=100000, budget_t=200),
    ])
PROPS["C25"] = dict(
    technique="differential property-based testing: generated programs executed by drivers built in eight build configurations, results and files against one model",
    note="Configurations: asserts and no optimisation; release with another queue capacity; no exceptions; no io_uring; neither; io_uring polling; clang; the generated single header. "
         "A single header that does not build is left out (evidence: configurations_left_out); formatting errors and throwing back-ends are not generated, as they abort without exceptions.",
    runs=[
        dict(harness="c25", variant="debug", label="configs", drivers=True,
             cases=2500, budget=40, cases_t=60000, budget_t=600),
    ])
