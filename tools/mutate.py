#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to scratch copies of /repo, run against the checks that cover the file.

Not used by any check. usage: mutate.py SEED COUNT [file-substring]; appends JSON lines to $OUT (default /tmp/mutants.jsonl)."""
import json, os, random, re, shutil, subprocess, sys, time
VERIF = os.environ.get("VP_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = os.environ.get("OUT", "/tmp/mutants.jsonl")
MAP = {
 "src/buffer.cpp": "C09 C10 C01 C07", "src/command_dispatcher.cpp": "C15 C13 C24 C22", "src/command_path.cpp": "C22",
 "src/consumer.cpp": "C01 C04 C08 C13 C14 C09 C12 C22 C18 C23 C21", "src/fd_storage.cpp": "C11 C12 C24",
 "src/fd_storage_base.cpp": "C11 C12 C24 C07", "src/file_descriptor.cpp": "C24", "src/io_uring_fd_storage.cpp": "C11 C12 C24 C07",
 "src/log_level.cpp": "C23", "src/logger.cpp": "C08 C21 C06 C22 C23", "src/matcher.cpp": "C13 C14", "src/memory_mapping.cpp": "C24 C17",
 "src/mirrored_memory_mapping.cpp": "C24 C17", "src/pagesize.cpp": "C17", "src/posix_fd_storage.cpp": "C11 C12 C07",
 "src/regex_matcher.cpp": "C13 C15 C24", "src/sink.cpp": "C08 C06 C07 C01 C21", "src/throw.cpp": "C24 C10", "src/tsc.cpp": "C18",
 "src/wildcard_matcher.cpp": "C13", "src/xtrctl.cpp": "C16",
 "include/xtr/formatters.hpp": "C19", "include/xtr/log_macros.hpp": "C06 C23 C18 C04", "include/xtr/logger.hpp": "C18 C08 C06 C22",
 "include/xtr/sink.hpp": "C02 C01 C03 C04 C06 C20 C05", "include/xtr/timespec.hpp": "C18",
 "include/xtr/detail/align.hpp": "C02 C17 C03", "include/xtr/detail/buffer.hpp": "C09 C10 C01", "include/xtr/detail/consumer.hpp": "C13 C08 C22",
 "include/xtr/detail/file_descriptor.hpp": "C24", "include/xtr/detail/get_time.hpp": "C18", "include/xtr/detail/is_c_string.hpp": "C02 C05",
 "include/xtr/detail/memory_mapping.hpp": "C24", "include/xtr/detail/mirrored_memory_mapping.hpp": "C24", "include/xtr/detail/print.hpp": "C10 C23",
 "include/xtr/detail/retry.hpp": "C11 C15", "include/xtr/detail/sanitize.hpp": "C05", "include/xtr/detail/string.hpp": "C23",
 "include/xtr/detail/string_ref.hpp": "C02 C05", "include/xtr/detail/string_table.hpp": "C03 C02 C05 C20", "include/xtr/detail/strzcpy.hpp": "C13 C16",
 "include/xtr/detail/synchronized_ring_buffer.hpp": "C17 C04 C03 C01", "include/xtr/detail/trampolines.hpp": "C02 C01 C03 C10", "include/xtr/detail/tsc.hpp": "C18",
 "include/xtr/detail/commands/command_dispatcher.hpp": "C15 C13", "include/xtr/detail/commands/connect.hpp": "C16",
 "include/xtr/detail/commands/recv.hpp": "C15 C16", "include/xtr/detail/commands/send.hpp": "C15 C16",
 "include/xtr/io/io_uring_fd_storage.hpp": "C11 C12", "include/xtr/io/storage_interface.hpp": "C09",
}
SKIP = re.compile(r"static_assert|^\s*assert|^\s*#|^\s*//|^\s*\*|XTR_ASSERT|throw_|err\(|errx\(|fprintf|std::cerr|\[\[nodiscard\]\]|^\s*template|^\s*using |^\s*friend|^\s*namespace|XTR_FUNC|^\s*(public|private|protected):")
def numbers(line):
    out = []
    for m in re.finditer(r"(?<![\w.:])(\d+)(?![\w.])(?!\s*>)", line.split("//")[0]):
        for d in (1, -1):
            v = int(m.group(1)) + d
            if v >= 0: out.append(line[:m.start()] + str(v) + line[m.end():])
    return out
def all_mutations(line):
    L = line
    def safe():
        r = []
        def sub(pat, rep):
            for m in re.finditer(pat, L):
                new = L[:m.start()] + m.expand(rep) + L[m.end():]
                if new != L: r.append(new)
        for pat, rep in [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
                (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" / ", " * "), (r" % ", " / "), (r" \+= ", " -= "),
                (r" -= ", " += "), (r" \+= ", " = "), (r"\+\+(\w)", r"--\1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
                (r"!(?=[\w(])(?!=)", ""), (r"\bif \((?!const|auto)(.*)\)", r"if (false && (\1))"), (r"\bif \((?!const|auto)(.*)\)", r"if (true || (\1))"),
                (r"memory_order_(acquire|release|acq_rel|seq_cst)", "memory_order_relaxed"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"),
                (r"\|(?=[A-Z_])", "&"), (r"\bbreak;", ";"), (r"\bcontinue;", ";")]:
            sub(pat, rep)
        return r
    r = safe() + numbers(L)
    if re.match(r"^\s*[\w:>\-.\[\]()*&]+\s*(=|\+=|-=|\(|\+\+|--)[^=].*;\s*$", L) and not re.match(r"^\s*(return|const|auto|using|int|char|std::\w+<?[^(]*> \w|std::size_t|if|for|while)\b", L):
        r.append(re.match(r"^\s*", L).group(0) + ";\n")
    if re.match(r"^\s*\+\+\w[\w.]*;\s*$", L): r.append(";\n")
    return r
def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    filt = sys.argv[3] if len(sys.argv) > 3 else ""
    rng = random.Random(seed)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    cand = {}
    for f in MAP:
        if filt and filt not in f or not os.path.exists("/repo/" + f): continue
        lines = open("/repo/" + f).read().split("\n")
        skip_depth = 0
        in_block = False
        for i, l in enumerate(lines):
            if "XTR_ENABLE_TEST_STATIC" in l or "!defined(__linux__)" in l or "XTR_IO_URING_POLL" in l and l.startswith("#if"): in_block = True
            if l.startswith("#endif") or l.startswith("#else"): in_block = False
            if in_block or SKIP.search(l) or l.strip() in ("", "{", "}"): continue
            for m in all_mutations(l + "\n"):
                if (f, i + 1, m.strip()) not in done:
                    cand.setdefault(f, []).append((i, l, m.rstrip("\n")))
    print({f: len(v) for f, v in cand.items()}, file=sys.stderr)
    files = sorted(cand)
    for k in range(count):
        files = [f for f in files if cand[f]]
        if not files: break
        # weight by the square root of the number of candidates
        f = rng.choices(files, [len(cand[x]) ** 0.5 for x in files])[0]
        i, old, new = cand[f].pop(rng.randrange(len(cand[f])))
        w = "/tmp/mrepo-%d" % os.getpid()
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        for d in ("src", "include"): shutil.copytree("/repo/" + d, w + "/" + d)
        lines = open(w + "/" + f).read().split("\n")
        lines[i] = new
        open(w + "/" + f, "w").write("\n".join(lines))
        res, by = "SURVIVED", ""
        t0 = time.time()
        ran = []
        for c in MAP[f].split():
            try:
                r = subprocess.run(["python3", VERIF + "/check.py", c, "--seed", str(rng.randrange(1000))], env=dict(os.environ, VP_REPO=w, VP_SHRINK="0"), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res, by = "TIMEOUT", c; break
            ran.append(c)
            if r.returncode == 2:
                res = "NOBUILD" if "BUILD FAILED" in r.stderr else "ERROR"; by = c; break
            if r.returncode == 1:
                res, by = "caught", c; break
        with open(OUT, "a") as o:
            o.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), res=res, by=by, ran=ran, s=round(time.time() - t0))) + "\n")
        print(res, by, f, i + 1, old.strip(), "=>", new.strip(), flush=True)
        shutil.rmtree(w, ignore_errors=True)
main()
