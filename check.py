#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's working tree, runs them and
writes the evidence file. Exit 0: held; exit 1 with a VIOLATION line: broken;
anything else: an error of the check itself."""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS

VARIANTS = {
    "asan": dict(flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-fno-sanitize=nonnull-attribute,vptr", "-fno-omit-frame-pointer",
                        "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    "plain": dict(flags=["-O2", "-g1", "-DNDEBUG"], link=[]),
    "debug": dict(flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"], link=[]),
}
BASE = ["-std=c++20", "-DXTR_FUNC=", "-I" + REPO + "/include", "-I" + VERIF + "/lib",
        "-Wall", "-Wno-psabi", "-pthread"]

# The build configurations compared by C25: compiler, flags, exceptions?, io_uring?
CONFIGS = [
    dict(label="debug", cxx="g++", flags=["-O0", "-D_GLIBCXX_ASSERTIONS"], exc=1, uring=1),
    dict(label="release", cxx="g++", flags=["-O2", "-DNDEBUG", "-DXTR_SINK_CAPACITY=4096"], exc=1, uring=1),
    dict(label="noexc", cxx="g++", flags=["-O1", "-fno-exceptions"], exc=0, uring=1),
    dict(label="nouring", cxx="g++", flags=["-O1", "-DXTR_USE_IO_URING=0"], exc=1, uring=0),
    dict(label="noexc-nouring", cxx="g++", flags=["-O2", "-DNDEBUG", "-fno-exceptions", "-DXTR_USE_IO_URING=0"], exc=0, uring=0),
    dict(label="poll", cxx="g++", flags=["-O1", "-DXTR_IO_URING_POLL=1"], exc=1, uring=1),
    dict(label="clang", cxx="clang++", flags=["-O2"], exc=1, uring=1),
    dict(label="single", cxx="g++", flags=["-O1"], exc=1, uring=1, single=True, optional=True),
]


def single_header(h):
    """The single header as scripts/make_single_include.sh makes it from the
    working tree (the committed one is a generated file). None if that fails."""
    d = os.path.join(VERIF, "build", "single-" + h)
    if not os.path.exists(d + "/xtr/logger.hpp"):
        t = tempfile.mkdtemp(prefix="xtrvp-single-")
        try:
            for n in ("include", "src", "scripts"):
                shutil.copytree(os.path.join(REPO, n), os.path.join(t, n))
            shutil.copy(REPO + "/LICENSE", t)
            os.makedirs(t + "/single_include/xtr")
            r = subprocess.run(["sh", "scripts/make_single_include.sh"], cwd=t, capture_output=True, stdin=subprocess.DEVNULL)
            if not os.path.exists(t + "/single_include/xtr/logger.hpp"):
                return None
            os.makedirs(d + "/xtr", exist_ok=True)
            shutil.copy(t + "/single_include/xtr/logger.hpp", d + "/xtr/logger.hpp.tmp")
            os.rename(d + "/xtr/logger.hpp.tmp", d + "/xtr/logger.hpp")
        except OSError:
            return None
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return d


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h


def lib_sources():
    return sorted(f for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True)
                  if os.path.basename(f) != "xtrctl.cpp")


def headers():
    r = []
    for root, _, files in os.walk(REPO + "/include"):
        r += [os.path.join(root, f) for f in files]
    r += [f for f in glob.glob(REPO + "/src/**/*", recursive=True)
          if os.path.isfile(f) and not f.endswith(".cpp")]
    return r


class BuildError(Exception):
    pass


def compile_one(cmd, out):
    if os.path.exists(out):
        return
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-6000:])
    os.rename(tmp, out)


def build(runs):
    """Builds every binary the runs need. Returns {run index: binary}."""
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    common = tree_hash(headers())
    jobs, links, bins = {}, [], {}
    optional, optlinks = {}, []
    for i, run in enumerate(runs):
        v = VARIANTS[run["variant"]]
        cxx = run.get("cxx", "g++")
        flags = v["flags"] + BASE + ["-D" + d for d in run.get("defs", [])]
        objs = []

        def add(src, extra_files=(), extra_flags=()):
            fl = flags + list(extra_flags)
            h = common.copy()
            h.update(repr((cxx, fl, src)).encode())
            h.update(tree_hash([src] + list(extra_files)).digest())
            out = os.path.join(bdir, "%s-%s.o" % (os.path.basename(src).replace(".cpp", ""), h.hexdigest()[:20]))
            jobs[out] = [cxx] + fl + ["-c", src]
            objs.append(out)
        libfiles = glob.glob(VERIF + "/lib/*")
        # the big translation units first
        for part in range(run.get("parts", 1)):
            add(os.path.join(VERIF, "harness", run["harness"] + ".cpp"),
                libfiles + glob.glob(VERIF + "/harness/*.hpp"), ["-DVP_PART=%d" % part])
        add(os.path.join(VERIF, "lib", "engine.cpp"), libfiles)
        for s in lib_sources():
            add(s)
        h = hashlib.sha256(repr((objs, v["link"], run.get("link", []))).encode()).hexdigest()[:20]
        out = os.path.join(bdir, "%s-%s-%s.bin" % (run["harness"], run["variant"], h))
        links.append(([cxx] + v["link"] + ["-pthread"] + objs + run.get("link", []) + ["-lfmt", "-luring", "-lpthread"], out))
        bins[i] = out
        if run.get("xtrctl"):
            h = common.copy()
            src = REPO + "/src/xtrctl.cpp"
            h.update(repr((cxx, flags)).encode()); h.update(tree_hash([src]).digest())
            o = os.path.join(bdir, "xtrctl-%s.o" % h.hexdigest()[:20])
            jobs[o] = [cxx] + flags + ["-c", src]
            # the tool's own link: its object and the library
            libobjs = objs[run.get("parts", 1) + 1:]
            x = os.path.join(bdir, "xtrctl-%s.bin" % hashlib.sha256(repr((o, libobjs)).encode()).hexdigest()[:20])
            links.append(([cxx] + v["link"] + ["-pthread", o] + libobjs + ["-lfmt", "-luring", "-lpthread"], x))
            run["xtrctl_bin"] = x
        if run.get("drivers"):
            drv = VERIF + "/driver/drv25.cpp"
            run["driver_bins"] = []
            for c in CONFIGS:
                fl = ["-g1", "-std=c++20", "-Wno-psabi", "-pthread"] + c["flags"]
                srcs = lib_sources()
                if c.get("single"):
                    hs = tree_hash(headers() + srcs + glob.glob(REPO + "/scripts/*")).hexdigest()[:20]
                    d = single_header(hs)
                    if d is None:
                        run.setdefault("skipped", []).append(c["label"] + ": the single header cannot be generated")
                        continue
                    fl += ["-DVP_SINGLE=1", "-I" + d]
                    srcs = []
                else:
                    fl += ["-DXTR_FUNC=", "-I" + REPO + "/include"]
                dobjs = []
                for src, extra in [(drv, ["-DVP_TU=0"]), (drv, ["-DVP_TU=1"])] + [(x, []) for x in srcs]:
                    h = common.copy()
                    h.update(repr((c["cxx"], fl, extra, src)).encode()); h.update(tree_hash([src]).digest())
                    o = os.path.join(bdir, "%s-%s.o" % (os.path.basename(src).replace(".cpp", ""), h.hexdigest()[:20]))
                    (jobs if c["label"] == "debug" else optional)[o] = [c["cxx"]] + fl + extra + ["-c", src]
                    dobjs.append(o)
                x = os.path.join(bdir, "drv25-%s-%s.bin" % (c["label"], hashlib.sha256(repr((c["cxx"], dobjs)).encode()).hexdigest()[:20]))
                (links if c["label"] == "debug" else optlinks).append(
                    ([c["cxx"], "-pthread"] + dobjs + ["-lfmt"] + (["-luring"] if c["uring"] else []) + ["-lpthread"], x))
                run["driver_bins"].append((c, x))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        opt = [ex.submit(compile_one, c, out) for out, c in optional.items()]
        for f in [ex.submit(compile_one, c, out) for out, c in jobs.items()]:
            f.result()
        for f in [ex.submit(compile_one, c, out) for c, out in links]:
            f.result()
        errors = ""
        for f in opt:
            try:
                f.result()
            except BuildError as e:
                errors += str(e) + "\n"
        for c, out in optlinks:
            if all(os.path.exists(o) for o in c if o.endswith(".o")):
                try:
                    compile_one(c, out)
                except BuildError as e:
                    errors += str(e) + "\n"
    for run in runs:
        for c, x in run.get("driver_bins", []):
            if not os.path.exists(x):
                run.setdefault("skipped" if c.get("optional") else "broken", []).append(c["label"] + ": does not build")
                run["errors"] = errors
        run["driver_bins"] = [(c, x) for c, x in run.get("driver_bins", []) if os.path.exists(x)]
    return bins


def prune():
    """Keeps the build cache from growing without bound."""
    bdir = os.path.join(VERIF, "build")
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(bdir + "/*")), reverse=True)
    total = 0
    for _, sz, f in fs:
        total += sz
        if total > 6 << 30:
            try:
                os.unlink(f)
            except OSError:
                pass


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--only", help="run only the harness runs with this label")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pids = sorted(PROPS) if a.property == "all" else [a.property]
    if a.build_only:
        runs = [r for p in pids for r in PROPS[p]["runs"]]
        build(runs)
        return 0
    pid = a.property
    thorough = a.tier == "thorough"
    runs = [dict(r) for r in PROPS[pid]["runs"]]
    if a.only:
        runs = [r for r in runs if r.get("label", r["variant"]) == a.only]
    try:
        bins = build(runs)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e), file=sys.stderr)
        return 2
    build_s = time.time() - t0
    for b in bins.values():
        os.utime(b)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], runs=[])
    violations, rc = 0, 0
    scratch = tempfile.mkdtemp(prefix="xtrvp-%s-" % pid)
    try:
        for i, run in enumerate(runs):
            label = run.get("label", run["variant"])
            cases = int((run["cases_t"] if thorough else run["cases"]) * a.scale)
            budget = (run.get("budget_t", 600) if thorough else run.get("budget", 60)) * max(1.0, a.scale)
            sd = os.path.join(scratch, "r%d" % i)
            os.makedirs(sd + "/tmp")
            out = os.path.join(sd, "out.json")
            replay = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, label, a.seed))
            if os.path.exists(replay) and not a.replay:
                os.unlink(replay)
            env = dict(os.environ)
            env.update(TMPDIR=sd + "/tmp", XDG_RUNTIME_DIR=sd + "/tmp", LC_ALL="C.UTF-8",
                       ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=12:hard_rss_limit_mb=6000" % run.get("leaks", 0),
                       UBSAN_OPTIONS="print_stacktrace=1",
                       TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:suppressions=" + VERIF + "/lib/tsan.supp")
            env.update(run.get("env", {}))
            if "xtrctl_bin" in run:
                env["VP_XTRCTL"] = run["xtrctl_bin"]
            if run.get("broken"):
                # the reference configuration builds, these do not
                with open(replay, "w") as f:
                    json.dump(dict(property=pid, message="; ".join(run["broken"]), compiler_output=run["errors"]), f, indent=1)
                print("; ".join(run["broken"]) + "\n" + run["errors"][:2000])
            if run.get("driver_bins"):
                env["VP_DRIVERS"] = "|".join("%s;%d;%d;%s" % (c["label"], c["exc"], c["uring"], x) for c, x in run["driver_bins"])
            cmd = [bins[i], "--seed", str(a.seed * 1000003 + run.get("salt", i)), "--cases", str(cases),
                   "--budget", str(budget), "--scratch", sd, "--out", out, "--replay-out", replay]
            if run.get("workers"):
                cmd += ["--workers", str(run["workers"])]
            if thorough:
                cmd.append("--thorough")
            if os.environ.get("VP_SHRINK"): # used by tools/mutate.py
                cmd += ["--shrink", os.environ["VP_SHRINK"]]
            if a.v:
                cmd.append("-v")
            if a.replay:
                cmd += ["--replay", a.replay]
            if run["variant"] == "tsan":
                if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
                    cmd = ["setarch", "-R"] + cmd
            r = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL)
            if a.replay:
                rc = max(rc, r.returncode)
                if r.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (pid, a.replay))
                continue
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print("error: %s ended with status %d" % (bins[i], r.returncode), file=sys.stderr)
                return 2
            d = json.load(open(out))
            if d["infra"] >= 50:
                print("error: environment problems: " + d["infra_msg"], file=sys.stderr)
                return 2
            cov["evaluations"] += d["evaluations"]
            cov["distinct_nontrivial"] += d["distinct_nontrivial"]
            if d["rule"] not in cov["rule"]:
                cov["rule"] = (cov["rule"] + " | " if cov["rule"] else "") + d["rule"]
            cov["samples"] += d["samples"][:3]
            cov["runs"].append(dict(label=label, variant=run["variant"], defs=run.get("defs", []),
                                    evaluations=d["evaluations"], distinct_nontrivial=d["distinct_nontrivial"],
                                    classes=d["labels"], infra=d["infra"], unconfirmed=d["unconfirmed"],
                                    budget_hit=d["budget_hit"], wall_s=d["wall_s"]))
            if run.get("skipped"):
                cov["runs"][-1]["configurations_left_out"] = run["skipped"]
            if d["violation"] or run.get("broken"):
                violations += 1
                rc = 1
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if a.replay:
        return min(rc, 1)
    for k in known_findings(pid):
        print(k)
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=a.seed,
              level=PROPS[pid].get("level", "exploration"), coverage=cov,
              assumptions=PROPS[pid].get("assumptions", []), build_s=round(build_s, 1),
              wall_s=round(time.time() - t0, 1), violations=violations)
    tmp = VERIF + "/evidence/.%s.tmp" % pid
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, VERIF + "/evidence/%s.json" % pid)
    prune()
    print("%s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs%s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], build_s, time.time() - t0,
        "" if rc == 0 else " -- VIOLATED"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
