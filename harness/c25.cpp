// C25: the build configuration of the library does not change its behaviour.
#include "cmd.hpp"

#include <csignal>
#include <liburing.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/wait.h>

extern char** environ;

using namespace vp;

vp::Info vp_info{
    "C25",
    "a case is a program of up to 70 operations (1-2 loggers over every kind of file back-end, up to 6 sinks: creation, registration, copies, closing, levels, names, log statements of 10 shapes "
    "in two translation units and a second thread, sync, status/level/reopen commands, rotation, unusable command paths, and possibly a last operation that fails) executed by a driver built "
    "from the tree in each build configuration; the results and every file of every configuration must equal the model. Non-trivial: at least one message was expected in a file and two "
    "configurations were run.",
    40, 4};

namespace
{
    struct config { std::string label, bin; bool exc, uring; };
    std::vector<config> configs;
    bool have_uring = false;
}

void vp_worker_init()
{
    // "label;exc;uring;path" separated by '|'
    const char* e = std::getenv("VP_DRIVERS");
    if (!e) { std::fprintf(stderr, "VP_DRIVERS is not set\n"); std::_Exit(3); }
    std::stringstream ss(e);
    std::string item;
    while (std::getline(ss, item, '|'))
    {
        std::stringstream is(item);
        std::string l, x, u, p;
        std::getline(is, l, ';'); std::getline(is, x, ';'); std::getline(is, u, ';'); std::getline(is, p);
        configs.push_back({l, p, x == "1", u == "1"});
    }
    const rlimit rl{0, 0}; // no core files
    ::setrlimit(RLIMIT_CORE, &rl);
    io_uring r;
    if (::io_uring_queue_init(8, &r, 0) == 0) { have_uring = true; ::io_uring_queue_exit(&r); }
}

namespace
{
    std::string hex(std::string_view s)
    {
        if (s.empty()) return "-";
        std::string r;
        char b[3];
        for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x", c); r += b; }
        return r;
    }

    struct point { int x, y; };

    struct msink { bool exists = false, open = false; unsigned logger = 0; std::string name; int level = 4; std::size_t since_sync = 100000; };
    struct mlogger { bool exists = false, usable_cmd = false; unsigned kind = 0, gen = 0; std::string file, cmd; int deflevel = 4; };

    // name -> lines (without the source position)
    using contents = std::map<std::string, std::vector<std::string>>;

    std::string level_char(int l) { static const char* c[] = {"", "F", "E", "W", "I", "D"}; return c[l]; }

    struct outcome { int status; std::string results, err; std::map<std::string, std::string> files; };

    outcome run(const config& c, const std::string& dir, const std::string& script)
    {
        std::filesystem::remove_all(dir);
        std::filesystem::create_directory(dir);
        posix_spawn_file_actions_t fa;
        ::posix_spawn_file_actions_init(&fa);
        ::posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
        ::posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
        ::posix_spawn_file_actions_addopen(&fa, 2, (dir + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        ::posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
        const std::string res = dir + ".res";
        ::unlink(res.c_str());
        char* av[] = {const_cast<char*>(c.bin.c_str()), const_cast<char*>(script.c_str()), const_cast<char*>(res.c_str()), nullptr};
        pid_t pid;
        if (::posix_spawn(&pid, c.bin.c_str(), &fa, nullptr, av, environ) != 0) infra("cannot run the driver");
        ::posix_spawn_file_actions_destroy(&fa);
        int st = 0;
        const auto t0 = std::chrono::steady_clock::now();
        for (;;)
        {
            const pid_t r = ::waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            const auto waited = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (waited > 30)
            {
                ::kill(pid, SIGKILL);
                ::waitpid(pid, &st, 0);
                failf("configuration %s: the program does not end (30 s); results so far: %s", c.label.c_str(), quote(read_file(res), 600).c_str());
            }
            ::usleep(waited < 0.02 ? 300 : 2000);
        }
        outcome o{st, read_file(res), read_file(dir + ".err"), {}};
        for (auto& f : std::filesystem::directory_iterator(dir))
            if (f.is_regular_file()) o.files[f.path().filename().string()] = read_file(f.path().string());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) infra("driver: " + o.err);
        std::filesystem::remove_all(dir);
        return o;
    }
}

template<> struct fmt::formatter<point>
{
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const point& p, C& c) const { return fmt::format_to(c.out(), "({}, {})", p.x, p.y); }
};

void vp_case(Src& src, Ctx& ctx)
{
    std::string script, expect; // the script and the expected results
    std::map<std::string, contents> files;
    std::array<mlogger, 2> lg;
    std::array<msink, 6> sk;
    unsigned names = 0, fileno = 0;
    std::size_t messages = 0;
    std::string bad_stderr; // must be in the error output
    bool any_stderr = false;

    auto emit = [&](const std::string& op, const std::string& args = "") {
        script += op + " " + args + "\n";
        expect += op + "\n";
        ctx.note("%s %s", op.c_str(), args.c_str());
    };
    auto new_name = [&] { static const char* st[] = {"net", "Disk", "db.x", "a-b"}; return std::string(st[src.draw(4)]) + std::to_string(names++); };
    auto sync_all = [&](unsigned l) {
        for (unsigned k = 0; k < sk.size(); ++k)
            if (sk[k].exists && sk[k].open && sk[k].logger == l) { emit("sync", std::to_string(k)); sk[k].since_sync = 0; }
    };
    auto make_logger = [&](unsigned i) {
        auto& l = lg[i];
        l = {};
        l.exists = true;
        l.kind = unsigned(src.draw(6));
        if (!have_uring && l.kind != 2) l.kind = 2;
        l.file = "f" + std::to_string(fileno++);
        files[l.file];
        switch (src.weighted({3, 4, 1}))
        {
        case 0: l.cmd = ""; break;
        case 1: l.cmd = "c" + std::to_string(fileno++); l.usable_cmd = true; break;
        case 2: l.cmd = "nodir/c"; any_stderr = true; break;
        }
        std::string a = std::to_string(i) + " " + std::to_string(l.kind) + " " + hex(l.file) + " " + hex(l.cmd);
        if (l.kind == 2) a += " " + std::to_string(src.pick<std::size_t>({65536, 1, 17, 512}));
        if (l.kind == 5) a += " " + std::to_string(src.pick<std::size_t>({65536, 9, 64, 512})) + " " + std::to_string(src.pick<std::size_t>({1024, 2, 4}));
        emit("logger", a);
    };
    auto pick_logger = [&]() -> unsigned { return lg[1].exists && (src.draw(2) || !lg[0].exists) ? 1u : 0u; };
    auto text = [&] {
        std::string s = src.chance(200) ? src.anybytes(src.size(40)) : src.printable(src.size(60));
        if (src.chance(60)) s += std::string(src.size(700), 'z');
        std::erase(s, '\0');
        return s;
    };
    auto do_log = [&](unsigned k, bool fatal) {
        auto& s = sk[k];
        const std::string a = text(), b = text();
        const long long i = src.chance(300) ? (long long)src.u64() : (long long)src.range(-5, 300), d = src.range(-4000, 4000);
        const bool t = src.draw(2);
        const unsigned shape = unsigned(src.draw(10)), where = unsigned(src.weighted({4, 4, 1}));
        const int lv = fatal ? 1 : int(src.range(2, 5));
        unsigned fam = unsigned(src.draw(5));
        const std::size_t size = 3 * (a.size() + b.size()) + 300; // of the record, generous
        if ((fam == 1 || fam == 3) && s.since_sync + size > 3900) fam = fam == 1 ? 0 : 2;
        s.since_sync += size;
        emit("log", std::to_string(k) + " " + std::to_string(where) + " " + std::to_string(fam) + " " + std::to_string(lv) + " " + std::to_string(shape) + " " +
            hex(a) + " " + hex(b) + " " + std::to_string(i) + " " + std::to_string(d) + " " + (t ? "1" : "0"));
        const std::string A = sanitized(a), B = sanitized(b);
        std::string m;
        switch (shape)
        {
        case 0: m = "nothing"; break;
        case 1: m = fmt::format("{}", i); break;
        case 2: m = A; break;
        case 3: m = A + " " + B; break;
        case 4: m = fmt::format("{:.3f} {:#x}", double(d) / 16, unsigned(i)); break;
        case 5: m = fmt::format("{} {}", t, char('a' + unsigned(i) % 26)); break;
        case 6: m = fmt::format("{}/{}", A, short(i)); break;
        case 7: m = A; break;
        case 8: m = fmt::format("{} {:>20} {}", point{int(i), 7}, "", A); break; // B below
        default: m = fmt::format("{} {} {} {}", A, i, B, double(d) / 16); break;
        }
        if (shape == 8)
        {
            // the width applies to the sanitized text
            m = fmt::format("({}, 7) {:>20} {}", int(i), fmt::string_view(B), A);
        }
        const bool plain = !fatal && fam == 4;
        const int l2 = plain ? 4 : lv;
        if (!plain && s.level < l2) return; // XTR_LOG ignores the level
        const std::string ts = fatal || fam == 0 || fam == 1 || fam == 4 ? fixed_ts : fam == 2 ? "42" : B;
        files[lg[s.logger].file][s.name].push_back(level_char(l2) + " " + ts + " " + s.name + " |" + m);
        ++messages;
    };

    if (src.chance(250)) { emit("parse", hex("debug")); expect += "parsed 5\n"; }
    if (src.chance(250)) { emit("defpath"); expect += "different 1\n"; }
    const unsigned nlog = unsigned(src.range(1, 2));
    for (unsigned i = 0; i < nlog; ++i) make_logger(i);
    std::size_t n = 0;
    while (src.more(n, 25, 70))
    {
        ++n;
        const unsigned k = unsigned(src.draw(6)), l = pick_logger();
        if (!lg[l].exists) { make_logger(l); continue; }
        auto& s = sk[k];
        switch (src.weighted({20, 6, 4, 3, 3, 3, 3, 3, 3, 4, 4, 3, 1, 2, 1}))
        {
        case 0:
            if (s.exists && s.open) { do_log(k, false); break; }
            [[fallthrough]];
        case 1:
            if (s.exists)
            {
                if (s.open) { do_log(k, false); break; }
                s.open = true; s.logger = l; s.name = new_name(); s.since_sync = 100000;
                emit("reg", std::to_string(k) + " " + std::to_string(l) + " " + hex(s.name));
            }
            else
            {
                s = {true, true, l, new_name(), lg[l].deflevel, 100000};
                emit("get", std::to_string(k) + " " + std::to_string(l) + " " + hex(s.name));
            }
            break;
        case 2:
            if (s.exists) { emit("open", std::to_string(k)); expect += s.open ? "is_open 1\n" : "is_open 0\n"; break; }
            s = {true, false, 0, "", int(src.range(0, 5)), 100000};
            emit("new", std::to_string(k) + " " + std::to_string(s.level));
            break;
        case 3:
            {
                const unsigned from = unsigned(src.draw(6));
                if (s.exists || !sk[from].exists) break;
                s = sk[from];
                s.since_sync = 100000;
                sk[from].since_sync += 300;
                emit("copy", std::to_string(k) + " " + std::to_string(from));
                // the copy has the name of the original; give it one of its own
                if (s.open) { s.name = new_name(); emit("name", std::to_string(k) + " " + hex(s.name)); }
                break;
            }
        case 4: if (s.exists) { emit("close", std::to_string(k)); s.open = false; } break;
        case 5: if (s.exists) { emit("del", std::to_string(k)); s = {}; } break;
        case 6: if (s.exists) { s.level = int(src.range(0, 5)); emit("setlevel", std::to_string(k) + " " + std::to_string(s.level)); } break;
        case 7: if (s.exists) { emit("level", std::to_string(k)); expect += "level " + std::to_string(s.level) + "\n"; } break;
        case 8: if (s.exists && s.open) { s.name = new_name(); emit("name", std::to_string(k) + " " + hex(s.name)); } break;
        case 9: if (s.exists && s.open) { emit("sync", std::to_string(k)); s.since_sync = 0; } break;
        case 10: // status or level command
            {
                auto& L = lg[l];
                if (L.cmd.empty()) break;
                sync_all(l);
                const auto type = xd::pattern_type_t(src.draw(4));
                const bool ic = src.chance(300), set = src.draw(2);
                static const char* pats[] = {"net", "^d", "*1", "*", "[", "N.t", "b$", "?isk*", "x"};
                const std::string pat = pats[src.draw(9)];
                const int nl = int(src.range(0, 5));
                emit(set ? "cmdlevel" : "status", hex(L.cmd) + (set ? " " + std::to_string(nl) : "") + " " + std::to_string(int(type)) + (ic ? " 1 " : " 0 ") + hex(pat));
                if (!L.usable_cmd) { expect += "cannot connect\n"; break; }
                std::vector<std::string> infos;
                bool invalid = false;
                for (auto& x : sk)
                    if (x.exists && x.open && x.logger == l)
                    {
                        const int m = ref_match(type, ic, pat, x.name);
                        if (m < 0) { invalid = true; continue; }
                        if (!m) continue;
                        if (set) x.level = nl;
                        else infos.push_back("info " + x.name + " " + std::to_string(x.level));
                    }
                if (ref_match(type, ic, pat, "x") < 0) invalid = true;
                if (invalid) expect += "error *\n";
                else if (set) expect += "success\n";
                else
                {
                    std::sort(infos.begin(), infos.end());
                    for (auto& x : infos) expect += x + "\n";
                }
                break;
            }
        case 11: // rotation
            {
                auto& L = lg[l];
                if (!L.usable_cmd) break;
                sync_all(l);
                const std::string to = L.file + ".old" + std::to_string(fileno++);
                const std::string path = L.file;
                emit("rename", hex(path) + " " + hex(to));
                emit("reopen", hex(L.cmd));
                expect += "success\n";
                files[to] = std::move(files[path]);
                files[path] = {};
                break;
            }
        case 12:
            {
                for (unsigned j = 0; j < 6; ++j)
                    if (sk[j].exists && sk[j].open && sk[j].logger == l) { emit("close", std::to_string(j)); sk[j].open = false; }
                emit("unlogger", std::to_string(l));
                lg[l].exists = false;
                break;
            }
        case 13: lg[l].deflevel = int(src.range(0, 5)); emit("deflevel", std::to_string(l) + " " + std::to_string(lg[l].deflevel)); break;
        case 14:
            {
                auto& L = lg[l];
                if (src.chance(300) && !L.usable_cmd) { L.cmd = "nodir/d"; any_stderr = true; }
                else if (L.cmd.empty() || L.usable_cmd) { L.cmd = "c" + std::to_string(fileno++); L.usable_cmd = true; }
                else break;
                emit("cmdpath", std::to_string(l) + " " + hex(L.cmd));
                break;
            }
        }
    }
    // What is not synced need not be written when the program aborts
    auto settle = [&] {
        for (unsigned l = 0; l < 2; ++l)
        {
            if (!lg[l].exists) continue;
            bool open = false;
            for (auto& x : sk) open |= x.exists && x.open && x.logger == l;
            if (open) sync_all(l);
            else { emit("unlogger", std::to_string(l)); lg[l].exists = false; }
        }
    };
    // how the program ends: 0 normally, 1 a fatal message, 2 an error that throws
    unsigned ending = unsigned(src.weighted({5, 1, 2}));
    std::string what;
    if (ending == 1)
    {
        int open = -1;
        for (unsigned k = 0; k < 6; ++k) if (sk[k].exists && sk[k].open) open = int(k);
        if (open < 0) ending = 0;
        else
        {
            settle();
            do_log(unsigned(open), true);
        }
    }
    if (ending == 2)
    {
        settle();
        static const char* wh[] = {"Failed to open `nodir/log': No such file or directory", "Invalid log level",
            "xtr::detail::fd_storage_base::fd_storage_base: dup(2) failed: Bad file descriptor", "Failed to open `nodir/log': No such file or directory"};
        const unsigned kind = unsigned(src.draw(4));
        what = wh[kind];
        emit("fatal", std::to_string(kind) + " " + hex(kind == 1 ? "bogus" : "nodir/log"));
    }
    script += "end\n";

    const std::string sf = ctx.dir() + "/script";
    { std::ofstream f(sf, std::ios::binary); f << script; }

    // compare a configuration with the model
    auto verify = [&](const config& c, const outcome& o) {
        const char* L = c.label.c_str();
        const bool aborts = ending == 1 || (ending == 2 && !c.exc);
        if (aborts) VP_CHECK(WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGABRT, "configuration %s: the program should abort, status %x, error output %s", L, o.status, quote(o.err).c_str());
        else VP_CHECK(o.status == 0, "configuration %s: ended with status %x; results %s, error output %s", L, o.status, quote(o.results, 500).c_str(), quote(o.err, 600).c_str());
        std::string want = expect;
        if (ending == 2 && c.exc) want += "caught " + what + "\n";
        if (!aborts) want += "end\n";
        auto wl = split_lines(want), gl = split_lines(o.results);
        // sink information may come in any order
        for (auto b = gl.begin(); b != gl.end();)
        {
            if (b->compare(0, 5, "info ") != 0) { ++b; continue; }
            auto e = b;
            while (e != gl.end() && e->compare(0, 5, "info ") == 0) ++e;
            std::sort(b, e);
            b = e;
        }
        for (std::size_t i = 0; i < std::max(wl.size(), gl.size()); ++i)
        {
            if (i < wl.size() && i < gl.size() && wl[i] == "error *" && gl[i].compare(0, 6, "error ") == 0) continue;
            VP_CHECK(i < wl.size() && i < gl.size() && wl[i] == gl[i], "configuration %s: result %zu is %s, expected %s", L, i,
                i < gl.size() ? quote(gl[i]).c_str() : "(missing)", i < wl.size() ? quote(wl[i]).c_str() : "(none)");
        }
        if (ending == 2 && !c.exc)
            VP_CHECK(o.err.find(what) != std::string::npos, "configuration %s: error output %s does not contain %s", L, quote(o.err).c_str(), what.c_str());
        else if (!any_stderr) VP_CHECK(o.err.empty(), "configuration %s: unexpected error output %s", L, quote(o.err).c_str());
        if (any_stderr) VP_CHECK(!o.err.empty(), "configuration %s: nothing was reported for an unusable command path", L);
        VP_CHECK(o.files.size() == files.size(), "configuration %s: %zu files, expected %zu", L, o.files.size(), files.size());
        for (auto& [name, cont] : files)
        {
            auto f = o.files.find(name);
            VP_CHECK(f != o.files.end(), "configuration %s: file %s is missing", L, name.c_str());
            VP_CHECK(f->second.empty() || f->second.back() == '\n', "configuration %s: file %s ends within a line", L, name.c_str());
            contents got;
            for (auto& ln : split_lines(f->second))
            {
                // "L TS NAME drv25.cpp:LINE: MSG", where TS may contain anything (printable)
                bool ok = false;
                for (auto& [nm, ls] : cont)
                {
                    const auto pos = got[nm].size();
                    if (pos >= ls.size()) continue;
                    const std::string& w = ls[pos];
                    const auto bar = w.find(" " + nm + " |") + nm.size() + 2;
                    const std::string head = w.substr(0, bar), msg = w.substr(bar + 1);
                    if (ln.compare(0, head.size(), head) != 0) continue;
                    const std::string rest = ln.substr(head.size());
                    unsigned no; int used = 0;
                    if (std::sscanf(rest.c_str(), "drv25.cpp:%u: %n", &no, &used) != 1 || used == 0) continue;
                    // %n after a blank also skips blanks that belong to the message
                    const auto colon = rest.find(": ");
                    if (rest.substr(colon + 2) != msg) continue;
                    got[nm].push_back(ln);
                    ok = true;
                    break;
                }
                if (!ok)
                {
                    std::string all;
                    for (auto& [nm, ls] : cont) if (got[nm].size() < ls.size()) all += quote(ls[got[nm].size()], 200) + " ";
                    failf("configuration %s: file %s: the line %s is not the next message of any sink (%s)", L, name.c_str(), quote(ln).c_str(), all.c_str());
                }
            }
            for (auto& [nm, ls] : cont)
                VP_CHECK(got[nm].size() == ls.size(), "configuration %s: file %s: sink %s: %zu of %zu messages, missing %s", L, name.c_str(), nm.c_str(), got[nm].size(), ls.size(),
                    quote(ls[got[nm].size()], 200).c_str());
        }
    };

    // the reference configuration and a selection of the others
    unsigned run_count = 0;
    const bool all = ctx.thorough() || src.chance(100);
    for (std::size_t i = 0; i < configs.size(); ++i)
    {
        if (!all && !src.chance(400)) continue;
        if (configs[i].label == "poll" && !src.chance(250)) continue;
        const outcome o = run(configs[i], ctx.dir() + "/w", sf);
        verify(configs[i], o);
        ctx.label(("ran_" + configs[i].label).c_str());
        ++run_count;
    }
    if (ending == 1) ctx.label("ends_with_fatal");
    if (ending == 2) ctx.label("ends_with_error");
    if (any_stderr) ctx.label("unusable_command_path");
    ctx.nontrivial(messages > 0 && run_count >= 2);
}
