// C22: the command socket exists exactly where and while it should.
#include "cmd.hpp"

#include <grp.h>
#include <sys/wait.h>

using namespace vp;

vp::Info vp_info{
    "C22",
    "a case is one of: a history of up to 20 steps over 1-3 loggers (created and destroyed; command paths in the file system and abstract, of generated lengths around the limit, already in use by a file, "
    "directory, stale socket or another logger, in missing directories, replaced by others or by themselves, null), where after every step each path ever used must accept connections and answer if and only if the model "
    "says so, exist as a file if and only if it should, be untouched if it was there before, and errors must be reported exactly for unusable paths while logging goes on; or generated environments "
    "(XDG_RUNTIME_DIR and TMPDIR set, unset, missing, not writable, run as root and as an unprivileged user) with default paths taken by several threads. Non-trivial: some path was replaced, refused or removed, "
    "or more than one default path was taken.",
    40, 4};

void vp_worker_init() {}

// /run/user/<uid> cannot be created here, so whether it is writable is pretended
namespace
{
    int g_run_writable = -1;       // -1 as it is
    std::set<std::string>* g_asked; // names under /run/user that were tested
    std::mutex g_asked_mutex;
}

extern "C"
{
    int __real_access(const char*, int);
    int __wrap_access(const char* p, int mode)
    {
        if (g_asked && std::strncmp(p, "/run/user", 9) == 0)
        {
            std::scoped_lock l{g_asked_mutex};
            g_asked->insert(p);
            if (g_run_writable >= 0)
            {
                if (g_run_writable) return 0;
                errno = EACCES;
                return -1;
            }
        }
        return __real_access(p, mode);
    }
}

namespace
{
    struct err_capture
    {
        int saved, fd;
        std::string path;
        std::size_t pos = 0;
        explicit err_capture(const std::string& p) : path(p)
        {
            saved = ::dup(2);
            fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
            ::dup2(fd, 2);
            ::close(fd);
        }
        ~err_capture() { ::dup2(saved, 2); ::close(saved); ::unlink(path.c_str()); }
        std::string fresh() { const std::string s = read_file(path); std::string r = s.substr(std::min(pos, s.size())); pos = s.size(); return r; }
    };

    enum class kind { file, abstract };

    // ------------------------------------------------------------ histories
    void history_case(Src& src, Ctx& ctx)
    {
        const std::string d = ctx.dir() + "/c";
        std::filesystem::remove_all(d);
        std::filesystem::create_directories(d);
        // short relative access to long path limits: paths are built to a total length
        struct lg { std::unique_ptr<xtr::logger> l; std::unique_ptr<xtr::sink> s; std::shared_ptr<mem_state> st; std::string path; unsigned n = 0; };
        std::vector<lg> L;
        std::set<std::string> used;             // every path ever given
        std::map<std::string, std::string> pre; // what was at a path before: its content
        err_capture err(ctx.dir() + "/stderr");
        unsigned seq = 0;
        bool changed = false, refused = false, abstract = false, longp = false;
        static unsigned long uniq = 0;

        auto in_use = [&](const std::string& p) { for (auto& x : L) if (x.path == p) return true; return false; };
        auto new_path = [&](bool& usable, const lg* self) -> std::string {
            usable = true;
            switch (src.weighted({6, 4, 3, 2, 2, 2, 2, 1}))
            {
            case 0: return d + "/s" + std::to_string(seq++);
            case 1: abstract = true; return std::string(1, '\0') + "xtrvp-" + std::to_string(::getpid()) + "-" + std::to_string(uniq++) + src.printable(src.draw(30));
            case 2: // around the length limit of 107 characters
            {
                longp = true;
                std::string p = src.chance(300) ? (abstract = true, std::string(1, '\0') + "xtrvp-" + std::to_string(::getpid()) + "-" + std::to_string(uniq++)) : d + "/s" + std::to_string(seq++) + "-";
                const std::size_t n = std::size_t(src.range(104, 112));
                if (p.size() >= n) return p;
                p.append(n - p.size(), 'x');
                usable = n <= 107;
                return p;
            }
            case 3: // a path that was used before
                if (!used.empty())
                {
                    auto it = used.begin();
                    std::advance(it, long(src.draw(used.size())));
                    usable = !in_use(*it) && !pre.count(*it) && it->size() <= 107 && (it->empty() || (*it)[0] == '\0' || std::filesystem::exists(std::filesystem::path(*it).parent_path()));
                    if (self && self->path == *it) usable = true; // replaced by itself
                    return *it;
                }
                return d + "/s" + std::to_string(seq++);
            case 4: // something is there already
            {
                const std::string p = d + "/f" + std::to_string(seq++);
                usable = false;
                const auto k = src.draw(3);
                if (k == 0) { std::ofstream(p) << "precious"; pre[p] = "precious"; }
                else if (k == 1) { std::filesystem::create_directory(p); pre[p] = "<dir>"; }
                else
                {
                    const int fd = ::socket(AF_LOCAL, SOCK_SEQPACKET, 0);
                    sockaddr_un a{};
                    a.sun_family = AF_LOCAL;
                    std::snprintf(a.sun_path, sizeof a.sun_path, "%s", p.c_str());
                    if (::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) infra("bind");
                    ::close(fd);
                    pre[p] = "<socket>";
                }
                return p;
            }
            case 5: usable = false; return d + "/missing" + std::to_string(seq++) + "/s";
            case 6: // another logger's
                for (auto& x : L) if (&x != self && !x.path.empty()) { usable = false; return x.path; }
                return d + "/s" + std::to_string(seq++);
            default: usable = false; return d + "/" + std::string(src.size(300) + 110, 'y');
            }
        };
        auto check = [&] {
            std::set<std::string> cur;
            for (auto& x : L) if (!x.path.empty()) cur.insert(x.path);
            for (auto& p : used)
            {
                const bool want = cur.count(p);
                client c;
                const int e = c.try_connect(p);
                if (want && e) failf("the command socket %s cannot be connected to: %s", quote(p).c_str(), std::strerror(e));
                if (!want && !e) failf("the command socket %s can be connected to, but no logger uses it now", quote(p).c_str());
                if (p.empty() || p[0] != '\0')
                {
                    struct stat sb;
                    const bool there = p.size() < 4000 && ::lstat(p.c_str(), &sb) == 0;
                    auto it = pre.find(p);
                    if (it != pre.end())
                    {
                        const bool same = there && (it->second == "<dir>" ? S_ISDIR(sb.st_mode) : it->second == "<socket>" ? S_ISSOCK(sb.st_mode) : S_ISREG(sb.st_mode) && read_file(p) == it->second);
                        if (!same) failf("what was at %s before was changed or removed", quote(p).c_str());
                    }
                    else if (there != want) failf("%s %s", quote(p).c_str(), there ? "was left behind" : "does not exist");
                }
            }
            // nothing else appeared in the directory
            for (auto& e : std::filesystem::directory_iterator(d))
                if (!used.count(e.path().string()) && !pre.count(e.path().string())) failf("unexpected file %s", e.path().c_str());
            for (auto& x : L)
            {
                XTR_LOG(*x.s, "{}", x.n++);
                x.s->sync();
                const auto lines = split_lines(x.st->text());
                if (lines.size() != x.n) failf("%zu lines were logged, expected %u", lines.size(), x.n);
            }
        };
        auto answered = [&](lg& x) {
            // the request is answered by this very logger
            if (x.path.empty()) return;
            xd::frame<xd::status> f;
            f->pattern = make_pattern(xd::pattern_type_t::none, false, "");
            const auto r = request(x.path, f);
            if (r.size() != 1 || r[0].kind != rk::info || fmt::format("L{}", static_cast<void*>(x.st.get())) != r[0].info.name)
                failf("a request to %s was not answered by its logger", quote(x.path).c_str());
        };
        std::size_t n = 0;
        while (src.more(n++, 10, 20))
        {
            const auto op = L.empty() ? 0 : src.weighted({3, 5, 2});
            (void)err.fresh();
            if (op == 0)
            {
                if (L.size() >= 3) continue;
                lg x;
                bool usable = true;
                std::string p;
                if (!src.chance(200)) p = new_path(usable, nullptr);
                x.st = std::make_shared<mem_state>();
                ctx.note("create at %s%s", quote(p).c_str(), usable ? "" : " (unusable)");
                x.l = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(x.st, 4096), fixed_clock(), p);
                x.s = std::make_unique<xtr::sink>();
                x.l->register_sink(*x.s, fmt::format("L{}", static_cast<void*>(x.st.get())));
                x.s->sync();
                if (!p.empty()) used.insert(p);
                x.path = usable ? p : "";
                const std::string e = err.fresh();
                if (!usable && e.empty()) failf("no error was reported for the unusable path %s", quote(p).c_str());
                if (usable && !e.empty()) failf("an error was reported for the path %s: %s", quote(p).c_str(), quote(e).c_str());
                refused |= !usable;
                L.push_back(std::move(x));
                answered(L.back());
            }
            else if (op == 1)
            {
                lg& x = L[src.draw(L.size())];
                bool usable;
                std::string p = new_path(usable, &x);
                if (x.path.empty() && src.chance(150)) { p.clear(); usable = true; }
                ctx.note("replace %s by %s%s", quote(x.path).c_str(), quote(p).c_str(), usable ? "" : " (unusable)");
                x.l->set_command_path(p);
                if (!p.empty()) used.insert(p);
                x.path = usable ? p : "";
                const std::string e = err.fresh();
                if (!usable && e.empty()) failf("no error was reported for the unusable path %s", quote(p).c_str());
                if (usable && !e.empty()) failf("an error was reported for the path %s: %s", quote(p).c_str(), quote(e).c_str());
                changed = true;
                refused |= !usable;
                answered(x);
            }
            else
            {
                const auto i = src.draw(L.size());
                ctx.note("destroy the logger at %s", quote(L[i].path).c_str());
                if (src.chance(500)) L[i].s->close();
                L[i].s.reset();
                L[i].l.reset();
                L.erase(L.begin() + long(i));
                changed = true;
            }
            check();
        }
        for (auto& x : L) { x.s.reset(); x.l.reset(); }
        L.clear();
        check();
        ctx.nontrivial(changed || refused);
        if (refused) ctx.label("refused");
        if (changed) ctx.label("replaced_or_removed");
        if (abstract) ctx.label("abstract");
        if (longp) ctx.label("length_limit");
        std::filesystem::remove_all(d);
    }

    // ------------------------------------------------------------ default paths
    void default_case(Src& src, Ctx& ctx)
    {
        const std::string d = ctx.dir() + "/e";
        std::filesystem::remove_all(d);
        std::filesystem::create_directories(d);
        const bool unpriv = src.chance(500);
        struct dir { int state; std::string path; }; // 0 unset, 1 good, 2 missing, 3 not writable
        auto gen = [&](const char* name) {
            dir r{int(src.draw(4)), d + "/" + name + (src.chance(200) ? std::string(src.draw(60), 'w') : "")};
            if (!unpriv && r.state == 3) r.state = 2; // nothing is unwritable for root
            if (r.state == 1 || r.state == 3) std::filesystem::create_directory(r.path);
            if (r.state == 1) ::chmod(r.path.c_str(), 0777);
            if (r.state == 3) ::chmod(r.path.c_str(), 0555);
            return r;
        };
        const dir xdg = gen("xdg"), tmp = gen("tmp");
        const unsigned threads = unsigned(src.range(1, 4)), each = unsigned(src.range(1, 8));
        const bool with_logger = src.chance(500);
        const int run_writable = xdg.state == 0 ? int(src.draw(3)) - 1 : -1;
        // the search permission for other users, in this run's scratch directory only
        if (unpriv)
            for (std::filesystem::path p = d; p.string().find("xtrvp") != std::string::npos; p = p.parent_path())
            {
                struct stat sb;
                if (::stat(p.c_str(), &sb) == 0 && (sb.st_mode & 0011) != 0011) ::chmod(p.c_str(), (sb.st_mode & 07777) | 0011);
            }
        ctx.note("XDG_RUNTIME_DIR state %d, TMPDIR state %d, %s, %u threads x %u", xdg.state, tmp.state, unpriv ? "unprivileged" : "root", threads, each);
        int pp[2];
        if (::pipe(pp) != 0) infra("pipe");
        const pid_t pid = ::fork();
        if (pid < 0) infra("fork");
        if (pid == 0)
        {
            ::close(pp[0]);
            if (unpriv && (::setgroups(0, nullptr) != 0 || ::setresgid(65534, 65534, 65534) != 0 || ::setresuid(65534, 65534, 65534) != 0)) ::_exit(77);
            if (xdg.state) ::setenv("XDG_RUNTIME_DIR", xdg.path.c_str(), 1); else ::unsetenv("XDG_RUNTIME_DIR");
            if (tmp.state) ::setenv("TMPDIR", tmp.path.c_str(), 1); else ::unsetenv("TMPDIR");
            std::vector<std::vector<std::string>> got(threads);
            std::vector<std::thread> th;
            g_asked = new std::set<std::string>;
            g_run_writable = run_writable;
            for (unsigned t = 0; t < threads; ++t) th.emplace_back([&, t] { for (unsigned k = 0; k < each; ++k) got[t].push_back(xtr::default_command_path()); });
            for (auto& t : th) t.join();
            std::string out = "P" + std::to_string(::getpid()) + "\n";
            for (auto& v : got) { for (auto& p : v) out += p + "\n"; out += "-\n"; }
            for (auto& p : *g_asked) out += "A" + p + "\n";
            g_asked = nullptr;
            // only where the socket goes into a directory of the case
            const std::string eff = xdg.state == 1 ? xdg.path : tmp.state == 1 && xdg.state != 0 ? tmp.path : "";
            if (with_logger && !eff.empty() && eff.size() + 30 < 107)
            {
                auto st = std::make_shared<mem_state>();
                std::string seen;
                {
                    xtr::logger log(std::make_unique<mem_storage>(st, 4096));
                    xtr::sink s;
                    log.register_sink(s, "S");
                    s.sync();
                    for (auto& e : std::filesystem::directory_iterator(eff))
                    {
                        client c;
                        seen += e.path().string() + (c.try_connect(e.path().string()) == 0 ? " ok " : " dead ");
                    }
                }
                out += "L" + seen + "\n";
                unsigned left = 0;
                for (auto& e : std::filesystem::directory_iterator(eff)) { (void)e; ++left; }
                out += "R" + std::to_string(left) + "\n";
            }
            for (std::size_t o = 0; o < out.size();)
            {
                const ssize_t r = ::write(pp[1], out.data() + o, out.size() - o);
                if (r <= 0) ::_exit(78);
                o += std::size_t(r);
            }
            ::_exit(0);
        }
        ::close(pp[1]);
        std::string out;
        char b[4096];
        for (ssize_t r; (r = ::read(pp[0], b, sizeof b)) != 0;)
            if (r > 0) out.append(b, std::size_t(r));
            else if (errno != EINTR) break;
        ::close(pp[0]);
        int status = 0;
        while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { ctx.label("unprivileged_UNAVAILABLE"); std::filesystem::remove_all(d); return; }
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) failf("the process taking default paths ended with status 0x%x", unsigned(status));

        const unsigned uid = unpriv ? 65534u : unsigned(::getuid());
        const std::string run = "/run/user/" + std::to_string(uid);
        struct stat sb;
        bool run_ok = ::stat(run.c_str(), &sb) == 0 && ::access(run.c_str(), W_OK) == 0;
        if (run_ok && unpriv && sb.st_uid != uid) run_ok = sb.st_mode & 0002;
        // Pretending works only if the directory is tested with access(2)
        if (run_writable >= 0)
        {
            bool asked = false;
            for (const auto& ln : split_lines(out)) if (ln[0] == 'A') { asked = true; if (ln.substr(1) != run) failf("%s was considered instead of %s", ln.c_str() + 1, run.c_str()); }
            if (asked) { run_ok = run_writable == 1; ctx.label(run_ok ? "run_user" : "run_user_unwritable"); }
        }
        std::string want;
        if (xdg.state == 1) want = xdg.path;
        else if (xdg.state == 0 && run_ok) want = run;
        else want = tmp.state ? tmp.path : "/tmp";
        std::set<std::string> distinct;
        std::size_t total = 0;
        long last = -1;
        std::string me;
        std::string seen;
        long left = 0;
        bool have_l = false;
        for (const auto& ln : split_lines(out))
        {
            if (ln[0] == 'A') continue;
            if (ln[0] == 'P') { me = ln.substr(1); continue; }
            if (ln == "-") { last = -1; continue; }
            if (ln[0] == 'L') { have_l = true; seen = ln.substr(1); continue; }
            if (ln[0] == 'R') { left = std::atol(ln.c_str() + 1); continue; }
            ++total;
            distinct.insert(ln);
            const std::string pre = want + "/xtrctl." + me + ".";
            if (ln.compare(0, pre.size(), pre) != 0) failf("default path %s, expected %s<N>", quote(ln).c_str(), quote(pre).c_str());
            const std::string num = ln.substr(pre.size());
            const long k = std::atol(num.c_str());
            if (num != std::to_string(k)) failf("default path %s does not end in a number", quote(ln).c_str());
            if (k <= last) failf("default path number %ld after %ld", k, last);
            last = k;
        }
        VP_CHECK(total == std::size_t(threads) * each, "%zu paths", total);
        if (distinct.size() != total) failf("%zu default paths were taken, only %zu are distinct", total, distinct.size());
        if (have_l)
        {
            if (seen.find(want + "/xtrctl." + me + ".") != 0 || seen.find(" ok ") != seen.size() - 4 || std::count(seen.begin(), seen.end(), ' ') != 2)
                failf("sockets in %s while a logger with the default path exists: %s", want.c_str(), quote(seen).c_str());
            if (left) failf("%ld files were left in %s", left, want.c_str());
            ctx.label("default_logger");
        }
        std::filesystem::remove_all(d);
        ctx.nontrivial(total > 1);
        ctx.label(unpriv ? "default_unprivileged" : "default_root");
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    if (src.weighted({3, 1}) == 0) history_case(src, ctx);
    else default_case(src, ctx);
}
