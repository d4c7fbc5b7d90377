// C16: xtrctl does what its arguments say and reports the outcome.
#include "cmd.hpp"

#include <spawn.h>
#include <sys/wait.h>

extern char** environ;

using namespace vp;

vp::Info vp_info{
    "C16",
    "a case is a logger with 0-7 sinks (related, duplicate, over-long, special names; generated levels) and 2-8 command lines run with the real xtrctl: commands and levels valid, invalid or missing; options -E -G -W -h in short, "
    "long, abbreviated, combined and repeated form at any position, '--', unknown options; patterns absent, valid, invalid, empty, beginning with '-'; socket paths right, missing, absent, not a socket or too long; back-end reopen "
    "succeeding or failing. Exit status, output and the levels of all sinks are compared with a reference interpretation of the command line. Non-trivial: a command line with an option or a pattern, or one that must fail.",
    40, 5};

namespace { std::string g_ctl; }
void vp_worker_init()
{
    const char* p = std::getenv("VP_XTRCTL");
    if (!p) infra("VP_XTRCTL is not set");
    g_ctl = p;
}

namespace
{
    struct result { int status; std::string out, err; };

    result run(const std::vector<std::string>& args, const std::string& dir)
    {
        std::vector<char*> av{g_ctl.data()};
        std::vector<std::string> a = args;
        for (auto& x : a) av.push_back(x.data());
        av.push_back(nullptr);
        posix_spawn_file_actions_t fa;
        ::posix_spawn_file_actions_init(&fa);
        ::posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
        ::posix_spawn_file_actions_addopen(&fa, 1, (dir + "/o").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::posix_spawn_file_actions_addopen(&fa, 2, (dir + "/e").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        pid_t pid;
        if (::posix_spawn(&pid, g_ctl.c_str(), &fa, nullptr, av.data(), environ) != 0) infra("cannot run xtrctl");
        ::posix_spawn_file_actions_destroy(&fa);
        int st;
        while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        return {st, read_file(dir + "/o"), read_file(dir + "/e")};
    }

    constexpr const char* level_name[] = {"none", "fatal", "error", "warning", "info", "debug"};
    constexpr xtr::log_level_t levels[] = {xtr::log_level_t::none, xtr::log_level_t::fatal, xtr::log_level_t::error, xtr::log_level_t::warning, xtr::log_level_t::info, xtr::log_level_t::debug};

    // Reference interpretation of a command line
    struct parsed
    {
        enum { usage, help, status, level, reopen } what = usage;
        int lv = 0;
        bool has_pattern = false;
        xd::pattern_type_t type = xd::pattern_type_t::none;
        std::string pattern, path;
    };

    // 0 = not an option known, else E G W h
    char long_option(const std::string& s)
    {
        static const std::pair<const char*, char> o[] = {{"extended-regexp", 'E'}, {"basic-regexp", 'G'}, {"wildcard", 'W'}, {"help", 'h'}};
        char r = 0;
        for (auto& [n, c] : o) if (!s.empty() && std::string(n).compare(0, s.size(), s) == 0) r = c;
        return r; // the first letters differ, so any abbreviation is unique
    }

    parsed interpret(const std::vector<std::string>& a)
    {
        parsed p;
        if (a.empty()) return p;
        std::size_t i = 1;
        auto what = parsed::usage;
        if (a[0] == "status") what = parsed::status;
        else if (a[0] == "reopen") what = parsed::reopen;
        else if (a[0] == "level")
        {
            if (a.size() < 2) return p;
            p.lv = -1;
            for (int k = 0; k < 6; ++k) if (a[1] == level_name[k]) p.lv = k;
            if (p.lv < 0) return p;
            what = parsed::level;
            i = 2;
        }
        else if (a[0] == "--help") { p.what = parsed::help; return p; }
        else return p;
        std::vector<std::string> pos;
        bool end = false;
        for (; i < a.size(); ++i)
        {
            const std::string& s = a[i];
            if (end || s.size() < 2 || s[0] != '-') { pos.push_back(s); continue; }
            if (s == "--") { end = true; continue; }
            std::string opts = s.substr(1);
            if (s[1] == '-')
            {
                const char c = long_option(s.substr(2));
                if (!c) return p;
                opts = std::string(1, c);
            }
            for (char c : opts)
            {
                if (c == 'E') p.type = xd::pattern_type_t::extended_regex;
                else if (c == 'G') p.type = xd::pattern_type_t::basic_regex;
                else if (c == 'W') p.type = xd::pattern_type_t::wildcard;
                else if (c == 'h') { p.what = parsed::help; return p; }
                else return p;
            }
        }
        if (pos.empty() || pos.size() > (what == parsed::reopen ? 1u : 2u)) return p;
        p.path = pos.back();
        if (pos.size() == 2) { p.has_pattern = true; p.pattern = pos[0]; }
        if (!p.has_pattern && p.type != xd::pattern_type_t::none) return p;
        if (p.has_pattern && p.type == xd::pattern_type_t::none) p.type = xd::pattern_type_t::basic_regex;
        p.what = what;
        return p;
    }
}

void vp_case(Src& src, Ctx& ctx)
{
    auto ms = std::make_shared<mem_state>();
    const std::string path = ctx.dir() + "/sock";
    ::unlink(path.c_str());
    const std::string notsock = ctx.dir() + "/plain";
    { std::ofstream f(notsock); f << "x"; }
    xtr::logger log(std::make_unique<mem_storage>(ms, 4096), fixed_clock(), path);
    struct sk { std::unique_ptr<xtr::sink> s; std::string name; xtr::log_level_t level; };
    std::vector<sk> sinks;
    for (std::size_t n = src.draw(8); n; --n)
    {
        sk x;
        x.name = gen_name(src);
        x.level = levels[src.draw(6)];
        x.s.reset(new xtr::sink(x.level));
        log.register_sink(*x.s, x.name);
        sinks.push_back(std::move(x));
    }
    bool nontrivial = false;
    const unsigned nrun = unsigned(src.range(2, 8));
    for (unsigned r = 0; r < nrun; ++r)
    {
        // ---- a command line
        std::vector<std::string> a;
        const unsigned cmd = unsigned(src.weighted({8, 8, 3, 1, 1, 1}));
        if (cmd == 0) a.push_back("status");
        else if (cmd == 1)
        {
            a.push_back("level");
            if (!src.chance(60)) a.push_back(src.chance(120) ? src.pick<std::string>({"", "Info", "warn", "6", "-1", "infox", "-E", "DEBUG", "non"}) : level_name[src.draw(6)]);
        }
        else if (cmd == 2) a.push_back("reopen");
        else if (cmd == 3) a.push_back(src.pick<std::string>({"--help", "-h", "help", "Status", "", "statu", "statuss", "leve"}));
        else if (cmd == 4) { if (src.chance(300)) { /* nothing at all */ } else a.push_back(src.pick<std::string>({"--help", "restart"})); }
        else { a.push_back("-E"); a.push_back("status"); }
        const std::size_t fixed = a.size();
        std::vector<std::string> rest;
        xd::pattern_type_t t = src.pick({xd::pattern_type_t::basic_regex, xd::pattern_type_t::extended_regex, xd::pattern_type_t::wildcard});
        if (src.chance(cmd == 2 ? 100 : 650))
        {
            std::string p = gen_pattern(src, t);
            if (!sinks.empty() && src.chance(200)) p = sinks[src.draw(sinks.size())].name;
            else if (!sinks.empty() && src.chance(350)) p = pattern_from_name(src, t, sinks[src.draw(sinks.size())].name);
            for (auto& c : p) if (c == '\0') c = ' ';
            rest.push_back(p.substr(0, 255));
        }
        if (!src.chance(40))
            rest.push_back(src.chance(120) ? src.pick<std::string>({ctx.dir() + "/absent", notsock, std::string(200, 'p'), "", ctx.dir()}) : path);
        if (src.chance(30)) rest.push_back("extra");
        auto option = [&]() -> std::string {
            static const char* byt[3][6] = {
                {"-G", "--basic-regexp", "--basic-regex", "--basic", "-G", "-EG"}, {"-E", "--extended-regexp", "--extended", "--e", "-E", "-WE"}, {"-W", "--wildcard", "--wild", "--w", "-W", "-GW"}};
            if (src.chance(80)) return src.pick<std::string>({"-x", "--unknown", "-h", "--help", "-Ex", "--wildcardx", "-", "-Wh"});
            return byt[t == xd::pattern_type_t::basic_regex ? 0 : t == xd::pattern_type_t::extended_regex ? 1 : 2][src.draw(6)];
        };
        const bool explicit_type = t != xd::pattern_type_t::basic_regex || src.chance(300);
        if (explicit_type && src.chance(900) && cmd < 3 && (cmd != 2 || src.chance(100)))
        {
            rest.insert(rest.begin() + std::ptrdiff_t(src.draw(rest.size() + 1)), option());
            if (src.chance(150)) rest.insert(rest.begin() + std::ptrdiff_t(src.draw(rest.size() + 1)), option());
        }
        if (src.chance(60)) rest.insert(rest.begin() + std::ptrdiff_t(src.draw(rest.size() + 1)), "--");
        for (auto& x : rest) a.push_back(x);
        (void)fixed;
        const int reopen_result = src.chance(300) ? src.pick<int>({ENOENT, EACCES, ENOSPC}) : 0;
        std::uint64_t reopened;
        { std::scoped_lock l{ms->m}; ms->reopen_result = reopen_result; reopened = ms->nreopen; }
        std::string shown;
        for (auto& x : a) shown += quote(x, 60) + " ";
        ctx.note("xtrctl %s", shown.c_str());

        // ---- the expectation
        const parsed p = interpret(a);
        const bool reaches = p.what >= parsed::status && p.path == path;
        const bool invalid = reaches && p.what != parsed::reopen && p.has_pattern && ref_match(p.type, false, p.pattern, "") < 0;
        const bool ok = p.what == parsed::help || (reaches && !invalid && (p.what != parsed::reopen || reopen_result == 0));

        for (auto& s : sinks) s.s->sync();
        const result res = run(a, ctx.dir());
        if (!WIFEXITED(res.status) || WEXITSTATUS(res.status) > 90) failf("xtrctl %scrashed (status %d): %s", shown.c_str(), res.status, quote(res.err, 600).c_str());
        const int ex = WEXITSTATUS(res.status);
        if (ok != (ex == 0)) failf("xtrctl %sexited with %d; output %s %s", shown.c_str(), ex, quote(res.out).c_str(), quote(res.err).c_str());
        if (ex != 0 && res.out.empty() && res.err.empty()) failf("xtrctl %sfailed without giving a reason", shown.c_str());

        // ---- the effect
        if (ok && p.what == parsed::level)
        {
            for (auto& s : sinks)
                if (!p.has_pattern || ref_match(p.type, false, p.pattern, s.name) == 1) s.level = levels[p.lv];
            if (res.out != "Success\n") failf("xtrctl %sprinted %s", shown.c_str(), quote(res.out).c_str());
        }
        for (auto& s : sinks)
            if (s.s->level() != s.level) failf("after xtrctl %sthe level of %s is %d, expected %d", shown.c_str(), quote(s.name, 40).c_str(), int(s.s->level()), int(s.level));
        std::uint64_t now;
        { std::scoped_lock l{ms->m}; now = ms->nreopen; }
        if (now - reopened != (reaches && p.what == parsed::reopen)) failf("xtrctl %scaused %lu reopens", shown.c_str(), (unsigned long)(now - reopened));
        if (ok && p.what == parsed::reopen && res.out != "Success\n") failf("xtrctl %sprinted %s", shown.c_str(), quote(res.out).c_str());
        if (ok && p.what == parsed::status)
        {
            std::vector<std::pair<std::string, std::string>> want;
            for (auto& s : sinks)
                if (!p.has_pattern || ref_match(p.type, false, p.pattern, s.name) == 1)
                {
                    const std::string n = s.name.substr(0, 127);
                    want.emplace_back(n, fmt::format("{} ({}) {}K capacity, 0K used, 0 dropped", n, level_name[int(s.level)], XTR_SINK_CAPACITY / 1024));
                }
            const auto got = split_lines(res.out);
            std::vector<std::string> w, g = got;
            for (auto& x : want) w.push_back(x.second);
            std::sort(w.begin(), w.end());
            std::sort(g.begin(), g.end());
            if (w != g) failf("xtrctl %sprinted %s, expected %zu sinks like %s", shown.c_str(), quote(res.out).c_str(), w.size(), w.empty() ? "" : quote(w[0]).c_str());
            // Sorted by name; lines begin with the name
            std::vector<std::string> names;
            for (auto& l : got) { auto e = l.rfind(" ("); names.push_back(l.substr(0, e)); }
            if (!std::is_sorted(names.begin(), names.end())) failf("xtrctl %sdid not sort the sinks: %s", shown.c_str(), quote(res.out).c_str());
            if (want.size() > 1) ctx.label("status_several");
        }
        if (!ok || p.has_pattern || p.type != xd::pattern_type_t::none) nontrivial = true;
        ctx.label(!ok ? "fails" : p.what == parsed::status ? "status" : p.what == parsed::level ? "level" : p.what == parsed::reopen ? "reopen" : "help");
    }
    for (auto& s : sinks) s.s.reset();
    ctx.nontrivial(nontrivial);
}
