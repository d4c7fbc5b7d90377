// C21: all logger functions may be called concurrently from any thread.
#include "cmd.hpp"

#include <barrier>

using namespace vp;

vp::Info vp_info{
    "C21",
    "a case is 2-6 threads running generated scripts (up to 60 steps each) on one logger: creating, registering, copying, renaming, syncing and closing sinks, logging on them, "
    "setting the default level, the level style and the command path, setting and reading levels of other threads' sinks, and status/level requests of a client; with drawn schedule "
    "perturbation. Checked: no data race (TSan build), no hang, every message of every sink present once, in order and under the right name, every function that has returned has taken effect "
    "(exactly where only one thread calls it, otherwise within the values set). Non-trivial: at least two threads called functions of the logger.",
    40, 4};

void vp_worker_init() {}

namespace
{
    const char* style_a(xtr::log_level_t) { return "AAAA "; }
    const char* style_b(xtr::log_level_t) { return "B "; }

    enum op_t { LOG, NEW, REG, CLOSE, RENAME, SYNC, COPY, DEFLEVEL, STYLE, CMDPATH, OTHER_SET, OTHER_GET, HANDLE, REQ, OPN };

    struct step { op_t op; unsigned a, b, jit; };

    struct expect { std::string name; std::string prefix; }; // prefix empty: any

    struct slot
    {
        std::unique_ptr<xtr::sink> s;
        bool open = false;
        std::string name;
        unsigned id = 0;
    };

    constexpr unsigned nshared = 3; // sinks whose levels anyone may set, one per pair of threads
}

void vp_case(Src& src, Ctx& ctx)
{
    const unsigned nt = unsigned(src.range(2, 6));
    const bool sole_def = src.chance(500), sole_style = src.chance(500), sole_path = src.chance(500);
    const unsigned def_owner = unsigned(src.draw(nt)), style_owner = unsigned(src.draw(nt)), path_owner = unsigned(src.draw(nt));
    std::vector<std::vector<step>> script(nt);
    bool calls[6] = {};
    for (unsigned t = 0; t < nt; ++t)
    {
        while (src.more(script[t].size(), 20, 60))
        {
            step st{};
            static const op_t map[] = {LOG, NEW, REG, CLOSE, RENAME, SYNC, COPY, DEFLEVEL, STYLE, CMDPATH, OTHER_SET, OTHER_GET, HANDLE, REQ};
            st.op = map[src.weighted({12, 4, 4, 3, 2, 2, 2, 3, 3, 2, 3, 3, 1, 2})];
            if (st.op == DEFLEVEL && sole_def && t != def_owner) st.op = NEW;
            if (st.op == STYLE && sole_style && t != style_owner) st.op = REG;
            if (st.op == CMDPATH && sole_path && t != path_owner) st.op = LOG;
            st.a = unsigned(src.draw(4));
            st.b = unsigned(src.draw(6));
            st.jit = src.chance(150) ? unsigned(src.draw(24)) : 0;
            calls[t] |= st.op == NEW || st.op == REG || st.op == DEFLEVEL || st.op == STYLE || st.op == CMDPATH;
            script[t].push_back(st);
        }
        std::string d;
        static const char* nm[] = {"log", "get_sink", "register", "close", "rename", "sync", "copy", "default_level", "style", "command_path", "set_level", "level", "handle", "request"};
        for (auto& st : script[t]) d += std::string(nm[st.op]) + " ";
        ctx.note("thread %u: %s", t, d.c_str());
    }
    auto st = std::make_shared<mem_state>();
    const std::string base = ctx.dir() + "/p";
    std::vector<std::vector<std::vector<expect>>> want(nt); // thread, sink, message
    std::array<std::atomic<unsigned>, 6> def_set{};         // levels ever set as default
    def_set[std::size_t(xtr::log_level_t::info)] = 1;
    std::array<std::array<std::atomic<unsigned>, 6>, nshared> lev_set{};
    std::set<std::string> all_paths;
    std::mutex pm;
    std::vector<std::string> last_path(nt);
    {
        xtr::logger log(std::make_unique<mem_storage>(st, 4096), fixed_clock(), base + "-init");
        all_paths.insert(base + "-init");
        std::vector<std::unique_ptr<xtr::sink>> shared;
        for (unsigned i = 0; i < nshared; ++i)
        {
            shared.push_back(std::make_unique<xtr::sink>());
            log.register_sink(*shared[i], "shared" + std::to_string(i));
            lev_set[i][std::size_t(xtr::log_level_t::info)] = 1;
        }
        std::barrier bar(nt);
        std::vector<std::thread> th;
        for (unsigned t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                std::array<slot, 4> sl;
                auto& w = want[t];
                xtr::log_level_t mydef = xtr::log_level_t::info;
                std::string mystyle = "I ";
                std::string mypath = base + "-init";
                unsigned np = 0, nm = 0;
                bar.arrive_and_wait();
                auto fresh = [&](slot& s, const char* k) {
                    s.name = fmt::format("{}{}.{}", k, t, w.size());
                    s.id = unsigned(w.size());
                    w.emplace_back();
                    s.open = true;
                };
                auto emit = [&](slot& s) {
                    XTR_LOG(*s.s, "{} {} {}", t, s.id, w[s.id].size());
                    w[s.id].push_back({s.name, sole_style && t == style_owner ? mystyle : std::string()});
                };
                for (const auto& p : script[t])
                {
                    jitter(p.jit);
                    slot& s = sl[p.a];
                    switch (p.op)
                    {
                    case LOG: if (s.open) for (unsigned k = 0; k <= p.b; ++k) emit(s); break;
                    case NEW:
                        s.s.reset();
                        fresh(s, "G");
                        s.s.reset(new xtr::sink(log.get_sink(s.name)));
                        {
                            const auto lv = s.s->level();
                            if (sole_def && t == def_owner)
                            {
                                if (lv != mydef) failf("get_sink gave a sink of level %d after the default level was set to %d", int(lv), int(mydef));
                            }
                            else if (unsigned(lv) > 5 || !def_set[std::size_t(lv)].load()) failf("get_sink gave a sink of level %d, which was never the default", int(lv));
                        }
                        emit(s);
                        break;
                    case REG:
                        if (!s.s) s.s = std::make_unique<xtr::sink>();
                        if (s.open) s.s->close();
                        fresh(s, "R");
                        log.register_sink(*s.s, s.name);
                        emit(s);
                        break;
                    case CLOSE: if (s.open) { s.s->close(); s.open = false; } break;
                    case RENAME: if (s.open) { s.name = fmt::format("N{}.{}", t, nm++); s.s->set_name(s.name); emit(s); } break;
                    case SYNC: if (s.open) s.s->sync(); break;
                    case COPY:
                    {
                        slot& o = sl[(p.a + 1) % 4];
                        if (!s.open) break;
                        o.s.reset();
                        o.s = std::make_unique<xtr::sink>(*s.s);
                        o.name = s.name;
                        o.id = unsigned(w.size());
                        w.emplace_back();
                        o.open = true;
                        emit(o);
                        break;
                    }
                    case DEFLEVEL:
                        def_set[p.b].store(1);
                        mydef = xtr::log_level_t(p.b);
                        log.set_default_log_level(mydef);
                        break;
                    case STYLE:
                        for (auto& x : sl) if (x.open) x.s->sync(); // earlier messages may take either style
                        log.set_log_level_style(p.b & 1 ? style_a : style_b);
                        mystyle = p.b & 1 ? "AAAA " : "B ";
                        if (s.open) emit(s);
                        break;
                    case CMDPATH:
                    {
                        mypath = fmt::format("{}-{}.{}", base, t, np++);
                        {
                            std::scoped_lock l{pm};
                            all_paths.insert(mypath);
                        }
                        last_path[t] = mypath;
                        log.set_command_path(mypath);
                        if (sole_path)
                        {
                            client c;
                            if (const int e = c.try_connect(mypath)) failf("set_command_path returned but its path cannot be connected to: %s", std::strerror(e));
                        }
                        break;
                    }
                    case OTHER_SET:
                        lev_set[p.a % nshared][p.b].store(1);
                        shared[p.a % nshared]->set_level(xtr::log_level_t(p.b));
                        break;
                    case OTHER_GET:
                    {
                        const auto lv = shared[p.a % nshared]->level();
                        if (unsigned(lv) > 5 || !lev_set[p.a % nshared][std::size_t(lv)].load()) failf("a sink has level %d, which was never set", int(lv));
                        break;
                    }
                    case HANDLE: (void)log.consumer_thread_native_handle(); break;
                    case REQ:
                        if (sole_path && t == path_owner)
                        {
                            xd::frame<xd::status> f;
                            f->pattern = make_pattern(xd::pattern_type_t::none, false, "");
                            // sinks of this thread which are open must be reported once they are known to the background thread
                            std::map<std::string, int> mine;
                            for (auto& x : sl) if (x.open) { x.s->sync(); ++mine[x.name]; }
                            for (auto& r : request(mypath, f))
                            {
                                if (r.kind != rk::info) failf("a status request was answered with %s", r.reason.c_str());
                                auto it = mine.find(r.info.name);
                                if (it != mine.end()) --it->second;
                            }
                            for (auto& [n, c] : mine) if (c != 0) failf("sink %s is registered but status lists it %d times too few", n.c_str(), c);
                        }
                        break;
                    default: break;
                    }
                }
                // the sinks of this thread are destroyed here, or closed first
                for (auto& x : sl) if (x.open && x.id % 2) x.s->close();
            });
        for (auto& t : th) t.join();
        // the last calls are in effect
        {
            unsigned found = 0;
            std::string cur;
            for (auto& p : all_paths) if (std::filesystem::exists(p)) { ++found; cur = p; }
            if (found != 1) failf("%u command sockets exist, expected one", found);
            bool ok = cur == base + "-init";
            for (auto& p : last_path) { if (!p.empty() && ok && cur == base + "-init") ok = false; }
            for (auto& p : last_path) ok |= cur == p;
            if (!ok) failf("the command socket is %s, which is no thread's last", cur.c_str());
            client c;
            c.connect(cur);
        }
        const auto lv = log.get_sink("final").level();
        if (!def_set[std::size_t(lv)]) failf("level %d was never the default", int(lv));
    }
    for (auto& p : all_paths) if (std::filesystem::exists(p)) failf("%s exists after the logger is gone", p.c_str());

    // ------------------------------------------------------------ the log
    std::vector<std::vector<std::size_t>> next(nt);
    for (unsigned t = 0; t < nt; ++t) next[t].resize(want[t].size());
    for (const auto& ln : split_lines(st->text()))
    {
        const auto p = ln.find(" c21.cpp:");
        if (p == std::string::npos) failf("malformed line %s", quote(ln).c_str());
        const auto q = ln.find(": ", p);
        unsigned t = 99, i = 0, k = 0;
        if (std::sscanf(ln.c_str() + q + 2, "%u %u %u", &t, &i, &k) != 3 || t >= nt || i >= want[t].size()) failf("malformed line %s", quote(ln).c_str());
        if (k != next[t][i]) failf("thread %u sink %u: message %u was written, expected %zu", t, i, k, next[t][i]);
        if (k >= want[t][i].size()) failf("thread %u sink %u: message %u was never logged", t, i, k);
        ++next[t][i];
        const auto& e = want[t][i][k];
        const std::string head = ln.substr(0, p);
        bool ok = false;
        for (const char* pre : {"I ", "AAAA ", "B "})
            if ((e.prefix.empty() || e.prefix == pre) && head == std::string(pre) + fixed_ts + " " + e.name) ok = true;
        if (!ok) failf("thread %u sink %u message %u was written as %s, expected name %s prefix %s", t, i, k, quote(ln).c_str(), e.name.c_str(), quote(e.prefix).c_str());
    }
    for (unsigned t = 0; t < nt; ++t)
        for (std::size_t i = 0; i < want[t].size(); ++i)
            if (next[t][i] != want[t][i].size()) failf("thread %u sink %zu: %zu of %zu messages were written", t, i, next[t][i], want[t][i].size());
    unsigned nc = 0;
    for (bool b : calls) nc += b;
    ctx.nontrivial(nc >= 2);
    if (sole_path) ctx.label("one_path_setter");
    if (sole_style) ctx.label("one_style_setter");
    if (sole_def) ctx.label("one_default_setter");
    ctx.label(nt > 3 ? "threads_4_6" : "threads_2_3");
}
