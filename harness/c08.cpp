// C08: sinks behave as their lifecycle is documented over any history.
#include "common.hpp"

using namespace vp;

vp::Info vp_info{
    "C08",
    "a case is a history of up to 160 operations over 1-3 loggers and 5 sinks: create by get_sink, construct, register, copy, assign (including from closed and to self), rename, "
    "close, close again, destroy, log, log bursts exceeding the queue (also while the background thread is held up), sync, and destroy or recreate loggers, also while sinks are still connected (the destructor then runs in another thread while the history "
    "goes on). A model gives each sink's connection and name; is_open(), each logger's output (per sink: the messages in order, under the name at the time, nothing lost, nothing "
    "misdirected), and that a logger's destruction waits for exactly its connected sinks, are compared. Non-trivial: at least one copy or assignment of an open sink and one close followed by reuse.",
    30, 2};

void vp_worker_init() {}

namespace
{
    constexpr unsigned NS = 5, NL = 3;
    struct lstate
    {
        std::shared_ptr<mem_state> st;
        std::unique_ptr<xtr::logger> log;
        std::thread killer;
        bool alive = false, dying = false;
        unsigned connected = 0;
    };
    struct sstate
    {
        int logger = -1; // index of the logger instance it is connected to
        std::string name;
    };
    struct want { unsigned conn, seq; std::string name; };
}

void vp_case(Src& src, Ctx& ctx)
{
    std::vector<std::unique_ptr<lstate>> ls;      // every logger instance ever made
    std::array<int, NL> slot;                     // slot -> instance
    slot.fill(-1);
    std::vector<std::vector<want>> wants;         // per logger instance
    std::array<std::unique_ptr<xtr::sink>, NS> sk;
    std::array<sstate, NS> md;
    std::array<unsigned, NS> conn{};              // identifies a sink connection
    unsigned nconn = 0, seq = 0, nname = 0;
    bool copied = false, reused = false, outlived = false, burst = false;
    std::array<bool, NS> was_closed{};
    const std::size_t bufsz = src.pick<std::size_t>({4096, 1, 100});

    auto finish = [&](lstate& l) {
        // no sink is connected any more: the destructor must return
        if (l.killer.joinable()) l.killer.join();
        if (!l.st->destroyed) failf("back-end not destroyed with its logger");
        l.alive = l.dying = false;
    };
    auto disconnect = [&](unsigned i) {
        if (md[i].logger < 0) return;
        auto& l = *ls[unsigned(md[i].logger)];
        md[i] = {};
        if (--l.connected == 0 && l.dying) finish(l);
    };
    // The model of the sink's connection has to be updated after the operation
    auto connect = [&](unsigned i, int lg, std::string name) {
        md[i] = {lg, std::move(name)};
        ++ls[unsigned(lg)]->connected;
        conn[i] = nconn++;
        if (was_closed[i]) reused = true;
    };
    auto not_finished = [&] {
        for (auto& l : ls)
            if (l->alive && l->dying && l->connected > 0)
            {
                std::scoped_lock g{l->st->m};
                if (l->st->destroyed) failf("a logger was destroyed while %u sinks were connected", l->connected);
            }
    };

    std::size_t n = 0;
    while (src.more(n, 60, 160))
    {
        ++n;
        const unsigned i = unsigned(src.draw(NS)), j = unsigned(src.draw(NS)), k = unsigned(src.draw(NL));
        const unsigned what = unsigned(src.weighted({20, 4, 4, 4, 4, 3, 3, 2, 2, 2, 2, 1, 3}));
        auto usable = [&]() -> int {
            if (slot[k] < 0)
            {
                auto l = std::make_unique<lstate>();
                l->st = std::make_shared<mem_state>();
                l->log.reset(new xtr::logger(std::make_unique<mem_storage>(l->st, bufsz), fixed_clock(), xtr::null_command_path));
                l->alive = true;
                slot[k] = int(ls.size());
                ls.push_back(std::move(l));
                wants.emplace_back();
                ctx.note("logger %d created", slot[k]);
            }
            return slot[k];
        };
        switch (what)
        {
        case 0:
            if (!sk[i] || md[i].logger < 0) break;
            {
                const unsigned cnt = unsigned(src.range(1, 5));
                ctx.note("log %u on %u (logger %d, name %s)", cnt, i, md[i].logger, md[i].name.c_str());
                for (unsigned c = 0; c < cnt; ++c)
                {
                    if (seq % 4 == 0) XTR_LOG(*sk[i], "{}.{}.", conn[i], seq);
                    else XTR_LOG(*sk[i], "{}.{}.{}", conn[i], seq, std::string(seq % 50, 'x'));
                    wants[unsigned(md[i].logger)].push_back({conn[i], seq, md[i].name});
                    ++seq;
                }
            }
            break;
        case 1:
            {
                const int lg = usable();
                const std::string nm = "N" + std::to_string(nname++);
                ctx.note("%u = get_sink(%s) of logger %d", i, nm.c_str(), lg);
                sk[i].reset();
                disconnect(i);
                sk[i].reset(new xtr::sink(ls[unsigned(lg)]->log->get_sink(nm)));
                was_closed[i] = false;
                connect(i, lg, nm);
            }
            break;
        case 2:
            {
                const int lg = usable();
                const std::string nm = "N" + std::to_string(nname++);
                if (!sk[i]) { sk[i].reset(new xtr::sink); was_closed[i] = false; }
                else if (md[i].logger >= 0) { sk[i]->close(); disconnect(i); was_closed[i] = true; }
                ctx.note("register %u as %s with logger %d", i, nm.c_str(), lg);
                if (lg != slot[k]) break; // (closing it may have ended a logger)
                ls[unsigned(lg)]->log->register_sink(*sk[i], nm);
                connect(i, lg, nm);
            }
            break;
        case 3:
            if (!sk[j] || i == j) break;
            ctx.note("%u = copy of %u", i, j);
            sk[i].reset();
            disconnect(i);
            sk[i].reset(new xtr::sink(*sk[j]));
            was_closed[i] = false;
            if (md[j].logger >= 0) { connect(i, md[j].logger, md[j].name); copied = true; }
            break;
        case 4:
            if (!sk[j] || !sk[i]) break;
            ctx.note("%u assigned from %u", i, j);
            if (i == j)
            {
                auto& x = *sk[i];
                *sk[i] = x;
                break;
            }
            {
                const bool was = md[i].logger >= 0;
                // i may be the last sink of a logger being destroyed, and j may be on the same logger
                *sk[i] = *sk[j];
                if (md[j].logger >= 0)
                {
                    const int lg = md[j].logger;
                    disconnect(i);
                    if (was) was_closed[i] = true;
                    connect(i, lg, md[j].name);
                    copied = true;
                }
                else { disconnect(i); was_closed[i] |= was; }
            }
            break;
        case 5:
            if (!sk[i] || md[i].logger < 0) break;
            {
                md[i].name = src.chance(300) ? "M" + std::string(100 + src.draw(200), 'q') + std::to_string(nname++) : "N" + std::to_string(nname++);
                ctx.note("rename %u to %s", i, md[i].name.c_str());
                sk[i]->set_name(md[i].name);
            }
            break;
        case 6:
            if (!sk[i]) break;
            ctx.note("close %u", i);
            sk[i]->close();
            if (md[i].logger >= 0) was_closed[i] = true;
            disconnect(i);
            break;
        case 7:
            ctx.note("destroy sink %u", i);
            sk[i].reset();
            disconnect(i);
            break;
        case 8:
            if (!sk[i] || md[i].logger < 0) break;
            ctx.note("sync %u", i);
            sk[i]->sync();
            break;
        case 9:
        case 10:
            if (slot[k] < 0) break;
            {
                auto& l = *ls[unsigned(slot[k])];
                ctx.note("destroy logger %d with %u sinks connected", slot[k], l.connected);
                slot[k] = -1;
                l.dying = true;
                l.killer = std::thread([&l] { l.log.reset(); });
                if (l.connected == 0) finish(l);
                else outlived = true;
            }
            break;
        case 11: (void)usable(); break;
        case 12:
            // More than a queue full, at times while the background thread is stopped
            if (!sk[i] || md[i].logger < 0) break;
            {
                auto& l = *ls[unsigned(md[i].logger)];
                const unsigned cnt = unsigned(src.range(20, 200)), hold = src.chance(8) ? 900000 : src.chance(600) ? unsigned(src.range(50, 1500)) : 0;
                ctx.note("burst of %u on %u (logger %d, name %s), back-end held for %u us", cnt, i, md[i].logger, md[i].name.c_str(), hold);
                std::thread holder;
                std::atomic<bool> held{false};
                if (hold)
                {
                    holder = std::thread([&] {
                        std::scoped_lock g{l.st->m};
                        held = true;
                        ::usleep(hold);
                    });
                    while (!held) std::this_thread::yield();
                }
                for (unsigned c = 0; c < cnt; ++c)
                {
                    if (seq % 4 == 0) XTR_LOG(*sk[i], "{}.{}.", conn[i], seq);
                    else XTR_LOG(*sk[i], "{}.{}.{}", conn[i], seq, std::string(seq % 50, 'x'));
                    wants[unsigned(md[i].logger)].push_back({conn[i], seq, md[i].name});
                    ++seq;
                }
                if (was_closed[i] && hold) ctx.label("burst_after_reuse");
                bool closed = false;
                if (hold && src.chance(300))
                {
                    // Closing must wait for the background thread
                    ctx.note("close %u meanwhile", i);
                    sk[i]->close();
                    closed = was_closed[i] = true;
                }
                if (holder.joinable()) holder.join();
                burst = true;
                if (closed) disconnect(i);
            }
            break;
        }
        if (src.chance(100)) jitter(unsigned(src.draw(20)));
        for (unsigned x = 0; x < NS; ++x)
            if (sk[x] && sk[x]->is_open() != (md[x].logger >= 0))
                failf("sink %u is %s, expected the opposite", x, sk[x]->is_open() ? "open" : "closed");
        not_finished();
    }
    for (unsigned i = 0; i < NS; ++i)
    {
        not_finished();
        sk[i].reset();
        disconnect(i);
    }
    for (auto& l : ls)
    {
        if (l->alive && !l->dying) { l->log.reset(); l->dying = true; finish(*l); }
        if (l->killer.joinable()) failf("internal: logger still being destroyed");
    }

    for (std::size_t x = 0; x < ls.size(); ++x)
    {
        std::map<unsigned, std::vector<const want*>> per;
        std::map<unsigned, std::size_t> next;
        for (auto& w : wants[x]) per[w.conn].push_back(&w);
        for (auto& ln : split_lines(ls[x]->st->data))
        {
            line l;
            if (!parse_line(ln, l) || l.level != "I" || l.file != "c08.cpp") failf("logger %zu: unexpected line %s", x, quote(ln).c_str());
            const unsigned c = unsigned(std::atoi(l.msg.c_str()));
            const unsigned s = unsigned(std::atoi(l.msg.c_str() + l.msg.find('.') + 1));
            auto& v = per[c];
            auto& at = next[c];
            if (at >= v.size()) failf("logger %zu: line %s does not belong there", x, quote(ln).c_str());
            if (v[at]->seq != s) failf("logger %zu: got message %u of connection %u, expected %u", x, s, c, v[at]->seq);
            if (v[at]->name != l.name) failf("logger %zu: message %u has name %s, expected %s", x, s, l.name.c_str(), v[at]->name.c_str());
            const std::string tail = s % 4 == 0 ? "" : std::string(s % 50, 'x');
            if (l.msg != fmt::format("{}.{}.{}", c, s, tail)) failf("message damaged: %s", quote(ln).c_str());
            ++at;
        }
        for (auto& [c, v] : per)
            if (next[c] != v.size()) failf("logger %zu: %zu of %zu messages of connection %u were written", x, next[c], v.size(), c);
    }
    ctx.nontrivial(copied && reused);
    if (burst) ctx.label("burst");
    if (copied) ctx.label("copied");
    if (reused) ctx.label("reused_after_close");
    if (outlived) ctx.label("logger_destroyed_with_sinks");
}
