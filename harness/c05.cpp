// C05: no unprintable byte of a string argument reaches the log.
#include "common.hpp"

using namespace vp;

vp::Info vp_info{
    "C05",
    "a case is a list of log statements of 22 shapes passing byte strings (length 0-700; any bytes, boundary bytes of the "
    "printable range, terminal escapes, newlines, forged log lines) in every accepted string form (l-value, const, r-value, temporary, view, "
    "C string, array, nocopy of each, as timestamp, with width) among other arguments. Each line must equal the reference: printable ASCII "
    "other than backslash unchanged, every other byte as \\xHH. Non-trivial: at least one byte had to be replaced.",
    30, 6};

void vp_worker_init() {}

namespace
{
    std::string gen(Src& s, bool nul)
    {
        std::string r;
        const std::size_t n = s.chance(60) ? s.size(700) : s.size(24);
        const unsigned style = unsigned(s.draw(5));
        static const unsigned char edge[] = {0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x5c, 0x0a, 0x0d, 0x1b, 0xff, 0x00, 0x5b, 0x5d, 0x09, 0xa0, 0xc2, '{', '}', '%'};
        for (std::size_t i = 0; i < n; ++i)
        {
            unsigned char c;
            switch (style)
            {
            case 0: c = (unsigned char)s.draw(256); break;
            case 1: c = edge[s.draw(sizeof edge)]; break;
            case 2: c = (unsigned char)(s.chance(100) ? s.draw(256) : 32 + s.draw(95)); break;
            case 3: c = (unsigned char)(128 + s.draw(128)); break;
            default: c = (unsigned char)s.draw(33); break;
            }
            if (!nul && c == 0) c = 1;
            r += char(c);
        }
        if (s.chance(100)) r += "\x1b[31m";
        if (s.chance(100)) r += "\nI 2000-01-01 01:02:03.123456 S c05.cpp:1: forged";
        return r;
    }

    struct ex { int lineno; std::string msg, ts; };
}

void vp_case(Src& src, Ctx& ctx)
{
    auto st = std::make_shared<mem_state>();
    std::vector<ex> want;
    std::vector<std::unique_ptr<std::string>> keep; // for nocopy
    bool dirty = false, has_nul = false;
    {
        xtr::logger log(std::make_unique<mem_storage>(st, src.pick<std::size_t>({4096, 5, 64})), fixed_clock(), xtr::null_command_path);
        xtr::sink s;
        log.register_sink(s, "S");
        while (src.more(want.size(), 12, 60))
        {
            const unsigned shape = unsigned(src.draw(25));
            const bool cstr = shape == 4 || shape == 5 || shape == 6 || shape == 7 || shape == 8 || shape == 10 || shape == 14 || shape == 15 || shape == 22;
            std::string a = gen(src, !cstr), b = gen(src, !cstr);
            const std::string ka = a, kb = b, A = sanitized(a), B = sanitized(b);
            ctx.note("shape %u %s %s", shape, quote(a).c_str(), quote(b).c_str());
            dirty |= A != a || B != b;
            has_nul |= a.find('\0') != std::string::npos;
            ex e{0, A, fixed_ts};
            switch (shape)
            {
            case 0: XTR_LOG(s, "{}", a); e.lineno = __LINE__; break;
            case 1: XTR_LOG(s, "{}", std::as_const(a)); e.lineno = __LINE__; break;
            case 2: XTR_LOG(s, "{}", std::move(a)); e.lineno = __LINE__; break;
            case 3: XTR_LOG(s, "{}", std::string_view(a)); e.lineno = __LINE__; break;
            case 4: XTR_LOG(s, "{}", a.c_str()); e.lineno = __LINE__; break;
            case 5: XTR_LOG(s, "{}", a.data()); e.lineno = __LINE__; break;
            case 6: { char arr[1024] = {}; std::memcpy(arr, a.data(), a.size()); XTR_LOG(s, "{}", arr); e.lineno = __LINE__; break; }
            case 7: { keep.push_back(std::make_unique<std::string>(a)); XTR_LOG(s, "{}", nocopy(*keep.back())); e.lineno = __LINE__; break; }
            case 8: { keep.push_back(std::make_unique<std::string>(a)); XTR_LOG(s, "{}", nocopy(keep.back()->c_str())); e.lineno = __LINE__; break; }
            case 9: { keep.push_back(std::make_unique<std::string>(a)); std::string_view v(*keep.back()); XTR_LOG(s, "{}", nocopy(v)); e.lineno = __LINE__; break; }
            case 10: XTR_LOG(s, "{} {} {}", 1, a.c_str(), b); e.lineno = __LINE__; e.msg = "1 " + A + " " + B; break;
            case 11: XTR_LOG(s, "{} {}", std::move(a), b); e.lineno = __LINE__; e.msg = A + " " + B; break;
            case 12: XTR_LOG(s, "{} {}", std::string(a), std::string(b)); e.lineno = __LINE__; e.msg = A + " " + B; break;
            case 13: XTR_LOG(s, "{} {} {}", a, 3.5, std::string_view(b)); e.lineno = __LINE__; e.msg = A + " 3.5 " + B; break;
            case 14: { keep.push_back(std::make_unique<std::string>(b)); XTR_LOG(s, "{} {}", a.c_str(), nocopy(*keep.back())); e.lineno = __LINE__; e.msg = A + " " + B; break; }
            case 15: XTR_TRY_LOG(s, "{} {}", a.c_str(), 'x'); e.lineno = __LINE__; e.msg = A + " x"; break;
            case 16: XTR_LOG_TS(s, "t", "{} {}", a, b); e.lineno = __LINE__; e.msg = A + " " + B; e.ts = "t"; break;
            case 17: XTR_LOG_TS(s, a, "{}", b); e.lineno = __LINE__; e.msg = B; e.ts = A; break;
            case 18: XTR_LOG_TS(s, std::string(a), "{}", b); e.lineno = __LINE__; e.msg = B; e.ts = A; break;
            case 19: XTR_LOG(s, "{:>40}|", a); e.lineno = __LINE__; e.msg = fmt::format("{:>40}|", A); break;
            case 20: XTR_LOG(s, "{:<40}|{}", std::string(a), std::string_view(b)); e.lineno = __LINE__; e.msg = fmt::format("{:<40}|{}", A, B); break;
            case 21: XTR_LOGL(error, s, "{}", std::string_view(a)); e.lineno = __LINE__; break;
            case 22: XTR_LOG_TS(s, a.c_str(), "{}", 9); e.lineno = __LINE__; e.msg = "9"; e.ts = A; break;
            case 23: { const std::string c = a; XTR_LOG(s, "{} {}", std::move(c), 1); e.lineno = __LINE__; e.msg = A + " 1"; break; }
            case 24: XTR_TRY_LOG_TS(s, 5, "{} {}", std::string(a), b); e.lineno = __LINE__; e.msg = A + " " + B; e.ts = "5"; break;
            }
            s.sync();
            want.push_back(std::move(e));
        }
    }
    std::string ref;
    std::size_t pos = 0;
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        for (const char* lv : {"I", "E"})
        {
            const std::string l = fmt::format("{} {} S c05.cpp:{}: {}\n", lv, want[i].ts, want[i].lineno, want[i].msg);
            if (st->data.compare(pos, l.size(), l) == 0) { pos += l.size(); goto next; }
        }
        failf("statement %zu: got %s, expected timestamp %s and message %s", i,
            quote(st->data.substr(pos, st->data.find('\n', pos) - pos), 900).c_str(), quote(want[i].ts).c_str(), quote(want[i].msg, 900).c_str());
    next:;
    }
    if (pos != st->data.size()) failf("extra output %s", quote(st->data.substr(pos)).c_str());
    for (unsigned char c : st->data)
        if (c != '\n' && (c < 0x20 || c > 0x7e)) failf("unprintable byte 0x%02x in the log", c);
    ctx.nontrivial(dirty);
    if (has_nul) ctx.label("embedded_nul");
}
