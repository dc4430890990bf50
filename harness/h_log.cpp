// P33 the console log
#include "vh.hpp"
#include "st_util.hpp"
#include <sps_log.hpp>
#include <sps_sys_co.hpp>
#include <sys/syscall.h>
#include <time.h>
#include <fcntl.h>

using namespace vh;

namespace {
// stdout of the process, caught in memory
struct Catch {
    int saved, mem;
    Catch() {
        fflush(stdout);
        saved = dup(1);
        mem = (int) syscall(SYS_memfd_create, "log", 0);
        dup2(mem, 1);
    }
    std::string end() {
        fflush(stdout);
        dup2(saved, 1);
        close(saved);
        off_t n = lseek(mem, 0, SEEK_END);
        std::string s(n, 0);
        if (n && pread(mem, &s[0], n, 0) != n) _exit(96);
        close(mem);
        saved = -1;
        return s;
    }
    ~Catch() { if (saved >= 0) end(); }
};

std::string text(Rng& r, size_t max) {
    static const char* bits[] = {"%", "%s", "%n", "%d", "%%", "%.*s", "%1000000d", "\\", "\"", "\t", "[", "]", "\x01", "\xff", "\xc3\xa9"};
    std::string s;
    size_t n = r.size(max);
    int style = r.next() % 3;
    while (s.size() < n) {
        if (style == 0 || r.chance(1, 5)) s += bits[r.next() % 15];
        else s += (char) (33 + r.next() % 90);
    }
    return s;
}
std::string stamp(time_t t) {
    struct tm m;
    localtime_r(&t, &m);
    return fmt("[%04d-%02d-%02d %02d:%02d:%02d.", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec);
}
const size_t LIMIT = 4096;

struct Want { std::string body; timeval a, b; };

// one line of the log as it must be; returns what follows it
size_t expect(const std::string& out, size_t at, const Want& w) {
    std::string s1 = stamp(w.a.tv_sec), s2 = stamp(w.b.tv_sec);
    size_t n = s1.size();
    VH_CHECK(out.size() >= at + n + 5, "missing", "a message of %zu bytes is missing", w.body.size());
    std::string got = out.substr(at, n);
    bool ok = false;
    for (time_t t = w.a.tv_sec; t <= w.b.tv_sec && !ok; ++t) ok = got == stamp(t);
    VH_CHECK(ok, "time", "a message of %s is logged at %s", s1.c_str(), got.c_str());
    bool dig = true;
    for (int i = 0; i < 3; ++i) dig = dig && isdigit((unsigned char) out[at + n + i]);
    VH_CHECK(dig && out[at + n + 3] == ']' && out[at + n + 4] == ' ', "time", "the time is not followed by milliseconds: %s", out.substr(at + n, 5).c_str());
    int ms = atoi(out.substr(at + n, 3).c_str());
    if (w.a.tv_sec == w.b.tv_sec) VH_CHECK(ms >= w.a.tv_usec / 1000 && ms <= w.b.tv_usec / 1000, "time", "millisecond %d is not between %ld and %ld", ms, (long) w.a.tv_usec / 1000, (long) w.b.tv_usec / 1000);
    at += n + 5;
    std::string body = w.body;
    if (n + 5 + body.size() > LIMIT - 1) body.resize(LIMIT - 1 - n - 5);
    VH_CHECK(out.compare(at, body.size(), body) == 0, "text", "a message of %zu bytes does not come out as formatted: '%s'", w.body.size(), out.substr(at, std::min<size_t>(body.size(), 200)).c_str());
    return at + body.size();
}
}  // namespace

VH_CASE_ST("P33", log) {
    Rng& r = c.rng;
    static sps::ConsoleLog con;
    int tz = r.next() % 3;
    setenv("TZ", tz == 0 ? "UTC" : tz == 1 ? "XXX-5:30" : "YYY8", 1);
    tzset();
    int nco = r.chance(1, 3) ? 2 + r.next() % 4 : 1;
    std::vector<Want> want;
    auto old = sps::log;
    Catch k;
    sps::log = &con;
    {
        struct Back { sps::ILog* o; ~Back() { sps::log = o; } } back{old};
        Group g;
        for (int i = 0; i < nco; ++i) {
            uint64_t sd = r.next();
            g.go([&, sd]() {
                Rng q(sd);
                for (int j = 1 + q.next() % 5; j > 0; --j) {
                    Want w;
                    std::string t = text(q, q.chance(1, 4) ? 5000 : 200), u = text(q, 30);
                    if (q.chance(1, 6)) { t = text(q, 60); while (t.size() < 4200) t += "x%s"; t.resize(LIMIT - 150 + q.next() % 160); }
                    int d = (int) q.next(), e = q.next() % 40, id = sps::get_context_id();
                    double f = (double) (int) q.next() / 8;
                    Exact x(Bytes(u.begin(), u.end()));                 // not terminated
                    int n = (int) (u.size() ? q.next() % (u.size() + 1) : 0), line = 0;
                    gettimeofday(&w.a, nullptr);
                    switch (q.next() % 6) {
                        case 0: line = __LINE__; sp_info("text %s, number %d", t.c_str(), d); w.body = fmt("[h_log.cpp:%d] [%d] text ", line, id) + t + fmt(", number %d\r\n", d); break;
                        case 1: line = __LINE__; sp_warn("%.*s|%s", n, (char*) x.p, t.c_str()); w.body = fmt("[h_log.cpp:%d] [%d] ", line, id) + u.substr(0, n) + "|" + t + "\r\n"; break;
                        case 2: line = __LINE__; sp_trace("%5.2lf %lu %s", f, (unsigned long) d, u.c_str()); w.body = fmt("[h_log.cpp:%d] [%d] %5.2lf %lu ", line, id, f, (unsigned long) d) + u + "\r\n"; break;
                        case 3: errno = e; line = __LINE__; sp_error("fail %s ret %d", t.c_str(), d); w.body = fmt("[h_log.cpp:%d] [%d] fail ", line, id) + t + fmt(" ret %d (%d %s)\r\n", d, e, strerror(e)); break;
                        case 4: line = __LINE__; sp_info("100%%"); w.body = fmt("[h_log.cpp:%d] [%d] 100%%\r\n", line, id); break;
                        default: con.printf(sps::DEBUG, "%s", t.c_str()); w.body = t; break;
                    }
                    gettimeofday(&w.b, nullptr);
                    want.push_back(w);
                    if (q.chance(1, 2)) yield();
                }
            });
        }
        g.join();
    }
    std::string out = k.end();
    size_t at = 0;
    uint64_t h = 0;
    for (auto& w : want) {
        at = expect(out, at, w);
        c.count(w.body.size() > LIMIT - 40 ? "messages at the limit" : "messages");
        if (w.body.find('%') != std::string::npos) c.count("messages with percent signs");
        h = fnv(w.body.data(), w.body.size(), h ? h : 1469598103934665603ull);
    }
    VH_CHECK(at == out.size(), "extra", "%zu bytes follow the last message", out.size() - at);
    c.distinct("nontrivial", h);
}
