#include "vh.hpp"
#include <sps_sys_co.hpp>
#include <execinfo.h>

namespace vh {
Ctx* g = nullptr;
int case_deadline = 20;
std::map<std::string, Entry>& registry() { static std::map<std::string, Entry> r; return r; }
}
using namespace vh;

// Replaces the console log: formats every message (so that its arguments are read
// under the sanitizer) and throws the text away.
struct NullLog : public sps::ILog {
    char buf[4096];
    uint64_t n = 0;
    void printf(sps::LOG_LEVEL, const char* f, ...) override {
        va_list a; va_start(a, f);
        int l = vsnprintf(buf, sizeof buf, f, a);
        va_end(a);
        if (g && g->verbose && l > 0) fwrite(buf, 1, std::min<size_t>(l, sizeof buf - 1), stderr);
        ++n;
    }
};

static volatile uint64_t* progress = nullptr;   // [0]=case, [1]=state (1 running, 2 hang)
static void on_alarm(int) {
    if (progress) progress[1] = 2;
    static const char m[] = "\nVH-HANG: case exceeded its deadline\n";
    (void) !write(2, m, sizeof m - 1);
    void* bt[40];
    int k = backtrace(bt, 40);
    backtrace_symbols_fd(bt, k, 2);
    _exit(98);
}

static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

int main(int argc, char** argv) {
    Ctx c;
    std::string outf, progf;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") c.prop = v();
        else if (a == "--seed") c.seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--cases") c.cases = strtoull(v().c_str(), 0, 10);
        else if (a == "--from") c.from = strtoull(v().c_str(), 0, 10);
        else if (a == "--out") outf = v();
        else if (a == "--progress") progf = v();
        else if (a == "--deadline") case_deadline = atoi(v().c_str());
        else if (a == "-v") c.verbose = true;
    }
    if (!registry().count(c.prop)) { fprintf(stderr, "no such property %s\n", c.prop.c_str()); return 97; }
    c.out = outf.empty() ? stdout : fopen(outf.c_str(), "w");
    g = &c;
    if (!progf.empty()) {
        int fd = open(progf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, 4096)) {}
        progress = (volatile uint64_t*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    static NullLog nl;
    sps::log = &nl;
    signal(SIGPIPE, SIG_IGN);
    signal(SIGALRM, on_alarm);
    { void* bt[4]; backtrace(bt, 4); }
    Entry& e = registry()[c.prop];
    if (e.needs_st) sps::ICoFactory::get_instance().init();
    for (uint64_t k = 0; k < c.cases; ++k) {
        c.cur = c.from + k;
        if (progress) { progress[0] = c.cur; progress[1] = 1; }
        uint64_t ps = fnv(c.prop.data(), c.prop.size());
        c.rng = Rng(c.seed * 0x9E3779B97F4A7C15ull ^ (c.cur + 1) * 0xD1B54A32D192ED03ull ^ ps);
        c.digest = 0;
        alarm(case_deadline);
        try {
            e.fn(c);
        } catch (Violation& v) {
            c.nviol++;
            fprintf(c.out, "{\"v\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n", esc(v.key).c_str(),
                    (unsigned long long) c.cur, esc(v.msg).c_str());
            fflush(c.out);
        } catch (std::exception& x) {
            c.nviol++;
            fprintf(c.out, "{\"v\":\"uncaught-exception\",\"case\":%llu,\"msg\":\"%s\"}\n",
                    (unsigned long long) c.cur, esc(x.what()).c_str());
            fflush(c.out);
        } catch (const char* x) {
            c.nviol++;
            fprintf(c.out, "{\"v\":\"uncaught-exception\",\"case\":%llu,\"msg\":\"%s\"}\n",
                    (unsigned long long) c.cur, esc(x).c_str());
            fflush(c.out);
        }
        alarm(0);
        if (c.digest) fprintf(c.out, "{\"d\":\"%016llx\",\"case\":%llu}\n", (unsigned long long) c.digest, (unsigned long long) c.cur);
        if (c.nviol > 20) { ++k; c.cases = k; break; }
    }
    if (progress) progress[1] = 0;
    fprintf(c.out, "{\"done\":%llu,\"evaluations\":%llu,\"logs\":%llu", (unsigned long long) c.cases,
            (unsigned long long) c.evaluations, (unsigned long long) nl.n);
    fprintf(c.out, ",\"counters\":{");
    bool first = true;
    for (auto& p : c.counters) { fprintf(c.out, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long) p.second); first = false; }
    fprintf(c.out, "},\"distinct\":{");
    first = true;
    for (auto& p : c.distinct_sets) { fprintf(c.out, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long) p.second.size()); first = false; }
    fprintf(c.out, "},\"samples\":[");
    first = true;
    for (auto& s : c.samples) { fprintf(c.out, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(c.out, "],\"nontrivial\":[");
    first = true;
    for (auto h : c.distinct_sets["nontrivial"]) { fprintf(c.out, "%s\"%llx\"", first ? "" : ",", (unsigned long long) h); first = false; }
    fprintf(c.out, "]}\n");
    fflush(c.out);
    _exit(0);
}
