// Common frame of the harness binaries: seeded cases, monitors, observation counters.
//
// A harness binary registers one function per property id. It runs cases
// [from, from+cases) and writes a JSON-lines report: violations, counters, and one
// digest per case (used to compare runs that differ only in the heap fill byte).
#ifndef VH_HPP
#define VH_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

#include <sps_log.hpp>
#include <sps_error.hpp>

namespace vh {

typedef std::vector<uint8_t> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)(next() % den) < num; }
    uint8_t byte() { return (uint8_t) next(); }
    Bytes bytes(size_t n) { Bytes b(n); for (auto& c : b) c = byte(); return b; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    // sizes that favour boundaries
    size_t size(size_t max) {
        switch (next() % 4) {
            case 0: return next() % (std::min<size_t>(max, 8) + 1);
            case 1: return next() % (std::min<size_t>(max, 64) + 1);
            default: return next() % (max + 1);
        }
    }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t* c = (const uint8_t*) p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

struct Violation {
    std::string key, msg;
};

struct Ctx {
    std::string prop;
    uint64_t seed = 1;
    uint64_t cases = 1;
    uint64_t from = 0;
    uint64_t cur = 0;
    bool verbose = false;
    FILE* out = nullptr;
    Rng rng;
    uint64_t digest = 0;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::set<uint64_t>> distinct_sets;
    std::vector<std::string> samples;
    uint64_t evaluations = 0;
    uint64_t nviol = 0;

    void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
    void distinct(const std::string& k, uint64_t h) { if (distinct_sets[k].size() < 2000000) distinct_sets[k].insert(h); }
    void eval(uint64_t n = 1) { evaluations += n; }
    void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
    void mix(const void* p, size_t n) { digest = fnv(p, n, digest ? digest : 1469598103934665603ull); }
    void mix64(uint64_t v) { mix(&v, sizeof v); }
};

extern Ctx* g;

inline std::string fmt(const char* f, ...) {
    char b[2048];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}

inline std::string hex(const uint8_t* p, size_t n, size_t max = 24) {
    std::string s; char b[4];
    for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; }
    if (n > max) s += "..";
    return s;
}

[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
    throw Violation{key, msg};
}
#define VH_CHECK(cond, key, ...) do { vh::g->eval(); if (!(cond)) vh::fail(key, vh::fmt(__VA_ARGS__)); } while (0)

typedef std::function<void(Ctx&)> CaseFn;
struct Entry { CaseFn fn; bool needs_st; };
std::map<std::string, Entry>& registry();
struct Reg { Reg(const char* id, CaseFn fn, bool st = false) { registry()[id] = Entry{fn, st}; } };
#define VH_CASE(ID, name) static void name(vh::Ctx& c); static vh::Reg reg_##name(ID, name); static void name(vh::Ctx& c)
#define VH_CASE_ST(ID, name) static void name(vh::Ctx& c); static vh::Reg reg_##name(ID, name, true); static void name(vh::Ctx& c)

// deadline of a case in seconds of wall time; a harness may raise it before it runs
extern int case_deadline;

// exact-size heap copy, so that the sanitizer sees a read of one byte too many
struct Exact {
    uint8_t* p; size_t n;
    explicit Exact(const Bytes& b) : n(b.size()) { p = (uint8_t*) malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); }
    explicit Exact(size_t n) : n(n) { p = (uint8_t*) malloc(n ? n : 1); }
    ~Exact() { free(p); }
    Exact(const Exact&) = delete;
};

}  // namespace vh
#endif
