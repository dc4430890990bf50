// P11 late join, P12 fan-out, P13 wake and timeout
#include "io_sched.hpp"
#include "flv_ref.hpp"
#include "st_util.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_stream.hpp>
#include <sps_stream_cache.hpp>
using namespace vh;
using namespace sps;

namespace {
struct Pub { FTag t; PAVPacket p; };
enum Class { META, AHDR, VHDR, KEY, OTHER };
Class cls(const FTag& t) {
    if (t.type == 18) return META;
    if (t.type == 8) return t.pkt == 0 ? AHDR : OTHER;
    if (!t.info_frame() && t.pkt == 0) return VHDR;
    return t.flags >> 4 == 1 ? KEY : OTHER;
}
FTag media(Rng& r, uint32_t& clock, int mix) {
    FTag t = random_tag(r, 60, clock);
    if (mix == 1) while (t.type == 9) t = random_tag(r, 60, clock);                     // no video
    if (mix == 2) while (cls(t) == KEY) t = random_tag(r, 60, clock);                    // never a key frame
    if (mix == 3) while (cls(t) == AHDR || cls(t) == VHDR || cls(t) == META) t = random_tag(r, 60, clock);
    return t;
}
// what a player joining after 'h' must get at once
std::vector<size_t> snapshot(const std::vector<Pub>& h) {
    std::vector<size_t> o;
    long m = -1, a = -1, v = -1, k = -1;
    for (size_t i = 0; i < h.size(); ++i) switch (cls(h[i].t)) {
        case META: m = i; break; case AHDR: a = i; break; case VHDR: v = i; break; case KEY: k = i; break; default: break;
    }
    if (m >= 0) o.push_back(m);
    if (a >= 0) o.push_back(a);
    if (v >= 0) o.push_back(v);
    if (k >= 0) for (size_t i = k; i < h.size(); ++i) { Class x = cls(h[i].t); if (x == KEY || x == OTHER) o.push_back(i); }
    return o;
}
void same(PAVPacket got, const Pub& want, const char* key, size_t pos) {
    check_packet(got, want.t, key, pos);
}
}

VH_CASE_ST("P11", late_join) {
    Rng& r = c.rng;
    std::string url = fmt("h.example/live/s%llu", (unsigned long long) c.cur);
    if (c.cur % 5 == 4) {        // the raw transport stream cache
        auto cache = StreamCache::create_raw_streamcache(url);
        TsCache tc(cache);
        struct R { int kind; bool start; Bytes b; };
        std::vector<R> h;
        int n = 1 + r.next() % 60;
        bool pes = false;
        for (int i = 0; i < n; ++i) {
            R x; int k = r.next() % 12;
            x.kind = k == 0 ? TS_PROGRAM_PAT : k == 1 ? TS_PROGRAM_PMT : TS_PROGRAM_PES;
            x.start = x.kind != TS_PROGRAM_PES || r.chance(1, 6) || !pes;
            if (x.kind == TS_PROGRAM_PES) pes = true;
            x.b = r.bytes(188);
            h.push_back(x);
            Exact e(x.b);
            VH_CHECK(tc.on_packet(e.p, e.n, (TsProgramType) x.kind, x.start) == SUCCESS, "refused", "TS packet refused");
            if (r.chance(1, 4) || i + 1 == n) {
                long pat = -1, pmt = -1, st = -1;
                for (size_t j = 0; j < h.size(); ++j) { if (h[j].kind == TS_PROGRAM_PAT) pat = j; else if (h[j].kind == TS_PROGRAM_PMT) pmt = j; else if (h[j].start) st = j; }
                std::vector<size_t> exp;
                if (pat >= 0) exp.push_back(pat);
                if (pmt >= 0) exp.push_back(pmt);
                if (st >= 0) for (size_t j = st; j < h.size(); ++j) if (h[j].kind == TS_PROGRAM_PES) exp.push_back(j);
                auto cl = StreamCache::get_client_streamcache(url, 1000);
                VH_CHECK(cl != nullptr, "no client", "no client cache for a running stream");
                std::list<PAVPacket> got;
                if (!exp.empty()) cl->dump(got, true);
                VH_CHECK(got.size() == exp.size(), "raw snapshot", "late joiner of a raw TS gets %zu packets, %zu expected", got.size(), exp.size());
                size_t q = 0;
                for (auto& p : got) { auto& w = h[exp[q++]]; VH_CHECK(p->size() == 188 && !memcmp(p->buffer(), w.b.data(), 188), "raw snapshot", "packet %zu differs", q - 1); }
                cache->cancel(cl);
                c.count("raw TS joins");
            }
        }
        StreamCache::release_av_streamcache(url);
        c.distinct("nontrivial", fnv(h[0].b.data(), 188) ^ n);
        return;
    }
    auto cache = StreamCache::create_av_streamcache(url);
    std::vector<Pub> h;
    uint32_t clock = 0;
    int n = 1 + r.next() % 80, mix = r.chance(1, 4) ? 1 + r.next() % 3 : 0;
    bool big = c.cur % 1000 == 7;            // a very long group of pictures and players that do not read
    if (big) { n = 3000 + r.next() % 15000; c.count("long groups of pictures"); }
    struct Joined { PAVDumpCacheStream cc; std::vector<size_t> exp; size_t at; };
    std::vector<Joined> js;
    uint64_t shape = 0;
    for (int i = 0; i <= n; ++i) {
        if (r.chance(1, big ? 3000 : 5) || i == n) {
            Joined j;
            j.cc = StreamCache::get_client_streamcache(url, 1000);
            VH_CHECK(j.cc != nullptr, "no client", "no client cache for a running stream");
            j.exp = snapshot(h);
            VH_CHECK((size_t) j.cc->size() == j.exp.size(), "snapshot", "joining after %d packets: %d packets at once, %zu expected", i, j.cc->size(), j.exp.size());
            j.at = i;
            js.push_back(j);
            c.count("joins");
            if (j.exp.empty()) c.count("joins before anything to show");
            c.count("packets replayed", j.exp.size());
            shape = shape * 31 + i * 1009 + j.exp.size();
        }
        if (i == n) break;
        Pub p; p.t = media(r, clock, big && i > 20 ? 2 : mix); p.p = p.t.packet();
        VH_CHECK(cache->put(p.p) == SUCCESS, "refused", "packet refused");
        h.push_back(p);
        for (auto& j : js) if (j.cc) j.exp.push_back(h.size() - 1);
        // joined players read at random
        for (auto& j : js) if (j.cc && r.chance(1, big ? 9000 : 6) && j.cc->size() > 0) {
            std::list<PAVPacket> got;
            j.cc->dump(got, true);
            VH_CHECK(got.size() == j.exp.size(), "live", "player joined at %zu reads %zu packets, %zu expected", j.at, got.size(), j.exp.size());
            size_t q = 0; for (auto& g : got) { same(g, h[j.exp[q]], "live", q); ++q; }
            j.exp.clear();
            c.count("live reads");
        }
        shape = shape * 1000003 + p.t.type * 256 + p.t.flags + p.t.pkt;
    }
    for (auto& j : js) {
        std::list<PAVPacket> got;
        if (j.cc->size() > 0) j.cc->dump(got, true);
        VH_CHECK(got.size() == j.exp.size(), "snapshot", "player joined at %zu reads %zu packets, %zu expected", j.at, got.size(), j.exp.size());
        size_t q = 0; for (auto& g : got) { same(g, h[j.exp[q]], "snapshot", q); ++q; }
        cache->cancel(j.cc);
    }
    StreamCache::release_av_streamcache(url);
    VH_CHECK(!StreamCache::get_streamcache(url), "release", "released stream still found");
    c.distinct("nontrivial", shape);
    if (c.cur < 3) c.sample(fmt("%d packets, %zu joins", n, js.size()));
}

namespace {
// gives up the processor at random; the read side of a publisher
struct CoReader : public SchedReader {
    Rng rr;
    CoReader(Bytes d, Cutter cu, uint64_t s) : SchedReader(std::move(d), cu), rr(s) {}
    error_t read(void* b, size_t n, size_t& k) override { if (rr.chance(1, 2)) yield(); return SchedReader::read(b, n, k); }
};
// write side of a player: parks now and then, ends with an error once it has seen 'stop' bytes
struct CoSink : public SchedReader {
    Rng rr; bool quit = false; int slow;
    CoSink(uint64_t s, int sl) : SchedReader(Bytes(), Cutter()), rr(s), slow(sl) {}
    error_t write(void* b, size_t n) override {
        if (quit) return ERROR_SOCKET_WRITE;
        if (slow && rr.chance(1, slow)) yield();
        return SchedReader::write(b, n);
    }
};
}

static void pipeline(Ctx& c) {
    Rng& r = c.rng;
    std::string url = fmt("h.example/live/p%llu", (unsigned long long) c.cur);
    FlvWriter w; w.header();
    std::vector<Pub> h;
    uint32_t clock = 0;
    int n = 5 + r.next() % 60;
    for (int i = 0; i < n; ++i) { Pub p; p.t = media(r, clock, 0); h.push_back(p); w.tag(p.t); }
    Pub last; last.t.type = 18; last.t.data = {'e', 'n', 'd'}; h.push_back(last); w.tag(last.t);
    auto cache = StreamCache::create_av_streamcache(url);
    auto src = std::make_shared<CoReader>(w.out, Cutter(r.next() % 4, r.next()), r.next());
    struct Pl { std::shared_ptr<CoSink> sink; size_t join = 0; bool started = false, leaver = false; error_t ret = 0; };
    std::list<Pl> ps;
    int np = 1 + r.next() % 5;
    Group gr;
    // counts what was put, by being the first subscriber
    struct Count : public CacheStream<PAVPacket> { size_t n = 0; error_t put(PAVPacket) override { ++n; return SUCCESS; } };
    auto cnt = std::make_shared<Count>();
    cache->sub(cnt);
    bool over = false;
    for (int i = 0; i < np; ++i) {
        ps.emplace_back();
        Pl* p = &ps.back();
        p->sink = std::make_shared<CoSink>(r.next(), (int) (r.next() % 4));
        p->leaver = r.chance(1, 4);
        size_t after = r.chance(1, 4) ? 0 : r.next() % n;
        size_t leave_at = after + r.next() % (n + 1);
        gr.go([=, &over]() {
            while (cnt->n < after && !over) yield();
            auto cc = StreamCache::get_client_streamcache(url, 600ull * 1000 * 1000);
            p->join = cnt->n; p->started = true;
            auto mux = std::make_shared<FlvAVMuxer>(p->sink);
            StreamEncoder se(mux, cc);
            p->ret = se.encode();
            cache->cancel(cc);
        });
        if (p->leaver) gr.go([=, &over]() { while (cnt->n < leave_at && !over) yield(); p->sink->quit = true; });
    }
    gr.go([&]() {
        auto dem = std::make_shared<FlvDemuxer>(src);
        StreamDecoder sd(dem, cache);
        error_t ret = sd.decode();
        over = true;
        if (cnt->n != h.size()) fail("publisher", fmt("publisher put %zu packets of %zu (%d)", cnt->n, h.size(), ret));
        // let the players drain, then give each one packet more to end on
        for (int i = 0; i < 3000; ++i) yield();
        for (auto& p : ps) p.sink->quit = true;
        PAVPacket x = last.t.packet();
        cache->put(x);
    });
    gr.join();
    for (auto& p : ps) {
        VH_CHECK(p.started, "player", "player never started");
        std::vector<Pub> before(h.begin(), h.begin() + std::min(p.join, h.size()));
        std::vector<size_t> exp = snapshot(before);
        for (size_t i = p.join; i < h.size(); ++i) exp.push_back(i);
        FlvWriter ref; ref.header();
        for (size_t i : exp) ref.tag(h[i].t);
        Bytes& got = p.sink->written;
        bool prefix = got.size() <= ref.out.size() && std::equal(got.begin(), got.end(), ref.out.begin());
        VH_CHECK(prefix, "stream", "player that joined after %zu of %zu packets got other bytes than the stream's (%zu bytes, %zu expected)", p.join, h.size(), got.size(), ref.out.size());
        if (!p.leaver) VH_CHECK(got.size() == ref.out.size(), "lost", "player that joined after %zu of %zu packets got %zu bytes of %zu", p.join, h.size(), got.size(), ref.out.size());
        c.count("pipeline players");
        c.distinct("join points", p.join);
    }
    StreamCache::release_av_streamcache(url);
    c.count("pipelines");
    c.distinct("nontrivial", fnv(w.out.data(), w.out.size()) ^ np);
}

VH_CASE_ST("P12", fanout) {
    if (c.cur % 8 == 5) { pipeline(c); return; }
    Rng& r = c.rng;
    bool big = c.cur % 1000 == 7;   // players that let thousands of packets wait
    int ns = big ? 1 : 1 + r.next() % 3;
    struct S { std::string url; StreamCache::PICacheStream cache; std::vector<Pub> h; };
    std::vector<S> ss(ns);
    for (int i = 0; i < ns; ++i) { ss[i].url = fmt("h.example/live/f%llu_%d", (unsigned long long) c.cur, i); ss[i].cache = StreamCache::create_av_streamcache(ss[i].url); }
    struct P { int s; PAVDumpCacheStream cc; std::vector<size_t> exp; bool in; std::vector<uint64_t> seen; };
    std::list<P> ps;
    uint32_t clock = 0;
    int ops = 20 + r.next() % 160;
    uint64_t shape = 0;
    int bias = r.next() % 3;        // many joins and abandons / balanced / mostly publishing
    if (big) { ops = 6000 + r.next() % 24000; bias = 3; c.count("long waits"); }
    std::vector<std::pair<PAVPacket, uint64_t>> digests;
    for (int k = 0; k < ops; ++k) {
        int op = r.next() % (bias == 0 ? 10 : bias == 1 ? 14 : bias == 2 ? 20 : 100000);
        shape = shape * 131 + op;
        if (op < 3 || ps.empty()) {
            P p; p.s = r.next() % ns;
            p.cc = StreamCache::get_client_streamcache(ss[p.s].url, 1000);
            VH_CHECK(p.cc != nullptr, "no client", "no client cache");
            p.exp = snapshot(ss[p.s].h);
            p.in = true;
            ps.push_back(p);
            c.count("joins");
            continue;
        }
        auto it = ps.begin(); std::advance(it, r.next() % ps.size());
        if (op < 5) {                // leaves, its object stays for a while
            if (it->in) { ss[it->s].cache->cancel(it->cc); it->in = false; c.count("leaves"); }
        } else if (op < 7) {         // vanishes without leaving, or is freed after leaving
            c.count(it->in ? "abandons" : "frees");
            ps.erase(it);
        } else if (op < 9) {         // reads
            if (it->cc->size() > 0) {
                std::list<PAVPacket> got;
                it->cc->dump(got, true);
                VH_CHECK(got.size() == it->exp.size(), it->in ? "live" : "after leaving", "%zu packets read, %zu expected", got.size(), it->exp.size());
                size_t q = 0; for (auto& g : got) { same(g, ss[it->s].h[it->exp[q]], "live", q); ++q; }
                it->exp.clear();
                c.count("reads");
            } else VH_CHECK(it->exp.empty(), "lost", "nothing to read, %zu packets expected", it->exp.size());
        } else {
            int s = r.next() % ns;
            Pub p; p.t = media(r, clock, 0); p.p = p.t.packet();
            ss[s].cache->put(p.p);
            ss[s].h.push_back(p);
            for (auto& x : ps) if (x.in && x.s == s) x.exp.push_back(ss[s].h.size() - 1);
            c.count("publishes");
            for (auto& x : ps) VH_CHECK((size_t) x.cc->size() == x.exp.size(), x.in ? "delivery" : "after leaving",
                "after publish %zu of stream %d a player of stream %d (%s) holds %d packets, %zu expected", ss[s].h.size(), s, x.s, x.in ? "joined" : "left", x.cc->size(), x.exp.size());
        }
        c.distinct("player counts", ps.size());
    }
    for (auto& p : ps) {
        std::list<PAVPacket> got;
        if (p.cc->size() > 0) p.cc->dump(got, true);
        VH_CHECK(got.size() == p.exp.size(), "live", "%zu packets read at the end, %zu expected", got.size(), p.exp.size());
        size_t q = 0; for (auto& g : got) { same(g, ss[p.s].h[p.exp[q]], "live", q); ++q; }
    }
    for (auto& s : ss) StreamCache::release_av_streamcache(s.url);
    c.distinct("nontrivial", shape);
    if (c.cur < 2) c.sample(fmt("%d operations on %d streams, %zu players at the end", ops, ns, ps.size()));
}

VH_CASE_ST("P13", wake) {
    Rng& r = c.rng;
    std::string url = fmt("h.example/live/w%llu", (unsigned long long) c.cur);
    auto cache = StreamCache::create_av_streamcache(url);
    uint32_t clock = 0;
    Group gr;
    int nw = 1 + r.next() % 8;
    uint64_t shape = nw;
    if (c.cur % 4 == 3) {        // nothing published: timeouts
        struct W { uint64_t tm, spent; int n; };
        std::list<W> ws;
        for (int i = 0; i < nw; ++i) {
            ws.push_back(W{(1 + r.next() % 40) * 1000, 0, -1});
            W* w = &ws.back();
            shape = shape * 131 + w->tm;
            gr.go([=]() {
                auto cc = StreamCache::get_client_streamcache(url, w->tm);
                std::list<PAVPacket> got;
                uint64_t t0 = st_utime();
                w->n = cc->dump(got, true);
                w->spent = st_utime() - t0;
                cache->cancel(cc);
            });
        }
        gr.join();
        for (auto& w : ws) {
            VH_CHECK(w.n == 0, "timeout", "%d packets from an empty stream", w.n);
            VH_CHECK(w.spent + 1000 >= w.tm, "early", "gave up after %llu us, timeout %llu us", (unsigned long long) w.spent, (unsigned long long) w.tm);
            VH_CHECK(w.spent < w.tm + 4000000, "late", "gave up after %llu us, timeout %llu us", (unsigned long long) w.spent, (unsigned long long) w.tm);
            c.count("timeouts");
        }
        StreamCache::release_av_streamcache(url);
        c.distinct("nontrivial", shape);
        return;
    }
    // waiters with a timeout far beyond the case; the publisher checks that everybody ran
    struct W { int got = 0; bool waiting = false; bool stop = false; uint64_t rounds = 0; uint64_t bad = 0; };
    std::list<W> ws;
    int total = 0;
    int npub = 1 + r.next() % 20;
    Group* pg = &gr;
    const uint64_t FAR = 3600ull * 1000 * 1000;
    for (int i = 0; i < nw; ++i) {
        ws.emplace_back();
        W* w = &ws.back();
        uint64_t s = r.next();
        gr.go([=]() {
            Rng rr(s);
            auto cc = StreamCache::get_client_streamcache(url, FAR);
            while (!w->stop && !pg->aborted) {
                std::list<PAVPacket> got;
                w->waiting = true;
                int n = cc->dump(got, true);
                w->waiting = false;
                if (n <= 0 || (size_t) n != got.size()) w->bad++;
                w->got += n; w->rounds++;
                for (auto& p : got) if (p->is_script() && p->size() == 4 && !memcmp(p->buffer(), "stop", 4)) w->stop = true;
                for (int k = rr.next() % 4; k > 0; --k) yield();
            }
            cache->cancel(cc);
        });
    }
    gr.go([&]() {
        Rng rr(r.next());
        for (int i = 0; i < 3; ++i) yield();          // all of them wait or are about to
        for (int i = 0; i < npub; ++i) {
            int burst = 1 + rr.next() % 3;
            for (int k = 0; k < burst; ++k) {
                FTag t = random_tag(rr, 20, clock); t.type = 8; t.flags = 0xAF; t.pkt = 1; t.cts = 0;
                PAVPacket p = t.packet();
                cache->put(p); ++total;
                if (rr.chance(1, 3)) yield();
            }
            if (rr.chance(1, 2)) {
                // after a publish everybody gets to run before this coroutine has yielded 10 times
                for (int k = 0; k < 12; ++k) yield();
                for (auto& w : ws) if (w.got != total) fail("lost wake-up", fmt("a waiting player holds back %d of %d packets", total - w.got, total));
                c.count("wake-ups checked", ws.size());
            }
            for (int k = rr.next() % 3; k > 0; --k) yield();
        }
        FTag t; t.type = 18; t.data = {'s', 't', 'o', 'p'};
        PAVPacket p = t.packet();
        cache->put(p); ++total;
        for (int k = 0; k < 30; ++k) yield();
        for (auto& w : ws) if (!w.stop) fail("lost wake-up", "a waiting player was not woken by the last packet");
    });
    try { gr.join(); } catch (Violation&) { throw; }
    for (auto& w : ws) {
        VH_CHECK(w.bad == 0, "empty wake-up", "a player was resumed %llu times without a packet before its timeout", (unsigned long long) w.bad);
        VH_CHECK(w.got == total, "lost", "player got %d of %d packets", w.got, total);
        shape = shape * 131 + w.rounds;
    }
    c.count("publishes", total);
    StreamCache::release_av_streamcache(url);
    c.distinct("nontrivial", shape);
    c.distinct("wake-up schedules", shape);
}
