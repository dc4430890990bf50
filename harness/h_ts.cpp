// P06 MPEG-TS demultiplexing, P38 the same inside RTP
#include "io_sched.hpp"
#include "ts_ref.hpp"
#include <sps_avformat_tsdec.hpp>
#include <sps_avformat_rtpdec.hpp>
#include "rtp_ref.hpp"
using namespace vh;
using namespace sps;

static void ts_case(Ctx& c, bool rtp) {
    Rng& r = c.rng;
    TsMux m(r);
    std::set<int> used = {0, 0x11, 0x1fff};
    auto pid = [&]() { int p; do p = r.chance(1, 4) ? 0x20 + r.next() % 16 : 0x20 + r.next() % (0x1ffb - 0x20); while (used.count(p)); used.insert(p); return p; };
    int pmt = pid(), vpid = pid(), apid = pid(), other = pid(), nit = pid(), stray = pid(), pmt2 = pid(), hevc = pid();
    bool has_v = !r.chance(1, 8), has_a = !has_v || !r.chance(1, 8);
    bool with_nit = r.chance(1, 4), two = r.chance(1, 4), with_other = r.chance(1, 3), with_hevc = r.chance(1, 6);
    int order = r.next() % 2;
    static const int foreign[] = {0x06, 0x03, 0x04, 0x11, 0x02, 0x10, 0x15, 0x81, 0x86, 0xea};
    int other_type = foreign[r.next() % 10];
    Bytes pinfo = r.bytes(r.chance(1, 3) ? r.next() % 12 : 0);
    auto es = [&](Bytes& b, int type, int p) {
        b.push_back(type); put(b, 0xE000 | p, 2);
        Bytes d = r.bytes(r.chance(1, 3) ? r.next() % 14 : 0);
        put(b, 0xF000 | d.size(), 2); b.insert(b.end(), d.begin(), d.end());
    };
    auto tables = [&]() {
        Bytes pat;
        if (with_nit) { put(pat, 0, 2); put(pat, 0xE000 | nit, 2); }
        put(pat, 1, 2); put(pat, 0xE000 | pmt, 2);
        if (two) { put(pat, 2, 2); put(pat, 0xE000 | pmt2, 2); }
        m.section(0, 0, 1, pat);
        if (with_nit && r.chance(1, 2)) {   // a network section that would read as a program map naming our PIDs
            Bytes b; put(b, 0xE000 | vpid, 2); put(b, 0xF000, 2);
            es(b, 0x0F, vpid); es(b, 0x1B, apid);
            m.section(nit, 0x40, 1, b);
            c.count("network sections");
        }
        Bytes b; put(b, 0xE000 | (has_v ? vpid : apid), 2); put(b, 0xF000 | pinfo.size(), 2); b.insert(b.end(), pinfo.begin(), pinfo.end());
        if (with_other) es(b, other_type, other);
        if (with_hevc) es(b, 0x24, hevc);
        if (order) { if (has_v) es(b, 0x1B, vpid); if (has_a && !two) es(b, 0x0F, apid); }
        else { if (has_a && !two) es(b, 0x0F, apid); if (has_v) es(b, 0x1B, vpid); }
        m.section(pmt, 2, 1, b);
        if (two) {
            Bytes b2; put(b2, 0xE000 | apid, 2); put(b2, 0xF000, 2);
            if (has_a) es(b2, 0x0F, apid);
            m.section(pmt2, 2, 2, b2);
        }
        c.count("table rounds");
    };
    // elementary streams
    struct Pes { std::vector<Bytes> pay; std::vector<Exp> exp; };
    std::vector<Pes> vs, as;
    bool big = c.cur % 16 == 3;
    uint64_t shape = 0;
    int nv = has_v ? 1 + r.next() % 6 : 0, na = has_a ? 1 + r.next() % 6 : 0;
    auto when = [&](int64_t& pts, int64_t& dts) {
        switch (r.next() % 5) {
            case 0: pts = dts = -1; break;
            case 1: pts = dts = r.next() % (1ll << 33); break;
            case 2: dts = (1ll << 33) - 1 - r.next() % 5000; pts = (dts + r.next() % 5000) % (1ll << 33); break;
            default: dts = r.next() % (1ll << 33); pts = (dts + r.next() % 20000) % (1ll << 33);
        }
    };
    for (int i = 0; i < nv; ++i) {
        Unit u = random_unit(r, big ? 120000 : r.chance(1, 6) ? 9000 : 500);
        for (auto& n : u.nals) if ((nal_type(n) == 7 || nal_type(n) == 8) && n.size() > 60000) { n.resize(60000); if (!n.back()) n.back() = 0x80; }
        when(u.pts, u.dts);
        Bytes e = annexb(r, u);
        if (e.size() > 900000) continue;
        Bytes head = m.pes_head(0xE0 | (r.next() & 15), e.size(), u.pts, u.dts, r.chance(1, 3), r.chance(1, 2));
        Pes p; p.pay = TsMux::cut(r, head, e); p.exp = expect_avc(u, 90);
        c.count(head[4] | head[5] ? "bounded PES" : "unbounded PES");
        if (e.size() > 65535) c.count("PES above 64 KiB");
        shape = shape * 1000003 + e.size() * 31 + p.pay.size();
        vs.push_back(p);
    }
    AdtsConf conf = AdtsConf::random(r);
    bool have = false;
    for (int i = 0; i < na; ++i) {
        if (r.chance(1, 8)) { AdtsConf nc = AdtsConf::random(r); if (!nc.same_codec(conf)) { conf = nc; have = false; } }
        int64_t pts, dts; when(pts, dts); dts = pts;
        Bytes e; Pes p;
        int n = 1 + r.next() % 4;
        for (int k = 0; k < n; ++k) {
            Bytes raw = r.bytes(1 + r.size(500)), f = conf.frame(r, raw);
            e.insert(e.end(), f.begin(), f.end());
            if (!have) { Exp x; x.video = false; x.seq = true; x.data = conf.asc(); x.ts_known = false; p.exp.push_back(x); have = true; }
            Exp x; x.video = false; x.data = raw; x.dts = x.pts = pts / 90; x.ts_known = pts >= 0; p.exp.push_back(x);
        }
        Bytes head = m.pes_head(0xC0 | (r.next() & 15), e.size(), pts, dts, false, r.chance(1, 2));
        p.pay = TsMux::cut(r, head, e);
        shape = shape * 1000003 + e.size() * 31 + p.pay.size();
        as.push_back(p);
    }
    // interleave
    tables();
    size_t vi = 0, vk = 0, ai = 0, ak = 0;
    int switches = 0, lastw = -1;
    int bias = 1 + r.next() % 7;
    while (vi < vs.size() || ai < as.size()) {
        if (r.chance(1, 40)) tables();
        if (r.chance(1, 30)) { m.null_packet(); c.count("null packets"); }
        if (r.chance(1, 30)) m.adaptation_only(has_v ? vpid : apid);
        if (with_other && r.chance(1, 20)) m.packet(other, r.chance(1, 2), r.bytes(184));
        if ((with_other || with_hevc) && r.chance(1, 12)) {       // a PES of an elementary stream that is not delivered
            int p = with_other && (!with_hevc || r.chance(1, 2)) ? other : hevc;
            int64_t fp = r.next() % (1ll << 33);
            Bytes e = r.bytes(1 + r.size(600));
            Bytes head = m.pes_head(p == hevc ? 0xE3 : r.chance(1, 2) ? 0xBD : 0xC1, e.size(), fp, fp, false, r.chance(1, 2));
            auto pays = TsMux::cut(r, head, e);
            for (size_t k = 0; k < pays.size(); ++k) m.packet(p, k == 0, pays[k]);
            c.count("PES of foreign streams");
        }
        if (r.chance(1, 40)) m.packet(stray, r.chance(1, 2), r.bytes(184));
        bool v = vi < vs.size() && (ai >= as.size() || (int)(r.next() % 8) < bias);
        if (v) { m.packet(vpid, vk == 0, vs[vi].pay[vk]); if (++vk == vs[vi].pay.size()) { vk = 0; ++vi; } }
        else { m.packet(apid, ak == 0, as[ai].pay[ak]); if (++ak == as[ai].pay.size()) { ak = 0; ++ai; } }
        if ((int) v != lastw) { ++switches; lastw = v; }
    }
    c.count("TS packets", m.out.size());
    // ---- demux
    Bytes all;
    for (auto& p : m.out) all.insert(all.end(), p.begin(), p.end());
    std::vector<PAVPacket> gv, ga;
    auto take = [&](PAVPacket p) { if (!p) fail("null", "null packet delivered"); (p->is_video() ? gv : ga).push_back(p); };
    bool mem = r.chance(1, 3);
    if (rtp) {        // 1..7 packets a datagram, RTCP in between
        RtpGen gen(r); gen.pt = 33;
        std::vector<Bytes> dg;
        int style = r.next() % 3;
        for (size_t at = 0; at < all.size();) {
            size_t k = std::min<size_t>((style == 0 ? 7 : style == 1 ? 1 : 1 + r.next() % 7) * 188, all.size() - at);
            bool mark = dg.empty() ? r.chance(1, 2) : r.chance(1, 8);
            if (mark && dg.empty()) c.count("streams that start with the marker set");
            if (r.chance(1, 12)) { dg.push_back(rtcp_small(r)); c.count("RTCP in between"); }
            if (r.chance(1, 12)) { dg.push_back(gen.packet(r.next(), false, Bytes())); c.count("datagrams without payload"); }
            dg.push_back(gen.packet(r.next(), mark, Bytes(all.begin() + at, all.begin() + at + k)));
            at += k;
        }
        auto src = std::make_shared<Dgrams>();
        bool single = r.chance(1, 2);
        if (!single) src->d = dg;
        RtpDemuxer d(src);
        PAVPacket p; error_t ret = SUCCESS;
        d.read_header(p);
        for (size_t i = 0; i < (single ? dg.size() : 1); ++i) {
            if (single) { src->d.assign(1, dg[i]); src->at = 0; }
            while ((ret = d.read_packet(p)) == SUCCESS) take(p);
            VH_CHECK(ret == ERROR_SOCKET_TIMEOUT && src->at == src->d.size(), "refused", "well-formed datagram %zu of %zu refused: %d", single ? i : src->at, dg.size(), ret);
        }
        c.count("datagrams", dg.size());
    } else if (mem) {        // from memory, several packets at a time (as SRT and RTP deliver them)
        TsDemuxer d(nullptr);
        size_t at = 0;
        while (at < all.size()) {
            size_t k = std::min<size_t>((1 + r.next() % 7) * 188, all.size() - at);
            Exact e(Bytes(all.begin() + at, all.begin() + at + k));
            error_t ret = d.decode_packet(e.p, e.n);
            VH_CHECK(ret == SUCCESS, "refused", "well-formed TS refused at packet %zu: %d", at / 188, ret);
            PAVPacket p;
            while (d.pop(p)) take(p);
            at += k;
        }
    } else {
        auto src = std::make_shared<SchedReader>(all, Cutter(r.next() % 4, r.next()));
        TsDemuxer d(src);
        PAVPacket p;
        d.read_header(p);
        error_t ret;
        while ((ret = d.read_packet(p)) == SUCCESS) take(p);
        VH_CHECK(ret == src->end_error && src->pos == all.size(), "refused", "well-formed TS refused at packet %zu of %zu: %d", src->pos / 188, m.out.size(), ret);
    }
    auto verify = [&](std::vector<PAVPacket>& g, std::vector<Pes>& ps, const char* what) {
        size_t at = 0, k = 0;
        std::vector<Exp> must, all_;
        for (size_t i = 0; i < ps.size(); ++i) for (auto& e : ps[i].exp) { all_.push_back(e); if (i + 1 < ps.size()) must.push_back(e); }
        VH_CHECK(g.size() >= must.size(), "lost", "%s: %zu packets delivered, at least %zu muxed in completed PES packets", what, g.size(), must.size());
        VH_CHECK(g.size() <= all_.size(), "invented", "%s: %zu packets delivered, %zu muxed", what, g.size(), all_.size());
        for (size_t i = 0; i < g.size(); ++i) { check_exp(g[i], all_[i], what, i); c.mix(g[i]->buffer(), g[i]->size()); }
        c.count(fmt("%s delivered", what), g.size());
    };
    verify(gv, vs, "video packets");
    verify(ga, as, "audio packets");
    c.distinct("nontrivial", shape ^ ((uint64_t) switches << 50));
    c.distinct("PID pairs", vpid << 13 | apid);
    if (c.cur < 3) c.sample(fmt("%zu TS packets, %zu video PES, %zu audio PES, %d switches between them", m.out.size(), vs.size(), as.size(), switches));
}

VH_CASE("P06", ts_demux) { ts_case(c, false); }
VH_CASE("P38", ts_in_rtp) { ts_case(c, true); }
