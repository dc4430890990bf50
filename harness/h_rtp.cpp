// P07 H.264 over RTP, P08 AAC over RTP and RTCP
#include "codec_ref.hpp"
#include <sps_avcodec_parser.hpp>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_io.hpp>

#include "rtp_ref.hpp"
using namespace vh;
using namespace sps;

VH_CASE("P07", rtp_h264) {
    Rng& r = c.rng;
    RtpGen gen(r);
    std::vector<Bytes> dg;
    std::vector<Exp> exp;
    std::vector<uint32_t> ets;
    int n = 1 + r.next() % 12;
    size_t mtu = 60 + r.next() % 1340;
    uint64_t shape = 0;
    uint32_t ts = r.chance(1, 4) ? 0xffffffffu - r.next() % 9000 : r.next();
    uint16_t don = r.next();
    auto want = [&](const Bytes& nal, uint32_t t) {
        int ty = nal_type(nal);
        Exp e;
        if (ty == 7) { e.seq = true; e.flags = 0x17; e.sps = nal; e.ts_known = false; }
        else if (ty == 1 || ty == 5 || ty == 6) {
            e.flags = ty == 5 ? 0x17 : ty == 1 ? 0x27 : 0x57;
            put(e.data, nal.size(), 4); e.data.insert(e.data.end(), nal.begin(), nal.end());
            e.pts = t / 90;
        } else return;
        exp.push_back(e); ets.push_back(t);
    };
    static const int types[] = {1, 1, 5, 6, 7, 8, 9, 1, 5, 12, 2, 14};
    auto nal = [&](size_t max) {
        int t = types[r.next() % 12];
        // fragments and single units are opaque bytes to the packetizer: no emulation rule needed
        Bytes b = r.bytes(1 + r.size(max));
        b[0] = (r.next() & 3) << 5 | t;
        if (t == 7) while (b.size() < 4) b.push_back(r.byte());
        return b;
    };
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 3)) ts += r.next() % 9000;
        int kind = r.next() % 3;
        if (r.chance(1, 10)) { dg.push_back(rtcp_small(r)); c.count("RTCP in between"); }
        if (kind == 0) {
            Bytes b = nal(mtu);
            dg.push_back(gen.packet(ts, r.chance(1, 2), b)); want(b, ts); c.count("single NAL packets");
            shape = shape * 131 + b.size();
        } else if (kind == 1) {
            int k = 1 + r.next() % 5;
            Bytes p(1, 0);
            // STAP-A mostly; STAP-B, MTAP16 and MTAP24 with the units in decoding order and all at one time
            int agg = r.chance(2, 3) ? 24 : 25 + r.next() % 3;
            p[0] = (r.next() & 3) << 5 | agg;
            if (agg != 24) { put(p, don, 2); c.count("aggregates with decoding order numbers"); }
            for (int j = 0; j < k; ++j) {
                Bytes b = nal(r.chance(1, 3) ? 500 : 60);
                if (p.size() + b.size() > 1900) break;
                put(p, b.size(), 2);
                if (agg >= 26) { p.push_back(j); put(p, 0, agg == 26 ? 2 : 3); }
                ++don;
                p.insert(p.end(), b.begin(), b.end()); want(b, ts);
                c.count("aggregated NAL units");
                shape = shape * 131 + b.size() + 7;
            }
            if (p.size() > 1) dg.push_back(gen.packet(ts, r.chance(1, 2), p));
        } else {
            Bytes b = nal(c.cur % 8 == 1 ? 60000 : 6000);
            if (c.cur % 200 == 7 && i == 0) { int t = b[0]; b = r.bytes(1024 * 1024 - r.next() % 3); b[0] = (t & 0x60) | 5; c.count("NAL units of 1 MiB"); }
            if (nal_type(b) == 7 && b.size() > 60000) b.resize(60000);
            size_t at = 1;
            if (b.size() < 3) b.insert(b.end(), 3, 0x55);
            bool first = true, fub = r.chance(1, 5);
            int frags = 0;
            while (at < b.size()) {
                size_t k = std::min(b.size() - at, 1 + (size_t) (r.chance(1, 4) ? r.next() % mtu : mtu - 1));
                if (first && k == b.size() - 1) k = k / 2 + (k == 1 ? 1 : 0);   // S and E never in one fragment
                Bytes p;
                p.push_back((b[0] & 0xe0) | (fub && first ? 29 : 28));     // FU-B: only the first fragment
                bool end = at + k == b.size();
                p.push_back((first ? 0x80 : 0) | (end ? 0x40 : 0) | (b[0] & 31));
                if (fub && first) { put(p, don++, 2); c.count("FU-B fragments"); }
                p.insert(p.end(), b.begin() + at, b.begin() + at + k);
                dg.push_back(gen.packet(ts, end, p));
                first = false; at += k; ++frags;
                if (!end && r.chance(1, 20)) { dg.push_back(rtcp_small(r)); c.count("RTCP in between"); }
            }
            want(b, ts);
            c.count("fragmented NAL units");
            c.distinct("fragment counts", frags);
            shape = shape * 131 + b.size() * 7 + frags;
        }
    }
    std::vector<PAVPacket> got;
    bool whole = r.chance(1, 2);
    if (whole) {
        auto src = std::make_shared<Dgrams>();
        src->d = dg;
        RtpDemuxer d(src);
        VH_CHECK(d.init_codec(AVCODEC_H264) == SUCCESS, "init", "H.264 decoder refused");
        PAVPacket p; error_t ret;
        d.read_header(p);
        while ((ret = d.read_packet(p)) == SUCCESS) got.push_back(p);
        VH_CHECK(ret == ERROR_SOCKET_TIMEOUT && src->at == dg.size(), "refused", "well-formed packet %zu of %zu refused: %d", src->at, dg.size(), ret);
    } else {
        auto src = std::make_shared<Dgrams>();
        RtpDemuxer d(src);          // datagrams arriving one at a time
        VH_CHECK(d.init_codec(AVCODEC_H264) == SUCCESS, "init", "H.264 decoder refused");
        for (size_t i = 0; i < dg.size(); ++i) {
            src->d.assign(1, dg[i]); src->at = 0;
            PAVPacket p; error_t ret;
            while ((ret = d.read_packet(p)) == SUCCESS) got.push_back(p);
            VH_CHECK(ret == ERROR_SOCKET_TIMEOUT, "refused", "well-formed packet %zu refused: %d", i, ret);
        }
    }
    VH_CHECK(got.size() == exp.size(), "count", "%zu packets delivered, %zu NAL units sent", got.size(), exp.size());
    for (size_t i = 0; i < got.size(); ++i) {
        exp[i].ts_known = false;
        check_exp(got[i], exp[i], "nal", i);
        if (!exp[i].seq) VH_CHECK(got[i]->pts == exp[i].pts, "timestamp", "packet %zu: pts %lld, expected %lld", i, (long long) got[i]->pts, (long long) exp[i].pts);
        c.mix(got[i]->buffer(), got[i]->size());
    }
    c.count("packets delivered", got.size());
    c.count("datagrams", dg.size());
    c.distinct("nontrivial", shape);
    if (c.cur < 3) c.sample(fmt("%zu datagrams, %zu packets delivered", dg.size(), got.size()));
}

static void aac_case(Ctx& c) {
    Rng& r = c.rng;
    RtpGen gen(r);
    std::vector<Bytes> dg;
    std::vector<Exp> exp;
    uint64_t shape = 0;
    int n = 1 + r.next() % 10;
    for (int i = 0; i < n; ++i) {
        uint32_t ts = r.next();
        bool many = r.chance(1, 12), large = !many && r.chance(1, 12);
        int k = many ? 100 + r.next() % 60 : large ? 1 : 1 + r.next() % 8;
        Bytes head, data;
        for (int j = 0; j < k; ++j) {
            Bytes au = r.bytes(many ? 1 + r.next() % 12 : large ? 2040 + r.next() % 500 : 1 + r.size(r.chance(1, 4) ? 1800 : 250));
            if (data.size() + au.size() > (large ? 2600u : 2200u)) break;
            put(head, au.size() << 3 | (j == 0 ? 0 : r.chance(1, 4) ? r.next() & 7 : 0), 2);
            data.insert(data.end(), au.begin(), au.end());
            Exp e; e.video = false; e.data = au; e.dts = e.pts = ts / 90;
            exp.push_back(e);
            shape = shape * 131 + au.size();
        }
        Bytes p; put(p, head.size() * 8, 2);
        p.insert(p.end(), head.begin(), head.end());
        p.insert(p.end(), data.begin(), data.end());
        if (many) c.count("packets of more than 99 access units");
        if (large) c.count("access units above 2 KiB");
        dg.push_back(gen.packet(ts, true, p));
        if (r.chance(1, 8)) { dg.push_back(rtcp_small(r)); c.count("RTCP in between"); }
    }
    auto src = std::make_shared<Dgrams>();
    src->d = dg;
    RtpDemuxer d(src);
    VH_CHECK(d.init_codec(AVCODEC_AAC) == SUCCESS, "init", "AAC decoder refused");
    std::vector<PAVPacket> got;
    PAVPacket p; error_t ret;
    while ((ret = d.read_packet(p)) == SUCCESS) got.push_back(p);
    VH_CHECK(ret == ERROR_SOCKET_TIMEOUT && src->at == dg.size(), "refused", "well-formed packet %zu of %zu refused: %d", src->at, dg.size(), ret);
    VH_CHECK(got.size() == exp.size(), "count", "%zu packets delivered, %zu access units sent", got.size(), exp.size());
    for (size_t i = 0; i < got.size(); ++i) { check_exp(got[i], exp[i], "access unit", i); c.mix(got[i]->buffer(), got[i]->size()); }
    c.count("access units", got.size());
    c.distinct("nontrivial", shape);
}

static void rtcp_case(Ctx& c) {
    Rng& r = c.rng;
    int kind = r.next() % 3;
    Bytes o;
    auto head = [&](int cnt, int pt) { o.push_back(0x80 | cnt); o.push_back(pt); put(o, 0, 2); };
    auto seal = [&]() { while (o.size() % 4) o.push_back(0); size_t w = o.size() / 4 - 1; o[2] = w >> 8; o[3] = w; };
    auto f32 = [&](std::vector<uint32_t>& v) { v.push_back(r.chance(1, 5) ? (r.chance(1, 2) ? 0xffffffffu : 0) : (uint32_t) r.next()); put(o, v.back(), 4); };
    RtcpHeadDecoder hd;
    auto blocks = [&](int cnt, std::vector<uint32_t>& v) {
        for (int i = 0; i < cnt; ++i) { f32(v); f32(v); f32(v); f32(v); f32(v); f32(v); }
    };
    auto check_blocks = [&](std::list<RtcpSRReportBlock>& bl, const std::vector<uint32_t>& v) {
        VH_CHECK(bl.size() * 6 == v.size(), "blocks", "%zu report blocks, %zu sent", bl.size(), v.size() / 6);
        size_t i = 0;
        for (auto& b : bl) {
            VH_CHECK(b.ssrc == v[i] && b.fraction_lost == v[i + 1] >> 24 && b.cum_number_pkt_lost == (v[i + 1] & 0xffffff) &&
                     b.extend_high_seq_num_recv == v[i + 2] && b.inter_arrival_jitter == v[i + 3] && b.last_sr == v[i + 4] &&
                     b.delay_since_last_sr == v[i + 5], "block", "report block %zu differs", i / 6);
            i += 6;
            c.count("report blocks");
        }
    };
    int cnt = r.next() % 32;
    std::vector<uint32_t> v, bl;
    uint64_t shape = kind * 100 + cnt;
    if (kind == 0 || kind == 1) {
        head(cnt, kind == 0 ? 200 : 201);
        for (int i = 0; i < (kind == 0 ? 6 : 1); ++i) f32(v);
        blocks(cnt, bl);
        seal();
        Exact e(o);
        BitContext bc(e.p, e.n);
        VH_CHECK(hd.decode(bc) == SUCCESS && hd.header.payload_type == o[1] && hd.header.cflag == (uint32_t) cnt && hd.header.length == o.size() / 4 - 1 &&
                 hd.header.version == 2 && hd.header.padding == 0, "head", "RTCP head differs");
        if (kind == 0) {
            RtcpSRDecoder d;
            VH_CHECK(d.decode(hd.header, bc) == SUCCESS, "refused", "sender report with %d blocks refused", cnt);
            VH_CHECK(d.ssrc == v[0] && d.ntp_ts_msw == v[1] && d.ntp_ts_lsw == v[2] && d.rtp_ts == v[3] && d.send_pkt_count == v[4] && d.send_oct_count == v[5], "sr", "sender info differs");
            check_blocks(d.report_blocks, bl);
            d.debug();
            c.count("sender reports");
        } else {
            RtcpRRDecoder d;
            VH_CHECK(d.decode(hd.header, bc) == SUCCESS, "refused", "receiver report with %d blocks refused", cnt);
            VH_CHECK(d.ssrc == v[0], "rr", "receiver ssrc differs");
            check_blocks(d.report_blocks, bl);
            d.debug();
            c.count("receiver reports");
        }
    } else {
        head(cnt, 202);
        std::vector<std::pair<int, Bytes>> firsts;
        for (int i = 0; i < cnt; ++i) {
            f32(v);
            int items = r.chance(1, 12) ? 0 : 1 + r.next() % 3;
            for (int k = 0; k < items; ++k) {
                Bytes x = r.bytes(r.chance(1, 6) ? r.next() % 256 : r.next() % 20);
                int t = 1 + r.next() % 8;
                o.push_back(t); o.push_back(x.size()); o.insert(o.end(), x.begin(), x.end());
                if (k == 0) firsts.push_back({t, x});
                shape = shape * 131 + x.size();
            }
            if (!items) firsts.push_back({0, Bytes()});
            o.push_back(0);
            while (o.size() % 4) o.push_back(0);
        }
        seal();
        Exact e(o);
        BitContext bc(e.p, e.n);
        VH_CHECK(hd.decode(bc) == SUCCESS, "head", "RTCP head refused");
        RtcpSDESDecoder d;
        VH_CHECK(d.decode(hd.header, bc) == SUCCESS, "refused", "source description with %d chunks refused", cnt);
        VH_CHECK(d.sdes.size() == (size_t) cnt, "sdes", "%zu chunks, %d sent", d.sdes.size(), cnt);
        size_t i = 0;
        for (auto& s : d.sdes) {
            VH_CHECK(s.ssrc == v[i], "sdes", "chunk %zu: ssrc %x, sent %x", i, s.ssrc, v[i]);
            auto& f = firsts[i];
            if (f.first) VH_CHECK(s.item_type == f.first && s.item_length == f.second.size() && s.item_value && s.item_value->size() == f.second.size() &&
                     (f.second.empty() || !memcmp(s.item_value->buffer(), f.second.data(), f.second.size())), "sdes", "chunk %zu: item differs", i);
            ++i;
            c.count("source description chunks");
        }
        d.debug();
    }
    // through the packet entry point as well, and followed by other packets of a compound
    if (r.chance(1, 3)) { Bytes x = rtcp_small(r); o.insert(o.end(), x.begin(), x.end()); }
    Exact e(o);
    RtcpRtpDecoder all;
    std::list<PAVPacket> pkts;
    VH_CHECK(all.decode(e.p, e.n, pkts) == SUCCESS, "refused", "well-formed RTCP packet type %d refused", o[1]);
    VH_CHECK(pkts.empty(), "rtcp media", "RTCP produced media packets");
    c.distinct("nontrivial", shape);
    // cut short: refused, not invented
    if (o.size() > 8 && cnt > 0) {
        size_t k = r.next() % (kind == 2 ? 8 : (kind == 0 ? 28 : 8) + 24 * cnt);
        Exact t(Bytes(o.begin(), o.begin() + k));
        RtcpRtpDecoder dd;
        VH_CHECK(dd.decode(t.p, t.n, pkts) != SUCCESS, "truncated", "RTCP packet of %zu bytes cut to %zu accepted", o.size(), k);
        c.count("truncated RTCP refused");
    }
}

VH_CASE("P08", rtp_aac_rtcp) { if (c.cur % 2) aac_case(c); else rtcp_case(c); }
