// P05 hostile media input: mutated and random bytes through every media parser
#include "io_sched.hpp"
#include "ts_ref.hpp"
#include "rtp_ref.hpp"
#include <sps_avcodec_aac_parser.hpp>
#include <sps_avcodec_h264_parser.hpp>
#include <sps_avcodec_parser.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_avformat_rtpdec_ts.hpp>
#include <sps_avformat_tsdec.hpp>
using namespace vh;
using namespace sps;

static void mutate(Rng& r, Bytes& b, int n) {
    static const uint8_t vals[] = {0, 0xff, 0x7f, 0x80, 1, 0x47, 0x40, 0x1f, 0xfe, 2, 8, 9, 18, 24, 28, 0x10, 0x20, 0x30};
    for (int i = 0; i < n && !b.empty(); ++i) {
        size_t at = r.chance(1, 3) ? r.next() % std::min<size_t>(b.size(), 40) : r.next() % b.size();
        switch (r.next() % 9) {
            case 0: b[at] ^= 1 << (r.next() % 8); break;
            case 1: b[at] = r.byte(); break;
            case 2: b[at] = vals[r.next() % sizeof vals]; break;
            case 3: { size_t k = 1 + r.next() % 8; b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + k)); break; }
            case 4: { Bytes x = r.bytes(1 + r.next() % 8); b.insert(b.begin() + at, x.begin(), x.end()); break; }
            case 5: { size_t k = std::min<size_t>(b.size() - at, 1 + r.next() % 60); Bytes x(b.begin() + at, b.begin() + at + k); b.insert(b.begin() + r.next() % b.size(), x.begin(), x.end()); break; }
            case 6: if (r.chance(1, 3)) b.resize(at); else b[at] = 0xff; break;
            case 7: { size_t k = std::min<size_t>(b.size() - at, 1 + r.next() % 4); for (size_t j = 0; j < k; ++j) b[at + j] = 0xff; break; }
            default: { size_t k = std::min<size_t>(b.size() - at, 1 + r.next() % 4); for (size_t j = 0; j < k; ++j) b[at + j] = 0; break; }
        }
    }
}

static void observe(Ctx& c, PAVPacket p, bool clock = false) {
    if (!p) fail("null packet", "a null packet was delivered");
    volatile uint8_t x = 0;
    for (uint32_t i = 0; i < p->size(); ++i) x ^= p->buffer()[i];
    c.mix64(p->size()); c.mix(p->buffer(), p->size());
    c.mix64(p->flags); c.mix64(p->stream_type); c.mix64(p->codecid); c.mix64(p->pts);
    if (!clock) c.mix64(p->dts);
    c.mix64(p->is_keyframe()); c.mix64(p->is_video_sequence_header());
    c.count("packets delivered");
    if (p->size() > 8 * 1024 * 1024) fail("size", fmt("packet of %u bytes", p->size()));
}

static Bytes some_flv(Rng& r) {
    FlvWriter w; w.header();
    uint32_t clock = r.next() % 100000;
    int n = 1 + r.next() % 8;
    for (int i = 0; i < n; ++i) w.tag(random_tag(r, r.chance(1, 4) ? 700 : 30, clock));
    put(w.out, w.prev, 4);
    return w.out;
}

static std::vector<Bytes> some_ts(Rng& r, bool big = false) {
    TsMux m(r);
    int pmt = 0x100, v = 0x101, a = 0x102;
    Bytes pat; put(pat, 1, 2); put(pat, 0xE000 | pmt, 2);
    m.section(0, 0, 1, pat);
    Bytes b; put(b, 0xE000 | v, 2); put(b, 0xF000, 2);
    b.push_back(0x1B); put(b, 0xE000 | v, 2); put(b, 0xF000, 2);
    b.push_back(0x0F); put(b, 0xE000 | a, 2); put(b, 0xF000, 2);
    m.section(pmt, 2, 1, b);
    int n = 1 + r.next() % 5;
    for (int i = 0; i < n; ++i) {
        Bytes es; int pid;
        bool vid = r.chance(1, 2);
        if (big && i == 0) {        // an unbounded PES around the 1 MiB that fit
            vid = true; es = r.bytes(r.chance(1, 2) ? (1 << 20) - 1 + r.next() % 4 : (1 << 20) - 40 + r.next() % 80); es[0] = es[1] = es[2] = 0; es[3] = 1; es[4] = 0x65; pid = v;
        } else if (vid) { Unit u = random_unit(r, 300); es = annexb(r, u); pid = v; }
        else { AdtsConf cf; for (int k = 0; k < 2; ++k) { Bytes f = cf.frame(r, r.bytes(r.size(200))); es.insert(es.end(), f.begin(), f.end()); } pid = a; }
        Bytes h = m.pes_head(vid ? 0xE0 : 0xC0, es.size(), r.next() % (1ll << 33), r.next() % (1ll << 33), r.chance(1, 3), !(big && i == 0) && r.chance(1, 2));
        auto pay = TsMux::cut(r, h, es);
        for (size_t k = 0; k < pay.size(); ++k) m.packet(pid, k == 0, pay[k]);
    }
    return m.out;
}

VH_CASE("P05", fuzz) {
    Rng& r = c.rng;
    int kind = c.cur % 8;
    int level = r.next() % 4;                    // 0: random bytes, else mutations
    int nmut = level == 1 ? 1 : level == 2 ? 1 + r.next() % 4 : 1 + r.next() % 20;
    uint64_t sig = 0;
    static const char* names[] = {"FLV", "TS stream", "TS datagrams", "RTP H.264", "RTP AAC", "RTCP", "ADTS", "H.264"};
    c.count(fmt("%s inputs", names[kind]));
    c.mix64(kind + 1);
    switch (kind) {
    case 0: {
        Bytes b = level ? some_flv(r) : r.bytes(r.size(400));
        if (!level && r.chance(1, 2) && b.size() > 9) { Bytes h = {'F','L','V',1,5,0,0,0,9}; std::copy(h.begin(), h.end(), b.begin()); }
        if (level) mutate(r, b, nmut);
        auto src = std::make_shared<SchedReader>(b, Cutter(r.next() % 4, r.next()));
        FlvDemuxer d(src);
        PAVPacket p; error_t ret = d.read_header(p);
        c.mix64(ret);
        if (ret == SUCCESS) observe(c, p);
        int k = 0;
        for (; k < 5000; ++k) {
            p.reset();
            if ((ret = d.read_packet(p)) != SUCCESS) { c.mix64(ret); break; }
            observe(c, p);
        }
        if (k == 5000) fail("endless", "FLV demuxer delivers packets without end");
        sig = fnv(b.data(), b.size());
        break; }
    case 1: case 2: {
        std::vector<Bytes> pk;
        if (level) {
            bool big = c.cur % 4000 == 1;
            pk = some_ts(r, big);
            if (big && r.chance(1, 2)) nmut = 0;
            for (int i = 0; i < nmut; ++i) {
                size_t at = r.next() % pk.size();
                if (pk.size() > 1 && r.chance(1, 10)) pk.erase(pk.begin() + at);
                else if (r.chance(1, 10)) pk.insert(pk.begin() + r.next() % pk.size(), pk[at]);
                else { mutate(r, pk[at], 1 + r.next() % 3); if (kind == 1 || r.chance(4, 5)) pk[at].resize(188, 0xff); if (!pk[at].empty()) pk[at][0] = 0x47; }
            }
        } else for (int i = 0; i < 6; ++i) { Bytes x = r.bytes(188); x[0] = 0x47; if (r.chance(1, 2)) { x[1] = 0x40; x[2] = 0; } pk.push_back(x); }
        if (kind == 1) {
            Bytes all; for (auto& x : pk) all.insert(all.end(), x.begin(), x.end());
            if (r.chance(1, 4)) mutate(r, all, 1);
            auto src = std::make_shared<SchedReader>(all, Cutter(r.next() % 4, r.next()));
            TsDemuxer d(src);
            PAVPacket p; d.read_header(p);
            int k = 0; error_t ret;
            for (; k < 5000; ++k) { p.reset(); if ((ret = d.read_packet(p)) != SUCCESS) { c.mix64(ret); break; } observe(c, p); }
            if (k == 5000) fail("endless", "TS demuxer delivers packets without end");
            sig = fnv(all.data(), all.size());
        } else {
            TsDemuxer d(nullptr);
            MpegtsRtpDecodder rt;
            bool rtp = r.chance(1, 2);
            RtpGen gen(r); gen.pt = 33;
            for (size_t i = 0; i < pk.size();) {
                Bytes dg; size_t k = 1 + r.next() % 7;
                for (; k && i < pk.size(); --k, ++i) dg.insert(dg.end(), pk[i].begin(), pk[i].end());
                std::list<PAVPacket> o;
                if (rtp) { dg = gen.packet(r.next(), false, dg); if (level && r.chance(1, 8)) mutate(r, dg, 1); }
                Exact e(dg);
                sig = fnv(dg.data(), dg.size(), sig);
                if (rtp) { c.mix64(((IRtpDecoder&) rt).decode(e.p, (int) e.n, o)); for (auto& p : o) observe(c, p); }
                else { c.mix64(d.decode_packet(e.p, e.n)); PAVPacket p; while (d.pop(p)) observe(c, p); }
            }
        }
        break; }
    case 3: case 4: {
        std::shared_ptr<IRtpDecoder> d;
        if (kind == 3) d = std::make_shared<H264RtpDecoder>(); else d = std::make_shared<AacRtpDecoder>();
        RtpGen gen(r);
        int n = 1 + r.next() % 8;
        if (kind == 3 && c.cur % 4000 == 3) n = 900;             // fragments without end
        size_t room = (1 << 20) - 1;                             // left behind the first byte
        size_t over = r.chance(1, 2) ? 0 : 1 + r.next() % 2;
        for (int i = 0; i < n; ++i) {
            Bytes pay;
            if (kind == 3) {
                if (n == 900) { size_t k = room ? std::min<size_t>(1398, room) : 1398; if (room && k == room) k += over, room = 0; else if (room) room -= k; pay = r.bytes(2 + k); pay[0] = 28; pay[1] = i == 0 ? 0x85 : 5; }
                else switch (r.next() % 5) {
                    case 0: pay = random_nal(r, 1 + r.next() % 23, 60); break;
                    case 1: pay.push_back(24 + r.next() % 4); for (int k = r.next() % 4; k; --k) { Bytes x = random_nal(r, 1 + r.next() % 12, 40); put(pay, x.size(), 2); pay.insert(pay.end(), x.begin(), x.end()); } break;
                    case 2: pay = r.bytes(1 + r.next() % 60); pay[0] = (pay[0] & 0xe0) | (28 + r.next() % 2); if (pay.size() > 1) pay[1] = (r.next() & 3) << 6 | (1 + r.next() % 12); break;
                    case 3: pay = r.bytes(r.next() % 4); break;
                    default: pay = r.bytes(r.next() % 40); if (!pay.empty()) pay[0] &= 0x1f;
                }
            } else {
                int k = r.next() % 5; put(pay, r.chance(1, 6) ? r.next() : 16 * k, 2);
                for (int j = 0; j < k; ++j) put(pay, (r.next() % 40) << 3, 2);
                Bytes x = r.bytes(r.next() % 150); pay.insert(pay.end(), x.begin(), x.end());
            }
            Bytes dg = gen.packet(r.next(), r.chance(1, 2), pay);
            if (level == 0 && n < 900) { dg = r.bytes(r.next() % 60); if (dg.size() > 1) dg[1] = 96 + (dg[1] & 15); }
            else if (n < 900 && r.chance(1, 2)) mutate(r, dg, nmut);
            Exact e(dg);
            sig = fnv(dg.data(), dg.size(), sig);
            std::list<PAVPacket> o;
            c.mix64(d->decode(e.p, e.n, o));
            for (auto& p : o) observe(c, p, true);
        }
        break; }
    case 5: {
        Bytes b;
        if (level) { int n = 1 + r.next() % 4; for (int i = 0; i < n; ++i) { Bytes x = rtcp_small(r); b.insert(b.end(), x.begin(), x.end()); } mutate(r, b, nmut); }
        else { b = r.bytes(r.next() % 100); if (b.size() > 1) { b[1] = 200 + r.next() % 5; } }
        Exact e(b);
        sig = fnv(b.data(), b.size());
        RtcpRtpDecoder d; std::list<PAVPacket> o;
        c.mix64(d.decode(e.p, e.n, o));
        break; }
    case 6: {
        AacAVCodecParser p;
        for (int k = 0; k < 3; ++k) {
            Bytes b;
            if (level) { AdtsConf cf = AdtsConf::random(r); int n = 1 + r.next() % 4; for (int i = 0; i < n; ++i) { Bytes f = cf.frame(r, r.bytes(r.next() % 40)); b.insert(b.end(), f.begin(), f.end()); } mutate(r, b, nmut); }
            else { b = r.bytes(r.next() % 60); if (b.size() > 1) { b[0] = 0xff; b[1] |= 0xf0; } }
            Exact e(b);
            sig = fnv(b.data(), b.size(), sig);
            AVCodecContext ctx(9000, 9000, 90);
            std::list<PAVPacket> o;
            c.mix64(p.encode_avc(&ctx, e.p, e.n, o));
            for (auto& x : o) observe(c, x);
        }
        break; }
    default: {
        H264AVCodecParser p;
        for (int k = 0; k < 3; ++k) {
            Bytes b;
            if (level) { Unit u = random_unit(r, 60); b = annexb(r, u); mutate(r, b, nmut); }
            else { b = r.bytes(r.next() % 60); for (auto& x : b) if (r.chance(2, 3)) x &= 1; }
            Exact e(b);
            sig = fnv(b.data(), b.size(), sig);
            AVCodecContext ctx(9000, 9000, 90);
            std::list<PAVPacket> o;
            c.mix64(r.chance(1, 4) ? p.encode_raw_nalu(&ctx, e.p, e.n, o) : p.encode_avc(&ctx, e.p, e.n, o));
            for (auto& x : o) observe(c, x);
        }
    } }
    c.eval();
    c.distinct("nontrivial", sig);
}
