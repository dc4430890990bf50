// P09 ADTS AAC, P10 H.264 Annex-B
#include "codec_ref.hpp"
#include <sps_avcodec_aac_parser.hpp>
#include <sps_avcodec_h264_parser.hpp>
using namespace vh;
using namespace sps;

VH_CASE("P09", adts) {
    Rng& r = c.rng;
    AacAVCodecParser parser;
    AdtsConf cur = AdtsConf::random(r), last;
    bool have = false;
    int calls = 1 + r.next() % 5;
    uint64_t shape = 0;
    for (int k = 0; k < calls; ++k) {
        int n = 1 + r.size(7);
        Bytes in;
        struct F { AdtsConf a; Bytes raw; };
        std::vector<F> fs;
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 4)) {
                switch (r.next() % 4) {
                    case 0: cur = AdtsConf::random(r); break;
                    case 1: cur.chan = r.next() % 8; break;
                    case 2: cur.rate = r.next() % 13; break;
                    default: cur.profile = r.next() % 4;
                }
            }
            size_t sz = r.chance(1, 20) ? 8191 - 9 : r.size(700);
            Bytes raw = r.bytes(sz);
            if (r.chance(1, 6) && sz >= 2) { raw[0] = 0xff; raw[1] = 0xf1; }   // looks like a sync word
            Bytes f = cur.frame(r, raw);
            in.insert(in.end(), f.begin(), f.end());
            fs.push_back({cur, raw});
            shape = shape * 131 + cur.profile * 1000 + cur.rate * 50 + cur.chan + sz * 7919;
            c.distinct("profile x rate x channels x crc", cur.profile << 12 | cur.rate << 8 | cur.chan << 4 | cur.absent);
        }
        int64_t dts = r.next() % (1ll << 33);
        AVCodecContext ctx(dts, dts, 90);
        std::list<PAVPacket> out;
        Exact e(in);
        error_t ret = parser.encode_avc(&ctx, e.p, (int) e.n, out);
        VH_CHECK(ret == SUCCESS, "refused", "well-formed ADTS refused: %d", ret);
        auto it = out.begin();
        for (size_t i = 0; i < fs.size(); ++i) {
            bool must = !have || !fs[i].a.same_codec(last), may = must || !fs[i].a.same(last);
            bool is = it != out.end() && *it && (*it)->is_audio_sequence_header();
            VH_CHECK(!must || is, "config-missing", "no configuration before frame %zu although it changed", i);
            VH_CHECK(!is || may, "config-repeated", "configuration repeated before frame %zu although nothing changed", i);
            if (is) {
                Exp x; x.video = false; x.seq = true; x.data = fs[i].a.asc(); x.ts_known = false;
                check_exp(*it, x, "config", i);
                ++it;
                c.count("configurations");
            }
            VH_CHECK(it != out.end(), "frame-lost", "frame %zu of %zu missing", i, fs.size());
            Exp x; x.video = false; x.data = fs[i].raw; x.dts = x.pts = dts / 90;
            check_exp(*it, x, "frame", i);
            ++it;
            last = fs[i].a; have = true;
            c.count("frames");
        }
        VH_CHECK(it == out.end(), "frame-extra", "more packets than frames");
    }
    c.distinct("nontrivial", shape);
    // damaged: declared length larger than the data, or smaller than its own header
    {
        AacAVCodecParser p2;
        AdtsConf a = AdtsConf::random(r);
        size_t good = r.next() % 3;
        Bytes in;
        for (size_t i = 0; i < good; ++i) { Bytes f = a.frame(r, r.bytes(r.size(60))); in.insert(in.end(), f.begin(), f.end()); }
        Bytes f = a.frame(r, r.bytes(20 + r.size(60)));
        int hdr = a.absent ? 7 : 9;
        int len = r.chance(1, 2) ? r.next() % hdr : f.size() + 1 + r.next() % (8191 - f.size());
        f[3] = (f[3] & 0xfc) | (len >> 11 & 3); f[4] = len >> 3; f[5] = (f[5] & 0x1f) | (len & 7) << 5;
        in.insert(in.end(), f.begin(), f.end());
        Exact e(in);
        AVCodecContext ctx(0, 0, 90);
        std::list<PAVPacket> out;
        error_t ret = p2.encode_avc(&ctx, e.p, (int) e.n, out);
        VH_CHECK(ret != SUCCESS, "bad-length-accepted", "frame of declared length %d in %zu bytes accepted", len, f.size());
        size_t frames = 0;
        for (auto& q : out) frames += !q->is_audio_sequence_header();
        VH_CHECK(frames <= good, "bad-length-accepted", "%zu frames from %zu good ones", frames, good);
        c.count("damaged lengths refused");
        Bytes g = a.frame(r, r.bytes(30)); g[r.next() % 2] ^= 0x10;
        Exact eg(g); out.clear();
        VH_CHECK(p2.encode_avc(&ctx, eg.p, (int) eg.n, out) != SUCCESS && out.empty(), "bad-sync-accepted", "frame without sync word accepted: %s", hex(g.data(), 4).c_str());
    }
    if (c.cur < 3) c.sample(fmt("%d calls, last configuration profile %d rate %d channels %d crc %d", calls, last.profile, last.rate, last.chan, !last.absent));
}

VH_CASE("P10", annexb_avc) {
    Rng& r = c.rng;
    H264AVCodecParser parser;
    int calls = 1 + r.next() % 6;
    uint64_t shape = 0;
    for (int k = 0; k < calls; ++k) {
        Unit u = random_unit(r, r.chance(1, 15) ? 70000 : 400);
        u.dts = r.next() % (1ll << 33); u.pts = u.dts + r.next() % 9000;
        int64_t tb = r.chance(1, 2) ? 90 : 1;
        bool raw = r.chance(1, 4);
        if (raw) u.nals.resize(1);
        for (auto& n : u.nals) {
            if ((nal_type(n) == 7 || nal_type(n) == 8) && n.size() > 60000) { n.resize(60000); if (!n.back()) n.back() = 0x80; }
            shape = shape * 1000003 + nal_type(n) * 100003 + n.size();
        }
        Bytes in = raw ? u.nals[0] : annexb(r, u);
        Exact e(in);
        AVCodecContext ctx(u.dts, u.pts, tb);
        std::list<PAVPacket> out;
        error_t ret = raw ? parser.encode_raw_nalu(&ctx, e.p, (int) e.n, out) : parser.encode_avc(&ctx, e.p, (int) e.n, out);
        VH_CHECK(ret == SUCCESS, "refused", "well-formed access unit refused: %d", ret);
        auto want = expect_avc(u, tb);
        auto it = out.begin();
        for (size_t i = 0; i < want.size(); ++i) {
            VH_CHECK(it != out.end(), "lost", "packet %zu of %zu missing (%zu NAL units)", i, want.size(), u.nals.size());
            check_exp(*it, want[i], "packet", i);
            c.mix((*it)->buffer(), (*it)->size());
            ++it;
            c.count(want[i].seq ? "configuration records" : want[i].flags == 0x17 ? "key frames" : "other frames");
        }
        VH_CHECK(it == out.end(), "extra", "%zu packets, expected %zu", out.size(), want.size());
        c.count("NAL units", u.nals.size());
    }
    c.distinct("nontrivial", shape);
    {   // forbidden bit, or no start code at all: refused
        Unit u = random_unit(r, 60);
        Bytes in = annexb(r, u);
        if (r.chance(1, 2)) {
            Unit v = u; v.nals[r.next() % v.nals.size()][0] |= 0x80; in = annexb(r, v);
        } else {
            in = r.bytes(4 + r.size(60));
            for (auto& b : in) if (b < 2) b = 9;
        }
        Exact e(in);
        AVCodecContext ctx(0, 0, 90);
        std::list<PAVPacket> out;
        VH_CHECK(parser.encode_avc(&ctx, e.p, (int) e.n, out) != SUCCESS && out.empty(), "garbage-accepted", "not an access unit, yet accepted: %s", hex(in.data(), in.size(), 80).c_str());
        c.count("malformed refused");
    }
    if (c.cur < 3) c.sample(fmt("%d access units", calls));
}
