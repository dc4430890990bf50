// Reference models: H.264 Annex-B access units, ADTS frames, and the packets they become.
#ifndef CODEC_REF_HPP
#define CODEC_REF_HPP
#include "vh.hpp"
#include "flv_ref.hpp"

namespace vh {

// a legal NAL unit: no start code inside (emulation prevention), not ending in zero
inline Bytes random_nal(Rng& r, int type, size_t maxsz) {
    Bytes b;
    b.push_back((r.next() & 3) << 5 | type);
    size_t n = r.size(maxsz);
    int zeros = 0;
    bool zeroish = r.chance(1, 3);
    for (size_t i = 0; i < n; ++i) {
        uint8_t x = zeroish && r.chance(2, 3) ? r.next() % 4 : r.byte();
        if (zeros >= 2 && x <= 3) { b.push_back(3); zeros = 0; }
        b.push_back(x);
        zeros = x == 0 ? zeros + 1 : 0;
    }
    if (b.back() == 0) b.push_back(0x80);
    return b;
}

struct Unit {            // an access unit
    std::vector<Bytes> nals;
    int64_t pts = -1, dts = -1;
};

inline int nal_type(const Bytes& n) { return n[0] & 31; }

inline Unit random_unit(Rng& r, size_t maxsz) {
    Unit u;
    int n = 1 + r.next() % 6;
    static const int types[] = {1, 1, 5, 6, 7, 8, 9, 1, 5, 12, 2, 14};
    for (int i = 0; i < n; ++i) {
        int t = types[r.next() % 12];
        Bytes b = random_nal(r, t, maxsz);
        if (t == 7) while (b.size() < 4) b.push_back(0x40 + r.next() % 60);
        u.nals.push_back(b);
    }
    return u;
}

inline Bytes annexb(Rng& r, const Unit& u) {
    Bytes o;
    int style = r.next() % 3;
    for (auto& n : u.nals) {
        bool four = style == 0 ? true : style == 1 ? false : r.chance(1, 2);
        if (four) o.push_back(0);
        if (r.chance(1, 25)) { o.push_back(0); o.push_back(0); }     // leading/trailing zero bytes
        o.push_back(0); o.push_back(0); o.push_back(1);
        o.insert(o.end(), n.begin(), n.end());
    }
    if (r.chance(1, 15)) o.insert(o.end(), 1 + r.next() % 7, 0);          // trailing zero bytes
    return o;
}

struct Exp {             // an expected packet
    bool video = true, seq = false;
    int flags = 0;
    int64_t dts = 0, pts = 0;
    bool ts_known = true;
    Bytes data;          // for a video sequence header: sps, pps kept apart
    Bytes sps, pps;
};

inline std::vector<Exp> expect_avc(const Unit& u, int64_t tb) {
    std::vector<Exp> o;
    const Bytes *sps = nullptr, *pps = nullptr;
    for (auto& n : u.nals) { if (nal_type(n) == 7) sps = &n; if (nal_type(n) == 8) pps = &n; }
    if (sps) {
        Exp e; e.seq = true; e.flags = 0x17; e.sps = *sps; if (pps) e.pps = *pps; e.ts_known = false;
        o.push_back(e);
    }
    for (auto& n : u.nals) {
        int t = nal_type(n);
        if (t != 1 && t != 5 && t != 6) continue;
        Exp e;
        e.flags = t == 5 ? 0x17 : t == 1 ? 0x27 : 0x57;
        put(e.data, n.size(), 4);
        e.data.insert(e.data.end(), n.begin(), n.end());
        e.dts = u.dts / tb; e.pts = u.pts / tb;
        e.ts_known = u.dts >= 0;
        o.push_back(e);
    }
    return o;
}

inline void check_exp(sps::PAVPacket p, const Exp& e, const char* key, size_t i) {
    using namespace sps;
    if (!p) fail(key, "null packet");
    VH_CHECK(p->msg_type == AV_MESSAGE_DATA && p->is_video() == e.video && p->is_audio() == !e.video, key, "packet %zu: kind %d", i, p->stream_type);
    if (e.video) {
        VH_CHECK(p->codecid == H264, key, "packet %zu: codec %d", i, p->codecid);
        VH_CHECK(p->is_video_sequence_header() == e.seq, key, "packet %zu: sequence header flag", i);
        VH_CHECK(p->flags == e.flags, key, "packet %zu: flags %02x, expected %02x", i, p->flags, e.flags);
        if (e.seq) {
            uint8_t* b = p->buffer();
            size_t want = 6 + 2 + e.sps.size() + 1 + (e.pps.empty() ? 0 : 2 + e.pps.size());
            VH_CHECK(p->size() == want, key, "packet %zu: configuration of %u bytes, expected %zu", i, p->size(), want);
            VH_CHECK(b[0] == 1 && b[1] == e.sps[1] && b[2] == e.sps[2] && b[3] == e.sps[3] && b[4] == 0xff && b[5] == 0xe1, key,
                     "packet %zu: configuration head %s", i, hex(b, 6).c_str());
            VH_CHECK((size_t)(b[6] << 8 | b[7]) == e.sps.size() && !memcmp(b + 8, e.sps.data(), e.sps.size()), key, "packet %zu: SPS differs", i);
            uint8_t* q = b + 8 + e.sps.size();
            VH_CHECK(q[0] == (e.pps.empty() ? 0 : 1), key, "packet %zu: %d PPS", i, q[0]);
            if (!e.pps.empty()) VH_CHECK((size_t)(q[1] << 8 | q[2]) == e.pps.size() && !memcmp(q + 3, e.pps.data(), e.pps.size()), key, "packet %zu: PPS differs", i);
            return;
        }
    } else {
        VH_CHECK(p->codecid == AAC && (p->flags >> 4) == 10, key, "packet %zu: audio codec %d flags %02x", i, p->codecid, p->flags);
        VH_CHECK(p->is_audio_sequence_header() == e.seq, key, "packet %zu: audio sequence header flag", i);
    }
    VH_CHECK(p->size() == e.data.size(), key, "packet %zu (flags %02x): %u bytes, expected %zu", i, p->flags, p->size(), e.data.size());
    VH_CHECK(e.data.empty() || !memcmp(p->buffer(), e.data.data(), e.data.size()), key, "packet %zu: bytes differ: %s, expected %s", i,
             hex(p->buffer(), p->size(), 300).c_str(), hex(e.data.data(), e.data.size(), 300).c_str());
    if (e.ts_known) VH_CHECK(p->dts == e.dts && p->pts == e.pts, key, "packet %zu: dts %lld pts %lld, expected %lld %lld", i,
                             (long long) p->dts, (long long) p->pts, (long long) e.dts, (long long) e.pts);
}

struct AdtsConf {
    int profile = 1, rate = 4, chan = 2, absent = 1, orig = 0, home = 0;
    bool same_codec(const AdtsConf& o) const { return profile == o.profile && rate == o.rate && chan == o.chan; }
    bool same(const AdtsConf& o) const { return same_codec(o) && absent == o.absent && orig == o.orig && home == o.home; }
    static AdtsConf random(Rng& r) {
        AdtsConf a; a.profile = r.next() % 4; a.rate = r.next() % 13; a.chan = r.next() % 8;
        a.absent = r.chance(2, 3); a.orig = r.next() & 1; a.home = r.next() & 1; return a;
    }
    Bytes asc() const { uint16_t v = (profile + 1) << 11 | rate << 7 | chan << 3; return Bytes{(uint8_t)(v >> 8), (uint8_t) v}; }
    Bytes frame(Rng& r, const Bytes& raw) const {
        size_t len = 7 + (absent ? 0 : 2) + raw.size();
        uint64_t v = 0;
        auto b = [&](uint64_t x, int n) { v = v << n | (x & ((1ull << n) - 1)); };
        b(0xfff, 12); b(r.next(), 1); b(0, 2); b(absent, 1); b(profile, 2); b(rate, 4); b(r.next(), 1); b(chan, 3); b(orig, 1); b(home, 1);
        b(r.next(), 2); b(len, 13); b(r.next(), 11); b(0, 2);
        Bytes o; put(o, v, 7);
        if (!absent) put(o, r.next(), 2);
        o.insert(o.end(), raw.begin(), raw.end());
        return o;
    }
};

}
#endif
