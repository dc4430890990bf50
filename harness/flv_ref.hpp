// Independent FLV writer/parser used as the reference.
#ifndef FLV_REF_HPP
#define FLV_REF_HPP
#include "vh.hpp"
#include <sps_avformat_packet.hpp>

namespace vh {

struct FTag {
    int type = 8;            // 8 audio, 9 video, 18 script
    uint32_t ts = 0;
    int flags = 0;           // first payload byte of audio/video
    int pkt = 1;             // AVC/AAC packet type
    int32_t cts = 0;
    Bytes data;              // what follows the codec header

    bool info_frame() const { return type == 9 && (flags & 0xf0) == 0x50; }
    int codec() const { return type == 8 ? flags >> 4 : type == 9 ? flags & 15 : 0; }
    int64_t dts() const { return ts; }
    int64_t pts() const { return type == 9 && !info_frame() ? (int64_t) ts + cts : ts; }
    Bytes body() const {
        Bytes b;
        if (type == 8) { b.push_back(flags); b.push_back(pkt); }
        else if (type == 9) {
            b.push_back(flags);
            if (!info_frame()) {
                b.push_back(pkt);
                b.push_back(cts >> 16); b.push_back(cts >> 8); b.push_back(cts);
            }
        }
        b.insert(b.end(), data.begin(), data.end());
        return b;
    }
    sps::PAVPacket packet() const {
        using namespace sps;
        Exact e(data);
        return AVPacket::create(AV_MESSAGE_DATA,
            type == 8 ? AV_STREAM_TYPE_AUDIO : type == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE,
            AVPacketType{info_frame() ? 1 : type == 18 ? 0 : pkt}, e.p, (int) e.n, dts(), pts(), type == 18 ? 0 : flags, codec());
    }
};

inline void put(Bytes& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o.push_back(v >> (8 * i)); }

struct FlvWriter {
    Bytes out;
    uint32_t prev = 0;
    std::vector<size_t> ends;      // offset behind each complete tag
    void header(uint8_t fl = 5) { Bytes h = {'F','L','V',1,fl,0,0,0,9}; out.insert(out.end(), h.begin(), h.end()); }
    void tag(const FTag& t) {
        Bytes b = t.body();
        put(out, prev, 4);
        out.push_back(t.type); put(out, b.size(), 3);
        put(out, t.ts & 0xffffff, 3); out.push_back(t.ts >> 24);
        put(out, 0, 3);
        out.insert(out.end(), b.begin(), b.end());
        prev = 11 + b.size();
        ends.push_back(out.size());
    }
};

inline FTag random_tag(Rng& r, size_t maxsz, uint32_t& clock) {
    FTag t;
    int k = r.next() % 10;
    t.type = k < 4 ? 8 : k < 9 ? 9 : 18;
    switch (r.next() % 6) {
        case 0: t.ts = (uint32_t) r.next(); break;
        case 1: t.ts = 0xFFFFFF + (int) (r.next() % 3) - 1; break;
        default: clock += r.next() % 100; t.ts = clock;
    }
    if (t.type == 8) { t.flags = 0xA0 | (r.next() & 15); t.pkt = r.chance(1, 5) ? 0 : 1; }
    else if (t.type == 9) {
        static const int ft[] = {1, 2, 2, 2, 3, 4, 5};
        t.flags = ft[r.next() % 7] << 4 | (r.chance(1, 3) ? 12 : 7);
        t.pkt = r.chance(1, 6) ? 0 : r.chance(1, 20) ? 2 : 1;
        switch (r.next() % 5) {
            case 0: t.cts = 0; break;
            case 1: t.cts = (int32_t) r.range(-(1 << 23), (1 << 23) - 1); break;
            case 2: t.cts = r.chance(1, 2) ? -(1 << 23) : (1 << 23) - 1; break;
            default: t.cts = (int32_t) r.range(-200, 400);
        }
        if (t.info_frame()) { t.cts = 0; t.pkt = 0; }
    }
    size_t n = 1 + r.size(maxsz - 1);
    t.data = r.bytes(n);
    return t;
}

// checks one demuxed packet against the tag it came from
inline void check_packet(sps::PAVPacket p, const FTag& t, const char* key, size_t i) {
    using namespace sps;
    if (!p) fail(key, fmt("packet %zu is null", i));
    AVStreamType st = t.type == 8 ? AV_STREAM_TYPE_AUDIO : t.type == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE;
    VH_CHECK(p->msg_type == AV_MESSAGE_DATA && p->stream_type == st, key, "packet %zu: stream type %d, tag type %d", i, p->stream_type, t.type);
    VH_CHECK(p->dts == t.dts(), key, "packet %zu: dts %lld, tag %lld", i, (long long) p->dts, (long long) t.dts());
    VH_CHECK(p->pts == t.pts(), key, "packet %zu (type %d flags %02x): pts %lld, tag says %lld", i, t.type, t.flags, (long long) p->pts, (long long) t.pts());
    VH_CHECK(p->size() == t.data.size(), key, "packet %zu: %u bytes, tag has %zu", i, p->size(), t.data.size());
    VH_CHECK(!memcmp(p->buffer(), t.data.data(), t.data.size()), key, "packet %zu: payload differs", i);
    if (t.type != 18) {
        VH_CHECK(p->flags == t.flags, key, "packet %zu: flags %02x, tag %02x", i, p->flags, t.flags);
        VH_CHECK(p->codecid == t.codec(), key, "packet %zu: codec %d, tag %d", i, p->codecid, t.codec());
        if (!t.info_frame()) VH_CHECK(p->pkt_type.pkt_type == t.pkt, key, "packet %zu: packet type %d, tag %d", i, p->pkt_type.pkt_type, t.pkt);
    }
    bool v = t.type == 9;
    VH_CHECK(p->is_video() == v && p->is_audio() == (t.type == 8) && p->is_script() == (t.type == 18), key, "packet %zu: kind", i);
    VH_CHECK(p->is_keyframe() == (v && (t.flags >> 4) == 1), key, "packet %zu: keyframe flag of %02x", i, t.flags);
    VH_CHECK(p->is_video_sequence_header() == (v && !t.info_frame() && t.pkt == 0), key, "packet %zu: video sequence header", i);
    VH_CHECK(p->is_audio_sequence_header() == (t.type == 8 && t.pkt == 0), key, "packet %zu: audio sequence header", i);
}

}
#endif
