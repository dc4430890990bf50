// P03 FLV mux/demux round trip, P04 FLV demux segmentation and truncation
#include "io_sched.hpp"
#include "flv_ref.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
using namespace vh;
using namespace sps;

VH_CASE("P03", flv_roundtrip) {
    Rng& r = c.rng;
    auto sink = std::make_shared<SchedReader>(Bytes(), Cutter());
    FlvAVMuxer mux(sink);
    uint8_t hflags = r.chance(1, 2) ? 5 : r.next() & 5;
    PAVPacket hdr;
    if (r.chance(1, 2)) {
        Bytes h = {'F', 'L', 'V', 1, hflags, 0, 0, 0, 9};
        hdr = AVPacket::create(AV_MESSAGE_HEADER, AV_STREAM_TYPE_NB, AVPacketType{}, h.data(), 9, 0, 0);
    } else hflags = 5;
    VH_CHECK(mux.write_header(hdr) == SUCCESS, "mux-refused", "header refused");
    if (r.chance(1, 6)) mux.filter_video = true;
    if (r.chance(1, 6)) mux.filter_audio = true;
    if (r.chance(1, 6)) mux.filter_metadata = true;
    FlvWriter ref; ref.header(hflags);
    std::vector<FTag> tags;
    uint32_t clock = r.chance(1, 3) ? 0xFFFF00 : r.next() % 100000;
    int n = r.size(25);
    size_t maxsz = c.cur % 200 == 7 ? 1000000 : r.chance(1, 12) ? 70000 : 1500;
    if (maxsz == 1000000) n = 3;
    uint64_t shape = 0;
    for (int i = 0; i < n; ++i) {
        FTag t = random_tag(r, maxsz, clock);
        auto p = t.packet();
        uint64_t h0 = fnv(p->buffer(), p->size());
        if (r.chance(1, 40)) {   // a packet FLV cannot carry is refused and leaves no trace
            p->stream_type = AV_STREAM_TYPE_DATA;
            VH_CHECK(mux.write_packet(p) != SUCCESS, "mux-accepted", "packet of an unknown stream type accepted");
            c.count("foreign packets refused");
            continue;
        }
        VH_CHECK(mux.write_packet(p) == SUCCESS, "mux-refused", "packet %d refused", i);
        VH_CHECK(fnv(p->buffer(), p->size()) == h0 && p->dts == t.dts() && p->pts == t.pts(), "mux-altered", "muxing altered the packet");
        bool out = (t.type == 9 && mux.filter_video) || (t.type == 8 && mux.filter_audio) || (t.type == 18 && mux.filter_metadata);
        if (out) { c.count("packets filtered"); continue; }
        ref.tag(t);
        tags.push_back(t);
        shape = shape * 1000003 + t.type * 7919 + t.data.size() * 31 + t.flags;
        c.distinct("tag kinds (type, flags, packet type)", t.type << 16 | t.flags << 8 | t.pkt);
        c.distinct("timestamp top byte", t.ts >> 24);
    }
    // byte exact against the independent writer
    Bytes& got = sink->written;
    size_t k = 0;
    while (k < got.size() && k < ref.out.size() && got[k] == ref.out[k]) ++k;
    VH_CHECK(got == ref.out, "mux-bytes", "muxed output (%zu bytes) differs from the FLV of these packets (%zu) at byte %zu", got.size(), ref.out.size(), k);
    // and back
    auto src = std::make_shared<SchedReader>(got, Cutter(r.next() % 4, r.next()));
    FlvDemuxer dem(src);
    PAVPacket p;
    VH_CHECK(dem.read_header(p) == SUCCESS && p && p->msg_type == AV_MESSAGE_HEADER, "demux-header", "header not read back");
    VH_CHECK(p->size() == 9 && !memcmp(p->buffer(), got.data(), 9), "demux-header", "header bytes differ");
    VH_CHECK(dem.probe(p) == SUCCESS, "demux-probe", "own output not recognised");
    for (size_t i = 0; i < tags.size(); ++i) {
        p = nullptr;
        error_t ret = dem.read_packet(p);
        VH_CHECK(ret == SUCCESS, "demux-refused", "tag %zu of %zu refused: %d", i, tags.size(), ret);
        check_packet(p, tags[i], "demux-packet", i);
        c.mix(p->buffer(), p->size()); c.mix64(p->pts);
    }
    VH_CHECK(dem.read_packet(p) != SUCCESS, "demux-extra", "a packet beyond the last");
    c.count("packets round-tripped", tags.size());
    c.count("bytes", got.size());
    if (tags.size()) c.distinct("nontrivial", shape);
    if (c.cur < 4) c.sample(fmt("%zu tags, %zu bytes", tags.size(), got.size()));
}

VH_CASE("P04", flv_segments) {
    Rng& r = c.rng;
    FlvWriter w; w.header(r.chance(1, 2) ? 5 : r.byte());
    std::vector<FTag> tags;
    uint32_t clock = r.next() % 100000;
    int n = 1 + r.size(12);
    size_t maxsz = r.chance(1, 30) ? 40000 : 600;
    for (int i = 0; i < n; ++i) {
        FTag t = random_tag(r, maxsz, clock);
        tags.push_back(t); w.tag(t);
    }
    if (r.chance(1, 8)) {      // tags of the largest size that fits
        FTag t = random_tag(r, 10, clock);
        t.data = r.bytes((1 << 20) - r.next() % 40 - 40);
        tags.push_back(t); w.tag(t);
        c.count("tags near 1 MiB");
    }
    if (r.chance(1, 2)) put(w.out, w.prev, 4);     // trailing previous-tag-size, as files have
    // several segmentations of the whole, and truncations at chosen bytes
    int runs = 3 + r.next() % 4;
    for (int k = 0; k < runs; ++k) {
        Bytes d = w.out;
        if (k > 0) {
            size_t cutat;
            switch (r.next() % 3) {
                case 0: cutat = r.next() % (d.size() + 1); break;
                case 1: cutat = w.ends[r.next() % w.ends.size()] - (r.next() % 3); break;     // around a tag end
                default: { size_t e = w.ends[r.next() % w.ends.size()]; cutat = std::min(d.size(), e + r.next() % 21); }  // inside the next head
            }
            d.resize(cutat);
        }
        size_t complete = 0;
        while (complete < w.ends.size() && w.ends[complete] <= d.size()) ++complete;
        auto src = std::make_shared<SchedReader>(d, Cutter(d.size() > 100000 ? 3 : r.next() % 4, r.next()));
        src->end_error = r.chance(1, 2) ? ERROR_SOCKET_CLOSED : ERROR_SOCKET_TIMEOUT;
        FlvDemuxer dem(src);
        PAVPacket p;
        error_t ret = dem.read_header(p);
        VH_CHECK((ret == SUCCESS) == (d.size() >= 9), "header", "header from %zu bytes: %d", d.size(), ret);
        if (ret != SUCCESS) { c.count("truncated in the header"); continue; }
        VH_CHECK(p->size() == 9 && !memcmp(p->buffer(), d.data(), 9), "header", "header bytes differ");
        for (size_t i = 0; i < complete; ++i) {
            p = nullptr;
            ret = dem.read_packet(p);
            VH_CHECK(ret == SUCCESS, "refused", "tag %zu of %zu complete ones refused: %d (stream of %zu of %zu bytes)", i, complete, ret, d.size(), w.out.size());
            check_packet(p, tags[i], "packet", i);
        }
        p = nullptr;
        ret = dem.read_packet(p);
        VH_CHECK(ret != SUCCESS, "invented", "packet %zu delivered from a stream with only %zu complete tags", complete, complete);
        c.count(k ? "truncations" : "whole streams");
        c.count("transport reads", src->reads);
        c.distinct("nontrivial", fnv(d.data(), d.size()) ^ (src->reads * 0x9E3779B97F4A7C15ull));
    }
    // a stream that does not start with FLV is refused
    {
        Bytes d = w.out; int at = r.next() % 3; d[at] ^= 1 + r.next() % 255;
        auto src = std::make_shared<SchedReader>(d, Cutter(r.next() % 4, r.next()));
        FlvDemuxer dem(src);
        PAVPacket p;
        VH_CHECK(dem.read_header(p) != SUCCESS, "magic", "stream starting %s accepted as FLV", hex(d.data(), 3).c_str());
    }
    // a tag too short for the codec header it announces is refused, not filled from the next tag
    {
        FlvWriter s; s.header();
        FTag a = random_tag(r, 100, clock); s.tag(a);
        bool video = r.chance(1, 2);
        size_t len = r.next() % (video ? 5 : 2);
        Bytes body = r.bytes(len);
        if (len) body[0] = video ? 0x17 : 0xAF;
        put(s.out, s.prev, 4); s.out.push_back(video ? 9 : 8); put(s.out, len, 3); put(s.out, 5, 3); s.out.push_back(0); put(s.out, 0, 3);
        s.out.insert(s.out.end(), body.begin(), body.end());
        s.prev = 11 + len;
        FTag b = random_tag(r, 100, clock); s.tag(b);
        auto src = std::make_shared<SchedReader>(s.out, Cutter(r.next() % 4, r.next()));
        FlvDemuxer dem(src);
        PAVPacket p;
        dem.read_header(p);
        VH_CHECK(dem.read_packet(p) == SUCCESS, "refused", "tag before a short one refused");
        p = nullptr;
        error_t ret = dem.read_packet(p);
        VH_CHECK(ret != SUCCESS, "invented", "a %s tag of %zu bytes gave a packet", video ? "video" : "audio", len);
        c.count("short tags");
    }
    if (c.cur < 3) c.sample(fmt("%zu tags in %zu bytes, %d runs", tags.size(), w.out.size(), runs));
}
