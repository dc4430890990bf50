// Independent RTP packetizer and a transport that hands out one datagram per read.
#ifndef RTP_REF_HPP
#define RTP_REF_HPP
#include "codec_ref.hpp"
#include <sps_io.hpp>
namespace vh {
using namespace sps;
// one datagram per read, as the UDP socket does
struct Dgrams : public IReader {
    std::vector<Bytes> d;
    size_t at = 0;
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return -1; }
    error_t read(void* buf, size_t size, size_t& n) override {
        if (at >= d.size()) return ERROR_SOCKET_TIMEOUT;
        n = std::min(size, d[at].size());
        if (n) memcpy(buf, d[at].data(), n);
        ++at;
        return SUCCESS;
    }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_SOCKET_TIMEOUT; }
};

struct RtpGen {
    Rng& r;
    int pt; uint32_t ssrc; uint16_t seq;
    bool rich;
    explicit RtpGen(Rng& rr) : r(rr), pt(96 + rr.next() % 32), ssrc(rr.next()), seq(rr.next()), rich(rr.chance(2, 3)) {
        if (pt >= 72 && pt <= 76) pt = 96;
    }
    Bytes packet(uint32_t ts, bool mark, const Bytes& pay) {
        int cc = rich && r.chance(1, 3) ? r.next() % 16 : 0;
        bool ext = rich && r.chance(1, 3), pad = rich && r.chance(1, 3);
        Bytes o;
        o.push_back(0x80 | (pad ? 0x20 : 0) | (ext ? 0x10 : 0) | cc);
        o.push_back((mark ? 0x80 : 0) | pt);
        put(o, seq++, 2); put(o, ts, 4); put(o, ssrc, 4);
        for (int i = 0; i < cc; ++i) put(o, r.next(), 4);
        if (ext) {
            int w = r.next() % 12;
            if (r.chance(1, 24) && pay.size() < 1200) { w = 200 + r.next() % 150; g->count("packets with a long extension"); }
            put(o, r.next(), 2); put(o, w, 2);
            Bytes x = r.bytes(4 * w); o.insert(o.end(), x.begin(), x.end());
            g->count("packets with extension");
        }
        o.insert(o.end(), pay.begin(), pay.end());
        if (pad) {
            int k = 1 + r.next() % (r.chance(1, 5) ? 255 : 12);
            o.insert(o.end(), k - 1, r.byte());
            o.push_back(k);
            g->count("packets with padding");
        }
        if (cc) g->count("packets with CSRC");
        return o;
    }
};

Bytes rtcp_small(Rng& r) {
    Bytes o;
    switch (r.next() % 5) {
        case 0: o = {0x80, 201}; put(o, 1, 2); put(o, r.next(), 4); break;                              // empty RR
        case 1: o = {0x81, 203}; put(o, 1, 2); put(o, r.next(), 4); break;                              // BYE
        case 2: o = {0x80, 200}; put(o, 6, 2); { Bytes x = r.bytes(24); o.insert(o.end(), x.begin(), x.end()); } break;
        case 3: o = {0x80, 204}; { size_t w = r.next() % 6; put(o, 2 + w, 2); put(o, r.next(), 4); Bytes x = r.bytes(4 + 4 * w); o.insert(o.end(), x.begin(), x.end()); } break;   // APP
        default: o = {0x81, 202}; put(o, 3, 2); put(o, r.next(), 4); o.push_back(1); o.push_back(5); { Bytes x = r.bytes(5); o.insert(o.end(), x.begin(), x.end()); } o.push_back(0); break;
    }
    if (r.chance(1, 3)) { Bytes x = rtcp_small(r); o.insert(o.end(), x.begin(), x.end()); }    // compound
    return o;
}
}
#endif
