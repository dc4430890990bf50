// An independent MPEG-TS multiplexer.
#ifndef TS_REF_HPP
#define TS_REF_HPP
#include "codec_ref.hpp"

namespace vh {

inline uint32_t crc32_mpeg(const uint8_t* p, size_t n) {
    uint32_t c = 0xffffffff;
    for (size_t i = 0; i < n; ++i) {
        c ^= (uint32_t) p[i] << 24;
        for (int k = 0; k < 8; ++k) c = c & 0x80000000 ? c << 1 ^ 0x04C11DB7 : c << 1;
    }
    return c;
}

struct TsMux {
    Rng& r;
    std::map<int, int> cc;
    std::vector<Bytes> out;
    explicit TsMux(Rng& rr) : r(rr) {}

    // adaptation field contents of exactly n bytes behind its length byte (n >= 1)
    Bytes adaptation(size_t n) {
        Bytes a(1, 0);
        uint8_t fl = 0;
        if (n >= 7 && r.chance(1, 2)) { fl |= 0x10; Bytes x = r.bytes(6); a.insert(a.end(), x.begin(), x.end()); }
        if (n - a.size() >= 6 && r.chance(1, 5)) { fl |= 0x08; Bytes x = r.bytes(6); a.insert(a.end(), x.begin(), x.end()); }
        if (n - a.size() >= 1 && r.chance(1, 5)) { fl |= 0x04; a.push_back(r.byte()); }
        if (n - a.size() >= 3 && r.chance(1, 5)) {
            fl |= 0x02; size_t k = r.next() % std::min<size_t>(n - a.size() - 1, 12);
            a.push_back(k); Bytes x = r.bytes(k); a.insert(a.end(), x.begin(), x.end());
        }
        if (r.chance(1, 3)) fl |= 0x40;
        if (r.chance(1, 6)) fl |= 0x20;
        a[0] = fl;
        a.resize(n, 0xff);
        return a;
    }
    // one packet with the given payload (at most 184 bytes), adaptation stuffing fills the rest
    void packet(int pid, bool start, const Bytes& pay) {
        Bytes p;
        p.push_back(0x47);
        p.push_back((start ? 0x40 : 0) | (r.chance(1, 8) ? 0x20 : 0) | pid >> 8);
        p.push_back(pid);
        int& k = cc[pid];
        bool ad = pay.size() < 184;
        p.push_back((ad ? 0x30 : 0x10) | (k & 15));
        k = (k + 1) & 15;
        if (ad) {
            size_t room = 184 - pay.size() - 1;
            p.push_back(room);
            if (room) { Bytes a = adaptation(room); p.insert(p.end(), a.begin(), a.end()); }
        }
        p.insert(p.end(), pay.begin(), pay.end());
        if (p.size() != 188) abort();
        out.push_back(p);
    }
    void adaptation_only(int pid) {
        Bytes p = {0x47, (uint8_t)(pid >> 8), (uint8_t) pid, (uint8_t)(0x20 | ((cc[pid] + 15) & 15)), 183};
        Bytes a = adaptation(183);
        p.insert(p.end(), a.begin(), a.end());
        out.push_back(p);
    }
    void null_packet() {
        Bytes p = {0x47, 0x1f, 0xff, (uint8_t)(0x10 | (r.next() & 15))};
        Bytes x = r.bytes(184); p.insert(p.end(), x.begin(), x.end());
        out.push_back(p);
    }
    void section(int pid, int table, int id, const Bytes& body) {
        Bytes s;
        s.push_back(table);
        size_t len = 5 + body.size() + 4;
        s.push_back(0xB0 | len >> 8); s.push_back(len);
        put(s, id, 2); s.push_back(0xC1); s.push_back(0); s.push_back(0);
        s.insert(s.end(), body.begin(), body.end());
        put(s, crc32_mpeg(s.data(), s.size()), 4);
        Bytes pay;
        size_t ptr = r.chance(1, 5) ? r.next() % 12 : 0;
        if (1 + ptr + s.size() > 184) ptr = 0;
        pay.push_back(ptr);
        pay.insert(pay.end(), ptr, 0xff);
        pay.insert(pay.end(), s.begin(), s.end());
        if (pay.size() > 184) abort();
        if (r.chance(2, 3)) pay.resize(184, 0xff);      // payload stuffing, else adaptation stuffing
        packet(pid, true, pay);
    }
    static void stamp(Bytes& o, int tag, int64_t t) {
        o.push_back(tag << 4 | (t >> 30 & 7) << 1 | 1);
        put(o, (t >> 15 & 0x7fff) << 1 | 1, 2);
        put(o, (t & 0x7fff) << 1 | 1, 2);
    }
    // PES header bytes: everything in front of the elementary stream bytes
    Bytes pes_head(int stream_id, size_t es, int64_t pts, int64_t dts, bool unbounded, bool rich) {
        Bytes opt;
        uint8_t fl = 0;
        if (pts >= 0 && dts >= 0 && dts != pts) { fl |= 0xC0; stamp(opt, 3, pts); stamp(opt, 1, dts); }
        else if (pts >= 0) { fl |= 0x80; stamp(opt, 2, pts); }
        auto rnd = [&](int n) { Bytes x = r.bytes(n); opt.insert(opt.end(), x.begin(), x.end()); };
        if (rich) {
            if (r.chance(1, 5)) { fl |= 0x20; rnd(6); }
            if (r.chance(1, 5)) { fl |= 0x10; rnd(3); }
            if (r.chance(1, 6)) { fl |= 0x08; rnd(1); }
            if (r.chance(1, 6)) { fl |= 0x04; rnd(1); }
            if (r.chance(1, 5)) { fl |= 0x02; rnd(2); }
            if (r.chance(1, 4)) {
                fl |= 0x01;
                uint8_t e = 0x0e; size_t at = opt.size(); opt.push_back(0);
                if (r.chance(1, 3)) { e |= 0x80; rnd(16); }
                if (r.chance(1, 3)) { e |= 0x40; int k = r.next() % 12; opt.push_back(k); rnd(k); }
                if (r.chance(1, 3)) { e |= 0x20; rnd(2); }
                if (r.chance(1, 3)) { e |= 0x10; rnd(2); }
                if (r.chance(1, 3)) { e |= 0x01; int k = r.next() % 12; opt.push_back(0x80 | k); rnd(k); }
                opt[at] = e;
            }
            if (r.chance(1, 3)) opt.insert(opt.end(), r.next() % 20, 0xff);
        }
        Bytes h = {0, 0, 1, (uint8_t) stream_id};
        size_t len = 3 + opt.size() + es;
        if (unbounded || len > 65535) len = 0;
        put(h, len, 2);
        h.push_back(0x80 | (rich ? r.next() & 0x0f : 0));
        h.push_back(fl);
        h.push_back(opt.size());
        h.insert(h.end(), opt.begin(), opt.end());
        return h;
    }
    // cuts head+es into payloads; the head always fits the first packet
    static std::vector<Bytes> cut(Rng& r, const Bytes& head, const Bytes& es) {
        Bytes all = head; all.insert(all.end(), es.begin(), es.end());
        std::vector<Bytes> v;
        size_t at = 0;
        bool ragged = r.chance(1, 4);
        while (at < all.size()) {
            size_t k = std::min<size_t>(184, all.size() - at);
            if (ragged && r.chance(1, 3)) {
                size_t lo = at == 0 ? std::min(k, head.size() + 1) : 1;
                k = lo + r.next() % (k - lo + 1);
            }
            v.push_back(Bytes(all.begin() + at, all.begin() + at + k));
            at += k;
        }
        return v;
    }
};

}
#endif
