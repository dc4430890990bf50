// P01 bit fields, P02 buffered byte I/O
#include "io_sched.hpp"
#include <sps_io_bits.hpp>
#include <sps_io_bytes.hpp>

using namespace vh;
using namespace sps;

namespace {
// reference: a plain bit string
struct BitRef {
    std::vector<bool> b;
    void put(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((v >> i) & 1); }
    uint64_t get(size_t at, int n) const { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 1 | (b[at + i] ? 1 : 0); return v; }
};
}

VH_CASE("P01", bit_fields) {
    Rng& r = c.rng;
    // ---- writer: any sequence of fields, optionally with whole-byte runs when aligned
    BitRef ref;
    struct Op { int kind; int n; uint64_t v; Bytes raw; };
    std::vector<Op> ops;
    int nops = 1 + r.size(60);
    size_t bits = 0;
    for (int i = 0; i < nops; ++i) {
        Op o; o.kind = 0; o.n = 0; o.v = 0;
        if (bits % 8 == 0 && (r.chance(1, 5) || (c.cur % 600 == 13 && i == 0))) {
            o.kind = 1; o.raw = r.bytes(c.cur % 600 == 13 && i == 0 ? 30000 + r.next() % 50000 : r.size(20)); o.n = o.raw.size() * 8;
        } else if (r.chance(1, 4)) {
            o.kind = 2; o.n = 8 * (1 + r.next() % 4); o.v = r.next();
        } else {
            o.n = 1 + r.next() % (r.chance(1, 6) ? 64 : 32); o.v = r.next();
            if (r.chance(1, 5)) o.v = ~0ull;
            if (r.chance(1, 8)) o.v = 0;
        }
        bits += o.n;
        ops.push_back(o);
    }
    while (bits % 8) { Op o; o.kind = 0; o.n = 1; o.v = r.next(); ops.push_back(o); ++bits; }
    size_t nbytes = bits / 8;
    Bytes init = r.bytes(nbytes);           // dirty destination: the writer has to overwrite it
    Exact dst(init);
    BitContext w(dst.p, nbytes);
    uint64_t shape = 0;
    for (auto& o : ops) {
        size_t before = w.size_bits();
        VH_CHECK(before == bits - ref.b.size(), "writer-room", "room reported %zu, is %zu", before, bits - ref.b.size());
        if (o.kind == 1) {
            Exact e(o.raw);
            w.write_bytes(e.p, o.raw.size());
            for (auto x : o.raw) ref.put(x, 8);
        } else if (o.kind == 2) {
            switch (o.n) {
                case 8: w.write_int8((uint32_t) o.v); break;
                case 16: w.write_int16((uint32_t) o.v); break;
                case 24: w.write_int24((uint32_t) o.v); break;
                default: w.write_int32((uint32_t) o.v); break;
            }
            ref.put(o.v & 0xffffffffull, o.n);
        } else {
            w.write_bits(o.v, o.n);
            ref.put(o.v, o.n);
        }
        shape = shape * 131 + o.kind * 70 + o.n;
        c.distinct("bit phase x width", ((ref.b.size() - o.n) % 8) * 100 + o.n);
    }
    for (size_t i = 0; i < nbytes; ++i)
        VH_CHECK(dst.p[i] == ref.get(i * 8, 8), "written-bits", "byte %zu of %zu is %02x, fields say %02llx",
                 i, nbytes, dst.p[i], (unsigned long long) ref.get(i * 8, 8));
    VH_CHECK(w.size_bits() == 0 && w.size() == 0, "writer-room", "room left %zu after a full buffer", w.size_bits());
    c.count("fields written", ops.size());
    c.distinct("nontrivial", shape);

    // ---- reader: another cut of the same bits
    BitContext rd(dst.p, nbytes);
    size_t at = 0;
    while (at < bits) {
        size_t left = bits - at;
        VH_CHECK(rd.size_bits() == left, "reader-left", "%zu bits reported left, %zu are", rd.size_bits(), left);
        VH_CHECK(rd.size() == left / 8, "reader-left", "%zu bytes reported left, %zu are", rd.size(), left / 8);
        size_t q = r.chance(1, 2) ? left : r.next() % (left + 20);
        VH_CHECK((rd.acquire_bits(q) == SUCCESS) == (q <= left), "reader-acquire", "acquire_bits(%zu) with %zu left", q, left);
        size_t qb = r.next() % (left / 8 + 3);
        VH_CHECK((rd.acquire(qb) == SUCCESS) == (qb * 8 <= left), "reader-acquire", "acquire(%zu) with %zu bits left", qb, left);
        VH_CHECK(rd.pos() == dst.p + at / 8, "reader-pos", "position %td, is %zu", rd.pos() - dst.p, at / 8);
        int op = r.next() % 4;
        if (op == 0 && at % 8 == 0) {
            size_t n = r.next() % (std::min<size_t>(left / 8, 12) + 1);
            Bytes o(n + 1, 0xEE);
            rd.read_bytes(o.data(), n);
            for (size_t i = 0; i < n; ++i)
                VH_CHECK(o[i] == ref.get(at + i * 8, 8), "read-bytes", "byte at bit %zu", at + i * 8);
            VH_CHECK(o[n] == 0xEE, "read-bytes", "wrote past the destination");
            at += n * 8;
        } else if (op == 1) {
            size_t n = r.next() % (std::min<size_t>(left / 8, 12) + 1);
            rd.skip_read_bytes(n);
            at += n * 8;
            c.distinct("skip at bit phase", at % 8);
        } else if (op == 2 && left >= 8) {
            int n = 8 * (1 + r.next() % std::min<size_t>(4, left / 8));
            uint32_t v = n == 8 ? rd.read_int8() : n == 16 ? rd.read_int16() : n == 24 ? rd.read_int24() : rd.read_int32();
            VH_CHECK(v == ref.get(at, n), "read-int", "%d bits at %zu: %x, expected %llx", n, at, v, (unsigned long long) ref.get(at, n));
            at += n;
        } else {
            int n = 1 + r.next() % std::min<size_t>(left, 32);
            c.distinct("read phase x width", (at % 8) * 100 + n);
            uint32_t v = rd.read_bits(n);
            VH_CHECK(v == ref.get(at, n), "read-bits", "%d bits at %zu: %x, expected %llx", n, at, v, (unsigned long long) ref.get(at, n));
            at += n;
        }
        c.count("fields read");
    }
    VH_CHECK(rd.size_bits() == 0, "reader-left", "%zu bits reported after the end", rd.size_bits());
    VH_CHECK(rd.acquire_bits(1) != SUCCESS && rd.acquire(1) != SUCCESS, "reader-acquire", "acquire beyond the end granted");
    // ---- asking for more than is there never touches memory outside the buffer (ASan watches)
    int over = 1 + r.next() % 3;
    for (int i = 0; i < over; ++i) {
        switch (r.next() % 3) {
            case 0: rd.read_bits(1 + r.next() % 32); break;
            case 1: rd.skip_read_bytes(r.next() % 40); break;
            default: rd.read_int32(); break;
        }
        VH_CHECK(rd.acquire_bits(1) != SUCCESS && rd.size_bits() < 8, "reader-left", "after an over-read %zu bits are reported left", rd.size_bits());
        c.count("over-reads");
    }
    c.mix(dst.p, nbytes);
    if (c.cur < 4) c.sample(fmt("%d fields, %zu bytes: %s", (int) ops.size(), nbytes, hex(dst.p, nbytes).c_str()));
}

VH_CASE("P02", byte_io) {
    Rng& r = c.rng;
    // ---- reader
    Bytes data = r.bytes(r.size(4000));
    size_t cap = 1 + r.size(r.chance(1, 3) ? 6000 : 64);
    bool rewindable = !r.chance(1, 4);
    int mode = r.next() % 4;
    auto io = std::make_shared<SchedReader>(data, Cutter(mode, r.next()));
    io->end_error = r.chance(1, 2) ? ERROR_SOCKET_CLOSED : ERROR_IO_EOF;
    auto buf = std::make_shared<AVBuffer>(cap, rewindable);
    BytesReader rd(io, buf);
    size_t at = 0;
    uint64_t shape = mode * 7 + rewindable;
    int steps = 0;
    bool ended = false;
    while (!ended && ++steps < 3000) {
        uint32_t n = r.chance(1, 10) ? r.next() % (cap + 5) : r.next() % (std::min<size_t>(cap, 40) + 1);
        size_t buffered = rd.size();
        size_t consumed_before = io->pos;
        error_t ret = rd.acquire(n);
        size_t have = data.size() - at;           // bytes the peer still has for us
        VH_CHECK(rd.size() >= buffered, "reader-lost", "acquire lost buffered bytes");
        VH_CHECK(rd.size() == io->pos - at, "reader-lost", "%zu buffered, %zu taken from the transport", rd.size(), io->pos - at);
        for (size_t i = 0; i < rd.size(); ++i)
            if (rd.pos()[i] != data[at + i]) fail("reader-data", fmt("byte %zu differs after acquire(%u), cap %zu, mode %d", at + i, n, cap, mode));
        c.eval();
        if (ret == SUCCESS) {
            VH_CHECK(rd.size() >= n, "reader-acquire", "granted %u, has %zu", n, rd.size());
        } else {
            bool too_big = rewindable ? n > cap : n > rd.size() && true;
            bool short_stream = n > have;
            VH_CHECK(too_big || short_stream, "reader-refused", "acquire(%u) refused with %d, cap %zu, %zu bytes were available", n, ret, cap, have);
            if (rewindable && n > cap) {
                VH_CHECK(ret == ERROR_IO_BUFFER_FULL, "reader-full", "request above the capacity reported as %d", ret);
                VH_CHECK(io->pos == consumed_before, "reader-full", "request above the capacity consumed input");
            } else if (rewindable) {
                VH_CHECK(ret == io->end_error, "reader-end", "end of stream %d reported as %d", io->end_error, ret);
                ended = true;
            } else if (buf->no_rewind_cap_size() >= n) {
                ended = true;
            } else if (buf->no_rewind_cap_size() == 0) {
                ended = true;
            }
            c.count("acquires refused");
            if (!ended) continue;
            break;
        }
        c.count("acquires granted");
        // consume up to n
        size_t left = n;
        while (left) {
            int op = r.next() % 6;
            if (op == 0) { VH_CHECK(rd.read_int8() == data[at], "read-int8", "at %zu", at); at += 1; left -= 1; }
            else if (op == 1 && left >= 2) { uint16_t v = rd.read_int16(); VH_CHECK(v == (data[at] << 8 | data[at+1]), "read-int16", "at %zu", at); at += 2; left -= 2; }
            else if (op == 2 && left >= 3) { uint32_t v = rd.read_int24(); VH_CHECK(v == (uint32_t)(data[at] << 16 | data[at+1] << 8 | data[at+2]), "read-int24", "at %zu", at); at += 3; left -= 3; }
            else if (op == 3 && left >= 4) { uint32_t v = rd.read_int32(); VH_CHECK(v == ((uint32_t)data[at] << 24 | data[at+1] << 16 | data[at+2] << 8 | data[at+3]), "read-int32", "at %zu", at); at += 4; left -= 4; }
            else if (op == 4) { size_t k = 1 + r.next() % left; Bytes o(k); rd.read_bytes(o.data(), k); VH_CHECK(!memcmp(o.data(), &data[at], k), "read-bytes", "at %zu", at); at += k; left -= k; }
            else if (op == 5) {
                size_t k = 1 + r.next() % left;
                if (r.chance(1, 2)) { rd.skip_bytes(k); }
                else { Bytes o(k); rd.read_reverse_bytes(o.data() + k - 1, k); for (size_t i = 0; i < k; ++i) VH_CHECK(o[k-1-i] == data[at+i], "read-reverse", "at %zu", at); }
                at += k; left -= k;
            }
            if (r.chance(1, 12)) break;   // leave the rest for the next acquire
        }
        shape = shape * 31 + n;
    }
    VH_CHECK(at <= data.size(), "reader-data", "read more than was sent");
    c.count("bytes read", at);
    c.count("transport reads", io->reads);
    if (io->reads > 1) c.distinct("nontrivial", shape ^ (io->reads << 20));

    // ---- memory reader without a transport: never grants more than there is
    {
        Bytes d = r.bytes(r.size(50));
        Exact e(d);
        auto m = BytesReader::create_reader(e.p, e.n);
        size_t p = 0;
        for (int i = 0; i < 12; ++i) {
            size_t n = r.next() % 20;
            bool ok = m->acquire(n) == SUCCESS;
            VH_CHECK(ok == (n <= d.size() - p), "memory-acquire", "acquire(%zu) with %zu left: %d", n, d.size() - p, ok);
            if (ok) { Bytes o(n); if (n) { m->read_bytes(o.data(), n); VH_CHECK(!memcmp(o.data(), &d[p], n), "memory-data", "at %zu", p); } p += n; }
        }
    }
    // ---- writer
    size_t wc = r.size(300);
    Bytes area(wc, 0);
    Exact dst(area);
    auto w = BytesWriter::create_writer(dst.p, wc);
    Bytes exp;
    for (int i = 0; i < 80; ++i) {
        size_t left = wc - exp.size();
        uint32_t q = r.next() % (left + 4);
        VH_CHECK((w->acquire(q) == SUCCESS) == (q <= left), "writer-acquire", "acquire(%u) with %zu left", q, left);
        uint32_t v = (uint32_t) r.next();
        int k = r.next() % 5;
        size_t need = k == 4 ? r.size(20) : k + 1;
        if (need > left) { if (left == 0) break; continue; }
        switch (k) {
            case 0: w->write_int8(v); break;
            case 1: w->write_int16(v); break;
            case 2: w->write_int24(v); break;
            case 3: w->write_int32(v); break;
            default: { Bytes o = r.bytes(need); Exact e(o); w->write_bytes(e.p, need); exp.insert(exp.end(), o.begin(), o.end()); }
        }
        if (k < 4) for (int s = k; s >= 0; --s) exp.push_back(v >> (8 * s));
    }
    VH_CHECK(exp.empty() || !memcmp(exp.data(), dst.p, exp.size()), "writer-data", "written bytes differ");
    c.count("bytes written", exp.size());
    c.mix64(at); c.mix(dst.p, exp.size());
    if (c.cur < 3) c.sample(fmt("%zu bytes over a cap-%zu buffer in %llu transport reads", at, cap, (unsigned long long) io->reads));
}
