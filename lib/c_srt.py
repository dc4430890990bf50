"""P36: live streams over SRT through the real server: publishers and SRT players are libsrt sockets of the check, HTTP players
read the same streams as FLV. All they get is compared byte for byte with what the transport stream contains."""
import ctypes, random, struct, time
import srv
from srv import *

HOSTS = ["a.com", "b.com", "127.0.0.1"]


def conf(port, recv=30000000):
    hosts = "".join(f"""
    host {h} {{
        role source;
        type stream;
        edge_avformat all;
    }}
""" for h in HOSTS)
    return f"""globalhost {{
{hosts}
}}
http {{
    server main {{
        listen_port {port};
        transport tcp;
        recv_timeout 30000000;
        send_timeout 30000000;
    }}
}}
srt {{
    server live {{
        listen_port {port + 1};
        transport srt;
        recv_timeout {recv};
        send_timeout {recv};
    }}
}}
"""


# ---------------------------------------------------------------- libsrt

class _Lib:
    """libsrt, started in the worker that uses it"""
    def __init__(self):
        self.l = None

    def get(self):
        if self.l is None:
            l = None
            for n in ("libsrt.so", "libsrt.so.1.5", "libsrt-gnutls.so.1.5"):
                try:
                    l = ctypes.CDLL(n)
                    break
                except OSError:
                    pass
            if l is None:
                raise RuntimeError("no libsrt")
            l.srt_startup()
            l.srt_setloglevel(2)
            self.l = l
        return self.l


LIB = _Lib()
SNDTIMEO, RCVTIMEO, TSBPD, CONNTIMEO, TLPKTDROP, SNDDROPDELAY, STREAMID = 13, 14, 22, 36, 31, 32, 46


class Srt:
    """one SRT connection"""
    def __init__(self, port, sid, tmo=TMO):
        l = self.l = LIB.get()
        self.fd = l.srt_create_socket()

        def opt(o, v):
            x = ctypes.c_int(v)
            l.srt_setsockflag(self.fd, o, ctypes.byref(x), 4)
        for o in (TSBPD, TLPKTDROP):
            x = ctypes.c_bool(False)
            l.srt_setsockflag(self.fd, o, ctypes.byref(x), 1)
        opt(SNDDROPDELAY, -1)
        opt(SNDTIMEO, int(tmo * 1000))
        opt(RCVTIMEO, int(tmo * 1000))
        opt(CONNTIMEO, int(tmo * 1000))
        b = sid.encode()
        l.srt_setsockflag(self.fd, STREAMID, b, len(b))
        a = struct.pack("<H", socket.AF_INET) + struct.pack(">H", port) + bytes([127, 0, 0, 1]) + bytes(8)
        self.up = l.srt_connect(self.fd, a, 16) != -1
        if not self.up:
            raise Timeout("no connection", "the server does not accept SRT connections")
        self.buf = bytearray()
        self.eof = False
        self.r = ctypes.create_string_buffer(2000)

    def send(self, b, rng=None):
        i = 0
        while i < len(b):
            n = 1316 if rng is None else rng.choice([1316, 1316, 188 * rng.randrange(1, 8), 188])
            d = b[i:i + n]
            if self.l.srt_sendmsg(self.fd, d, len(d), -1, 1) == -1:
                self.eof = True
                return False
            i += n
        return True

    def fill(self, tmo=TMO):
        if self.eof:
            return False
        x = ctypes.c_int(int(tmo * 1000))
        self.l.srt_setsockflag(self.fd, RCVTIMEO, ctypes.byref(x), 4)
        t0 = time.time()
        n = self.l.srt_recvmsg(self.fd, self.r, 2000)
        if n > 0:
            self.buf += self.r.raw[:n]
            return True
        e = self.l.srt_getlasterror(None)
        if e // 1000 == 6:          # nothing in time
            raise Timeout("no data", f"nothing over SRT within {tmo} s")
        self.eof = True
        return False

    def ends(self, rng):
        """closed by the server without a byte? libsrt ignores a shutdown that comes while it still makes the connection and
        then needs 5 s to see that nobody is there: not waited for every time"""
        full = rng.random() < 0.1
        try:
            return not self.fill(TMO if full else 0.1)
        except Timeout:
            if full:
                raise
            return True

    def flush(self, tmo=TMO):
        """all that was sent is acknowledged"""
        t0 = time.time()
        a, b = ctypes.c_size_t(), ctypes.c_size_t()
        while time.time() - t0 < tmo:
            if self.l.srt_getsndbuffer(self.fd, ctypes.byref(a), ctypes.byref(b)) == -1:
                return False
            if a.value == 0:
                return True
            time.sleep(0.002)
        return False

    def close(self):
        if self.fd is not None:
            self.l.srt_close(self.fd)
            self.fd = None


def sid(rng, host, path, mode):
    """one of the ways to write a stream id"""
    parts = ["h=" + rng.choice(["", "", "srt://"]) + host + path + rng.choice(["", "", "?a=1", "?token=x&u=m=publish"])]
    if mode == "request" or rng.random() < 0.7:
        parts.append("m=" + mode)
    if rng.random() < 0.3:
        parts.append("u=" + rng.choice(["joe", "", "m=request"]))
    rng.shuffle(parts)
    return "#!::" + ",".join(parts) + rng.choice(["", ","])


# ---------------------------------------------------------------- transport streams

def crc32(b):
    c = 0xffffffff
    for x in b:
        c ^= x << 24
        for _ in range(8):
            c = (c << 1 ^ 0x04C11DB7 if c & 0x80000000 else c << 1) & 0xffffffff
    return c


def nal(rng, typ, size):
    b = bytearray([rng.choice([1, 2, 3]) << 5 | typ])
    zeros = 0
    for x in rng.randbytes(size):
        if zeros >= 2 and x <= 3:
            b.append(3)
            zeros = 0
        b.append(x)
        zeros = zeros + 1 if x == 0 else 0
    if b[-1] == 0:
        b.append(0x80)
    return bytes(b)


class Ts:
    """a transport stream: packets with what kind they are, and the tags complete after each of them"""
    def __init__(self, rng):
        self.rng = rng
        self.vpid, self.apid, self.pmt = rng.sample(range(0x100, 0x1ff0), 3)
        self.cc = {}
        self.hist = []          # (kind, start, packet)
        self.tags = []          # FLV tags complete so far
        self.open = {}          # tags of the last PES of each elementary stream: complete when the next one starts
        self.clock = rng.randrange(1 << 32)
        self.asc = None
        self.n = 0
        self.id = rng.randbytes(6)
        self.chan = rng.randrange(1, 3)
        self.media = rng.choice(["av", "av", "av", "v", "a"])
        self.unbounded = rng.random() < 0.5

    def packet(self, kind, pid, start, pay):
        cc = self.cc.get(pid, 0)
        self.cc[pid] = (cc + 1) & 15
        h = bytes([0x47, (0x40 if start else 0) | pid >> 8, pid & 255, (0x30 if len(pay) < 184 else 0x10) | cc])
        if len(pay) < 184:
            n = 183 - len(pay)
            h += bytes([n]) + (b"\0" + b"\xff" * (n - 1) if n else b"")
        self.hist.append((kind, start, h + pay))

    def section(self, kind, pid, table, ident, body):
        s = bytes([table]) + struct.pack(">H", 0xB000 | len(body) + 9) + struct.pack(">H", ident) + b"\xc1\0\0" + body
        s += struct.pack(">I", crc32(s))
        self.packet(kind, pid, True, (b"\0" + s).ljust(184, b"\xff"))

    def tables(self):
        self.section("pat", 0, 0, 1, struct.pack(">HH", 1, 0xE000 | self.pmt))
        es = b""
        if "v" in self.media:
            es += struct.pack(">BHH", 0x1b, 0xE000 | self.vpid, 0xF000)
        if "a" in self.media:
            es += struct.pack(">BHH", 0x0f, 0xE000 | self.apid, 0xF000)
        self.section("pmt", self.pmt, 2, 1, struct.pack(">HH", 0xE000 | (self.vpid if "v" in self.media else self.apid), 0xF000) + es)

    def pes(self, pid, stream_id, es, pts, dts, unbounded):
        def stamp(tag, t):
            return bytes([tag << 4 | (t >> 30 & 7) << 1 | 1]) + struct.pack(">HH", (t >> 15 & 0x7fff) << 1 | 1, (t & 0x7fff) << 1 | 1)
        opt = stamp(3, pts) + stamp(1, dts) if pts != dts else stamp(2, pts)
        ln = 3 + len(opt) + len(es)
        b = b"\0\0\1" + bytes([stream_id]) + struct.pack(">H", 0 if unbounded or ln > 65535 else ln) + bytes([0x80, 0xC0 if pts != dts else 0x80, len(opt)]) + opt + es
        for i in range(0, len(b), 184):
            self.packet("pes", pid, i == 0, b[i:i + 184])

    def video(self):
        r = self.rng
        self.n += 1
        self.clock += r.randrange(1, 4000)
        dts = self.clock & 0x1ffffffff
        pts = (dts + r.choice([0, 0, 90 * r.randrange(1, 200)])) & 0x1ffffffff
        if pts < dts:
            pts = dts
        key = r.random() < 0.2
        mark = self.id + struct.pack(">I", self.n).replace(b"\0", b"\x80")
        size = r.choice([0, 10, 150, 170, 400, 1500, 4000]) if r.random() < 0.97 else 80000
        nals, tags = [], []
        if r.random() < 0.4:
            nals.append(bytes([9, 0xf0]))
        if key and r.random() < 0.8:
            sps, pps = nal(r, 7, 8 + r.randrange(20)), nal(r, 8, 3 + r.randrange(6))
            nals += [sps, pps]
            tags.append(("vhdr", Tag(9, 0, b"\x17\0\0\0\0" + (sps, pps)[0])))
            tags[-1][1].body = (sps, pps)
        for _ in range(1 if r.random() < 0.8 else 2):
            n = nal(r, 5 if key else 1, size) + mark
            nals.append(n)
            ms, cts = dts // 90, pts // 90 - dts // 90
            tags.append(("v", Tag(9, ms, bytes([0x17 if key else 0x27, 1]) + (cts & 0xffffff).to_bytes(3, "big") + struct.pack(">I", len(n)) + n)))
        es = b"".join(r.choice([b"\0\0\1", b"\0\0\0\1"]) + n for n in nals)
        self.complete(self.vpid, tags)
        self.pes(self.vpid, 0xe0, es, pts, dts, self.unbounded)

    def audio(self):
        r = self.rng
        self.n += 1
        self.clock += r.randrange(1, 2000)
        pts = self.clock & 0x1ffffffff
        if r.random() < 0.05:
            self.chan = 3 - self.chan
        raw = self.id + struct.pack(">I", self.n) + r.randbytes(r.randrange(400))
        ln = 7 + len(raw)
        v = 0xfff << 44 | 1 << 40 | 1 << 38 | 4 << 34 | self.chan << 30 | ln << 13 | 0x7ff << 2
        asc = struct.pack(">H", 2 << 11 | 4 << 7 | self.chan << 3)
        tags = []
        if asc != self.asc:
            self.asc = asc
            tags.append(("ahdr", Tag(8, 0, b"\xaf\0" + asc)))
        tags.append(("a", Tag(8, pts // 90, b"\xaf\1" + raw)))
        self.complete(self.apid, tags)
        self.pes(self.apid, 0xc0, v.to_bytes(7, "big") + raw, pts, pts, False)

    def complete(self, pid, tags):
        self.tags += self.open.get(pid, [])
        self.open[pid] = tags

    def unit(self):
        if self.rng.random() < 0.1:
            self.tables()
        if self.media == "a" or self.media == "av" and self.rng.random() < 0.5:
            self.audio()
        else:
            self.video()

    def snapshot(self):
        """what an SRT player that joins now gets at once"""
        pat = pmt = st = None
        for i, (k, s, _) in enumerate(self.hist):
            if k == "pat":
                pat = i
            elif k == "pmt":
                pmt = i
            elif s:
                st = i
        o = [self.hist[i][2] for i in (pat, pmt) if i is not None]
        if st is not None:
            o += [p for k, _, p in self.hist[st:] if k == "pes"]
        return b"".join(o)


def snapshot_tags(h):
    a = v = k = None
    for i, (c, t) in enumerate(h):
        if c == "ahdr":
            a = (c, t)
        elif c == "vhdr":
            v = (c, t)
        elif c == "v" and t.body[0] == 0x17:
            k = i
    o = [t for t in (a, v) if t]
    if k is not None:
        o += [x for x in h[k:] if x[0] in ("v", "a")]
    return o


class FlvPlayer:
    """an HTTP player of the stream"""
    def __init__(self, port, host, path, rng):
        self.p = wait_player(port, host, path, rng)
        self.want = []

    def check(self, what):
        for i, (c, t) in enumerate(self.want):
            h = self.p.c.take(15)
            if len(h) < 15:
                raise Violation("cut", f"{what}: the connection ends with {len(self.want) - i} tags missing")
            n = int.from_bytes(h[5:8], "big")
            b = self.p.c.take(n)
            if int.from_bytes(h[0:4], "big") != self.p.prev:
                raise Violation("previous tag size", f"{what}: {h[:4].hex()}, {self.p.prev} expected")
            self.p.prev = 11 + n
            if h[4] != t.type or h[12:15] != b"\0\0\0":
                raise Violation("other tag", f"{what}: tag head {h.hex()}, a {c} tag expected")
            ts = int.from_bytes(h[8:11], "big") | h[11] << 24
            if c == "vhdr":
                sps, pps = t.body
                if len(b) != 5 + 8 + len(sps) + 3 + len(pps) or b[:6] != b"\x17\0\0\0\0\x01" or b[13:13 + len(sps)] != sps or not b.endswith(pps):
                    raise Violation("other configuration", f"{what}: {b.hex()} for SPS {sps.hex()} PPS {pps.hex()}")
                continue
            if c == "ahdr":
                if b[0] >> 4 != 10 or b[1:] != t.body[1:]:
                    raise Violation("other configuration", f"{what}: {b.hex()}, expected {t.body.hex()}")
                continue
            if (b[0] >> 4 != 10 or b[1:] != t.body[1:]) if c == "a" else b != t.body:
                raise Violation("other bytes", f"{what}: tag {i} of {len(self.want)} ({c}): {b[:40].hex()} ({len(b)}), expected {t.body[:40].hex()} ({len(t.body)})")
            if ts != t.ts & 0xffffffff:
                raise Violation("other time", f"{what}: tag {i} ({c}) at {ts}, expected {t.ts}")
        self.want = []
        if self.p.c.buf:
            raise Violation("extra bytes", f"{what}: more than the stream has: {bytes(self.p.c.buf[:40]).hex()}")

    def close(self):
        self.p.close()


class RawPlayer:
    """an SRT player of the stream"""
    def __init__(self, port, host, path, rng, first, tmo=TMO):
        """first: what it must get at once"""
        self.got = 0
        t0, patience = time.time(), 0.2
        while True:
            self.c = Srt(port, sid(rng, host, path, "request"))
            try:
                if self.c.fill(patience):
                    break
            except Timeout:
                pass
            # the publisher may not have got through yet (and libsrt may take long to tell that the connection is closed)
            self.c.close()
            if time.time() - t0 > tmo:
                raise Timeout("play refused", f"an SRT player is refused for {tmo} s while the stream is published")
            time.sleep(0.01)
            patience = min(patience * 2, 8)
        self.want = bytearray(first)

    def check(self, what):
        while self.want:
            if not self.c.buf:
                try:
                    ok = self.c.fill()
                except Timeout:
                    raise Timeout("missing", f"{what}: {len(self.want)} bytes of the stream do not arrive (after {self.got})")
                if not ok:
                    raise Violation("cut", f"{what}: the connection ends with {len(self.want)} bytes missing (after {self.got})")
            n = min(len(self.c.buf), len(self.want))
            if self.c.buf[:n] != self.want[:n]:
                i = next(j for j in range(n) if self.c.buf[j] != self.want[j])
                raise Violation("other bytes", f"{what}: byte {self.got + i} (packet {(self.got + i) // 188}) differs: got {bytes(self.c.buf[i:i+16]).hex()}, expected {bytes(self.want[i:i+16]).hex()}")
            del self.c.buf[:n]
            del self.want[:n]
            self.got += n
        if self.c.buf:
            raise Violation("extra bytes", f"{what}: bytes that are not of the stream: {bytes(self.c.buf[:40]).hex()}")

    def let_go(self, what):
        try:
            if self.c.fill():
                raise Violation("extra bytes", f"{what} gets bytes: {bytes(self.c.buf[:40]).hex()}")
        except Timeout:
            raise Timeout("never ends", f"{what} keeps its connection for {TMO} s")

    def close(self):
        self.c.close()


def p36(c, rng, i):
    if i % 200 == 7:
        return bursts(c, rng, i)
    s = c.need(conf)
    sp = s.port + 1
    host = rng.choice(HOSTS)
    path = f"/{rng.choice(['live', 'app', 'l/x'])}/t{i}_{rng.getrandbits(24):x}"
    if rng.random() < 0.15:         # stream ids have up to 512 bytes
        path += "x" * rng.randrange(30, 380)
    refused_srt(c, rng, sp, host, path + "x")
    ts = Ts(rng)
    pub = Srt(sp, sid(rng, host, path, "publish"))
    raw, flvs = [], []
    try:
        ts.tables()
        sent = 0

        def push():
            nonlocal sent
            b = b"".join(p for _, _, p in ts.hist[sent:])
            sent = len(ts.hist)
            if not pub.send(b, rng):
                raise Violation("publisher dropped", "the server closed the connection of a well-behaved SRT publisher")
            for p in raw:
                p.want += b
        push()
        # a witness of each kind, there from the start
        raw.append(RawPlayer(sp, host, path, rng, ts.snapshot()))
        raw[0].check("an SRT player at the start")
        flvs.append(FlvPlayer(s.port, host, path + ".flv", rng))
        shape = [ts.media, ts.unbounded]
        for b in range(1 + rng.randrange(5)):
            k = len(ts.tags)
            for _ in range(rng.choice([1, 2, 5, 20, 60])):
                ts.unit()
            push()
            new = ts.tags[k:]
            for p in flvs:
                p.want += new
            raw[0].check("an SRT player that was there from the start")
            flvs[0].check("an HTTP player that was there from the start")
            c.count("packets to SRT players", len(raw) * (len(ts.hist) - 2))
            c.count("tags to HTTP players", len(flvs) * len(new))
            for p in list(raw[1:] + flvs[1:]):
                q = rng.random()
                if q < 0.15:
                    p.close()
                    (raw if p in raw else flvs).remove(p)
                    c.count("players leaving")
                elif q < 0.7:
                    p.check("a player among others")
            for _ in range(rng.choice([0, 1, 1, 2])):
                if rng.random() < 0.5:
                    p = RawPlayer(sp, host, path, rng, ts.snapshot())
                    p.check(f"an SRT player that joins after {len(ts.hist)} packets")
                    raw.append(p)
                    c.count("late SRT joins")
                else:
                    p = FlvPlayer(s.port, host, path + ".flv", rng)
                    p.want = snapshot_tags(ts.tags)
                    p.check(f"an HTTP player that joins after {len(ts.tags)} tags")
                    flvs.append(p)
                    c.count("late HTTP joins")
            if rng.random() < 0.3:
                second(c, rng, s, sp, host, path)
            shape += [len(ts.hist), len(raw), len(flvs)]
        # the publisher leaves: what it sent still reaches everyone
        k = len(ts.tags)
        for _ in range(rng.randrange(4)):
            ts.unit()
        push()
        for p in flvs:
            p.want += ts.tags[k:]
        if not pub.flush():
            raise Timeout("not acknowledged", "what the publisher sent is not acknowledged")
        pub.close()
        for p in raw + flvs:
            p.check("a player when the publisher leaves")
            c.count("players checked to the end")
        # the players are let go once nothing has come for a while (10 s)
        if i % 130 == 9:
            raw[0].let_go("an SRT player whose publisher has left")
            try:
                while flvs[0].p.c.fill():
                    pass
            except Timeout:
                raise Timeout("never ends", "an HTTP player whose publisher has left keeps its connection")
            if flvs[0].p.c.buf:
                raise Violation("extra bytes", "an HTTP player gets bytes after its publisher has left")
            c.count("players let go", 2)
        # and the name is free again
        elif rng.random() < 0.5:
            again(c, rng, s, sp, host, path, ts.snapshot())
        c.distinct(*shape)
        if i < 16:
            c.samples.append(f"{ts.media}: {len(ts.hist)} packets, {len(ts.tags)} tags, {len(raw)} SRT and {len(flvs)} HTTP players at the end")
    finally:
        pub.close()
        for p in raw + flvs:
            p.close()


def refused_srt(c, rng, sp, host, path):
    """no stream, no host, no stream id: the connection is closed without a byte"""
    if rng.random() < 0.5:
        return
    k = rng.randrange(4)
    x = [sid(rng, host, path, "request"), sid(rng, "other.com", path, rng.choice(["publish", "request"])), "m=request,h=" + host + path,
         "#!::m=request"][k]
    p = Srt(sp, x)
    try:
        if not p.ends(rng):
            raise Violation("served", f"an SRT player with the stream id {x!r} gets {bytes(p.buf[:20]).hex()}")
    except Timeout:
        raise Timeout("not closed", f"an SRT connection with the stream id {x!r} stays open")
    finally:
        p.close()
    c.count("refused: " + ["no stream", "no host", "other form", "no name"][k])


def second(c, rng, s, sp, host, path):
    """a second publisher, over SRT or HTTP, is refused and disturbs nobody (the players are checked after it)"""
    if rng.random() < 0.6:
        p = Srt(sp, sid(rng, host, path, "publish"))
        t = Ts(rng)
        t.tables()
        for _ in range(3):
            t.unit()
        p.send(b"".join(x for _, _, x in t.hist))
        try:
            if not p.ends(rng):
                raise Violation("second publisher", "gets data")
        except Timeout:
            raise Timeout("second publisher", "a second SRT publisher of a name is not refused")
        finally:
            p.close()
        c.count("second SRT publishers refused")
    else:
        p = Publisher(s.port, host, path + ".flv", rng)
        p.start()
        p.send(Media(rng).tags(3))
        try:
            if p.c.fill():
                raise Violation("second publisher", "gets an answer")
        finally:
            p.c.close()
        c.count("second HTTP publishers refused")


def again(c, rng, s, sp, host, path, old):
    """another stream under the same name"""
    t0 = time.time()
    ts = Ts(rng)
    ts.tables()
    (ts.audio if ts.media == "a" else ts.video)()       # no second table: wherever the player joins, it must get the same
    while True:
        pub = Srt(sp, sid(rng, host, path, "publish"))
        pub.send(b"".join(x for _, _, x in ts.hist), rng)
        p = None
        try:
            p = RawPlayer(sp, host, path, rng, ts.snapshot(), 0.5)
            if old.startswith(bytes(p.c.buf)):
                raise Timeout("old", "the first one is still there")
            p.check("a player of a name used again")
            c.count("names reused")
            return
        except Timeout:
            # refused: the server may not have seen the end of the first one
            if time.time() - t0 > TMO:
                raise Timeout("name held", f"a name cannot be published again {TMO} s after its publisher left")
        finally:
            pub.close()
            if p:
                p.close()


def bursts(c, rng, i):
    """SRT connections of every kind that end in every way: what they used is given back, and a stream next to them is served"""
    s = Server(c.binary, lambda p: conf(p, 300000), c.k)
    sp = s.port + 1
    heap = [s.allocated()]
    n = 200
    try:
        for r in range(4):
            xs = []
            for j in range(n):
                path = f"/live/b{i}_{r}_{j}"
                k = rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 6, 6, 6])
                x = Srt(sp, ["", "#!::", "#!::h=a.com" + path, "#!::h=a.com" + path + ",m=request", "#!::h=x.com" + path, "#!::h=a.com" + path, "#!::h=a.com" + path][k])
                if k == 2:
                    x.send(rng.randbytes(rng.choice([1, 187, 188, 189, 1316])))
                elif k == 5:
                    t = Ts(rng)
                    t.tables()
                    for _ in range(3):
                        t.unit()
                    x.send(b"".join(p for _, _, p in t.hist[:7]))
                if rng.random() < 0.3:
                    x.close()
                else:
                    xs.append(x)
                c.count("connections in bursts")
            # those that stay get their connection timed out
            time.sleep(0.8)
            for x in xs:
                x.close()
            s.check()
            # the heap in use is the same after every round, but for about a KiB, and for a step of 200 KiB when libsrt enlarges its
            # pool of packets: held memory grows with every round
            t0 = time.time()
            while time.time() - t0 < (6 if len(heap) == 1 else 30) and (len(heap) == 1 or s.allocated() > heap[-1] + 3000):
                s.check()
                time.sleep(0.1)
            heap.append(s.allocated())
            if len(heap) == 5 and min(b - a for a, b in zip(heap[1:], heap[2:])) > 3000:
                raise Violation("memory held", f"heap in use at the start and after each {n} SRT connections: {heap}")
            c.count("heap checks")
        c.samples.append(f"heap in use at the start and after each {n} SRT connections: {heap}")
        c.distinct("burst", i)
    finally:
        s.stop()


CASES = {"P36": p36}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
