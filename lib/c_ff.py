"""P40, P41: the server as the documentation says to build it, with FFmpeg reading and writing the containers.

Clips are encoded and muxed by harness/ffgen.cpp; what players get is read by the same tool, and compared packet by packet with what
is in the published file."""
import atexit, random, select, shutil, subprocess, tempfile, threading, time
import srv
from srv import *

FMT = {"flv": "flv", "ts": "mpegts", "mkv": "matroska", "mp4": "mp4", "aac": "aac", "h264": "h264", "nut": "nut"}
M = {}          # where the clips are
HOSTS = ["a.com", "b.com", "x.wild.com"]


def conf(port, oport=1):
    return f"""globalhost {{
    host a.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
    host b.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
    host *.wild.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
    host edge.com {{
        role edge;
        pass_proxy 127.0.0.1:{oport};
        type stream;
        edge_avformat all;
    }}
}}
http {{
    server main {{
        listen_port {port};
        transport tcp;
        recv_timeout 20000000;
        send_timeout 20000000;
    }}
}}
"""


def media(seed, n, gen):
    if "dir" not in M:
        M["dir"], M["gen"], M["n"] = tempfile.mkdtemp(prefix="spsff_"), gen, n
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(M["dir"], ignore_errors=True))
        subprocess.run([gen, "gen", M["dir"], str(seed), str(n)], check=True, stdin=subprocess.DEVNULL)
    return M["dir"]


class P:
    __slots__ = ("kind", "key", "pts", "dts", "pos", "h")

    def __init__(self, l):
        a = l.split()
        self.kind, self.key, self.pts, self.dts, self.pos, self.h = a[0], a[1] == "1", int(a[2]), int(a[3]), int(a[4]), a[5]


def dump(fmt, files):
    """-> per file its packets, None where no player could open it"""
    o = subprocess.run([M["gen"], "dump", FMT[fmt]] + files, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, check=True).stdout.decode()
    out, cur = [], []
    for l in o.split("\n"):
        if l == "!":
            cur = None
        elif l == ".":
            out.append(cur)
            cur = []
        elif l:
            cur.append(P(l))
    return out


class Clip:
    cache = {}

    def __init__(self, k, ext):
        self.k, self.ext = k, ext
        f = f"{M['dir']}/{k}.{ext}"
        self.data = open(f, "rb").read()
        l = dump(ext, [f])[0]
        self.s = {x: [p for p in l if p.kind == x] for x in "va"}

    @staticmethod
    def get(k, ext):
        c = Clip.cache.get((k, ext))
        if c is None:
            c = Clip.cache[(k, ext)] = Clip(k, ext)
        return c


def published(k):
    l = ["flv", "ts", "mkv", "mp4"]
    if k % 3 == 1:
        l.remove("mkv")     # no decoding times in Matroska: with B-frames libavformat does not know them all
    if k % 6 == 4:
        l.remove("flv")     # libavformat waits for audio as long as such a clip lasts
    if k % 6 == 5:
        l.append("aac")
    return l


def playable(k, ext):
    """what libavformat can make of it"""
    l = ["flv", "ts", "mkv", "nut", "FLV", "tS"]
    if ext in ("ts", "aac") and k % 6 != 4:
        l.remove("mkv")     # needs the configuration of AAC up front
    if ext in ("mp4",) and k % 6 != 4:
        l = l[1:4]          # fragments of 200 ms: audio from before the first video frame, which FLV cannot have
    if k % 6 == 4:
        l.append("h264")
    if k % 6 == 5:
        l.append("aac")
    return l


class FPlayer:
    def __init__(self, port, host, path, ext, rng):
        self.ext = ext
        self.c = Conn(port)
        self.c.send(f"GET {path}.{ext}{rng.choice(['', '?a=1'])} HTTP/1.1\r\nHost: {host}\r\n\r\n".encode(), rng)
        self.data = bytearray()
        self.st = None      # the head comes with the first bytes of the container: Transport Stream has none of those before a packet
        self.lo = self.hi = None
        self.c.s.settimeout(0.1)
        self.recv()
        self.c.s.setblocking(False)

    def recv(self):
        try:
            d = self.c.s.recv(262144)
        except (BlockingIOError, socket.timeout):
            return False
        except OSError:
            d = b""
        if not d:
            self.c.eof = True
            return False
        self.data += d
        i = self.data.find(b"\r\n\r\n") if self.st is None else -1
        if i >= 0:
            self.c.buf += self.data[:i + 4]
            del self.data[:i + 4]
            self.st = status(self.c.head())
        return True

    def pump(self):
        """takes what is there"""
        while not self.c.eof and self.recv():
            pass


class Stream:
    """one publication with its players"""
    def __init__(self, c, rng, port, i, n, host, k, ext, players, edge=None):
        self.c, self.rng, self.port, self.host = c, rng, port, host
        self.path = f"/{rng.choice(['live', 'a/b'])}/f{i}_{n}_{rng.getrandbits(20):x}"
        self.clip = Clip.get(k, ext)
        self.k, self.ext = k, ext
        # the extension of the publisher says nothing: the container is found by its content
        url = self.path + rng.choice([f".{ext}"] * 3 + [".flv", ".xyz", ".ts", ""])
        self.pub = Publisher(port, host, url, rng, rng.choice(["raw", "chunked", "length"]), len(self.clip.data))
        self.sent = 0
        self.slices = [0.01, 0.03, 0.07]
        self.plan = sorted(rng.random() * 0.9 for _ in range(players))
        self.players = []
        self.refused = 0
        self.ended = False

    def step(self):
        d = self.clip.data
        if self.sent < len(d):
            n = max(1, int(len(d) * self.rng.choice(self.slices)))
            self.pub.raw(d[self.sent:self.sent + n])
            if self.pub.c.eof:
                raise Violation("publisher dropped", f"of clip {self.k}.{self.ext}, after {self.sent} of {len(d)} bytes")
            self.sent = min(len(d), self.sent + n)
            while self.plan and self.plan[0] * len(d) <= self.sent and self.sent < len(d):
                lo = 0
                w = self.players[0] if self.players else None
                if w is not None:
                    w.pump()
                    lo = len(w.data)
                p = FPlayer(self.port, self.host, self.path, self.rng.choice(playable(self.k, self.ext)), self.rng)
                p.lo = lo           # the first player had so many bytes when this one joined
                self.players.append(p)
                self.plan.pop(0)
                self.look(p)
                if p.st == 404:
                    break
        elif not self.ended:
            self.ended = True
            how = self.rng.choice(["fin", "chunk"])
            if self.pub.framing == "chunked" and how == "chunk":
                self.pub.c.send(b"0\r\n\r\n")
            elif self.pub.framing != "length":
                self.pub.c.s.shutdown(socket.SHUT_WR)
            # by length: that was it
        for p in list(self.players):
            p.pump()
            self.look(p)

    def look(self, p):
        """what the server said to a player"""
        if p.hi is not None or p.st is None and not p.c.eof:
            return
        if p.st == 404 and self.sent == len(self.clip.data):
            # it asked before the last bytes were sent, and was heard after them
            p.c.close()
            self.players.remove(p)
            self.c.count("joins after the end")
        elif p.st == 404 and not any(x.st == 200 for x in self.players):
            # it has not found out yet what it is
            p.c.close()
            self.players.remove(p)
            self.refused += 1
            if not self.ended:
                self.plan.insert(0, 0)
        elif p.st == 200:
            p.hi = self.sent    # what was not sent by now cannot have come from the cache
        else:
            raise Violation("play refused", f"status {p.st} for .{p.ext} of clip {self.k}.{self.ext} after {self.sent} of {len(self.clip.data)} bytes")

    def done(self):
        return self.ended and all(p.c.eof for p in self.players)

    def verify(self):
        c, clip = self.c, self.clip
        d = tempfile.mkdtemp(prefix="spsffp_")
        try:
            got = []
            for n, p in enumerate(self.players):
                open(f"{d}/{n}", "wb").write(p.data)
                got.append(dump(p.ext.lower(), [f"{d}/{n}"])[0])
            first = None
            shifts = {}
            for n, p in enumerate(self.players):
                what = f"player {n} (.{p.ext}) of clip {self.k}.{self.ext}, joined with {p.hi} of {len(clip.data)} bytes sent"
                g = got[n]
                if g is None:
                    # nothing came before the end
                    g = []
                start = {}
                for x in "va":
                    ref = clip.s[x]
                    mine = [q for q in g if q.kind == x]
                    if not ref:
                        if mine:
                            raise Violation("foreign packets", f"{what}: {len(mine)} packets of a kind ({x}) the stream does not have")
                        continue
                    hs = [q.h for q in ref]
                    m = [q.h for q in mine]
                    if len(m) > len(hs) or m != hs[len(hs) - len(m):]:
                        # where does it go wrong
                        at = hs.index(m[0]) if m and m[0] in hs else -1
                        j = next((j for j in range(len(m)) if at < 0 or at + j >= len(hs) or m[j] != hs[at + j]), len(m))
                        raise Violation("other packets", f"{what}: {len(m)} {x} packets, starting at {at} of {len(hs)}; the {j}th differs "
                                        f"(it is number {hs.index(m[j]) if j < len(m) and m[j] in hs else None}, expected {at + j})")
                    s = start[x] = len(hs) - len(m)
                    c.count("packets to players", len(m))
                    # times: those of the published file, all shifted alike
                    if p.ext.lower() in ("h264", "aac"):
                        continue
                    for a, b in zip(ref[s:], mine):
                        if a.pts >= 0 and b.pts >= 0:
                            sh = b.pts - a.pts
                            lo, hi = shifts.setdefault((n,), [sh, sh])
                            lo, hi = min(lo, sh), max(hi, sh)
                            shifts[(n,)] = [lo, hi]
                            if hi - lo > 2100:
                                raise Violation("times", f"{what}: the time of a {x} packet is {b.pts / 1e3} ms, {a.pts / 1e3} ms when published; "
                                                f"others differ by {lo / 1e3}..{hi / 1e3} ms")
                        if x == "v" and a.key and not b.key:
                            raise Violation("key flag", f"{what}: a key frame that is none any more")
                v = clip.s["v"]
                if v:
                    s = start["v"]
                    keys = [q for q in range(len(v)) if v[q].key]
                    # packets that were not even sent when it joined
                    hi = sum(1 for q in v if 0 <= q.pos < p.hi)
                    if s < len(v) and s not in keys:
                        raise Violation("no key frame", f"{what}: the first frame is number {s}, key frames are {keys}")
                    last = [q for q in keys if q < hi]
                    if s > (last[-1] if last else 0):
                        raise Violation("packets missing", f"{what}: starts with frame {s}; {hi} frames were sent when it joined, key frames are {keys}")
                    if s < len(v) and start.get("a") is not None and start["a"] < len(clip.s["a"]):
                        gap = clip.s["a"][start["a"]].dts - v[s].dts
                        if abs(gap) > 900000:
                            raise Violation("audio", f"{what}: video starts at {v[s].dts / 1e3} ms, audio at {clip.s['a'][start['a']].dts / 1e3} ms")
                else:
                    hi = sum(1 for q in clip.s["a"] if 0 <= q.pos < p.hi)
                    if start["a"] > hi:
                        raise Violation("packets missing", f"{what}: starts with audio packet {start['a']}; {hi} were sent when it joined")
                # an earlier player had seen a later key frame already
                if n and self.players[0].ext.lower() == "flv" and v:
                    part = f"{d}/part"
                    open(part, "wb").write(self.players[0].data[:p.lo])
                    l = dump("flv", [part])[0]
                    if l:
                        seen = start0 + sum(1 for q in l if q.kind == "v") - 1      # the last may be cut
                        k = [q for q in keys if q < seen]
                        if k and start["v"] < k[-1]:
                            raise Violation("stale start", f"{what}: starts with frame {start['v']}, another player had {seen} frames by then; key frames are {keys}")
                        c.count("starts bounded from below")
                if n == 0:
                    start0 = start.get("v", 0)
                c.count("players checked to the end")
                c.count(f"{self.ext} to {p.ext.lower()}")
                c.distinct(self.k, self.ext, p.ext, tuple(start.items()))
            if not self.players:
                c.count("streams without a player")
            c.count("joins before the container was known", self.refused)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def close(self):
        self.pub.c.close()
        for p in self.players:
            p.c.close()


def p40(c, rng, i):
    s = c.need(conf)
    streams = []
    try:
        for n in range(10):
            k = rng.randrange(M["n"])
            streams.append(Stream(c, rng, s.port, i, n, rng.choice(HOSTS), k, rng.choice(published(k)), rng.randrange(1, 5)))
        order = list(streams)
        t0 = time.time()
        while not all(x.ended for x in streams):
            rng.shuffle(order)
            for x in order:
                x.step()
            time.sleep(0.004)
            s.check()
        t0 = time.time()
        while not all(x.done() for x in streams):
            for x in streams:
                x.step()
            if time.time() - t0 > 10 + TMO:
                raise Timeout("never ends", f"{sum(not x.done() for x in streams)} streams have players {10 + TMO} s after their publisher left")
            time.sleep(0.05)
        for x in streams:
            x.verify()
        if i < 8:
            c.samples.append(", ".join(f"{x.k}.{x.ext} to {'/'.join(p.ext for p in x.players)}" for x in streams))
    finally:
        for x in streams:
            x.close()


# ---------------------------------------------------------------- P41

ODD = ["xyz", "m3u8", "mpd", "jpg", "png", "bmp", "gif", "ffmeta", "mp4", "mov", "webm", "ogg", "wav", "avi", "h264", "aac", "ass", "srt", "null", "rtp", "sdp", "swf",
       "mxf", "gxf", "3gp", "ivf", "vob", "mpg", "m2ts", "rm", "caf", "txt", "y4m", "chk", "f4v", "ism", "mka", "mp3", "ac3", "flac", "w64", "md5", "framecrc", "opus", "m4s", "pcm",
       "dv", "mjpg", "hevc", "obu", "a64", "", ".", "%03d.jpg", "ts%00", "x" * 300, "smil", "hls", "segment", "tee", "fifo", "yuv", "rgb", "vc1", "dts", "eac3", "amr", "aiff", "au", "tta",
       "sup", "sub", "vtt", "lrc", "jss", "ttml", "kux", "wtv", "ub", "adx", "avs2", "cavs", "dnxhd", "sbc", "spx", "thd", "voc", "wsaud", "psp", "m4v", "m4a", "isma", "m1v", "m2v", "mp2"]


class Trap:
    """a port 80 of its own, where nobody may ever connect"""
    def __init__(self, k):
        self.host = f"127.0.17.{10 + k}"
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((self.host, 80))
        self.l.listen(50)
        self.l.setblocking(False)

    def check(self, what):
        try:
            s, a = self.l.accept()
        except BlockingIOError:
            return
        s.close()
        raise Violation("connection of its own", f"{what}: somebody connected to {self.host}:80, where no peer ever told the server to connect")


def playlists(rng, trap, secret):
    t = rng.choice(["secret.ts", "file:secret.ts", secret, "file://" + secret, f"http://{trap.host}/x.ts", f"tcp://{trap.host}:80", f"concat:{secret}|{secret}", "data:text/plain,abc",
                    f"crypto:{secret}", f"subfile,,start,0,end,0,,:{secret}", f"cache:{secret}", f"async:{secret}", f"hls+http://{trap.host}/y.m3u8"])
    k = rng.randrange(5)
    if k == 0:
        return "m3u8", f"#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-TARGETDURATION:5\n#EXT-X-MEDIA-SEQUENCE:0\n#EXTINF:5.0,\n{t}\n#EXT-X-ENDLIST\n"
    if k == 1:
        return "ffconcat", f"ffconcat version 1.0\nfile '{t}'\n"
    if k == 2:
        return "sdp", f"v=0\no=- 0 0 IN IP4 {trap.host}\ns=x\nc=IN IP4 {trap.host}\nt=0 0\nm=video 23456 RTP/AVP 96\na=rtpmap:96 H264/90000\n"
    if k == 3:
        return "master", f"#EXTM3U\n#EXT-X-STREAM-INF:BANDWIDTH=100000\n{t}\n"
    return "mpd", (f'<?xml version="1.0"?><MPD xmlns="urn:mpeg:dash:schema:mpd:2011" type="static" mediaPresentationDuration="PT5S" minBufferTime="PT1S" profiles="urn:mpeg:dash:profile:isoff-live:2011">'
                   f'<Period><AdaptationSet mimeType="video/mp4"><Representation id="1" bandwidth="1000"><BaseURL>{t}</BaseURL><SegmentList><SegmentURL media="{t}"/></SegmentList></Representation>'
                   f'</AdaptationSet></Period></MPD>')


def damaged(rng):
    k = rng.randrange(M["n"])
    l = [e for e in ["flv", "ts", "mkv", "mp4", "aac", "h264", "xmp4", "xmkv"] if os.path.exists(f"{M['dir']}/{k}.{e}")]
    e = rng.choice(l)
    b = bytearray(open(f"{M['dir']}/{k}.{e}", "rb").read()[:200000])
    r = rng.random()
    if r < 0.2 or e in ("h264", "xmkv", "xmp4") and r < 0.6:
        return e, bytes(b)
    for _ in range(rng.choice([1, 1, 3, 10, 100])):
        # the beginning describes the streams
        i = rng.randrange(min(len(b), rng.choice([400, 6000, len(b)])))
        m = rng.randrange(5)
        if m == 0:
            b[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff])
        elif m == 1:
            b[i] ^= 1 << rng.randrange(8)
        elif m == 2:
            del b[i:i + rng.randrange(1, 400)]
        elif m == 3:
            b[i:i] = rng.randbytes(rng.randrange(1, 300))
        else:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.randrange(2000)]
        if not b:
            b = bytearray(b"x")
    return "damaged " + e, bytes(b)


class Guest:
    """a publisher or player that nobody vouches for"""
    def __init__(self, port, req, body, rng, chunked=False, tail=True):
        self.c = Conn(port)
        self.c.send(req, rng, quiet=True)
        self.c.s.setblocking(False)
        self.b = body
        self.got = bytearray()
        self.chunked, self.tail = chunked, tail
        self.fin = False

    def pump(self, rng):
        try:
            while True:
                d = self.c.s.recv(262144)
                if not d:
                    break
                self.got += d[:100000 - len(self.got)] if len(self.got) < 100000 else b""
        except OSError:
            pass
        if self.b and not self.fin:
            n = rng.choice([1000, 10000, 60000])
            d = self.b[:n]
            self.b = self.b[n:]
            if self.chunked:
                d = b"%x\r\n" % len(d) + d + b"\r\n" + (b"0\r\n\r\n" if not self.b and self.tail else b"")
            self.c.s.settimeout(0.3)
            try:
                self.c.s.sendall(d)
            except OSError:
                self.b, self.fin = b"", True
                return
            self.c.s.setblocking(False)
            if not self.b and not self.chunked:
                self.fin = True
                try:
                    self.c.s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass


def datagram(s):
    """UDP sockets of the server"""
    mine = set()
    try:
        for f in os.listdir(f"/proc/{s.p.pid}/fd"):
            try:
                l = os.readlink(f"/proc/{s.p.pid}/fd/{f}")
            except OSError:
                continue
            if l.startswith("socket:["):
                mine.add(l[8:-1])
    except OSError:
        return []
    l = []
    for f in ["udp", "udp6"]:
        try:
            l += [w.split()[1] for w in open(f"/proc/net/{f}") if w.split()[9] in mine]
        except OSError:
            pass
    return l


def files(d):
    return {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}


def asf(c, rng):
    """the listed finding: libavformat gives up the process when it writes ASF from packets that are not interleaved"""
    c.drop()
    s = c.need(conf)
    l = [k for k in range(M["n"]) if os.path.exists(f"{M['dir']}/{k}.mp4")]
    why = "the server is alive"
    for k in l[:8]:
        d = open(f"{M['dir']}/{k}.mp4", "rb").read()
        u = f"/live/asf{k}"
        pub = Publisher(s.port, "a.com", u + ".flv", rng, "raw", len(d))
        g = None
        try:
            for at in range(0, len(d), max(1, len(d) // 30)):
                pub.raw(d[at:at + max(1, len(d) // 30)])
                if at > len(d) // 4 and g is None:
                    g = Guest(s.port, head(rng, "GET", u + ".asf", "a.com"), b"", rng)
                if g:
                    g.pump(rng)
                time.sleep(0.01)
            time.sleep(0.1)
        except Violation:
            pass
        finally:
            pub.c.close()
            if g:
                g.c.close()
        if not s.alive():
            log = s.log()
            if "asf->packet_timestamp_end >= asf->packet_timestamp_start failed" in log:
                c.drop()
                raise Violation("asf-not-interleaved", f"clip {k}.mp4 published, played as .asf\n{log[-3000:]}")
            s.check()
    c.count("not reproduced")
    c.drop()


def p41(c, rng, i):
    if i == 0:
        return asf(c, rng)
    if "trap" not in c.state:
        c.drop()
        c.state["trap"] = Trap(c.k)
    trap = c.state["trap"]
    fresh = c.server is None
    s = c.need(lambda port: conf(port).replace("host a.com {", f"host {trap.host} {{\n        role source;\n        type stream;\n        edge_avformat all;\n    }}\n    host a.com {{", 1))
    secret = os.path.join(s.dir, "secret.ts")
    if fresh:
        shutil.copy(f"{M['dir']}/0.ts", secret)
        for h in ["a.com", trap.host, "b.com"]:
            os.makedirs(os.path.join(s.dir, h, "live"))
        c.state["files"] = files(s.dir)
        time.sleep(0.05)
        c.state["fds"], c.state["heap"], c.state["n"] = s.fds(), [s.allocated()], 0
    # a stream nothing of this may disturb
    k = rng.choice([x for x in range(M["n"]) if x % 8 == 3])
    can = Stream(c, rng, s.port, i, 0, rng.choice(HOSTS), k, rng.choice(["flv", "ts"]), 3)
    can.plan = [0.1, 0.15, 0.3]
    can.slices = [0.002, 0.004]
    guests, kinds, nothing = [], [], []
    try:
        steps = 0
        while not can.ended or steps < 60:
            if not can.ended:
                can.step()
            else:
                for p in can.players:
                    p.pump()
                time.sleep(0.005)
            steps += 1
            s.check()
            for g in guests:
                g.pump(rng)
            if steps % 5 == 0 and datagram(s):
                raise Violation("sockets of its own", f"{datagram(s)}: nothing here speaks UDP (guests {kinds})")
            if steps % 4 == 0 and len(guests) < 60:
                u = f"/live/g{i}_{steps}"
                r = rng.random()
                host = rng.choice(["a.com", "a.com", "b.com", trap.host])
                if r < 0.4:
                    # plays what is there in a format of its own choice
                    x = rng.choice(ODD)
                    hosts = (can.host, can.path)
                    g = Guest(s.port, head(rng, "GET", f"{hosts[1]}.{x}", hosts[0]), b"", rng)
                    guests.append(g)
                    kinds.append("play ." + x[:6])
                    c.count("players of odd formats")
                    continue
                if r < 0.55:
                    kind, text = playlists(rng, trap, secret)
                    b = text.encode()
                    b += rng.choice([b"", b"\n" * 5000])
                    nothing_here = True
                    c.count("lists published")
                elif r < 0.65:
                    kind, b, nothing_here = "noise", rng.randbytes(rng.choice([10, 3000, 100000])), False
                else:
                    kind, b = damaged(rng)
                    nothing_here = False
                    c.count("damaged containers" if "damaged" in kind else "odd containers")
                ch = rng.random() < 0.5
                g = Guest(s.port, head(rng, "POST", f"{u}.{rng.choice(['ts', 'flv', 'm3u8', 'x'])}", host, b"Transfer-Encoding: chunked\r\n" if ch else b""), b, rng, ch, rng.random() < 0.7)
                guests.append(g)
                kinds.append(kind)
                g.name = (host, u)
                g.nothing = nothing_here
            elif steps % 4 == 2:
                # somebody plays what a guest publishes
                l = [g for g in guests if hasattr(g, "name")][-6:]
                if l and len(guests) < 90:
                    g = rng.choice(l)
                    x = rng.choice(["ts", "flv", "mkv", "nut", "mp4", "jpg", "m3u8", rng.choice(ODD)])
                    p = Guest(s.port, head(rng, "GET", f"{g.name[1]}.{x}", g.name[0]), b"", rng)
                    guests.append(p)
                    c.count("players of guests")
                    if g.nothing:
                        nothing.append(p)
            if rng.random() < 0.1 and guests:
                g = rng.choice(guests)
                g.c.close(rst=rng.random() < 0.5)
                guests.remove(g)
                if g in nothing:
                    nothing.remove(g)
        for _ in range(20):
            for g in guests:
                g.pump(rng)
            time.sleep(0.005)
        for g in nothing:
            # what was published names a file or a place, and has no media of its own
            if b"200 OK" in g.got[:20] and len(g.got) > g.got.find(b"\r\n\r\n") + 4:
                raise Violation("served what was not published", f"a player of a published list gets {bytes(g.got[:200])!r}")
        t0 = time.time()
        while not can.done():
            can.step()
            for g in guests:
                g.pump(rng)
            if time.time() - t0 > 10 + TMO:
                raise Timeout("never ends", "players of the stream next to the guests are not let go")
            s.check()
            time.sleep(0.05)
        can.verify()
        trap.check(f"guests {kinds}")
        new = files(s.dir) - c.state["files"]
        if new:
            raise Violation("files of its own", f"the server created {sorted(new)[:5]} ({kinds})")
        c.count("hostile peers", len(kinds))
        c.distinct(*kinds)
        if i < 12:
            c.samples.append(", ".join(kinds[:14]))
    finally:
        can.close()
        for g in guests:
            g.c.close()
    s.check()
    c.state["n"] += 1
    if c.state["n"] % 2 == 0:
        quiescent(c, s)


def quiescent(c, s):
    """every peer is gone: so is what they used"""
    t0 = time.time()
    while s.fds() > c.state["fds"]:
        s.check()
        if time.time() - t0 > 60:
            raise Violation("descriptors held", f"{s.fds()} descriptors 60 s after the last peer left, {c.state['fds']} at the start")
        time.sleep(0.05)
    heap = c.state["heap"]
    bound = min(heap[0] + (3 << 19), heap[1] + (256 << 10) if len(heap) > 1 else 1 << 60)
    t0 = time.time()
    while s.allocated() > bound:
        s.check()
        if time.time() - t0 > 40:
            raise Violation("memory held", f"heap in use at the start and after each round of guests: {heap}, now {s.allocated()}")
        time.sleep(0.2)
    heap.append(s.allocated())
    c.count("heap checks")


def head(rng, method, target, host, extra=b""):
    return f"{method} {target} HTTP/1.1\r\nHost: {host}\r\n".encode("latin1") + extra + b"\r\n"


CASES = {"P40": p40, "P41": p41}


def setup(bins, seed, n):
    media(seed, n, bins["ffgen"])


def run(pid, bins, seed, n, tier):
    setup(bins, seed, 48 if tier == "quick" else 480)
    return srv.run_pool(pid, bins["spsd_ff"], seed, n, CASES[pid], tier)
