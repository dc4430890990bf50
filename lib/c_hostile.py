"""P31: hostile clients and upstreams. A canary stream runs all the time; afterwards nothing of the hostile peers is held."""
import random, re, threading, time
import srv
from srv import *

RECV = 3.0     # configured receive and send timeout


def conf(port, oport):
    return f"""globalhost {{
    host s.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
    host canary.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
    host edge.com {{
        role edge;
        pass_proxy 127.0.0.1:{oport};
        type stream;
        edge_avformat all;
    }}
    host p.com {{
        pass_proxy 127.0.0.1:{oport};
        type proxy;
    }}
    host dead.com {{
        pass_proxy 127.0.0.1:1;
        type proxy;
    }}
    host *.wild.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
}}
http {{
    server main {{
        listen_port {port};
        transport tcp;
        recv_timeout {int(RECV * 1e6)};
        send_timeout {int(RECV * 1e6)};
    }}
}}
"""


class Hostile:
    """an upstream that answers whatever is planned for the path, then closes, resets or stalls"""
    def __init__(self, k):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        while True:
            self.port = free_port(k)
            try:
                self.l.bind(("127.0.0.1", self.port))
                break
            except OSError:
                pass
        self.l.listen(500)
        self.plans, self.socks = {}, []
        self.lock = threading.Lock()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            with self.lock:
                self.socks.append(s)
            threading.Thread(target=self.one, args=(s,), daemon=True).start()

    def one(self, s):
        try:
            s.settimeout(5)
            b = b""
            while b"\r\n\r\n" not in b and len(b) < 100000:
                d = s.recv(65536)
                if not d:
                    break
                b += d
            m = re.match(rb"[A-Z]+ /(?:live/)?([A-Za-z0-9_]+)", b)
            data, how = self.plans.get(m.group(1).decode() if m else "", (b"", "close"))
            s.sendall(data)
            if how == "stall":
                return
            if how == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
        except OSError:
            s.close()

    def reset(self):
        with self.lock:
            for s in self.socks:
                try:
                    s.close()
                except OSError:
                    pass
            self.socks.clear()
            self.plans.clear()


class Canary(threading.Thread):
    """publishes and plays a stream of its own all the time; everything must arrive"""
    def __init__(self, port, rng, name):
        threading.Thread.__init__(self, daemon=True)
        self.rng = random.Random(rng.getrandbits(64))
        path = f"/canary/{name}.flv"
        self.pub = Publisher(port, "canary.com", path, self.rng, "chunked")
        self.player = wait_player(port, "canary.com", path, self.rng)
        self.pub.start()
        self.m = Media(self.rng)
        self.stop = threading.Event()
        self.err, self.rounds, self.worst = None, 0, 0.0

    def run(self):
        try:
            last = time.time()
            while not self.stop.is_set():
                t = self.m.tags(3)
                gap = time.time() - last
                ok = self.pub.send(t)
                last = time.time()
                try:
                    if not ok:
                        raise Violation("canary dropped", "the server closed the connection of a well-behaved publisher")
                    self.player.expect(t)
                    self.player.check("the canary stream")
                except Timeout:
                    raise
                except Violation as e:
                    # a canary that could not run for so long is not well-behaved any more
                    raise Timeout(e.key, e.msg) if gap > RECV / 3 else e
                self.rounds += 1
                self.worst = max(self.worst, time.time() - last)
                self.stop.wait(0.02)
        except Violation as e:
            self.err = e

    def end(self):
        self.stop.set()
        self.join()
        self.pub.c.close()
        self.player.close()
        if self.err:
            raise self.err


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 3, 10, 40])):
        if not b:
            break
        i = rng.randrange(len(b))
        r = rng.randrange(5)
        if r == 0:
            b[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff])
        elif r == 1:
            b[i] ^= 1 << rng.randrange(8)
        elif r == 2:
            del b[i:i + rng.randrange(1, 30)]
        elif r == 3:
            b[i:i] = rng.randbytes(rng.randrange(1, 30))
        else:
            b[i:i + 4] = rng.choice([b"\xff\xff\xff\xff", b"\0\0\0\0", b"\x7f\xff\xff\xff", b"\r\n\r\n"])
    return bytes(b)


def ts(rng):
    """something like a transport stream"""
    out = bytearray()
    pids = [0, 0, 0x1000, 0x1000, 0x100, 0x100, 0x101, 0x1fff, rng.randrange(8192)]
    pat = bytes([0, 0, 0xb0, 13, 0, 1, 0xc1, 0, 0, 0, 1, 0xf0, 0]) + bytes(4)
    pmt = bytes([0, 2, 0xb0, 23, 0, 1, 0xc1, 0, 0, 0xe1, 0, 0xf0, 0, 0x1b, 0xe1, 0, 0xf0, 0, 0x0f, 0xe1, 1, 0xf0, 0]) + bytes(4)
    for n in range(rng.randrange(3, 120)):
        pid = [0, 0x1000][n] if n < 2 else rng.choice(pids)
        pay = pat if pid == 0 else pmt if pid == 0x1000 else \
            b"\0\0\1\xe0\0\0\x80\xc0\x0a" + b"\x31\0\1\0\1\x11\0\1\0\1" + b"\0\0\0\1" + rng.choice([b"\x67", b"\x68", b"\x65", b"\x41"]) + rng.randbytes(60)
        start = pid in (0, 0x1000) or rng.random() < 0.5
        p = bytes([0x47, (0x40 if start else 0) | pid >> 8, pid & 255, 0x10 | n & 15]) + pay
        out += (p + b"\xff" * 188)[:188]
    return bytes(out)


def flv_bytes(rng, n=None):
    b, _ = flv(Media(rng).tags(n or rng.randrange(1, 25)))
    return FLVHEAD + b


def chunk(rng, b):
    o, i = bytearray(), 0
    while i < len(b):
        n = rng.choice([1, 16, 1000, len(b)])
        d = b[i:i + n]
        o += b"%x\r\n" % len(d) + d + b"\r\n"
        i += n
    return bytes(o)


def head(rng, method, target, host, extra=b""):
    return f"{method} {target} HTTP/1.1\r\nHost: {host}\r\n".encode("latin1") + extra + b"\r\n"


def hostile_request(rng, u):
    """-> (kind, bytes)"""
    k = rng.choice(["garbage", "partial", "long head", "many headers", "bad length", "targets", "hosts", "methods", "mutated head", "bad chunk",
                    "flv", "flv", "ts", "ts", "huge tag", "http10", "crlf", "pipeline", "play odd", "dead"])
    fl = f"/live/{u}.flv"
    if k == "garbage":
        return k, rng.randbytes(rng.choice([1, 3, 4, 5, 100, 2047, 2048, 2049, 5000]))
    if k == "partial":
        b = head(rng, "GET", fl, "s.com", b"X: " + b"y" * rng.randrange(100) + b"\r\n")
        return k, b[:rng.randrange(len(b))]
    if k == "long head":
        n = rng.choice([1990, 2000, 2020, 2040, 2048, 4096, 100000])
        return k, head(rng, "GET", rng.choice([fl, "/" + "a" * n]), "s.com", b"X: " + b"y" * n + b"\r\n")
    if k == "many headers":
        return k, head(rng, "GET", fl, "s.com", b"a:\r\n" * rng.choice([100, 480, 500, 20000]))
    if k == "bad length":
        v = rng.choice([b"-1", b"99999999999999999999", b"4294967295", b"4294967296", b"2147483648", b"0x10", b"1e3", b"", b" ", b"5, 5", b"5\r\nContent-Length: 6"])
        return k, head(rng, rng.choice(["POST", "GET", "PUT"]), fl, rng.choice(["s.com", "p.com", "nowhere"]), b"Content-Length: " + v + b"\r\n") + rng.randbytes(50)
    if k == "targets":
        t = rng.choice(["*", "http://s.com/live/x.flv", "//", "/", "/.", "/.flv", "/..flv", "/a.", "?", "/?", "/?.flv", "/%", "/%zz", "/../../../etc/passwd",
                        "/live/x.flv#frag", "s.com:80", "/" + "a/" * 300, "/live/\xff\xfe.flv", "/live/x.flv?" + "&" * 200, "/live/.flv?a.b", "/x?=&=&&==.flv", "http://", "http:///"])
        return k, head(rng, rng.choice(["GET", "POST"]), t, rng.choice(["s.com", "p.com", "edge.com"]))
    if k == "hosts":
        h = rng.choice(["", " ", ":", ":80", "s.com:", "s.com:99999", "s.com:-1", "s.com:abc", "[::1]", "[", "*", "*.wild.com", ".wild.com", "..wild.com", "a" * 500, "s.com/x", "s.com?x",
                        "user@s.com", "s.com\tb", "\xe4.com", ".", "..", "%s%s%n", "s.com, p.com"])
        return k, head(rng, "GET", fl, h)
    if k == "methods":
        return k, head(rng, rng.choice(["CONNECT", "OPTIONS", "TRACE", "DELETE", "PATCH", "M-SEARCH", "SUBSCRIBE", "GETX", "get", "", "HEAD"]), fl, rng.choice(["s.com", "p.com"]))
    if k == "mutated head":
        return k, mutate(rng, head(rng, rng.choice(["GET", "POST"]), fl, "s.com", b"Transfer-Encoding: chunked\r\nUser-Agent: x\r\n")) + rng.randbytes(30)
    if k == "bad chunk":
        v = rng.choice([b"ffffffff\r\n", b"ffffffffffffffff\r\n", b"-5\r\n", b"zz\r\n", b"\r\n", b"5" * 40 + b"\r\n", b"5\nabcde", b"5\r\nabcdeXX", b"\0\r\n", b"0\r\nX", b"5;" + b"a" * 50 + b"\r\n"])
        return k, head(rng, "POST", fl, rng.choice(["s.com", "p.com", "nowhere"]), b"Transfer-Encoding: chunked\r\n") + chunk(rng, flv_bytes(rng)) + v + rng.randbytes(20)
    if k in ("flv", "ts"):
        b = mutate(rng, flv_bytes(rng) if k == "flv" else ts(rng)) if rng.random() < 0.85 else rng.randbytes(500)
        raw = rng.random() < 0.5
        return k, head(rng, "POST", f"/live/{u}.{k}", "s.com", b"" if raw else b"Transfer-Encoding: chunked\r\n") + (b if raw else chunk(rng, b))
    if k == "huge tag":
        n = rng.choice([0xffffff, 0x100000, 0xfffff, 0x100001])
        return k, head(rng, "POST", fl, "s.com") + FLVHEAD + struct.pack(">I", 0) + struct.pack(">I", 9 << 24 | n) + bytes(7) + rng.randbytes(rng.choice([0, 1, 70000]))
    if k == "http10":
        return k, rng.choice([b"GET " + fl.encode() + b" HTTP/1.0\r\n\r\n", b"GET /\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n"])
    if k == "crlf":
        return k, rng.choice([b"\r\n" * 1500, b"\n" * 3000, b"\r" * 3000, b"\r\n\r\n", b"\n\n", b"\0" * 3000, b"GET / HTTP/1.1\nHost: s.com\n\n"])
    if k == "pipeline":
        return k, head(rng, "GET", fl, rng.choice(["s.com", "nowhere"])) * rng.choice([2, 50, 300]) + rng.randbytes(rng.randrange(20))
    if k == "dead":
        return k, head(rng, "POST", fl, "dead.com", b"Content-Length: 5\r\n") + b"abcde"
    return k, head(rng, "GET", f"/live/{u}" + rng.choice([".ts", ".xyz", "", "."]), "s.com")


def hostile_answer(rng):
    k = rng.choice(["nothing", "garbage", "long head", "lengths", "chunks", "flv", "flv", "ts", "status", "mutated", "stall"])
    how = rng.choice(["close", "close", "rst", "stall"])
    ok = b"HTTP/1.1 200 OK\r\n"
    if k == "nothing":
        return k, b"", how
    if k == "garbage":
        return k, rng.randbytes(rng.choice([3, 100, 5000])), how
    if k == "long head":
        return k, ok + b"X: " + b"y" * rng.choice([2000, 2048, 5000, 200000]) + b"\r\n\r\n", how
    if k == "lengths":
        v = rng.choice([b"-1", b"99999999999999999999", b"4294967296", b"2147483648", b"18446744073709551615", b"0x10", b"", b"3\r\nContent-Length: 9"])
        return k, ok + b"Content-Length: " + v + b"\r\n\r\n" + flv_bytes(rng), how
    if k == "chunks":
        v = rng.choice([b"ffffffff\r\n", b"ffffffffffffffff\r\n", b"-5\r\n", b"zz\r\n", b"\r\n", b"5" * 40 + b"\r\n", b"5\r\nabcdeXX", b"0\r\nX"])
        return k, ok + b"Transfer-Encoding: chunked\r\n\r\n" + chunk(rng, flv_bytes(rng)) + v + rng.randbytes(20), how
    if k in ("flv", "ts"):
        return k, ok + b"\r\n" + mutate(rng, flv_bytes(rng) if k == "flv" else ts(rng)), how
    if k == "status":
        return k, rng.choice([b"HTTP/1.1 000 x", b"HTTP/1.1 99 x", b"HTTP/1.1 1000 x", b"HTTP/1.1 204 x", b"HTTP/1.1 304", b"HTTP/1.1 100 Continue", b"HTTP/1.1 -20 x", b"HTTP/0.9 200 x"]) + b"\r\n\r\nabc", how
    if k == "mutated":
        return k, mutate(rng, ok + b"Transfer-Encoding: chunked\r\nServer: x\r\n\r\n" + chunk(rng, flv_bytes(rng))), how
    return k, ok + b"\r\n", "stall"


def p31(c, rng, i):
    h = c.state.get("up")
    if h is None:
        h = c.state["up"] = Hostile(c.k)
        c.drop()
        c.state.pop("base", None)
    if i % 25 == 24:
        return p31_full(c, rng, i, h)
    if i % 25 == 12:
        return p31_stall(c, rng, i, h)
    s = c.server if c.server and c.server.alive() else None
    if s is None:
        s = c.need(lambda port: conf(port, h.port))
        time.sleep(0.05)
        c.state["base"], c.state["heap"] = s.fds(), [s.allocated()]
        c.state["since"] = 0
    can = Canary(s.port, rng, f"c{i}")
    can.start()
    conns, kinds = [], []
    try:
        for j in range(rng.randrange(8, 30)):
            r = rng.random()
            u = f"h{i}_{j}"
            if r < 0.55:
                k, b = hostile_request(rng, u)
                x = Conn(s.port)
                x.send(b, rng, quiet=True)
                end(rng, x, conns)
            elif r < 0.75:
                a, b, how = hostile_answer(rng)
                h.plans[u] = (b, how)
                host = rng.choice(["edge.com", "edge.com", "p.com"])
                k = f"{host} {a}"
                x = Conn(s.port)
                x.send(head(rng, "GET", f"/live/{u}." + ("ts" if a == "ts" else "flv"), host), rng, quiet=True)
                end(rng, x, conns)
            elif r < 0.8:
                k = "burst"
                xs = [Conn(s.port) for _ in range(rng.choice([5, 40]))]
                for x in xs:
                    if rng.random() < 0.5:
                        x.send(b"GET /live/", quiet=True)
                for x in xs:
                    x.close(rst=rng.random() < 0.5)
            elif r < 0.87:
                k = "deaf player"
                deaf(rng, s.port, u, conns)
            elif r < 0.95:
                k = "fickle players"
                p = Publisher(s.port, "s.com", f"/live/{u}.flv", rng, "chunked")
                p.start()
                m = Media(rng)
                for _ in range(rng.randrange(1, 12)):
                    x = Conn(s.port)
                    x.send(head(rng, "GET", f"/live/{u}.flv", "s.com"), None, quiet=True)
                    p.send(m.tags(rng.randrange(3)))
                    if rng.random() < 0.7:
                        x.close(rst=rng.random() < 0.6)
                    else:
                        conns.append(x)
                p.end(rng.choice(["fin", "rst", "garbage"]))
            else:
                k = "idle"
                conns.append(Conn(s.port))
            kinds.append(k)
            c.count("hostile peers")
            if not s.alive():
                s.check()
            if can.err:
                break
        n = can.rounds
        if not can.err:
            t0 = time.time()
            while can.rounds < n + 2 and not can.err and time.time() - t0 < TMO:
                time.sleep(0.005)
        can.end()
        c.count("canary rounds", can.rounds)
        c.distinct(*kinds)
        if i < 12:
            c.samples.append(", ".join(kinds[:12]))
    except Violation:
        if can.err:
            raise can.err
        raise
    finally:
        can.stop.set()
        for x in conns:
            x.close()
        h.reset()
    s.check()
    c.state["since"] += 1
    if c.state["since"] >= 6 or s.fds() > 600:
        quiescent(c, s)
        c.state["since"] = 0


def end(rng, x, conns):
    r = rng.random()
    if r < 0.35:
        x.close()
    elif r < 0.6:
        x.close(rst=True)
    elif r < 0.7:
        try:
            x.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        conns.append(x)
    else:
        conns.append(x)


def deaf(rng, port, u, conns):
    """a player that never reads, while its publisher sends megabytes; another player gets everything"""
    path = f"/live/{u}.flv"
    p = Publisher(port, "s.com", path, rng, "raw")
    w = wait_player(port, "s.com", path, rng)
    x = Conn(port, rcvbuf=2048)
    x.send(head(rng, "GET", path, "s.com"), None)
    conns += [p.c, w.c, x]
    p.start()
    m = Media(rng)
    for _ in range(rng.choice([2, 8])):
        t = [Tag(9, m.n, b"\x27\x01\0\0\0" + rng.randbytes(200000)) for _ in range(2)] + m.tags(2)
        b, p.prev = flv(t, p.prev)
        p.c.send(b)
        w.expect(t)
        w.check("a player next to one that does not read")
    if rng.random() < 0.5:
        x.close(rst=rng.random() < 0.5)
    p.end("fin")


def quiescent(c, s):
    """every peer is gone: so are their descriptors, and what they used"""
    base = c.state["base"]
    t0 = time.time()
    limit = 10 + RECV + 30      # players of an ended stream are held for 10 s
    while True:
        n = s.fds()
        if n <= base:
            break
        s.check()
        if time.time() - t0 > limit:
            fds = []
            for f in os.listdir(f"/proc/{s.p.pid}/fd"):
                try:
                    fds.append(os.readlink(f"/proc/{s.p.pid}/fd/{f}"))
                except OSError:
                    pass
            raise Violation("descriptors held", f"{n} descriptors {limit} s after the last peer left, {base} at the start: {sorted(fds)[-12:]}")
        time.sleep(0.05)
    c.count("quiescent checks")
    heap = c.state["heap"]
    # the heap in use is the same after every round, but for a few KiB: 160 KiB above the first round (1 MiB above the start) is held memory
    bound = min(heap[0] + (1 << 20), heap[1] + (160 << 10) if len(heap) > 1 else 1 << 60)
    t0 = time.time()
    while s.allocated() > bound:
        s.check()
        if time.time() - t0 > 40:
            raise Violation("memory held", f"heap in use at the start and after each round of hostile peers: {heap}, now {s.allocated()}")
        time.sleep(0.2)
    heap.append(s.allocated())
    c.count("heap checks")


def p31_full(c, rng, i, h):
    """a server with few descriptors is flooded; once the flood is over it serves again"""
    lim = rng.choice([24, 40, 64])
    s = Server(c.binary, lambda port: conf(port, h.port), c.k, nofile=lim)
    xs = []
    try:
        for _ in range(lim + rng.randrange(2, 40)):
            x = socket.socket()
            x.settimeout(2)
            try:
                x.connect(("127.0.0.1", s.port))
            except OSError:
                pass
            if rng.random() < 0.3:
                try:
                    x.send(b"GET /live/x.flv HTTP/1.1\r\n")
                except OSError:
                    pass
            xs.append(x)
        time.sleep(rng.random() * 0.1)
        s.check()
        full = s.fds()
        for x in xs:
            x.close()
        p = Publisher(s.port, "s.com", "/live/after.flv", rng)
        w = wait_player(s.port, "s.com", "/live/after.flv", rng)
        p.start()
        t = Media(rng).tags(10)
        p.send(t)
        w.expect(t)
        w.check("a player after a flood of connections")
        p.end("fin")
        w.close()
        s.check()
        c.count("floods survived", full >= lim - 1)
        c.distinct("flood", lim, len(xs))
    except Violation as e:
        if not s.alive():
            s.check()
        raise
    finally:
        for x in xs:
            x.close()
        s.stop()


def gone(x, s, what, since, limit):
    """the server ends the connection; -> after how long"""
    while True:
        try:
            if not x.fill(max(0.1, since + limit - time.time())):
                return time.time() - since
        except Timeout:
            s.check()
            raise Timeout("stalling peer kept", f"{what} still has its connection after {limit} s, the timeout is {RECV} s")


def p31_stall(c, rng, i, h):
    """peers that stall are let go after the timeouts of the server, next to a stream that goes on; what they used is free while it does"""
    s = Server(c.binary, lambda port: conf(port, h.port), c.k)
    slack = 20
    try:
        p = Publisher(s.port, "s.com", "/live/on.flv", rng, "raw")
        w = wait_player(s.port, "s.com", "/live/on.flv", rng)
        p.start()
        m = Media(rng)

        def go_on(big=0):
            t = m.tags(2) + [Tag(9, m.n, b"\x17\x01\0\0\0" + rng.randbytes(200000)) for _ in range(big)] + m.tags(1)
            if not p.send(t):
                raise Violation("well-behaved publisher dropped", "the server closed the connection of a publisher that goes on")
            w.expect(t)
            w.check("a player next to peers that stall")
        go_on(3)
        time.sleep(0.1)
        base, heap = s.fds(), s.allocated()

        # 1. silent clients, whatever they sent before
        fl = FLVHEAD + flv(m.tags(3))[0]
        kinds = [("a client that sends nothing", b""), ("a client that sends half a head", b"GET /live/x.flv HTTP/1.1\r\nHos"),
                 ("a publisher that sends only a head", head(rng, "POST", "/live/st1.flv", "s.com")),
                 ("a publisher that stops after a few tags", head(rng, "POST", "/live/st2.flv", "s.com") + fl),
                 ("a publisher that stops inside a chunk", head(rng, "POST", "/live/st3.flv", "s.com", b"Transfer-Encoding: chunked\r\n") + b"%x\r\n" % (len(fl) + 50) + fl),
                 ("a client that sends half a body", head(rng, "POST", "/a", "p.com", b"Content-Length: 100\r\n") + b"x" * 50)]
        xs = []
        for what, b in kinds:
            x = Conn(s.port)
            x.send(b, None, quiet=True)
            xs.append((what, x, time.time()))
        ups = []
        h.plans["up1"] = (b"", "stall")
        h.plans["up2"] = (b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nabc", "stall")
        for u in ("up1", "up2"):
            for host in ("p.com", "edge.com"):
                x = Conn(s.port)
                x.send(head(rng, "GET", f"/live/{u}.flv", host), None)
                ups.append((f"a client of {host} whose upstream stalls ({u})", x, time.time()))
        t0 = time.time()
        while time.time() - t0 < RECV - 1:
            go_on()
            time.sleep(0.1)
        for what, x, t in xs:
            if not x.quiet(0.001) or x.eof:
                raise Violation("peer dropped early", f"{what} loses its connection before the timeout of {RECV} s")
        stop = threading.Event()
        err = []

        def keep():
            try:
                while not stop.is_set():
                    go_on()
                    stop.wait(0.1)
            except Violation as e:
                err.append(e)
        k = threading.Thread(target=keep, daemon=True)
        k.start()
        try:
            for what, x, t in xs:
                gone(x, s, what, t, RECV + slack)
                c.count("silent peers let go")
                x.close()
            for what, x, t in ups:
                gone(x, s, what, t, 10 + RECV + slack)      # an upstream is given 10 s
                c.count("clients of stalling upstreams let go")
                x.close()
        finally:
            stop.set()
            k.join()
        if err:
            raise err[0]

        t0 = time.time()
        while s.fds() > base:                               # the stalling upstreams have not gone
            if time.time() - t0 > 10 + slack:
                raise Timeout("descriptors held", f"{s.fds() - base} descriptors of clients and upstreams that stalled are still open after {10 + slack} s")
            go_on()
            time.sleep(0.1)

        # a player and its publisher that pause for less than the timeout
        p2 = Publisher(s.port, "s.com", "/live/pause.flv", rng, "raw")
        w2 = wait_player(s.port, "s.com", "/live/pause.flv", rng, rcvbuf=8192)
        p2.start()
        m2 = Media(rng)
        for _ in range(2):
            t2 = m2.tags(2) + [Tag(9, m2.n, b"\x27\x01\0\0\0" + rng.randbytes(200000)) for _ in range(30)] + m2.tags(1)
            a = time.time()
            ok = p2.send(t2)
            w2.expect(t2)
            t0 = time.time()
            while time.time() - t0 < RECV - 1.6:
                go_on()
                time.sleep(0.1)
            if time.time() - a < RECV - 0.5:                # else this machine paused for longer
                if not ok:
                    raise Violation("peer dropped early", f"a publisher loses its connection {time.time() - a:.1f} s after it began to send, the timeout is {RECV} s")
                w2.check("a player that pauses for less than the timeout")
                c.count("pauses shorter than the timeout")
            else:
                break
        p2.c.close()
        w2.close()

        # 2. players that read nothing of a stream that goes on
        n = rng.randrange(1, 4)
        ds = []
        for _ in range(n):
            x = Conn(s.port, rcvbuf=2048)
            x.send(head(rng, "GET", "/live/on.flv", "s.com"), None)
            ds.append(x)
        time.sleep(0.1)
        for _ in range(5):
            go_on(8)
        t0 = time.time()
        while s.fds() > base:
            if time.time() - t0 > RECV + slack:
                raise Timeout("deaf player kept", f"{s.fds() - base} of {n} players that read nothing still hold their connection after {RECV + slack} s, the timeout is {RECV} s")
            go_on(1)
            time.sleep(0.1)
            s.check()
        c.count("deaf players let go", n)
        for _ in range(15):
            go_on(8)
        # the group of pictures of the stream and the buffers of its connections, not what the others never took
        t0 = time.time()
        while s.allocated() > heap + (6 << 20):
            if time.time() - t0 > 10:
                raise Violation("memory held", f"heap in use {heap} before peers stalled, {s.allocated()} after they left, the stream goes on")
            go_on()
            time.sleep(0.1)

        # 3. bodies without end
        for enc in rng.sample([b"Content-Length: 1073741824\r\n", b"Transfer-Encoding: chunked\r\n"], 1):
            x = Conn(s.port)
            x.send(head(rng, "POST", "/up", "p.com", enc), None, quiet=True)
            d = rng.randbytes(1 << 20)
            if b"chunked" in enc:
                d = b"100000\r\n" + d + b"\r\n"
            top = 0
            for _ in range(64):
                if not x.send(d, None, quiet=True):
                    break
                top = max(top, s.allocated() - heap)
                if top > 48 << 20:
                    raise Violation("unbounded memory", f"a client that uploads without end makes the server hold {top} bytes")
            go_on()
            x.close()
            c.count("uploads without end")
        p.end("fin")
        w.close()
        s.check()
        c.distinct("stall", n, enc)
        for x in ds:
            x.close()
    except Violation:
        if not s.alive():
            s.check()
        raise
    finally:
        h.reset()
        s.stop()


CASES = {"P31": p31}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
