"""P22, P23: the HTTP proxy and keep-alive connections, between clients and an upstream driven by the check."""
import random, re, string, threading, time
import srv
from srv import *

TOKEN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
VALUE = "".join(chr(x) for x in range(0x21, 0x7f))
TARGET = string.ascii_letters + string.digits + "-_.~!$&'()*+,;=:@"
# framing and connection headers belong to one hop and are not generated as end-to-end headers
HOP = {"host", "content-length", "transfer-encoding", "connection", "expect", "upgrade", "te", "trailer", "keep-alive", "proxy-connection",
       "accept", "server", "date"}
ADDED_UP = {"host", "accept", "content-length", "connection", "via", "x-forwarded-for", "x-real-ip", "user-agent"}
ADDED_DOWN = {"server", "content-length", "transfer-encoding", "connection", "date", "via"}


def ident(target):
    m = re.match(r"/([A-Za-z0-9_]+)", target)
    return m.group(1) if m else ""


class Upstream:
    """answers each request by the plan laid down for its id (the first path segment); remembers every request it saw"""
    def __init__(self, k):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        while True:
            self.port = free_port(k)
            try:
                self.l.bind(("127.0.0.1", self.port))
                break
            except OSError:
                pass
        self.l.listen(200)
        self.plans, self.seen = {}, []
        self.lock = threading.Lock()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(s,), daemon=True).start()

    def one(self, s):
        c = Conn.__new__(Conn)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c.s, c.buf, c.eof, c.total = s, bytearray(), False, 0
        try:
            h = c.head()
            if h is None:
                return
            m, t, v = h[0].split(" ", 2)
            if any(k.lower() in ("content-length", "transfer-encoding") for k, _ in h[1]):
                body, whole = c.body(h[1])
            else:
                body, whole = b"", True
            req = dict(method=m, target=t, version=v, headers=h[1], body=body, whole=whole, extra=b"")
            with self.lock:
                plan = self.plans.get(ident(t))
                self.seen.append(req)
            if plan is None:
                s.sendall(b"HTTP/1.1 599 nobody asked for this\r\nContent-Length: 0\r\n\r\n")
                return
            try:
                plan(s, req)
            except OSError:
                return
            # whatever else comes on this connection was not asked for
            req["extra"] += bytes(c.buf)
            try:
                s.settimeout(2)
                while True:
                    d = s.recv(65536)
                    if not d:
                        break
                    req["extra"] += d
            except OSError:
                pass
        except (Violation, OSError, ValueError) as e:
            with self.lock:
                self.seen.append(dict(method="?", target=f"?{e}", version="", headers=[], body=b"", whole=False, extra=b""))
        finally:
            s.close()


def conf(port, uport):
    return f"""upstream back {{
    server 127.0.0.1:{uport};
    keepalive 80;
}}
globalhost {{
    host named.com {{
        pass_proxy back;
        type proxy;
    }}
    host p.com {{
        pass_proxy 127.0.0.1:{uport};
        type proxy;
    }}
    host *.p.com {{
        pass_proxy 127.0.0.1:{uport};
    }}
    host dead.com {{
        pass_proxy 127.0.0.1:1;
        type proxy;
    }}
    host s.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
    host nopub.com {{
        role edge;
        pass_proxy 127.0.0.1:1;
        type stream;
        edge_avformat all;
    }}
}}
http {{
    server main {{
        listen_port {port};
        transport tcp;
        recv_timeout 20000000;
        send_timeout 20000000;
    }}
}}
"""


def ready(c):
    u = c.state.get("up")
    if u is None:
        u = c.state["up"] = Upstream(c.k)
        c.drop()
    s = c.need(lambda port: conf(port, u.port))
    with u.lock:
        u.plans.clear()
        u.seen.clear()
    return s, u


def word(rng, chars, n):
    return "".join(rng.choice(chars) for _ in range(n))


def headers(rng, room, prefix):
    """random end-to-end headers of at most room bytes in all"""
    hs = []
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        r = rng.random()
        if r < 0.3:
            k = rng.choice(["User-Agent", "Cookie", "Set-Cookie", "Cache-Control", "X-A", "x-a", "ETag", "Range", "Referer", "Location", "Vary",
                            "Content-Type", "Authorization", "Content-Lengthy", "Host-X", "XTransfer-Encoding"])
        else:
            k = prefix + word(rng, TOKEN, 1 + rng.randrange(20))
        if k.lower() in HOP:
            continue
        n = rng.choice([0, 1, 5, 30, 30, 200])
        v = word(rng, VALUE, n)
        if n > 2 and rng.random() < 0.4:
            v = v[:n // 2] + rng.choice([" ", "  ", "\t", ", ", ": ", "; "]) + v[n // 2:]
        if len(k) + len(v) + 4 > room:
            break
        room -= len(k) + len(v) + 4
        hs.append((k, v))
    return hs


def payload(rng, big=True):
    n = rng.choice([0, 1, 2, 10, 100, 1023, 1024, 1025, 2048, 5000] + ([70000, 300000] if big else []))
    n = n if rng.random() < 0.5 else rng.randrange(n + 1)
    r = rng.random()
    if r < 0.2:
        return (b"0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc" * (n // 30 + 1))[:n]
    if r < 0.4:
        return (b"\r\n\r\nGET /evil HTTP/1.1\r\nHost: p.com\r\n\r\n" * (n // 30 + 1))[:n]
    return rng.randbytes(n)


def chunks(rng, b, ext=False):
    o, i = bytearray(), 0
    while i < len(b):
        n = rng.choice([1, 2, 15, 16, 17, 255, 256, 1023, 1024, 1025, 4096, len(b)])
        d = b[i:i + n]
        z = b"0" * rng.choice([0, 0, 0, 1, 4]) + (b"%x" if rng.random() < 0.5 else b"%X") % len(d)
        if ext and rng.random() < 0.2:
            z += b";a=b"
        o += z + b"\r\n" + d + b"\r\n"
        i += n
    return bytes(o) + b"0\r\n\r\n"


def cut_send(s, b, rng):
    if len(b) > 20000 or rng.random() < 0.4:
        s.sendall(b)
        return
    i = 0
    while i < len(b):
        n = rng.choice([1, 2, 3, 10, 100, 1000, len(b)])
        s.sendall(b[i:i + n])
        i += n
        if rng.random() < 0.05:
            time.sleep(rng.random() * 0.002)


STATUS = [200, 200, 200, 201, 202, 206, 301, 302, 304, 204, 400, 401, 403, 404, 405, 416, 418, 429, 500, 502, 503, 504]


class Exchange:
    """one proxied request and what its upstream answers"""
    def __init__(self, rng, name, keep=False, small=False):
        self.id = name
        self.method = rng.choice(["GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"])
        path = "/" + name + "".join("/" + word(rng, TARGET, rng.randrange(12)) for _ in range(rng.randrange(4)))
        if rng.random() < 0.2:
            path += rng.choice(["%20", "%2F..%2f", "%00", "//", "/./a", "/a.flv", ".ts"])
        self.query = "" if rng.random() < 0.5 else "?" + word(rng, TARGET + "/?", 1 + rng.randrange(30))
        self.target = path + self.query
        self.host = rng.choice(["p.com", "a.p.com", "named.com"])
        self.hosthdr = self.host + rng.choice(["", "", ":80", ":8080"])
        self.hs = headers(rng, 1300, "X-")
        self.req_framing = rng.choice(["none", "length", "chunked"])
        if self.method in ("POST", "PUT", "PATCH") and self.req_framing == "none":
            self.req_framing = "length"
        if self.method in ("HEAD", "OPTIONS", "DELETE"):
            self.req_framing = "none"
        self.body = payload(rng, not small) if self.req_framing != "none" else b""
        h = self.hs[:]
        if self.req_framing == "length":
            h.insert(rng.randrange(len(h) + 1), (rng.choice(["Content-Length", "content-length", "CONTENT-LENGTH"]), str(len(self.body))))
        elif self.req_framing == "chunked":
            h.insert(rng.randrange(len(h) + 1), (rng.choice(["Transfer-Encoding", "transfer-encoding"]), "chunked"))
        h.insert(rng.randrange(len(h) + 1) if rng.random() < 0.3 else 0, (rng.choice(["Host", "host"]), self.hosthdr))
        sep = rng.choice([": ", ": ", ":", ":  "])
        self.wire = f"{self.method} {self.target} HTTP/1.1\r\n".encode() + "".join(f"{k}{sep}{v}\r\n" for k, v in h).encode() + b"\r\n"
        self.wire += chunks(rng, self.body, True) if self.req_framing == "chunked" else self.body
        # the answer
        self.status = rng.choice(STATUS)
        self.rhs = headers(rng, 1500, "Y-")
        self.rbody = payload(rng, not small)
        self.nobody = self.method == "HEAD" or self.status in (204, 304)
        self.framing = rng.choice(["length", "chunked"] if keep else ["length", "chunked", "close", "short", "shortchunk", "badchunk"])
        if self.status == 204 or (self.nobody and self.framing not in ("length", "chunked")):
            self.framing = "length"
        if self.framing in ("short", "shortchunk", "badchunk") and len(self.rbody) < 2:
            self.rbody += b"xx"
        h = self.rhs[:]
        w = self.rbody
        # the answer to a HEAD tells how long the body would be
        self.announced = len(w)
        if self.method == "HEAD" and rng.random() < 0.5:
            self.announced = rng.choice([1, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32 + 5, rng.getrandbits(40)])
        if self.framing in ("length", "short"):
            if not (self.status == 204 or (self.nobody and rng.random() < 0.5)):
                h.insert(rng.randrange(len(h) + 1), (rng.choice(["Content-Length", "content-length"]), str(self.announced)))
            if self.framing == "short":
                w = w[:rng.randrange(len(w))]
        elif self.framing in ("chunked", "shortchunk", "badchunk"):
            h.insert(rng.randrange(len(h) + 1), (rng.choice(["Transfer-Encoding", "transfer-Encoding"]), "chunked"))
            w = chunks(rng, w, True)
            if self.framing == "shortchunk":
                w = w[:rng.randrange(len(w) - 1)]
            elif self.framing == "badchunk":
                w = w[:-5] + rng.choice([b"zz\r\n\r\n", b"-5\r\nabcde\r\n0\r\n\r\n", b"\r\n0\r\n\r\n", b"3\r\nabcde\r\n0\r\n\r\n"])
        if self.nobody:
            w = b""
        reason = rng.choice(["OK", "", "Not Really", "a b c"])
        self.answer = f"HTTP/1.1 {self.status} {reason}\r\n".encode() + "".join(f"{k}: {v}\r\n" for k, v in h).encode() + b"\r\n" + w
        self.hold = rng.random() < 0.5 and self.framing in ("length", "chunked")    # the upstream keeps the connection open afterwards
        self.seed = rng.getrandbits(64)

    def plan(self, s, req):
        r = random.Random(self.seed)
        cut_send(s, self.answer, r)
        if not self.hold:
            s.shutdown(socket.SHUT_WR)

    def check_request(self, req):
        w = f"{self.method} {self.target}"
        if req["method"] != self.method or req["target"] != self.target:
            raise Violation("proxied request", f"sent {w!r}, the upstream got {req['method']} {req['target']!r}")
        if req["version"] not in ("HTTP/1.1", "HTTP/1.0"):
            raise Violation("proxied request", f"version {req['version']!r}")
        host = [v for k, v in req["headers"] if k.lower() == "host"]
        if len(host) != 1 or host[0].split(":")[0] != self.host:
            raise Violation("proxied host", f"Host {self.hosthdr!r} reaches the upstream as {host}")
        got = [(k, v) for k, v in req["headers"] if k.lower() not in HOP]
        subseq(self.hs, got, ADDED_UP, "header of the request", w)
        if req["body"] != self.body or not req["whole"]:
            raise Violation("proxied body", f"{w}: body of {len(self.body)} bytes ({self.req_framing}) reaches the upstream as {len(req['body'])} bytes"
                                            + ("" if req["whole"] else ", cut"))
        if req["extra"]:
            raise Violation("proxied request", f"{w}: more bytes behind the request: {req['extra'][:60]!r}")

    def check_response(self, c, hd):
        w = f"{self.method} {self.target} answered {self.status} ({self.framing})"
        if hd is None:
            raise Violation("no response", f"{w}: the connection is closed instead")
        if status(hd) != self.status:
            raise Violation("proxied status", f"{w}: the client gets {hd[0]!r}")
        subseq(self.rhs, [(k, v) for k, v in hd[1] if k.lower() not in HOP], ADDED_DOWN, "header of the response", w)
        if self.framing == "length" and \
                [v for k, v in hd[1] if k.lower() == "content-length"] not in ([str(self.announced)], []):
            raise Violation("proxied header", f"{w}: Content-Length {hd[1]} for {self.announced} bytes")
        t0 = time.time()
        try:
            b, whole = c.body(hd[1], self.nobody)
        except ValueError as e:
            raise Violation("framing", f"{w}: {e}")
        if self.framing in ("length", "chunked", "close"):
            want = b"" if self.nobody else self.rbody
            if b != want:
                k = next((i for i in range(min(len(b), len(want))) if b[i] != want[i]), min(len(b), len(want)))
                raise Violation("proxied body", f"{w}: {len(want)} bytes sent, {len(b)} arrive, different from byte {k}")
            if not whole:
                raise Violation("proxied body", f"{w}: the body of the answer is cut")
        else:
            if time.time() - t0 > 10:
                raise Timeout("answer left open", f"{w}: the upstream broke off, yet the client's connection is kept for {time.time() - t0:.0f} s")
            if whole:
                raise Violation("made-up end", f"{w}: the upstream broke off, yet the client gets a complete answer of {len(b)} bytes")
            if not self.rbody.startswith(b) and self.framing != "badchunk":
                raise Violation("proxied body", f"{w}: other bytes")
        return whole


def subseq(want, got, added, what, w):
    """want arrives in order and unchanged; anything else is one of the added names"""
    i = 0
    for k, v in got:
        if i < len(want) and (k.lower(), v) == (want[i][0].lower(), want[i][1].strip()):
            i += 1
        elif k.lower() not in added:
            raise Violation("proxied header", f"{w}: {what} {k}: {v!r} was not sent (or not there); expected {want[i] if i < len(want) else None}")
    if i < len(want):
        raise Violation("proxied header", f"{w}: {what} {want[i]} is missing")


def upstream_saw(u, xs, tmo=5):
    """exactly the requests of xs, in order"""
    t0 = time.time()
    while len(u.seen) < len(xs) and time.time() - t0 < tmo:
        time.sleep(0.002)
    with u.lock:
        seen = list(u.seen)
    if len(seen) > len(xs) or any(ident(a["target"]) != b.id for a, b in zip(seen, xs)):
        raise Violation("requests at the upstream", f"sent {[x.method + ' ' + x.target for x in xs]}, the upstream got "
                                                   f"{[a['method'] + ' ' + a['target'] for a in seen]}")
    if len(seen) < len(xs):
        raise Timeout("requests at the upstream", f"{len(seen)} of {len(xs)} requests reach the upstream")
    for a, b in zip(seen, xs):
        b.check_request(a)


def p22(c, rng, i):
    s, u = ready(c)
    x = Conn(s.port)
    try:
        if i % 10 == 9:
            return p22_fail(c, rng, i, s, u, x)
        if i % 10 == 4:
            return p22_broken(c, rng, i, s, u, x)
        n = rng.choice([1, 1, 2, 3])
        xs = [Exchange(rng, f"r{i}_{j}_{rng.getrandbits(20):x}", keep=j < n - 1) for j in range(n)]
        for e in xs:
            u.plans[e.id] = e.plan
        for e in xs:
            x.send(e.wire, rng, quiet=True)
            e.check_response(x, x.head())
            c.count("exchanges")
            c.count(f"answers by {e.framing}")
            c.count("request bodies", bool(e.body))
        if x.buf:
            raise Violation("extra bytes", f"behind the last answer: {bytes(x.buf[:60])!r}")
        upstream_saw(u, xs)
        c.distinct(*[(e.method, e.req_framing, len(e.body), e.framing, len(e.rbody), e.status, len(e.hs), len(e.rhs)) for e in xs])
        if i < 12:
            c.samples.append("; ".join(f"{e.method} {len(e.body)} bytes {e.req_framing} -> {e.status} {len(e.rbody)} bytes {e.framing}" for e in xs))
    finally:
        x.close()


def p22_broken(c, rng, i, s, u, x):
    """a request that breaks off inside its body never reaches the upstream as a whole one"""
    while True:
        e = Exchange(rng, f"b{i}_{rng.getrandbits(20):x}", keep=True, small=True)
        if e.req_framing != "none" and len(e.body) > 1:
            break
    u.plans[e.id] = e.plan
    n = e.wire.index(b"\r\n\r\n") + 4
    w, how = e.wire, rng.choice(["fin", "close", "rst"] + (["bad chunk"] if e.req_framing == "chunked" else []))
    if how == "bad chunk":
        w = w[:-5] + rng.choice([b"zz\r\n\r\n", b"-5\r\nabcde\r\n0\r\n\r\n", b"\r\n0\r\n\r\n", b"3\r\nabcde\r\n0\r\n\r\n"])
    else:
        w = w[:n + rng.randrange(len(w) - n - (4 if e.req_framing == "chunked" else 0))]
    x.send(w, rng, quiet=True)
    if how == "fin":
        x.s.shutdown(socket.SHUT_WR)
    elif how != "bad chunk":
        x.close(rst=how == "rst")
    if how in ("fin", "bad chunk"):
        hd = x.head()
        st = status(hd)
        if st is not None and st < 400:
            raise Violation("made-up answer", f"a {e.method} that breaks off inside its body ({how}) is answered with {st}")
    else:
        # the next exchange is behind it
        y = Exchange(rng, f"b{i}_next_{rng.getrandbits(20):x}", keep=True, small=True)
        u.plans[y.id] = y.plan
        k = Conn(s.port)
        k.send(y.wire, rng, quiet=True)
        y.check_response(k, k.head())
        k.close()
        time.sleep(0.01)
    with u.lock:
        seen = [a for a in u.seen if ident(a["target"]) == e.id and a["whole"]]
    if seen:
        raise Violation("made-up body", f"a {e.method} with a body of {len(e.body)} bytes ({e.req_framing}) that breaks off ({how}) reaches the upstream as a "
                                        f"whole one of {len(seen[0]['body'])} bytes")
    c.count("requests broken off")
    c.distinct("broken", how, e.method, len(w))


def p22_fail(c, rng, i, s, u, x):
    e = Exchange(rng, f"f{i}_{rng.getrandbits(20):x}", keep=True, small=True)
    how = rng.choice(["dead", "close", "garbage", "half", "rst"])
    wire = e.wire
    if how == "dead":
        wire = wire.replace(b"named.com", b"dead.com").replace(b"a.p.com", b"dead.com").replace(b": p.com", b": dead.com").replace(b":p.com", b":dead.com")
    else:
        def plan(sock, req):
            if how == "garbage":
                sock.sendall(b"this is no HTTP at all\r\n\r\n")
            elif how == "half":
                sock.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-Half")
            elif how == "rst":
                sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            sock.close()
        u.plans[e.id] = plan
    x.send(wire, rng, quiet=True)
    hd = x.head()
    st = status(hd)
    if st is not None and st < 500:
        raise Violation("made-up answer", f"the upstream fails ({how}), yet the client gets status {st}")
    c.count("failing upstreams")
    c.distinct("fail", how, e.method, len(e.body))


# ---------------------------------------------------------------- P23

class Simple:
    """a request the server answers itself"""
    def __init__(self, rng, kind, name):
        self.kind, self.id = kind, name
        host = {"nohost": "nowhere.org", "nostream": "s.com", "nopub": "nopub.com"}[kind]
        method = "POST" if kind == "nopub" else "GET" if kind == "nostream" else rng.choice(["GET", "POST", "HEAD", "PUT"])
        body = payload(rng, False) if kind == "nopub" or (rng.random() < 0.3 and method != "HEAD") else b""
        f = rng.choice(["length", "chunked"]) if body else rng.choice(["none", "length0"])
        h = [("Host", host)] + headers(rng, 800, "X-")
        if f == "length":
            h.append(("Content-Length", str(len(body))))
        elif f == "length0":
            h.append(("Content-Length", "0"))
        elif f == "chunked":
            h.append(("Transfer-Encoding", "chunked"))
        self.method, self.unwanted = method, bool(body)
        self.wire = f"{method} /{name}.flv HTTP/1.1\r\n".encode() + "".join(f"{k}: {v}\r\n" for k, v in h).encode() + b"\r\n" + \
            (chunks(rng, body) if f == "chunked" else body)
        self.want = 403 if kind == "nopub" else 404
        self.may_close = kind == "nopub"

    def check_response(self, c, hd):
        if hd is None:
            raise Violation("no response", f"{self.kind}: the connection is closed instead of an answer")
        if status(hd) != self.want:
            raise Violation("status", f"{self.method} {self.kind}: {hd[0]!r}, {self.want} expected")
        b, whole = c.body(hd[1], self.method == "HEAD")
        if not whole:
            raise Violation("framing", f"{self.kind}: the answer is cut")
        return whole


def p23(c, rng, i):
    s, u = ready(c)
    x = Conn(s.port)
    try:
        n = rng.choice([2, 3, 5, 8, 12])
        xs = []
        for j in range(n):
            name = f"k{i}_{j}_{rng.getrandbits(20):x}"
            if rng.random() < 0.7:
                e = Exchange(rng, name, keep=True, small=rng.random() < 0.8)
                e.may_close = False
                u.plans[name] = e.plan
            else:
                e = Simple(rng, rng.choice(["nohost", "nostream"] * (1 if j == n - 1 else 6) + ["nopub"]), name)
            xs.append(e)
        mode = rng.randrange(3)     # one by one, all at once, in groups
        sent = done = 0
        closed = False
        while done < n and not closed:
            k = 1 if mode == 0 else n if mode == 1 else 1 + rng.randrange(4)
            group = xs[done:done + k]
            data = b"".join(e.wire for e in group)
            th = threading.Thread(target=x.send, args=(data, random.Random(rng.getrandbits(32)), True))
            th.start()      # answers are read while requests are still being sent
            try:
                for e in group:
                    hd = x.head()
                    if hd is None and done and xs[done - 1].may_close:
                        closed = True
                        break
                    e.check_response(x, hd)
                    done += 1
                    c.count("answers in order")
                    c.count("with a body the server does not want", getattr(e, "unwanted", False))
                    if k > 1:
                        c.count("pipelined")
            finally:
                if closed:
                    x.close()
                th.join()
            if mode == 0 and x.buf:
                raise Violation("extra bytes", f"behind the answer to {group[0].method}: {bytes(x.buf[:80])!r}")
        if not closed and not x.quiet(0.002):
            raise Violation("extra bytes", f"more than one answer per request: {bytes(x.buf[:80])!r}")
        if closed:
            c.count("closed after a refused publish")
        upstream_saw(u, [e for e in xs[:done] if isinstance(e, Exchange)])
        c.distinct(mode, *[(e.method, getattr(e, "kind", "proxy")) for e in xs])
        if i < 12:
            c.samples.append(f"mode {mode}: " + ", ".join(f"{e.method} {getattr(e, 'kind', 'proxy')}" for e in xs))
    finally:
        x.close()


CASES = {"P22": p22, "P23": p23}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
