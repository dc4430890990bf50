"""P37: live streams and the proxy over HTTPS."""
import os, random, ssl, threading, time
import srv
from srv import *
import c_http
from c_http import Exchange, Upstream, upstream_saw

CERTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "certs")
DER = {n: ssl.PEM_cert_to_DER_cert(open(os.path.join(CERTS, n + ".crt")).read()) for n in "abc"}
OWN = {"a.com": "a", "b.com": "b", "x.wild.com": "b", "yy.wild.com": "b"}     # hosts with a certificate of their own; the others get the server's (c)
HOSTS = ["a.com", "b.com", "plain.com", "x.wild.com", "yy.wild.com", "local.com"]
PROXIES = ["p.com", "a.p.com", "named.com"]


def crt(n):
    return f"ssl_crt_file {CERTS}/{n}.crt;\n        ssl_key_file {CERTS}/{n}.key;"


def conf(port, uport):
    def host(h, own=None):
        return f"""
    host {h} {{
        role source;
        type stream;
        edge_avformat all;
        {crt(own) if own else ""}
    }}
"""
    return f"""upstream back {{
    server 127.0.0.1:{uport};
    keepalive 80;
}}
globalhost {{
    {host("a.com", "a")}{host("b.com", "b")}{host("plain.com")}{host("*.wild.com", "b")}
    host named.com {{
        pass_proxy back;
        type proxy;
    }}
    host p.com {{
        pass_proxy 127.0.0.1:{uport};
        type proxy;
    }}
    host *.p.com {{
        pass_proxy 127.0.0.1:{uport};
        type proxy;
    }}
}}
http {{
    server secure {{
        listen_port {port};
        transport https;
        recv_timeout 20000000;
        send_timeout 20000000;
        {crt("c")}
        {host("local.com")}
    }}
    server clear {{
        listen_port {port + 1};
        transport tcp;
        recv_timeout 20000000;
        send_timeout 20000000;
        {host("local.com")}
    }}
}}
"""


def ready(c, fresh=False):
    u = c.state.get("up")
    if u is None:
        u = c.state["up"] = Upstream(c.k)
        fresh = True
    if fresh:
        c.drop()
    for _ in range(5):
        s = c.need(lambda port: conf(port, u.port))
        if s.wait_port(s.port + 1):
            break
        c.drop()
    else:
        raise RuntimeError("the server does not listen on its second port")
    with u.lock:
        u.plans.clear()
        u.seen.clear()
    return s, u


def tls(s, rng, host):
    """a TLS port, the client naming the host it wants, another one, one nobody knows, or none"""
    r = rng.random()
    name = host if r < 0.6 else rng.choice(HOSTS) if r < 0.75 else rng.choice(["nobody.org", "com", "a.a.com"]) if r < 0.85 else None
    return TlsPort(s.port, name)


def check_cert(conn, port):
    if isinstance(port, TlsPort):
        want = OWN.get(port.name, "c")
        if conn.cert != DER[want]:
            got = [k for k, v in DER.items() if v == conn.cert]
            raise Violation("certificate", f"a client that names {port.name!r} is shown certificate {got}, expected {want!r}")


def any_port(s, rng, host, p=0.7):
    return tls(s, rng, host) if rng.random() < p else s.port + 1


def p37(c, rng, i):
    if i % 60 == 17:
        return p37_quiet(c, rng, i)
    s, u = ready(c)
    k = i % 4
    if k == 3:
        return p37_proxy(c, rng, i, s, u)
    return p37_stream(c, rng, i, s, hostile=k == 1)


def p37_proxy(c, rng, i, s, u):
    n = rng.choice([1, 1, 2, 3])
    xs = [Exchange(rng, f"t{i}_{j}_{rng.getrandbits(20):x}", keep=j < n - 1) for j in range(n)]
    port = tls(s, rng, xs[0].host)
    x = Conn(port)
    try:
        check_cert(x, port)
        for e in xs:
            u.plans[e.id] = e.plan
        if rng.random() < 0.3 and all(e.framing in ("length", "chunked") for e in xs):      # pipelined
            x.send(b"".join(e.wire for e in xs), rng, quiet=True)
            for e in xs:
                e.check_response(x, x.head())
            c.count("pipelined")
        else:
            for e in xs:
                x.send(e.wire, rng, quiet=True)
                e.check_response(x, x.head())
        c.count("proxied exchanges", n)
        if x.buf:
            raise Violation("extra bytes", f"behind the last answer: {bytes(x.buf[:60])!r}")
        upstream_saw(u, xs)
        c.distinct("proxy", *[(e.method, len(e.body), e.framing, len(e.rbody)) for e in xs])
    finally:
        x.close()


def p37_stream(c, rng, i, s, hostile):
    host = rng.choice(HOSTS)
    path = f"/{rng.choice(['live', 'app', 'l'])}/t{i}_{rng.getrandbits(24):x}.flv"
    m = Media(rng, big=rng.random() < 0.3)
    pp = any_port(s, rng, host)
    framing = rng.choice(["raw", "chunked"])
    pub = Publisher(pp, host, path, rng, framing)
    check_cert(pub.c, pp)
    c.count("publishers over TLS" if isinstance(pp, TlsPort) else "publishers in the clear")
    bad, players, h, shape = [], [], [], [framing, isinstance(pp, TlsPort)]

    def join(first=False):
        port = any_port(s, rng, host)
        p = wait_player(port, host, path, rng) if first else Player(port, host, path, rng, rcvbuf=rng.choice([None, None, 4096]))
        check_cert(p.c, port)
        if not first:
            st = p.open()
            if st != 200:
                raise Violation("play refused", f"status {st} for a stream that is being published")
            p.expect(snapshot(h))
        players.append(p)
        c.count("players over TLS" if isinstance(port, TlsPort) else "players in the clear")
        shape.append((len(h), isinstance(port, TlsPort)))
    try:
        join(True)
        pub.start()
        for _ in range(1 + rng.randrange(5)):
            b = m.tags(rng.choice([1, 2, 5, 20, 60]))
            if not pub.send(b):
                raise Violation("publisher dropped", "the server closed the connection of a well-behaved publisher")
            h += b
            for p in players:
                p.expect(b)
            players[0].check("a player that was there from the start")
            if hostile:
                for _ in range(rng.randrange(1, 5)):
                    bad.append(attack(c, rng, s, host, path))
            for p in list(players[1:]):
                r = rng.random()
                if r < 0.2:
                    p.close(rst=rng.random() < 0.5)
                    players.remove(p)
                elif r < 0.6:
                    p.check("a player among others")
            for _ in range(rng.choice([0, 1, 1, 2])):
                join()
        tail = m.tags(rng.randrange(1, 8))
        pub.send(tail)
        pub.end(rng.choice(["fin", "chunk"]))
        for p in players:
            p.expect(tail)
            p.check("a player when the publisher leaves")
            c.count("players checked to the end")
    finally:
        pub.c.close()
        for p in players:
            p.close()
        for x in bad:
            try:
                x.close()
            except (OSError, AttributeError):
                pass
    c.distinct(*shape)
    if i < 16:
        c.samples.append(f"{framing}: {len(h)} tags, {len(players)} players at the end, {len(bad)} broken TLS peers")


def hello(name):
    """the first flight of a client"""
    a, b = ssl.MemoryBIO(), ssl.MemoryBIO()
    o = tls_context().wrap_bio(a, b, server_hostname=name)
    try:
        o.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return b.read()


def raw(s):
    x = socket.socket()
    x.settimeout(TMO)
    try:
        x.connect(("127.0.0.1", s.port))
    except socket.timeout:
        raise Timeout("no connection", "the server does not accept")
    return x


KINDS = ["http", "garbage", "half", "whole", "silent", "close", "tls13", "data", "rst", "altered"]


def attack(c, rng, s, host, path):
    """a TLS peer that misbehaves and concerns nobody else -> its socket, left open"""
    k = rng.choice(KINDS)
    c.count("broken TLS peers")
    name = rng.choice(HOSTS + ["nobody.org", None])
    if k == "tls13":
        x = raw(s)
        try:
            y = tls_context(ssl.TLSVersion.TLSv1_3).wrap_socket(x, server_hostname=name)
            y.close()
        except socket.timeout:
            raise Timeout("no handshake", "a client the server cannot agree with is left waiting")
        except OSError:
            pass
        return x
    if k in ("data", "rst"):
        port = TlsPort(s.port, name)
        x = Conn(port)
        check_cert(x, port)
        r = rng.random()
        if r < 0.5:
            x.send(f"GET {path} HTTP/1.1\r\nHost: {host}\r\n\r\n".encode()[:rng.choice([5, 40, 10000])])
        if k == "data":         # what is no record of this connection
            fd = os.dup(x.s.fileno())
            try:
                os.write(fd, rng.randbytes(rng.choice([1, 5, 100, 3000])))
            except OSError:
                pass
            os.close(fd)
        else:
            x.close(rst=True)
        return x
    x = raw(s)
    try:
        if k == "http":
            x.sendall(f"GET {path} HTTP/1.1\r\nHost: {host}\r\n\r\n".encode())
        elif k == "garbage":
            x.sendall(rng.randbytes(rng.choice([1, 5, 6, 200, 5000])))
        elif k in ("half", "whole", "altered"):
            f = bytearray(hello(name))
            if k == "half":
                f = f[:rng.randrange(1, len(f))]
            elif k == "altered":
                for _ in range(rng.randrange(1, 6)):
                    f[rng.randrange(len(f))] = rng.randrange(256)
            x.sendall(bytes(f))
            if rng.random() < 0.3:
                x.shutdown(socket.SHUT_WR)
        elif k == "close":
            x.close()
    except OSError:
        pass
    return x


def p37_quiet(c, rng, i):
    """what TLS connections used is given back, however they end"""
    s, u = ready(c, fresh=True)
    base, heap = s.fds(), [s.allocated()]
    for r in range(4):
        bad = []
        for _ in range(12):
            bad.append(attack(c, rng, s, "a.com", "/live/none.flv"))
        for j in range(6):
            p = Player(TlsPort(s.port, rng.choice(HOSTS + [None])), rng.choice(HOSTS), f"/live/q{j}.flv", rng)
            st = p.status()
            if st != 404:
                raise Violation("refusal", f"status {st} for a stream nobody publishes")
            p.c.body(p.hs)
            p.close(rst=rng.random() < 0.3)
        for x in bad:
            try:
                x.close()
            except OSError:
                pass
        t0 = time.time()
        while s.fds() > base:
            s.check()
            if time.time() - t0 > 60:
                raise Violation("descriptors held", f"{s.fds()} descriptors 60 s after the last peer left, {base} at the start")
            time.sleep(0.05)
        bound = heap[1] + (96 << 10) if len(heap) > 1 else heap[0] + (1 << 20)
        t0 = time.time()
        while s.allocated() > bound:
            s.check()
            if time.time() - t0 > 40:
                raise Violation("memory held", f"heap in use at the start and after each round of TLS peers: {heap}, now {s.allocated()}")
            time.sleep(0.2)
        heap.append(s.allocated())
        c.count("heap checks")
    c.distinct("quiet", *heap)


CASES = {"P37": p37}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
