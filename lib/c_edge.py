"""P18: an edge pulls each stream once from its origin (a fake origin driven by the check) and shares it."""
import queue, random, threading, time
import srv
from srv import *


class Pull:
    """one connection of the edge to the origin, its request head read"""
    def __init__(self, s, target, hs, method):
        self.s, self.target, self.hs, self.method = s, target, hs, method
        self.prev = 0
        self.framing = "raw"
        self.over = False

    def respond(self, rng, framing, total=0, code="200 OK"):
        self.framing = framing
        h = f"HTTP/1.1 {code}\r\nServer: origin\r\n"
        if framing == "chunked":
            h += "Transfer-Encoding: chunked\r\n"
        elif framing == "length":
            h += f"Content-Length: {total}\r\n"
        self.out((h + "\r\n").encode(), rng)

    def out(self, b, rng):
        i = 0
        try:
            while i < len(b):
                n = rng.choice([1, 7, 100, 1448, 5000, len(b)])
                self.s.sendall(b[i:i + n])
                i += n
                if rng.random() < 0.02:
                    time.sleep(rng.random() * 0.002)
            return True
        except OSError:
            return False

    def body(self, b, rng):
        if self.framing == "chunked" and b:
            o, i = bytearray(), 0
            while i < len(b):
                n = rng.choice([1, 16, 1000, 40000, len(b)])
                d = b[i:i + n]
                o += b"%x\r\n" % len(d) + d + b"\r\n"
                i += n
            b = bytes(o)
        return self.out(b, rng)

    def start(self, rng):
        return self.body(b"FLV\x01\x05\0\0\0\x09", rng)

    def send(self, tags, rng):
        b, self.prev = flv(tags, self.prev)
        return self.body(b, rng)

    def end(self, how, rng):
        self.over = True
        if how == "chunk" and self.framing == "chunked":
            self.out(b"0\r\n\r\n", rng)
        elif how == "garbage":
            self.body(struct.pack(">I", self.prev) + b"\x63" + bytes(10) + b"not a tag at all", rng)
        elif how == "badchunk" and self.framing == "chunked":
            self.out(b"zz\r\n", rng)
        elif how == "rst":
            try:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
        self.s.close()


class Origin:
    def __init__(self, k):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        while True:
            self.port = free_port(k)
            try:
                self.l.bind(("127.0.0.1", self.port))
                break
            except OSError:
                pass
        self.l.listen(200)
        self.pulls = {}         # path -> [Pull] in order of arrival
        self.lock = threading.Condition()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(s,), daemon=True).start()

    def one(self, s):
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(TMO)
        b = b""
        try:
            while b"\r\n\r\n" not in b:
                d = s.recv(65536)
                if not d:
                    s.close()
                    return
                b += d
        except OSError:
            s.close()
            return
        lines = b.split(b"\r\n\r\n")[0].decode("latin1").split("\r\n")
        m, t, _ = (lines[0].split(" ") + ["", ""])[:3]
        hs = [tuple(x.split(": ", 1)) for x in lines[1:] if ": " in x]
        s.settimeout(TMO)
        with self.lock:
            self.pulls.setdefault(t.split("?")[0], []).append(Pull(s, t, hs, m))
            self.lock.notify_all()

    def of(self, path):
        with self.lock:
            return list(self.pulls.get(path, []))

    def wait(self, path, n, tmo):
        """the n-th pull (1..) of path, None when it does not come in time"""
        t0 = time.time()
        with self.lock:
            while len(self.pulls.get(path, [])) < n:
                left = tmo - (time.time() - t0)
                if left <= 0:
                    return None
                self.lock.wait(left)
            return self.pulls[path][n - 1]

    def forget(self, path):
        with self.lock:
            for p in self.pulls.pop(path, []):
                p.s.close()


def conf(port, oport):
    hosts = "".join(f"""
    host {h} {{
        role edge;
        pass_proxy 127.0.0.1:{oport};
        type stream;
        edge_avformat all;
    }}
""" for h in ("edge.com", "edge2.com", "*.edge.com"))
    return f"""globalhost {{
{hosts}
    host dead.com {{
        role edge;
        pass_proxy 127.0.0.1:1;
        type stream;
        edge_avformat all;
    }}
}}
http {{
    server main {{
        listen_port {port};
        transport tcp;
        recv_timeout 10000000;
        send_timeout 10000000;
    }}
}}
"""


def p18(c, rng, i):
    o = c.state.get("origin")
    if o is None:
        o = c.state["origin"] = Origin(c.k)
        c.drop()
    s = c.need(lambda port: conf(port, o.port))
    path = f"/{rng.choice(['live', 'a/b'])}/e{i}_{rng.getrandbits(24):x}.flv"
    host = rng.choice(["edge.com", "edge2.com", "x.edge.com"])
    conns = []
    try:
        [p18_rounds, p18_race, p18_fail, p18_rounds, p18_many][i % 5](c, rng, i, s, o, host, path, conns)
    finally:
        for x in conns:
            x.close()
        o.forget(path)


def query(rng):
    return rng.choice(["", "", "?token=a.b/c", "?x=1&y=2"])


def first_pull(o, path, n, what):
    p = o.wait(path, n, TMO)
    if p is None:
        raise Timeout("no pull", f"{what}: the edge does not ask its origin")
    return p


def one_pull(o, path, n, what):
    k = len(o.of(path))
    if k != n:
        raise Violation("pulls", f"{what}: {k} pulls of one stream seen by the origin, {n} expected")


def fresh(c, rng, s, o, host, path, n, conns):
    """players ask until the edge asks its origin again (it may not have noticed yet that pull n-1 ended)"""
    t0 = time.time()
    while True:
        p = Player(s.port, host, path, rng)
        conns.append(p.c)
        x = o.wait(path, n, 0.1)
        if x:
            return p, x
        if time.time() - t0 > TMO:
            raise Timeout("no fresh pull", f"pull {n - 1} ended, yet no player causes pull {n} within {TMO} s")
        p.close()


def p18_rounds(c, rng, i, s, o, host, path, conns):
    rounds = 1 + rng.randrange(3)
    shape = []
    old = []
    for r in range(1, rounds + 1):
        q = query(rng)
        if r == 1:
            players = [Player(s.port, host, path + q, rng)]
            conns.append(players[0].c)
            pull = first_pull(o, path, 1, "the first player")
            if pull.method != "GET" or pull.target != path + q:
                raise Violation("pulled url", f"player asked for {path + q}, the edge for {pull.method} {pull.target}")
        else:
            p, pull = fresh(c, rng, s, o, host, path, r, conns)
            players = [p]
        n = rng.randrange(5)
        for _ in range(n):          # more players while the origin has not answered yet
            p = Player(s.port, host, path + query(rng), rng)
            conns.append(p.c)
            players.append(p)
        if rng.random() < 0.5:
            time.sleep(rng.random() * 0.03)
        one_pull(o, path, r, f"{n + 1} players before the origin answers")
        m = Media(rng)
        framing = rng.choice(["raw", "chunked", "length"])
        batches = [m.tags(rng.choice([1, 2, 10, 30])) for _ in range(1 + rng.randrange(3))]
        pull.respond(rng, framing, 9 + sum(t.size() for b in batches for t in b))
        for p in players:
            st = p.open()
            if st != 200:
                raise Violation("play refused", f"status {st} although the origin serves the stream ({framing})")
        pull.start(rng)
        h = []
        for bi, b in enumerate(batches):
            pull.send(b, rng)
            h += b
            for p in players:
                p.expect(b)
                p.check(f"a player of the edge (pull {r}, {framing})")
            c.count("tags to players", len(b) * len(players))
            if framing == "length" and bi == len(batches) - 1:
                break
            for _ in range(rng.choice([0, 1, 2])):
                p = Player(s.port, host, path + query(rng), rng)
                conns.append(p.c)
                st = p.open()
                if st != 200:
                    raise Violation("play refused", f"status {st} for a stream the edge is pulling")
                p.expect(snapshot(h))
                p.check("a late player of the edge")
                players.append(p)
                c.count("late joins")
            if rng.random() < 0.3 and len(players) > 1:
                p = players.pop(rng.randrange(len(players)))
                p.close(rst=rng.random() < 0.5)
        one_pull(o, path, r, f"{len(players)} players")
        for p in old:
            if not p.c.quiet(0.005):
                raise Violation("other stream", "a player of an ended pull gets bytes of its successor")
        how = rng.choice(["fin", "rst", "garbage", "chunk", "badchunk"])
        pull.end(how, rng)
        c.count("pulls")
        shape.append((framing, len(players), how, len(h)))
        for p in players:
            # what had been sent is there, nothing else comes
            if not p.c.quiet(0.002):
                raise Violation("extra bytes", f"after the origin ended ({how})")
        old += players
    c.distinct(*shape)
    if i < 40:
        c.samples.append(str(shape))


def p18_race(c, rng, i, s, o, host, path, conns):
    """players arrive at any time while the origin answers and sends"""
    tags = Media(rng).tags(rng.choice([5, 30, 80]))
    tags.append(Tag(8, 1, b"\xaf\x01" + b"END" + rng.randbytes(20)))
    end = tags[-1].body
    seed = rng.getrandbits(64)
    players = [Player(s.port, host, path, rng)]
    conns.append(players[0].c)
    pull = first_pull(o, path, 1, "the first player")

    def feed():
        r = random.Random(seed)
        pull.respond(r, r.choice(["raw", "chunked"]))
        if r.random() < 0.3:
            time.sleep(r.random() * 0.01)
        pull.start(r)
        j = 0
        while j < len(tags) - 1:
            n = min(r.choice([1, 1, 2, 5, 10]), len(tags) - 1 - j)
            pull.send(tags[j:j + n], r)
            j += n
            if r.random() < 0.3:
                time.sleep(r.random() * 0.003)
    th = threading.Thread(target=feed)
    if rng.random() < 0.5:
        th.start()
    for _ in range(1 + rng.randrange(6)):
        if rng.random() < 0.5:
            time.sleep(rng.random() * 0.01)
        p = Player(s.port, host, path + query(rng), rng)
        conns.append(p.c)
        players.append(p)
    if th.ident is None:
        th.start()
    th.join()
    for p in players:
        st = p.open()
        if st != 200:
            raise Violation("play refused", f"status {st} although the origin serves the stream")
    one_pull(o, path, 1, f"{len(players)} racing players")
    pull.send(tags[-1:], random.Random(1))
    idx = {t.body: k for k, t in enumerate(tags)}
    for p in players:
        got = p.drain_tags(end)
        ks = []
        for t in got:
            k = idx.get(t.body)
            if k is None or tags[k].type != t.type or tags[k].ts != t.ts:
                raise Violation("other bytes", f"a tag the origin never sent: {t.type} {t.ts} {t.body[:30]!r}")
            ks.append(k)
        for j in range(len(tags) + 1):
            if ks == [idx[t.body] for t in snapshot(tags[:j])] + list(range(j, len(tags))):
                c.distinct("race", len(tags), j)
                break
        else:
            raise Violation("no join point", f"no join point explains what a player got: tags {ks[:60]} of {len(tags)}")
        c.count("racing players explained")
    pull.end("fin", rng)
    c.count("pulls")


FAILS = ["404", "500", "302", "close", "garbage", "half", "rst", "dead", "notflv"]


def p18_fail(c, rng, i, s, o, host, path, conns):
    """the origin fails: the players are refused, and the next player causes a fresh pull"""
    how = rng.choice(FAILS)
    if how == "dead":
        host = "dead.com"
        for _ in range(2):
            p = Player(s.port, host, path, rng)
            conns.append(p.c)
            st = p.status()
            if st != 404:
                raise Violation("failed pull", f"no origin, yet status {st}")
        c.count("failed pulls", 2)
        return c.distinct("fail", how)
    n = 1 + rng.randrange(4)
    players = []
    for _ in range(n):
        p = Player(s.port, host, path, rng)
        conns.append(p.c)
        players.append(p)
        if len(players) == 1:
            pull = first_pull(o, path, 1, "the first player")
    time.sleep(0.005)
    if how in ("404", "500", "302"):
        pull.respond(rng, rng.choice(["length", "raw"]), 0, how + " X")
        pull.end("fin", rng)
    elif how == "close":
        pull.s.close()
    elif how == "garbage":
        pull.out(b"this is no HTTP at all\r\n\r\n", rng)
        pull.s.close()
    elif how == "half":
        pull.out(b"HTTP/1.1 200 OK\r\nContent-Le", rng)
        pull.s.close()
    elif how == "rst":
        pull.end("rst", rng)
    else:
        pull.respond(rng, "raw")
        pull.body(b"GIF89a, no FLV at all", rng)
        pull.s.close()
    stop = threading.Event()

    def fail_again():
        # a player whose request was read after the pull had failed causes a pull of its own: fails as well
        k = 1
        while not stop.is_set():
            x = o.wait(path, k + 1, 0.02)
            if x:
                k += 1
                x.s.close()
    th = threading.Thread(target=fail_again)
    th.start()
    try:
        fail_statuses(players, how)
    finally:
        stop.set()
        th.join()
    k = len(o.of(path))
    if k > n:
        raise Violation("pulls", f"{k} pulls for {n} players")
    c.count("failed pulls")
    p, pull = fresh(c, rng, s, o, host, path, k + 1, conns)
    pull.respond(rng, "raw")
    st = p.open()
    if st != 200:
        raise Violation("play refused", f"after a failed pull ({how}) the origin serves the stream, yet status {st}")
    pull.start(rng)
    t = Media(rng).tags(5)
    pull.send(t, rng)
    p.expect(t)
    p.check(f"a player after a failed pull ({how})")
    pull.end("fin", rng)
    c.count("recovered pulls")
    c.distinct("fail", how, n)


def fail_statuses(players, how):
    for p in players:
        st = p.status()
        if how == "notflv":
            if st not in (200, 404):
                raise Violation("failed pull", f"status {st}")
            if st == 200 and p.c.take(9) not in (FLVHEAD, b""):
                raise Violation("FLV header", "of an origin that sends no FLV")
            if p.c.buf:
                raise Violation("other bytes", f"an origin that sends no FLV, a player gets {bytes(p.c.buf[:40])!r}")
        elif st != 404:
            raise Violation("failed pull", f"the origin fails ({how}), yet a player gets status {st}")


def p18_many(c, rng, i, s, o, host, path, conns):
    """several streams with resembling names at once: one pull each, nothing mixed up"""
    base = path[:-4]
    paths = [base + x + ".flv" for x in rng.sample(["", "1", "/", "/x", "_flv", ".b", "%20"], 3)]
    st = []
    try:
        for p in paths:
            w = [Player(s.port, host, p, rng) for _ in range(1 + rng.randrange(3))]
            conns += [x.c for x in w]
            st.append((p, w, Media(rng), first_pull(o, p, 1, p)))
        for p, w, m, pull in st:
            pull.respond(rng, rng.choice(["raw", "chunked"]))
        for p, w, m, pull in st:
            for x in w:
                code = x.open()
                if code != 200:
                    raise Violation("play refused", f"status {code} : {p} of {paths}")
            pull.start(rng)
        for _ in range(2):
            for p, w, m, pull in st:
                t = m.tags(rng.choice([1, 5]))
                pull.send(t, rng)
                for x in w:
                    x.expect(t)
            for p, w, m, pull in st:
                for x in w:
                    x.check(f"a player of {p} among {paths}")
                    c.count("tags to players")
        for p in paths:
            one_pull(o, p, 1, f"{p} among {paths}")
            c.count("pulls")
        c.distinct("many", *[len(x[1]) for x in st], *[x[len(base):] for x in paths])
    finally:
        for p in paths:
            o.forget(p)


CASES = {"P18": p18}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
