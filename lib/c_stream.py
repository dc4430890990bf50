"""P14-P17: publishing and playing through the real server."""
import random, time
import srv
from srv import *

HOSTS = ["a.com", "b.com", "a.com.b.com", "127.0.0.1"]


def conf(port, extra="", servers=""):
    hosts = "".join(f"""
    host {h} {{
        role source;
        type stream;
        edge_avformat all;
    }}
""" for h in HOSTS)
    return f"""globalhost {{
{hosts}
    host flvonly.com {{
        role source;
        type stream;
        edge_avformat flv;
    }}
    host nopub.com {{
        role edge;
        pass_proxy 127.0.0.1:1;
        type stream;
        edge_avformat all;
    }}
    host relay.com {{
        role proxy;
        type stream;
        edge_avformat all;
    }}
    host norole.com {{
        type stream;
        edge_avformat all;
    }}
    host none.com {{
        role source;
        type stream;
    }}
    host *.wild.com {{
        role source;
        type stream;
        edge_avformat all;
    }}
{extra}
}}
http {{
    server main {{
        listen_port {port};
        transport tcp;
        recv_timeout 10000000;
        send_timeout 10000000;
        host local.com {{
            role source;
            type stream;
            edge_avformat all;
        }}
    }}
{servers}
}}
"""


def name(c, rng, i, dirs=("live", "app", "l", "live/x")):
    # one in eight is long
    return f"/{rng.choice(dirs)}/s{i}_{rng.getrandbits(24):x}" + ("" if rng.random() > 0.125 else "x" * rng.randrange(30, 480))


def q(rng):
    return rng.choice(["", "", "", "?", "?a=1", "?token=x.ts&y=/z.flv", "?a=%2F..%2F"])


def first_tag(rng, m, pub, witness_path, port, host):
    pass


def p14(c, rng, i):
    s = c.need(conf)
    host = rng.choice(HOSTS + ["local.com", "x.wild.com"])
    path = name(c, rng, i) + ".flv"
    m = Media(rng, big=rng.random() < 0.3)
    if i % 3 == 2:
        return p14_race(c, rng, i, s, host, path, m)
    nb = 1 + rng.randrange(6)
    batches = [m.tags(rng.choice([0, 1, 2, 5, 20, 60])) for _ in range(nb)]
    framing = rng.choice(["raw", "chunked", "chunked", "length"])
    total = 9 + sum(t.size() for b in batches for t in b)
    pub = Publisher(s.port, host, path + q(rng), rng, framing, total)
    players = [wait_player(s.port, host, path + q(rng), rng)]
    h = []
    pub.start(rng.choice([0, 1, 4, 5]))
    shape = [framing]
    try:
        for bi, b in enumerate(batches):
            if not pub.send(b, wrong_prev=rng.random() < 0.3):
                raise Violation("publisher dropped", "the server closed the connection of a well-behaved publisher")
            h += b
            for p in players:
                p.expect(b)
            witness = players[0]
            witness.check("a player that was there from the start")
            c.count("tags to players", len(b) * len(players))
            for p in list(players[1:]):
                r = rng.random()
                if r < 0.15:
                    p.close(rst=rng.random() < 0.5)     # leaves, with whatever it has not read
                    players.remove(p)
                    c.count("players leaving")
                elif r < 0.6:
                    p.check("a player among others")
            if framing == "length" and not any(batches[bi + 1:]):
                shape.append((len(b), len(players)))
                continue        # that was the announced end of the stream
            for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                p = Player(s.port, host, path + q(rng), rng, rcvbuf=rng.choice([None, None, 4096]))
                st = p.open()
                if st != 200:
                    raise Violation("play refused", f"status {st} for a stream that is being published")
                snap = snapshot(h)
                p.expect(snap)
                p.check(f"a player that joins after {len(h)} tags ({len(snap)} to catch up)")
                players.append(p)
                c.count("late joins")
                shape.append((len(h), len(snap)))
            shape.append((len(b), len(players)))
        tail = m.tags(rng.randrange(1, 8)) if framing != "length" else []
        if tail:
            pub.send(tail)
            h += tail
        how = rng.choice(["fin", "chunk"])
        pub.end(how)            # what was sent before the publisher left still reaches everyone
        for p in players:
            p.expect(tail)
            p.check("a player when the publisher leaves")
            c.count("players checked to the end")
        if i % 41 == 0:
            for p in players[:2]:
                p.c.fill(30)
                if p.c.buf:
                    raise Violation("extra bytes", "bytes after the end of the stream")
                if not p.c.eof:
                    raise Violation("never ends", "the player's connection stays open")
            c.count("players closed after the publisher left")
    finally:
        pub.c.close()
        for p in players:
            p.close()
    c.distinct(*shape)
    if i < 16:
        c.samples.append(f"{framing}: {nb} batches, {len(h)} tags, {len(players)} players at the end")


def p14_race(c, rng, i, s, host, path, m):
    """players join while the publisher is sending: there must be one join point that explains all they get"""
    import threading
    tags = m.tags(rng.choice([10, 40, 120]))
    tags.append(Tag(8, 1, b"\xaf\x01" + b"END" + rng.randbytes(20)))
    end = tags[-1].body
    pub = Publisher(s.port, host, path, rng, rng.choice(["raw", "chunked"]))
    w = wait_player(s.port, host, path, rng)
    pub.start()
    seed = rng.getrandbits(64)

    def feed():
        r = random.Random(seed)
        j = 0
        while j < len(tags) - 1:
            n = min(r.choice([1, 1, 2, 5, 10]), len(tags) - 1 - j)
            pub.send(tags[j:j + n])
            j += n
            if r.random() < 0.3:
                time.sleep(r.random() * 0.003)
    th = threading.Thread(target=feed)
    players = []
    try:
        th.start()
        for _ in range(1 + rng.randrange(5)):
            if rng.random() < 0.6:
                time.sleep(rng.random() * 0.01)
            if not th.is_alive():
                break
            players.append(Player(s.port, host, path, rng))
        th.join()
        idx = {t.body: k for k, t in enumerate(tags)}
        for p in players:
            if p.open() != 200:
                raise Violation("play refused", "while the stream is being published")
        pub.send(tags[-1:])     # everyone has joined: everyone gets this one
        w.expect(tags)
        w.check("a player that was there from the start")
        for p in players:
            got = []
            while True:
                h = p.c.take(15)
                if len(h) < 15:
                    raise Violation("cut", f"the player's connection ends after {len(got)} tags")
                n = int.from_bytes(h[5:8], "big")
                b = p.c.take(n)
                k = idx.get(b)
                if k is None:
                    raise Violation("other bytes", f"a tag the publisher never sent: {b[:30]!r}")
                t = tags[k]
                if h != t.wire(p.prev)[:15]:
                    raise Violation("other bytes", f"tag {k} arrives with head {h.hex()}, expected {t.wire(p.prev)[:15].hex()}")
                p.prev = 11 + n
                got.append(t)
                if b == end:
                    break
            ks = [idx[t.body] for t in got]
            ok = False
            for j in range(len(tags) + 1):
                if ks == [idx[t.body] for t in snapshot(tags[:j])] + list(range(j, len(tags))):
                    ok = True
                    c.distinct("race", len(tags), j)
                    break
            if not ok:
                raise Violation("no join point", f"no join point explains what a player got: tags {ks[:60]} of {len(tags)}")
            c.count("racing joins explained")
    finally:
        if th.is_alive():
            th.join()
        pub.c.close()
        w.close()
        for p in players:
            p.close()


# ---------------------------------------------------------------- P15

LEAVE = ["fin", "rst", "garbage", "chunk", "badchunk", "length", "nohead", "shorttag"]


def leave(pub, how, rng):
    if how == "badchunk" and pub.framing == "chunked":
        pub.c.send(b"zz\r\nabc")
        pub.c.close()
    elif how == "shorttag":
        pub.raw(struct.pack(">I", pub.prev) + b"\x09\0\0\x01" + bytes(7) + b"\x17")
        pub.c.close()
    else:
        pub.end(how)


def p15(c, rng, i):
    s = c.need(conf)
    host = rng.choice(HOSTS)
    base = name(c, rng, i)
    path = base + ".flv"
    conns = []
    try:
        if i % 4 == 3:
            return p15_race(c, rng, i, s, host, path, conns)
        rounds = 1 + rng.randrange(4)
        hist = []
        for r in range(rounds):
            m = Media(rng)
            how = rng.choice(LEAVE)
            first = m.tags(rng.randrange(1, 15))
            if how == "length":
                total = 9 + sum(t.size() for t in first)
                pub = Publisher(s.port, host, path, rng, "length", total)
            elif how == "badchunk":
                pub = Publisher(s.port, host, path, rng, "chunked")
            else:
                pub = Publisher(s.port, host, path, rng)
            conns.append(pub.c)
            if how == "nohead":      # leaves before the stream has begun, or sends something else
                w = wait_player(s.port, host, path, rng)
                conns.append(w.c)
                if rng.random() < 0.5:
                    pub.raw(b"GIF89a this is no FLV")
                pub.c.close(rst=rng.random() < 0.3)
            else:
                w = wait_player(s.port, host, path, rng)
                conns.append(w.c)
                pub.start()
                k = rng.randrange(len(first)) if how != "length" else 0
                pub.send(first[:k])
                w.expect(first[:k])
                w.check("before the second publisher")
                # further publishers under the same name
                for _ in range(rng.choice([0, 1, 1, 2])):
                    alt = rng.choice([path, path + "?x=1", path + "?token=a.ts", base + ".ts"])
                    m2 = Media(rng)
                    p2 = Publisher(s.port, host, alt, rng)
                    conns.append(p2.c)
                    if rng.random() < 0.7:
                        p2.c.send(b"", None)
                        p2.start()
                        p2.send(m2.tags(3))
                    p2.c.eof = False
                    st = status(p2.c.head())
                    if st is not None and st < 400:
                        raise Violation("second publisher", f"status {st} for a second publisher of a running stream")
                    if st is not None:
                        # an error status is a refusal too
                        pass
                    elif not p2.c.eof:
                        raise Violation("second publisher", "not refused")
                    c.count("second publishers refused")
                pub.send(first[k:])
                w.expect(first[k:])
                w.check("the running stream with further publishers refused")
                leave(pub, how, rng)
            hist.append(how)
            # the name must be free again: a new publisher takes over, and players get its stream only
            t0 = time.time()
            while True:
                m3 = Media(rng)
                p3 = Publisher(s.port, host, path, rng, rng.choice(["raw", "chunked"]))
                conns.append(p3.c)
                p3.start()
                # refused while the server has not noticed yet that the first one left
                if not gone(p3.c):
                    break
                if time.time() - t0 > TMO:
                    raise Timeout("name not freed", f"the name stays taken {TMO} s after its publisher left ({how})")
                time.sleep(0.003)
            w3 = wait_player(s.port, host, path, rng)
            conns.append(w3.c)
            t3 = m3.tags(rng.randrange(1, 12))
            p3.send(t3)
            w3.expect(t3)
            w3.check(f"the stream published after the first publisher left ({how})")
            if not w.c.quiet(0.01):
                raise Violation("other stream", f"a player of the ended stream ({how}) gets bytes of its successor")
            c.count("names reused")
            p3.end("fin")
            # wait until it is gone before the next round
            t0 = time.time()
            while True:
                x = Player(s.port, host, path)
                conns.append(x.c)
                st = x.status()
                x.close()
                if st == 404:
                    break
                if st != 200:
                    raise Violation("play refused", f"status {st}")
                if time.time() - t0 > TMO:
                    raise Timeout("name not freed", "the stream is still there after its publisher left")
                time.sleep(0.003)
        c.distinct(host, rounds, *hist)
        if i < 12:
            c.samples.append(f"publishers leaving by {hist}, the name reused each time")
    finally:
        for x in conns:
            x.close()


def gone(conn, t=0.02):
    """the server closed this connection"""
    conn.s.settimeout(t)
    try:
        d = conn.s.recv(4096)
        if d:
            raise Violation("publisher answered", f"{d[:60]!r}")
        return True
    except socket.timeout:
        return False
    except OSError:
        return True


def p15_race(c, rng, i, s, host, path, conns):
    """several publishers at once: one and only one is taken"""
    n = 2 + rng.randrange(4)
    pubs, ms = [], []
    for _ in range(n):
        p = Publisher(s.port, host, path, rng, rng.choice(["raw", "chunked"]))
        conns.append(p.c)
        pubs.append(p)
        ms.append(Media(rng).tags(4))
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        pubs[k].start()
        if rng.random() < 0.5:
            time.sleep(rng.random() * 0.003)
    t0 = time.time()
    open_ = list(range(n))
    while len(open_) > 1:
        open_ = [k for k in open_ if not gone(pubs[k].c)]
        if time.time() - t0 > TMO:
            raise Timeout("two publishers", f"{len(open_)} publishers of one name stay connected")
    if not open_:
        raise Violation("no publisher", "every one of several simultaneous publishers was refused")
    k = open_[0]
    w = wait_player(s.port, host, path, rng)
    conns.append(w.c)
    pubs[k].send(ms[k])
    w.expect(ms[k])
    w.check("the stream of the publisher that was taken")
    if gone(pubs[k].c):
        raise Violation("no publisher", "the publisher that was taken is dropped")
    c.count("races of publishers")
    c.count("second publishers refused", n - 1)
    c.distinct("race", n, k)
    pubs[k].end("fin")


# ---------------------------------------------------------------- P16

def similar(rng, i):
    u = f"{rng.getrandbits(20):x}{i}"
    b = rng.choice(["live", "a", "app/live"])
    if rng.random() < 0.2:          # names that differ behind a long beginning
        b += "/" + "y" * rng.randrange(30, 400)
    l = [f"/{b}/{u}", f"/{b}/{u}1", f"/{b}/{u[:-1]}", f"/{b}/{u}/", f"/{b}/{u}/{u}", f"/{b}//{u}", f"/{b.upper()}/{u}", f"/{b}/{u}.flv",
         f"/{b}/{u}.ts", f"/{b}{u}", f"/{b}/{u}%2e", f"/{b}/{u}%20", f"/{u}/{b}", f"/{b}/.{u}", f"/{b}/{u}.", f"/{b}/{u}_flv", f"/{b}/{u}.flv.flv",
         f"/a.com/{b}/{u}", f"/{b}/{u}.b"]
    return list(dict.fromkeys(l))


def p16(c, rng, i):
    s = c.need(conf)
    names = similar(rng, i)
    keys = [(h, n) for h in rng.sample(HOSTS + ["x.wild.com", "y.wild.com"], 2) for n in names]
    rng.shuffle(keys)
    live = keys[:rng.randrange(2, 9)]
    idle = keys[len(live):len(live) + 4]
    pubs, players = [], []
    try:
        for h, n in live:
            p = Publisher(s.port, h, n + ".flv" + q(rng), rng, rng.choice(["raw", "chunked"]))
            w = wait_player(s.port, h, n + ".flv" + q(rng), rng)
            p.start()
            pubs.append((p, Media(rng), []))
            players.append((len(pubs) - 1, w))
        for r in range(1 + rng.randrange(4)):
            for k in range(len(pubs)):
                p, m, hist = pubs[k]
                t = m.tags(rng.choice([1, 3, 8]))
                if not p.send(t):
                    raise Violation("publisher dropped", f"of {live[k]}")
                hist += t
                for kk, w in players:
                    if kk == k:
                        w.expect(t)
            for k, w in players:
                w.check(f"a player of {live[k]} among {len(live)} streams {live}")
                c.count("players checked")
            for _ in range(rng.randrange(3)):
                k = rng.randrange(len(pubs))
                h, n = live[k]
                # the port in the Host header and the query do not matter
                w = Player(s.port, h + rng.choice(["", ":80", f":{s.port}"]), n + ".flv" + q(rng), rng)
                if w.open() != 200:
                    raise Violation("play refused", f"{live[k]} is being published")
                w.expect(snapshot(pubs[k][2]))
                w.check(f"a late player of {live[k]} among {live}")
                players.append((k, w))
                c.count("players checked")
            for h, n in idle:
                x = Player(s.port, h, n + ".flv", rng)
                st = x.status()
                x.close()
                if st != 404:
                    raise Violation("other stream", f"{(h, n)} is not published, yet a player gets status {st}; published: {live}")
                c.count("neighbours refused")
        c.distinct(tuple(sorted(live)))
        if i < 12:
            c.samples.append(f"{len(live)} streams such as {live[0]} {live[1]}, {len(players)} players")
    finally:
        for p, _, _ in pubs:
            p.c.close()
        for _, w in players:
            w.close()


# ---------------------------------------------------------------- P17

def p17(c, rng, i):
    s = c.need(conf)
    # a stream that nothing of this may disturb
    host, path = rng.choice(HOSTS), name(c, rng, i) + ".flv"
    pub = Publisher(s.port, host, path, rng, "chunked")
    w = wait_player(s.port, host, path, rng)
    m = Media(rng)
    h = []
    pub.start()
    try:
        kinds = []
        for _ in range(rng.randrange(3, 12)):
            k = rng.choice(["unknown host", "missing", "missing ts", "forbidden edge", "forbidden format", "forbidden none", "unknown format"])
            u = name(c, rng, i)
            x = Conn(s.port)
            extra = b""
            body = b""
            post = k.startswith("forbidden")
            target = u + ".flv"
            if k == "unknown host":
                hh = rng.choice(["nowhere.org", "com", "a.co", "aa.com", "a.comm", "wild.com", "b.a.com", "A.COM.ORG", "x.y.wild.com", "localhost", "10.0.0.1", "a.com.b", "-"])
                post = rng.random() < 0.4
                want = {404}
                if rng.random() < 0.3:
                    target = path        # of the running stream, on another host
            elif k == "missing":
                hh, want = rng.choice(HOSTS + ["local.com", "x.wild.com", "flvonly.com"]), {404}
                if hh != host and rng.random() < 0.5:
                    target = path
            elif k == "missing ts":
                hh, want = rng.choice(HOSTS), {404}
                target = u + rng.choice([".ts", ".mp4", "", ".FLV", "."])
            elif k == "forbidden edge":
                hh, want = rng.choice(["nopub.com", "nopub.com", "relay.com", "norole.com"]), {403}
                if rng.random() < 0.5:
                    target = path
            elif k == "forbidden format":
                hh, want = "flvonly.com", {403}
                target = u + rng.choice([".ts", ".mp4", "", ".fl", ".flvx", ".FLV"])
            elif k == "forbidden none":
                hh, want = "none.com", {403}
            else:
                hh, want = host, None      # publish in a format nobody can demux: refused, in whatever way
                post = True
                target = u + rng.choice([".mp4", ".fl", ".tsx", ".FLV"])
            if post:
                mode = rng.randrange(3)
                data = b"FLV\x01\x05\0\0\0\x09" + flv(m.tags(2))[0] if rng.random() < 0.7 else b""
                if mode == 0:
                    extra = b"Transfer-Encoding: chunked\r\n"
                    body = (b"%x\r\n" % len(data) + data + b"\r\n" if data else b"") + b"0\r\n\r\n"
                elif mode == 1:
                    extra = b"Content-Length: %d\r\n" % len(data)
                    body = data
                else:
                    body = data
            x.send(f"{'POST' if post else 'GET'} {target} HTTP/1.1\r\nHost: {hh}\r\n".encode() + extra + b"\r\n" + body, rng, quiet=True)
            hd = x.head()
            st = status(hd)
            if want is None:
                if st is not None and st < 400:
                    raise Violation("accepted", f"{k}: status {st}")
            else:
                if st not in want:
                    raise Violation("status", f"{k} ({'POST' if post else 'GET'} {hh}{target}): status {st}, expected {want}")
                b, whole = x.body(hd[1])
                if not whole:
                    raise Violation("refusal", f"{k}: the body of the refusal is cut")
            x.close()
            c.count(k)
            kinds.append(k)
            # no stream came into being
            y = Player(s.port, hh if k != "unknown host" else rng.choice(HOSTS), u + ".flv", rng)
            st = y.status()
            y.close()
            if st != 404:
                raise Violation("effect", f"after {k} a stream exists under its name (status {st})")
            t = m.tags(rng.choice([1, 4]))
            pub.send(t)
            h += t
            w.expect(t)
            w.check(f"a running stream after {k}")
        c.distinct(*kinds)
        if i < 12:
            c.samples.append(", ".join(kinds))
    finally:
        pub.c.close()
        w.close()


CASES = {"P14": p14, "P15": p15, "P16": p16, "P17": p17}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
