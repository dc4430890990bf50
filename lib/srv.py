"""Drives the real server (spsd) over loopback: process control, HTTP/FLV clients written from the protocol, a worker pool.

Every byte a client receives is compared with what the specification of the property says; the death of the server (sanitizer
report, crash, exit) is a violation by itself."""
import json, multiprocessing as mp, os, random, resource, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, time, traceback

import runner

TMO = 25.0      # a peer that has to answer and does not within this time is reported (after a rerun)


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, f"{key}: {msg}")
        self.key, self.msg = key, msg


class Timeout(Violation):
    """nothing came in time: rerun before it is believed"""


def free_port(k):
    """a port of this worker's own range, below the ephemeral ports"""
    for _ in range(400):
        p = 20000 + k * 1400 + random.SystemRandom().randrange(1400)
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise RuntimeError("no free port")


class Server:
    def __init__(self, binary, conf, k, nofile=None, extra_ports=0):
        """conf(port) -> text of the configuration"""
        self.binary, self.k, self.nofile = binary, k, nofile
        for attempt in range(5):
            self.dir = tempfile.mkdtemp(prefix="spsd_")
            self.port = free_port(k)
            self.text = conf(self.port)
            cf = os.path.join(self.dir, "sps.conf")
            open(cf, "w").write(self.text)
            self.errf = os.path.join(self.dir, "err")
            ri, self.wi = os.pipe()
            self.ro, wo = os.pipe()
            env = runner.asan_env()
            env["SPSD_IN"], env["SPSD_OUT"] = str(ri), str(wo)

            def pre():
                hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
                resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile) if nofile else (hard, hard))
            self.p = subprocess.Popen([binary, "sps.conf"], stdin=subprocess.DEVNULL, 
                                      stdout=open(f"{os.environ['SPSD_LOG']}.{k}", "wb") if "SPSD_LOG" in os.environ else subprocess.DEVNULL,
                                      stderr=open(self.errf, "wb"), cwd=self.dir, env=env, pass_fds=(ri, wo), preexec_fn=pre)
            os.close(ri)
            os.close(wo)
            if self.wait_port(self.port):
                return
            rc = self.p.poll()
            log = self.log()
            self.stop()
            if rc is not None and ("AddressSanitizer" in log or "runtime error" in log):
                raise Violation(runner.crash_key(log), "the server died while starting: " + log[-3000:])
        raise RuntimeError(f"the server does not start (exit {rc}):\n{log[-2000:]}\n{self.text}")

    def wait_port(self, port, tmo=60):
        t0 = time.time()
        while time.time() - t0 < tmo:
            if self.p.poll() is not None:
                return False
            try:
                socket.create_connection(("127.0.0.1", port), 1).close()
                return True
            except OSError:
                time.sleep(0.02)
        return False

    def log(self):
        try:
            return open(self.errf, errors="replace").read()
        except OSError:
            return ""

    def alive(self):
        return self.p.poll() is None

    def check(self):
        if not self.alive():
            log = self.log()
            raise Violation(runner.crash_key(log), f"the server died (exit {self.p.returncode})\n{log[-5000:]}")

    def allocated(self):
        os.write(self.wi, b"x")
        return int(os.read(self.ro, 64))

    def fds(self):
        try:
            return len(os.listdir(f"/proc/{self.p.pid}/fd"))
        except OSError:
            return -1

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for f in (self.wi, self.ro):
            try:
                os.close(f)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- clients

class TlsPort(int):
    """a port that speaks TLS; name: the host the client names (SNI), or None"""
    name = None

    def __new__(cls, port, name=None):
        p = int.__new__(cls, port)
        p.name = name
        return p


def tls_context(version=ssl.TLSVersion.TLSv1_2):
    x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    x.check_hostname = False
    x.verify_mode = ssl.CERT_NONE
    x.minimum_version = x.maximum_version = version
    return x


class Conn:
    """a client connection with its own receive buffer"""
    def __init__(self, port, rcvbuf=None, tmo=TMO):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(tmo)
        try:
            self.s.connect(("127.0.0.1", port))
        except socket.timeout:
            raise Timeout("no connection", "the server does not accept")
        except OSError as e:
            raise Violation("refused connection", str(e))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.cert = None
        if isinstance(port, TlsPort):
            try:
                self.s = tls_context().wrap_socket(self.s, server_hostname=port.name)
            except socket.timeout:
                raise Timeout("no handshake", "the server does not answer the TLS handshake")
            except OSError as e:
                raise Violation("handshake refused", f"the TLS handshake fails: {e}")
            self.cert = self.s.getpeercert(True)
        self.buf = bytearray()
        self.eof = False
        self.total = 0

    def send(self, b, rng=None, quiet=False):
        """sends everything, cut into random segments when there is a generator"""
        try:
            if rng is None or rng.random() < 0.3:
                self.s.sendall(b)
                return True
            i, mode = 0, rng.randrange(4)
            while i < len(b):
                n = {0: 1 + rng.randrange(8), 1: 1 + rng.randrange(200), 2: 1 + rng.randrange(4000), 3: 1 + rng.randrange(60000)}[
                    mode if len(b) - i < 4000 or mode > 1 else 2]
                self.s.sendall(b[i:i + n])
                i += n
                if rng.random() < 0.05:
                    time.sleep(rng.random() * 0.002)
            return True
        except OSError:
            if not quiet:
                self.eof = True
            return False

    def fill(self, tmo=None):
        """one receive; False at the end of the stream"""
        if self.eof:
            return False
        self.s.settimeout(TMO if tmo is None else tmo)
        try:
            d = self.s.recv(262144)
        except socket.timeout:
            raise Timeout("no answer", f"nothing within {TMO if tmo is None else tmo} s after {self.total} bytes")
        except OSError:
            d = b""
        if not d:
            self.eof = True
            return False
        self.buf += d
        self.total += len(d)
        return True

    def take(self, n, tmo=None):
        """exactly n bytes, fewer at the end of the stream"""
        while len(self.buf) < n and self.fill(tmo):
            pass
        r = bytes(self.buf[:n])
        del self.buf[:n]
        return r

    def line(self):
        while b"\r\n" not in self.buf:
            if not self.fill():
                return None
        i = self.buf.index(b"\r\n")
        r = bytes(self.buf[:i])
        del self.buf[:i + 2]
        return r

    def head(self):
        """-> (status line, [(name, value)]) or None when the peer closed first"""
        while b"\r\n\r\n" not in self.buf:
            if len(self.buf) > 65536:
                raise Violation("head", "no end of the head within 64 KiB")
            if not self.fill():
                if self.buf:
                    raise Violation("truncated head", f"the connection ends inside a head: {bytes(self.buf[:200])!r}")
                return None
        i = self.buf.index(b"\r\n\r\n")
        h = bytes(self.buf[:i])
        del self.buf[:i + 4]
        lines = h.split(b"\r\n")
        hs = []
        for l in lines[1:]:
            if b":" not in l:
                raise Violation("head", f"header line without colon: {l!r}")
            a, b = l.split(b":", 1)
            hs.append((a.decode("latin1"), b.strip().decode("latin1")))
        return lines[0].decode("latin1"), hs

    def body(self, hs, no_body=False):
        """the body the head announces -> (bytes, complete?)"""
        if no_body:
            return b"", True
        te = [v for k, v in hs if k.lower() == "transfer-encoding"]
        cl = [v for k, v in hs if k.lower() == "content-length"]
        if te:
            if te != ["chunked"]:
                raise Violation("framing", f"Transfer-Encoding {te}")
            if cl:
                raise Violation("framing", "both Content-Length and Transfer-Encoding")
            out = b""
            while True:
                l = self.line()
                if l is None:
                    return out, False
                n = int(l, 16)
                d = self.take(n)
                out += d
                if len(d) < n:
                    return out, False
                if self.take(2) != b"\r\n":
                    return out, False
                if n == 0:
                    return out, True
        if cl:
            if len(set(cl)) != 1 or len(cl) != 1:
                raise Violation("framing", f"Content-Length {cl}")
            d = self.take(int(cl[0]))
            return d, len(d) == int(cl[0])
        out = b""
        while self.fill():
            pass
        out = bytes(self.buf)
        self.buf.clear()
        return out, True

    def close(self, rst=False):
        try:
            if rst:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
        except OSError:
            pass

    def quiet(self, t=0.05):
        """nothing more arrives within t"""
        if self.buf:
            return False
        self.s.settimeout(t)
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return True
        except OSError:
            self.eof = True
            return True
        if not d:
            self.eof = True
            return True
        self.buf += d
        return False


def status(h):
    if h is None:
        return None
    p = h[0].split(" ", 2)
    if len(p) < 2 or not p[0].startswith("HTTP/1.") or not p[1].isdigit() or len(p[1]) != 3:
        raise Violation("status line", repr(h[0]))
    return int(p[1])


# ---------------------------------------------------------------- FLV reference

class Tag:
    __slots__ = ("type", "ts", "body", "cls")

    def __init__(self, type, ts, body):
        self.type, self.ts, self.body = type, ts, body
        if type == 18:
            self.cls = "meta"
        elif type == 8:
            self.cls = "ahdr" if body[1] == 0 else "media"
        else:
            info = body[0] >> 4 == 5
            self.cls = "vhdr" if not info and body[1] == 0 else "key" if body[0] >> 4 == 1 else "media"

    def wire(self, prev):
        return struct.pack(">I", prev & 0xffffffff) + struct.pack(">I", self.type << 24 | len(self.body)) + \
            struct.pack(">I", (self.ts & 0xffffff) << 8 | (self.ts >> 24 & 255)) + b"\0\0\0" + self.body

    def size(self):
        return 15 + len(self.body)


def flv(tags, prev=0):
    out = bytearray()
    for t in tags:
        out += t.wire(prev)
        prev = 11 + len(t.body)
    return bytes(out), prev


FLVHEAD = b"FLV\x01\x05\0\0\0\x09"


class Media:
    """an endless supply of tags, each with a payload of its own"""
    def __init__(self, rng, big=False):
        self.rng, self.clock, self.n, self.big = rng, 0, 0, big
        self.id = rng.getrandbits(64)
        self.style = rng.randrange(5)   # 0-2 mixed, 3 audio only, 4 never a key frame

    def tag(self):
        r = self.rng
        self.clock += r.randrange(60)
        ts = self.clock if r.random() < 0.9 else r.choice([0, 0xffffff, 0x1000000, 0x7fffffff, r.getrandbits(31)])
        m = r.random()
        size = r.choice([0, 1, 5, 30, 200, 200, 1000, 1400, 5000])
        if self.big and r.random() < 0.05:
            size = r.choice([16384, 65536, 70000, 200000, 900000])
        self.n += 1
        pay = struct.pack(">QI", self.id, self.n) + r.randbytes(r.randrange(size + 1))
        k = r.randrange(20)
        if self.style == 3:
            k = k % 8
        if k < 1:
            return Tag(18, ts, pay)
        if k < 8:
            return Tag(8, ts, bytes([0xA0 | r.randrange(16), 0 if r.random() < 0.1 else 1]) + pay)
        ft = r.choice([1, 2, 2, 2, 2, 2, 3, 4, 5])
        if self.style == 4 and ft == 1:
            ft = 2
        codec = r.choice([7, 7, 12])
        if ft == 5:
            return Tag(9, ts, bytes([ft << 4 | codec]) + pay)
        pt = 0 if r.random() < 0.08 else 1
        cts = r.choice([0, 0, 40, 80, r.getrandbits(24)])
        return Tag(9, ts, bytes([ft << 4 | codec, pt]) + cts.to_bytes(3, "big") + pay)

    def tags(self, n):
        return [self.tag() for _ in range(n)]


def snapshot(h):
    """what a player that joins after h gets at once"""
    m = a = v = k = None
    for i, t in enumerate(h):
        if t.cls == "meta":
            m = t
        elif t.cls == "ahdr":
            a = t
        elif t.cls == "vhdr":
            v = t
        elif t.cls == "key":
            k = i
    o = [t for t in (m, a, v) if t]
    if k is not None:
        o += [t for t in h[k:] if t.cls in ("key", "media")]
    return o


class Publisher:
    """POSTs a stream; framing: raw (until close), chunked, length"""
    def __init__(self, port, host, path, rng, framing=None, total=None, extra=()):
        self.rng = rng
        self.c = Conn(port)
        self.framing = framing or rng.choice(["raw", "chunked", "chunked"])
        hs = [("Host", host)]
        if self.framing == "chunked":
            hs.append(("Transfer-Encoding", "chunked"))
        elif self.framing == "length":
            hs.append(("Content-Length", str(total)))
        hs += list(extra)
        if rng.random() < 0.3:
            hs.append(("User-Agent", "verif/1"))
        hs = hs[:1] + rng.sample(hs[1:], len(hs) - 1)
        req = f"POST {path} HTTP/1.1\r\n" + "".join(f"{k}: {v}\r\n" for k, v in hs) + "\r\n"
        self.c.send(req.encode(), rng)
        self.prev = 0
        self.started = False

    def raw(self, b):
        if self.framing == "chunked":
            i, o = 0, bytearray()
            while i < len(b):
                n = self.rng.choice([1, 3, 16, 100, 1000, 4096, 70000, len(b)])
                d = b[i:i + n]
                o += b"%x\r\n" % len(d) + d + b"\r\n"
                i += n
            b = bytes(o)
        return self.c.send(b, self.rng)

    def start(self, flags=5):
        self.started = True
        return self.raw(b"FLV\x01" + bytes([flags]) + b"\0\0\0\x09")

    def send(self, tags, wrong_prev=False):
        b, self.prev = flv(tags, self.prev if not wrong_prev else self.rng.getrandbits(32))
        return self.raw(b)

    def end(self, how="fin"):
        if how == "chunk" and self.framing == "chunked":
            self.c.send(b"0\r\n\r\n")
        elif how == "rst":
            self.c.close(rst=True)
            return
        elif how == "garbage":
            self.raw(struct.pack(">I", self.prev) + b"\x63" + bytes(10) + b"not a tag at all")
        self.c.close()


class Player:
    """GETs a stream; checks every byte it gets against what it must get"""
    def __init__(self, port, host, path, rng=None, extra=b"", rcvbuf=None):
        self.c = Conn(port, rcvbuf=rcvbuf)
        self.c.send(f"GET {path} HTTP/1.1\r\nHost: {host}\r\n".encode() + extra + b"\r\n", rng)
        self.want = bytearray()     # bytes of the stream still to come
        self.prev = 0
        self.got = 0

    def status(self):
        h = self.c.head()
        self.hs = h[1] if h else []
        return status(h)

    def open(self):
        """the player must be served: 200 and the FLV header"""
        s = self.status()
        if s != 200:
            return s
        for k, v in self.hs:
            if k.lower() in ("content-length", "transfer-encoding"):
                raise Violation("player head", f"{k}: {v} on a live stream")
        h = self.c.take(9)
        if h != FLVHEAD:
            raise Violation("FLV header", f"the player gets {h!r}")
        return 200

    def expect(self, tags):
        b, self.prev = flv(tags, self.prev)
        self.want += b

    def check(self, what):
        """reads until everything expected is there, byte by byte the same"""
        while self.want:
            if not self.c.buf:
                try:
                    ok = self.c.fill()
                except Timeout:
                    raise Timeout("missing", f"{what}: {len(self.want)} bytes of the stream do not arrive (after {self.got})")
                if not ok:
                    raise Violation("cut", f"{what}: the connection ends with {len(self.want)} bytes of the stream missing (after {self.got})")
            n = min(len(self.c.buf), len(self.want))
            if self.c.buf[:n] != self.want[:n]:
                i = next(j for j in range(n) if self.c.buf[j] != self.want[j])
                raise Violation("other bytes", f"{what}: byte {self.got + i} differs: got {bytes(self.c.buf[i:i+24])!r}, expected {bytes(self.want[i:i+24])!r}")
            del self.c.buf[:n]
            del self.want[:n]
            self.got += n
        if self.c.buf:
            raise Violation("extra bytes", f"{what}: bytes that are not of the stream: {bytes(self.c.buf[:40])!r}")

    def drain_tags(self, until):
        """reads tags until one with the body 'until' arrives -> list of Tag"""
        out = []
        while True:
            h = self.c.take(15)
            if len(h) < 15:
                raise Violation("cut", f"the connection ends after {len(out)} tags")
            n = int.from_bytes(h[5:8], "big")
            b = self.c.take(n)
            if len(b) < n:
                raise Violation("cut", f"the connection ends inside tag {len(out)}")
            if int.from_bytes(h[0:4], "big") != self.prev:
                raise Violation("previous tag size", f"tag {len(out)}: {int.from_bytes(h[0:4], 'big')}, {self.prev} expected")
            self.prev = 11 + n
            t = Tag(h[4], int.from_bytes(h[8:11], "big") | h[11] << 24, b)
            out.append(t)
            if b == until:
                return out

    def close(self, rst=False):
        self.c.close(rst)


def wait_player(port, host, path, rng, tmo=TMO, **kw):
    """a player of a stream that is being published: the publisher's head may still be on its way"""
    t0 = time.time()
    while True:
        p = Player(port, host, path, rng, **kw)
        s = p.open()
        if s == 200:
            return p
        p.close()
        if s != 404:
            raise Violation("play refused", f"status {s} for a published stream")
        if time.time() - t0 > tmo:
            raise Timeout("play refused", f"404 for {tmo} s while the stream is published")
        time.sleep(0.003)


# ---------------------------------------------------------------- worker pool

class Ctx:
    def __init__(self, k, binary, pid):
        self.k, self.binary, self.pid = k, binary, pid
        self.server = None
        self.conf = None
        self.counters, self.nontrivial, self.samples, self.notes = {}, set(), [], []
        self.evaluations = 0
        self.state = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
        self.evaluations += n

    def distinct(self, *x):
        self.nontrivial.add(hash(repr(x)) & 0xffffffffffff)

    def need(self, conf, **kw):
        """the server of this worker, started with conf if it is not running"""
        if self.server and self.server.alive() and self.server.fds() > 600:
            # it uses select() and takes 1024 descriptors at most; those of players whose publisher left are held for 10 s
            self.drop()
        if self.server is None:
            self.server = Server(self.binary, conf, self.k, **kw)
        return self.server

    def drop(self):
        if self.server:
            self.server.stop()
            self.server = None


def _worker(k, workers, binary, pid, seed, n, case, setup, deadline, q):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    c = Ctx(k, binary, pid)
    findings, cases = [], 0
    try:
        i = k
        while i < n and time.time() < deadline:
            tries = 0
            while True:
                rng = random.Random(f"{seed}/{pid}/{i}")
                err = None
                try:
                    c.case = i
                    case(c, rng, i)
                    if c.server:
                        c.server.check()
                except Violation as e:
                    err = e
                    if c.server and not c.server.alive():
                        log = c.server.log()
                        err = Violation(runner.crash_key(log), f"the server died (exit {c.server.p.returncode}); seen by the client: {e}\n{log[-5000:]}")
                if err is None:
                    if 0 < tries < 6:
                        tries += 1
                        continue
                    if tries:
                        c.notes.append(f"case {i} timed out once, passed when rerun: {timed_out.msg[:200]}")
                    break
                c.drop()
                c.state.clear()
                tries += 1
                if isinstance(err, Timeout) and tries == 1:
                    # inconclusive: the machine may have been busy. Believed when it happens again in five more runs.
                    timed_out = err
                    continue
                findings.append((err.key, f"case {i}: {err.msg}", i))
                break
            cases += 1
            if len(findings) >= 3:
                break
            i += workers
        done = True
    except Exception:
        q.put((k, {"error": traceback.format_exc()}))
        c.drop()
        return
    c.drop()
    q.put((k, {"findings": findings, "cases": cases, "counters": c.counters, "nontrivial": list(c.nontrivial),
               "samples": c.samples[:3], "notes": c.notes, "evaluations": c.evaluations}))


def run_pool(pid, binary, seed, n, case, tier, workers=8, wall=None):
    os.environ["PYTHONHASHSEED"] = "0"
    res = runner.Result()
    wall = wall or (500 if tier == "quick" else 5 * 3600)
    deadline = time.time() + wall
    q = mp.get_context("fork").Queue()
    ps = [mp.get_context("fork").Process(target=_worker, args=(k, workers, binary, pid, seed, n, case, None, deadline, q))
          for k in range(min(workers, n))]
    for p in ps:
        p.start()
    outs = []
    for _ in ps:
        outs.append(q.get(timeout=wall + 330))
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    for k, o in sorted(outs):
        if "error" in o:
            raise RuntimeError(o["error"])
        for key, text, i in o["findings"]:
            info = f"rerun: python3 run.py {pid} {tier} (seed {seed}), case {i}; alone: python3 lib/one.py {pid} {seed} {i}"
            res.findings.append(runner.Finding(key, text, runner.replay_file(pid, key, text, info)))
        res.cases += o["cases"]
        res.evaluations += o["evaluations"]
        res.nontrivial |= set(o["nontrivial"])
        for a, b in o["counters"].items():
            res.counters[a] = res.counters.get(a, 0) + b
        res.notes += o["notes"]
        if len(res.samples) < 6:
            res.samples += o["samples"][:2]
    if res.cases < n and not res.findings:
        res.notes.append(f"{res.cases} of {n} cases within the time limit")
    return res
