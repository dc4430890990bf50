"""P39: a configured server serves exactly what its configuration says, on exactly its ports, or does not start."""
import os, random, socket, ssl, struct, subprocess, tempfile, threading, time
import srv
from srv import *
import runner
from c_tls import crt, DER
from c_srt import Srt

NAMES = ["a.com", "b.com", "c.org", "a.b.com", "x.b.com", "*", "*.b.com", "*.com", "*.a.b.com", "localhost", "127.0.0.1", "A.com"]
PROBES = ["a.com", "b.com", "c.org", "a.b.com", "x.b.com", "y.b.com", "z.com", "q.a.b.com", "x.y.b.com", "localhost", "127.0.0.1", "nowhere.net", "com", "A.com", "default"]


class Echo:
    """upstreams that tell their own number and what they were asked"""
    def __init__(self, k, n):
        self.ports, self.ls = [], []
        for j in range(n):
            l = socket.socket()
            l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            while True:
                p = free_port(k)
                try:
                    l.bind(("127.0.0.1", p))
                    break
                except OSError:
                    pass
            l.listen(100)
            self.ports.append(p)
            self.ls.append(l)
            threading.Thread(target=self.accept, args=(l, j), daemon=True).start()

    def accept(self, l, j):
        while True:
            try:
                s, _ = l.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(s, j), daemon=True).start()

    def one(self, s, j):
        try:
            s.settimeout(TMO)
            b = b""
            while b"\r\n\r\n" not in b:
                d = s.recv(65536)
                if not d:
                    return
                b += d
            t = b.split(b" ", 2)[1]
            body = b"%d %s" % (j, t)
            s.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body))
            s.settimeout(2)
            s.recv(100)
        except (OSError, IndexError):
            pass
        finally:
            s.close()


def route(hosts, name):
    """exact, else the wildcard over the first label, else default, else none"""
    if name in hosts:
        return hosts[name]
    if "." in name:
        w = "*." + name.split(".", 1)[1]
        if w in hosts:
            return hosts[w]
    return hosts.get("*")


def listeners(pid):
    """(port, over UDP?) of all the process listens on"""
    ino = set()
    for f in os.listdir(f"/proc/{pid}/fd"):
        try:
            l = os.readlink(f"/proc/{pid}/fd/{f}")
        except OSError:
            continue
        if l.startswith("socket:["):
            ino.add(l[8:-1])
    out = set()
    for t in ("tcp", "tcp6", "udp", "udp6"):
        try:
            for l in open(f"/proc/{pid}/net/{t}").read().split("\n")[1:]:
                w = l.split()
                if len(w) > 9 and w[3] == ("0A" if t[0] == "t" else "07") and w[9] in ino:
                    out.add((int(w[1].rsplit(":", 1)[1], 16), t[0] == "u"))
        except OSError:
            pass
    return out


class SrtConn(Conn):
    """a client of a server over SRT"""
    def __init__(self, port):
        self.x = Srt(port, "")
        time.sleep(0.15)        # what libsrt gets while it completes the connection is lost until more is sent
        self.buf = self.x.buf
        self.eof = False
        self.total = 0

    def send(self, b, rng=None, quiet=False):
        i = 0
        while i < len(b):
            n = 1316 if rng is None else rng.randrange(1, 1317)
            if not self.x.send(b[i:i + n]):
                self.eof = True
                return False
            i += n
        return True

    def fill(self, tmo=None):
        r = self.x.fill(TMO if tmo is None else tmo)
        self.eof = self.x.eof
        return r

    def close(self, rst=False):
        self.x.close()


class Plan:
    """a random configuration and what it means"""
    def __init__(self, rng, ports, up):
        self.ports = {}             # (port, over UDP?) -> (transport, {host: upstream})
        self.dup = False
        nup = len(up)
        names = rng.sample(NAMES, rng.randrange(1, len(NAMES)))
        named = {}
        ups = []
        for j in range(nup):
            if rng.random() < 0.6:
                named[j] = rng.choice(["up", "u", "back-end", "x.y"]) + str(j)
                ups.append(f"upstream {named[j]} {{\n    server 127.0.0.1:{up[j]};\n    keepalive {rng.randrange(1, 99)};\n}}\n")

        def host(n, j):
            to = named[j] if j in named and rng.random() < 0.7 else f"127.0.0.1:{up[j]}"
            lines = [f"pass_proxy {to};", "type proxy;"]
            if rng.random() < 0.3:
                lines.append("role proxy;")
            if rng.random() < 0.2:
                lines.insert(0, f"# pass_proxy 127.0.0.1:1;")
            if rng.random() < 0.1:
                lines.insert(0, "pass_proxy 127.0.0.1:1;")      # written twice: the last one counts
            return f"    host {n} {{\n" + "".join(f"        {l}\n" for l in lines) + "    }\n"

        glob = {}
        gtext = []
        n_servers = rng.choice([1, 2, 2, 3, 4, 5, 6])
        kinds = ["tcp", "tcp", "tcp", "https", "srt"]
        tran = {p: rng.choice(kinds) for p in ports}
        few = rng.random() < 0.4        # most blocks share a port
        servers = [(ports[0] if few and rng.random() < 0.8 else rng.choice(ports), {}) for _ in range(n_servers)]
        trans = [rng.choice(kinds) if rng.random() < 0.06 else tran[p] for p, _ in servers]
        key = [(p, t == "srt") for (p, _), t in zip(servers, trans)]
        no_glob = rng.random() < 0.3
        for n in names:
            j = rng.randrange(nup)
            where = rng.randrange(n_servers + (not no_glob))
            if where == n_servers:
                glob[n] = j
            else:
                servers[where][1][n] = j
                if rng.random() < 0.15:         # the same name elsewhere, for another upstream
                    k = rng.randrange(n_servers)
                    if key[k] != key[where]:
                        servers[k][1][n] = rng.randrange(nup)
        if rng.random() < 0.2 and names:       # a name twice where it must not be
            n = rng.choice(names)
            if n in glob:
                servers[rng.randrange(n_servers)][1][n] = rng.randrange(nup)
                self.dup = True
            elif rng.random() < 0.5:
                glob[n] = rng.randrange(nup)
                self.dup = True
            else:                               # in two blocks of one port
                o = [q for q in range(n_servers) if n in servers[q][1]]
                t = [q for q in range(n_servers) if q not in o and key[q] == key[o[0]]]
                if t:
                    servers[rng.choice(t)][1][n] = rng.randrange(nup)
                    self.dup = True
        stext = []
        for q, (p, hs) in enumerate(servers):
            t, m = self.ports.setdefault(key[q], (trans[q], {}))
            if t != trans[q]:           # one port, two transports
                self.dup = True
            for n, j in hs.items():
                if n in m:
                    self.dup = True
                m[n] = j
            l = [f"listen_port {p};", f"transport {trans[q]};", "recv_timeout 20000000;", "send_timeout 20000000;"]
            if rng.random() < 0.3:
                l.append(f"backlog {rng.choice([16, 128, 1024])};")
            if rng.random() < 0.3:
                l.append("reuse_port " + rng.choice(["on", "off"]) + ";")
            if trans[q] == "https":
                l.append(crt("c"))
            rng.shuffle(l)
            stext.append(f"  server s{q} {{\n" + "".join(f"    {x}\n" for x in l) + "".join(host(n, j) for n, j in rng.sample(list(hs.items()), len(hs))) + "  }\n")
        for t, m in self.ports.values():
            for n, j in glob.items():
                if n in m and m[n] is not None:
                    self.dup = True
                m.setdefault(n, j)
        g = "globalhost {\n" + "".join(host(n, j) for n, j in glob.items()) + "}\n" if glob or rng.random() < 0.5 else ""
        cut = rng.randrange(0, n_servers + 1) if rng.random() < 0.3 else n_servers
        https = ["http {\n" + "".join(x) + "}\n" for x in (stext[:cut], stext[cut:]) if x]
        parts = ups[:]
        body = [g] + https if rng.random() < 0.7 else https + [g]
        self.text = "".join(parts + body)

    def table(self):
        return {p: (t, dict(m)) for p, (t, m) in self.ports.items()}


class Boot:
    """one start of the server in a directory of its own"""
    def __init__(self, binary, text, k, name="sps.conf", write=True):
        self.dir = tempfile.mkdtemp(prefix="spsd_")
        if write:
            open(os.path.join(self.dir, name), "w").write(text)
        self.errf = os.path.join(self.dir, "err")
        self.p = subprocess.Popen([binary, name], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.errf, "wb"),
                                  cwd=self.dir, env=runner.asan_env())

    def log(self):
        return open(self.errf, errors="replace").read()

    def check(self):
        if self.p.poll() is not None:
            log = self.log()
            raise Violation(runner.crash_key(log), f"the server ended (exit {self.p.returncode})\n{log[-4000:]}")

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def ends(b, why, text):
    """the server must end by itself, with an error and without a crash"""
    try:
        rc = b.p.wait(40)
    except subprocess.TimeoutExpired:
        raise Timeout("not refused", f"{why}, yet the server keeps running:\n{text}")
    log = b.log()
    if "AddressSanitizer" in log or "runtime error" in log or rc < 0:
        raise Violation(runner.crash_key(log), f"{why}: the server crashed (exit {rc})\n{log[-4000:]}\n{text}")
    if rc == 0:
        raise Violation("not refused", f"{why}, yet the server ends without an error:\n{text}")


def ask(c, port, tran, name, rng):
    x = SrtConn(port) if tran == "srt" else Conn(TlsPort(port, rng.choice([name, None])) if tran == "https" else port)
    try:
        if tran == "https" and x.cert != DER["c"]:
            raise Violation("certificate", "not the server's")
        t = f"/p{rng.getrandbits(32):x}"
        hv = name + rng.choice(["", "", f":{port}", ":80"])
        x.send(f"GET {t} HTTP/1.1\r\nHost: {hv}\r\n\r\n".encode(), rng)
        h = x.head()
        st = status(h)
        if st is None:
            return None, None
        b, whole = x.body(h[1])
        return st, (b, t.encode())
    finally:
        x.close()


def damage(rng, text):
    """one defect no configuration may have"""
    lines = text.split("\n")
    k = rng.randrange(7)
    if k == 5:
        i = [j for j, l in enumerate(lines) if l.strip().startswith("transport ")]
        lines[rng.choice(i)] = f"    transport {rng.choice(['quic', 'tpc', 'TCP', 'ssl', 'tcpp', 'tc', 'http', 'udp'])};"
        return "an unknown transport", "\n".join(lines)
    if k == 6:
        i = [j for j, l in enumerate(lines) if l.startswith("http {")]
        lines.insert(rng.choice(i) + 1, "host q.com {\n}")
        return "a block where it must not be", "\n".join(lines)
    if k == 0:
        i = [j for j, l in enumerate(lines) if l.strip() == "}"]
        del lines[rng.choice(i)]
        return "a block is not closed", "\n".join(lines)
    if k == 1:
        lines.insert(len(lines), "}")
        return "a block is closed that was never opened", "\n".join(lines) + "\n"
    if k == 2:
        i = [j for j, l in enumerate(lines) if l.strip().endswith(";") and "#" not in l]
        j = rng.choice(i)
        lines[j] = lines[j].rstrip()[:-1]
        return "a line without its end", "\n".join(lines)
    if k == 3:
        i = [j for j, l in enumerate(lines) if l.strip().startswith(("host ", "server s", "http {"))]
        j = rng.choice(i)
        lines[j] = lines[j].replace("host ", "hosst ", 1) if "host " in lines[j] else lines[j].replace("server s", "serverr s", 1) if "server" in lines[j] else lines[j].replace("http", "htttp", 1)
        return "an unknown block", "\n".join(lines)
    return "an empty file name", None


def p39(c, rng, i):
    e = c.state.get("echo")
    if e is None:
        e = c.state["echo"] = Echo(c.k, 4)
    ports = []
    while len(ports) < 3:
        p = free_port(c.k)
        if p not in ports and p not in e.ports:
            u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                u.bind(("0.0.0.0", p))
                ports.append(p)
            except OSError:
                pass
            u.close()
    plan = Plan(rng, ports, e.ports)
    kind = rng.random()
    if kind < 0.12:
        why, text = damage(rng, plan.text)
        b = Boot(c.binary, text or "", c.k, write=text is not None)
        try:
            ends(b, why, text or "")
            c.count("defects refused")
            c.count("refused: " + why)
            c.distinct("defect", why)
        finally:
            b.stop()
        return
    if kind < 0.2 and not plan.dup:
        p, udp = rng.choice(list(plan.ports))
        l = socket.socket(socket.AF_INET, socket.SOCK_DGRAM if udp else socket.SOCK_STREAM)
        try:
            l.bind(("0.0.0.0", p))
        except OSError:
            l.close()
            return
        if not udp:
            l.listen(5)
        b = Boot(c.binary, plan.text, c.k)
        try:
            ends(b, f"port {p} is taken", plan.text)
            c.count("taken ports refused")
        finally:
            b.stop()
            l.close()
        return
    b = Boot(c.binary, plan.text, c.k)
    try:
        if plan.dup:
            ends(b, "a host or a port is configured twice", plan.text)
            c.count("duplicates refused")
            return
        t0 = time.time()
        while listeners(b.p.pid) != set(plan.ports):
            if b.p.poll() is not None:
                log = b.log()
                raise Violation(runner.crash_key(log) if "Sanitizer" in log else "does not start", f"exit {b.p.returncode}\n{log[-2000:]}\n{plan.text}")
            if time.time() - t0 > 40:
                raise Timeout("ports", f"listens on {sorted(listeners(b.p.pid))}, configured: {sorted(plan.ports)}\n{plan.text}")
            time.sleep(0.01)
        c.count("servers started")
        for (p, udp), (t, m) in plan.table().items():
            for name in rng.sample(PROBES, 6):
                want = route(m, name)
                st, got = ask(c, p, t, name, rng)
                if want is None:
                    if st != 404:
                        raise Violation("no host", f"port {p}, host {name!r}: no block covers it, yet the answer is {st} {got}\n{plan.text}")
                    c.count("names without a host")
                else:
                    if st != 200 or got[0] != b"%d " % want + got[1]:
                        raise Violation("wrong host", f"port {p}, host {name!r}: expected upstream {want} ({e.ports[want]}), got {st} {got}\n{plan.text}")
                    c.count("names with a host")
                b.check()
            c.count({"https": "ports over TLS", "tcp": "ports in the clear", "srt": "ports over SRT"}[t])
            if (p, not udp) in plan.ports:
                c.count("ports of both TCP and UDP")
        if listeners(b.p.pid) != set(plan.ports):
            raise Violation("ports", f"listens on {sorted(listeners(b.p.pid))}, configured: {sorted(plan.ports)}\n{plan.text}")
        c.distinct(*[(t, tuple(sorted(m.items()))) for t, m in plan.ports.values()])
        if i < 12:
            c.samples.append(f"{len(plan.ports)} ports, hosts per port {[len(m) for _, m in plan.ports.values()]}")
    finally:
        b.stop()


CASES = {"P39": p39}


def run(pid, bins, seed, n, tier):
    return srv.run_pool(pid, bins["spsd"], seed, n, CASES[pid], tier)
