// P27 TCP, P28 TLS, P29 UDP: the real sockets over the loopback, and TLS over a pipe of the harness that cuts, alters
// and breaks off the ciphertext. The peers are plain sockets and a TLS engine driven by the harness.
#include "vh.hpp"
#include "io_sched.hpp"
#include "st_util.hpp"
#include <arpa/inet.h>
#include <deque>
#include <netinet/tcp.h>
#include <dirent.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <sys/socket.h>

#include <sps_io_socket.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_io_ssl.hpp>
#include <sps_sys_st_io_tcp.hpp>
#include <sps_sys_st_io_udp.hpp>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace vh;
using namespace sps;

namespace {

const utime_t LONG = 10000000;
const utime_t OTHER = 40000000;         // the timeout of the other direction

uint64_t now_us() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}

sockaddr_in addr4(const std::string& ip, int port) {
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = inet_addr(ip.c_str());
    a.sin_port = htons(port);
    return a;
}

int probe_port(int type) {
    int fd = socket(AF_INET, type, 0);
    sockaddr_in a = addr4("0.0.0.0", 0);
    socklen_t l = sizeof a;
    if (fd < 0 || bind(fd, (sockaddr*) &a, sizeof a) || getsockname(fd, (sockaddr*) &a, &l)) { perror("VH: port"); _exit(96); }
    close(fd);
    return ntohs(a.sin_port);
}

// a listening sps server socket on a free port
template <class S> int listen_free(S& s, int type) {
    for (int i = 0; i < 50; ++i) {
        int port = probe_port(type);
        if (s->listen("", port, false, 64) == SUCCESS) return port;
    }
    fprintf(stderr, "VH: no free port\n");
    _exit(96);
}

st_netfd_t dial(const std::string& from, int port, int* local, int rcvbuf = 0) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a = addr4(from, 0);
    socklen_t l = sizeof a;
    if (bind(fd, (sockaddr*) &a, sizeof a)) { perror("VH: bind"); _exit(96); }
    st_netfd_t s = st_netfd_open_socket(fd);
    sockaddr_in t = addr4("127.0.0.1", port);
    if (st_connect(s, (sockaddr*) &t, sizeof t, LONG) == -1) {
        if (errno == EINTR) fail("aborted", "another part of the case failed");
        perror("VH: connect");
        _exit(96);
    }
    getsockname(fd, (sockaddr*) &a, &l);
    if (local) *local = ntohs(a.sin_port);
    return s;
}

// sends in pieces, with pauses of the scheduler in between
bool raw_send(st_netfd_t s, const Bytes& d, Rng& r) {
    size_t at = 0;
    int style = r.next() % 4;
    while (at < d.size()) {
        size_t k = style == 0 ? d.size() : style == 1 ? 1 + r.size(5) : style == 2 ? 1 + r.size(1500) : 1 + r.size(60000);
        if (style == 1 && at > 500) k = 9000;
        k = std::min(k, d.size() - at);
        if (st_write(s, &d[at], k, LONG) != (ssize_t) k) return false;
        at += k;
        if (r.chance(1, 2)) yield();
    }
    return true;
}
Bytes raw_recv_all(st_netfd_t s, Rng& r, size_t limit = (size_t) -1) {
    Bytes d;
    std::vector<uint8_t> b(70000);
    while (d.size() < limit) {
        ssize_t k = st_read(s, &b[0], std::min<size_t>(limit - d.size(), 1 + r.size(69000)), LONG);
        if (k <= 0) break;
        d.insert(d.end(), b.begin(), b.begin() + k);
        if (r.chance(1, 3)) yield();
    }
    return d;
}

bool is_prefix(const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

// reads through the interface under test until an error, with exact-size buffers
struct Got { Bytes d; error_t last = 0; uint64_t n = 0; };
Got sps_recv(IReader& s, Rng& r, size_t limit, bool full) {
    Got g;
    int style = r.next() % 3;
    while (g.d.size() < limit) {
        size_t k = style == 0 ? 4096 : style == 1 ? 1 + r.next() % 40 : 1 + r.size(70000);
        k = std::min(k, limit - g.d.size());
        if (style == 1 && g.d.size() > 3000) style = 2;
        Exact e(k);
        error_t ret;
        size_t nr = 0;
        if (full) {
            ssize_t fr = 0;
            ret = s.read_fully(e.p, k, &fr);
            nr = k;
        } else {
            ret = s.read(e.p, k, nr);
        }
        ++g.n;
        if (ret != SUCCESS) { g.last = ret; return g; }
        VH_CHECK(nr >= 1 && nr <= k, "read-size", "a read of %zu bytes gives %zu", k, nr);
        g.d.insert(g.d.end(), e.p, e.p + nr);
        if (r.chance(1, 3)) yield();
    }
    return g;
}
void sps_send(IWriter& s, const Bytes& d, Rng& r, const char* what) {
    size_t at = 0;
    int style = r.next() % 3;
    while (at < d.size()) {
        size_t k = style == 0 ? d.size() : style == 1 ? 1 + r.size(900) : 1 + r.size(50000);
        k = std::min(k, d.size() - at);
        Exact e(k);
        memcpy(e.p, &d[at], k);
        error_t ret = s.write(e.p, k);
        VH_CHECK(ret == SUCCESS, "write-failed", "%s: a write of %zu bytes fails with %d though the peer reads", what, k, ret);
        at += k;
        if (r.chance(1, 3)) yield();
    }
}

// --------------------------------------------------------------------------- TCP
struct TcpServer { PIServerSocket s; int port = 0; };
TcpServer& tcp_server() {
    static TcpServer* t = nullptr;
    if (!t) {
        t = new TcpServer;
        t->s = SingleInstance<ServerSocketFactory>::get_instance().create_ss(Transport::TCP);
        t->port = listen_free(t->s, SOCK_STREAM);
    }
    return *t;
}

struct Pair { PSocket sps; st_netfd_t raw = nullptr; };

// a connection with the socket under test at one end: accepted by it, or opened by it
Pair connect_pair(Ctx& c, bool accepted, int rcvbuf = 0) {
    Rng& r = c.rng;
    Pair p;
    auto& ts = tcp_server();
    if (accepted) {
        std::string from = "127.0." + std::to_string(r.next() % 3) + "." + std::to_string(1 + r.next() % 200);
        int local = 0;
        Group g;
        g.go([&]() { p.raw = dial(from, ts.port, &local, rcvbuf); });
        g.go([&]() { p.sps = ts.s->accept(); });
        g.join();
        VH_CHECK(p.sps != nullptr, "accept", "a connection is not accepted");
        VH_CHECK(p.sps->get_peer_ip() == from && p.sps->get_peer_port() == local, "peer-address", "a peer at %s:%d is said to be at %s:%d",
                 from.c_str(), local, p.sps->get_peer_ip().c_str(), p.sps->get_peer_port());
        VH_CHECK(p.sps->get_self_ip() == "127.0.0.1" && p.sps->get_self_port() == ts.port, "self-address", "the connection to 127.0.0.1:%d is said to end at %s:%d",
                 ts.port, p.sps->get_self_ip().c_str(), p.sps->get_self_port());
        c.count("accepted connections");
    } else {
        int lfd = socket(AF_INET, SOCK_STREAM, 0);
        if (rcvbuf) setsockopt(lfd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        sockaddr_in a = addr4("127.0.0.1", 0);
        socklen_t l = sizeof a;
        if (bind(lfd, (sockaddr*) &a, sizeof a) || listen(lfd, 4) || getsockname(lfd, (sockaddr*) &a, &l)) { perror("VH: listen"); _exit(96); }
        st_netfd_t ln = st_netfd_open_socket(lfd);
        int port = ntohs(a.sin_port);
        Group g;
        g.go([&]() { p.sps = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, "127.0.0.1", port, 5000000); });
        g.go([&]() { sockaddr_in b; int bl = sizeof b; p.raw = st_accept(ln, (sockaddr*) &b, &bl, LONG); });
        g.join();
        st_netfd_close(ln);
        VH_CHECK(p.sps != nullptr && p.raw, "connect", "a connection to a listening port fails");
        VH_CHECK(p.sps->get_peer_ip() == "127.0.0.1" && p.sps->get_peer_port() == port, "peer-address", "the peer is said to be at %s:%d",
                 p.sps->get_peer_ip().c_str(), p.sps->get_peer_port());
        c.count("opened connections");
    }
    return p;
}

void tcp_duplex(Ctx& c, Rng r0) {
    // several connections at once, both directions of each
    int n = 1 + r0.next() % 4;
    struct One { Pair p; Bytes in, out, got_raw; Got got; Rng a{1}, b{1}, d{1}, e{1}; bool full = false; };
    std::vector<One> cs(n);
    for (auto& o : cs) {
        o.p = connect_pair(c, r0.chance(1, 2));
        o.in = r0.bytes(r0.chance(1, 8) ? r0.size(400000) : r0.size(20000));
        o.out = r0.bytes(r0.chance(1, 8) ? r0.size(400000) : r0.size(20000));
        o.a = Rng(r0.next()); o.b = Rng(r0.next()); o.d = Rng(r0.next()); o.e = Rng(r0.next());
        o.full = r0.chance(1, 3);
        o.p.sps->set_recv_timeout(LONG);
        o.p.sps->set_send_timeout(LONG);
        VH_CHECK(o.p.sps->get_recv_timeout() == LONG && o.p.sps->get_send_timeout() == LONG, "timeout-setting", "a timeout that was set is not in force");
    }
    Group g;
    for (auto& o : cs) {
        auto* p = &o;
        g.go([p]() { raw_send(p->p.raw, p->in, p->a); shutdown(st_netfd_fileno(p->p.raw), SHUT_WR); });
        g.go([p]() { p->got_raw = raw_recv_all(p->p.raw, p->b, p->out.size()); });
        g.go([p]() { p->got = sps_recv(*p->p.sps, p->d, p->in.size(), p->full); if (p->got.d.size() == p->in.size()) { uint8_t b[9]; size_t nr = 0; error_t e = p->p.sps->read(b, 9, nr); VH_CHECK(e == ERROR_SOCKET_CLOSED, "end", "a read behind the end gives %d, %zu bytes", e, nr); } });
        g.go([p]() { sps_send(*p->p.sps, p->out, p->e, "tcp"); });
    }
    g.join();
    for (auto& o : cs) {
        VH_CHECK(o.got.d == o.in, "bytes", "%zu bytes were sent, %zu arrived (last result %d), same so far: %d", o.in.size(), o.got.d.size(), o.got.last, (int) is_prefix(o.got.d, o.in));
        VH_CHECK(o.got_raw == o.out, "bytes", "%zu bytes were written, %zu arrived, same so far: %d", o.out.size(), o.got_raw.size(), (int) is_prefix(o.got_raw, o.out));
        c.count("bytes received", o.in.size());
        c.count("bytes sent", o.got_raw.size());
        c.distinct("nontrivial", o.in.size() * 1000003u + o.out.size() * 17 + o.got.n);
        o.p.sps.reset();
        st_netfd_close(o.p.raw);
    }
}

// everything written arrives, and closing is seen by the peer
void tcp_whole(Ctx& c) {
    Rng& r = c.rng;
    Pair p = connect_pair(c, r.chance(1, 2));
    p.sps->set_send_timeout(LONG);
    p.sps->set_recv_timeout(LONG);
    Bytes out = r.bytes(r.chance(1, 4) ? r.size(1500000) : r.size(50000)), got;
    Rng a(r.next()), b(r.next());
    Group g;
    g.go([&]() { sps_send(*p.sps, out, a, "tcp"); p.sps.reset(); });
    g.go([&]() { got = raw_recv_all(p.raw, b); });
    g.join();
    VH_CHECK(got == out, "bytes", "%zu bytes were written before the close, %zu arrived", out.size(), got.size());
    c.count("written to the end");
    c.count("bytes sent", got.size());
    c.distinct("nontrivial", out.size() * 31 + 7);
    st_netfd_close(p.raw);
}

void tcp_timeouts(Ctx& c) {
    Rng& r = c.rng;
    int kind = r.next() % 3;
    if (kind == 2) {
        // a peer that does not read
        Pair p = connect_pair(c, r.chance(1, 2), 4096);
        int sb = 8192;
        utime_t tm = 20000 + r.next() % 40000;
        p.sps->set_send_timeout(tm);
        p.sps->set_recv_timeout(OTHER);
        Bytes out = r.bytes(64000);
        error_t ret = SUCCESS;
        size_t ok = 0;
        uint64_t t0 = 0, t1 = 0;
        for (int i = 0; i < 400 && ret == SUCCESS; ++i) {
            t0 = now_us();   // not behind the scheduler\'s clock
            st_usleep(1);
            ret = p.sps->write(&out[0], out.size());
            t1 = now_us();
            if (ret == SUCCESS) ok += out.size();
        }
        VH_CHECK(ret == ERROR_SOCKET_TIMEOUT, "write-timeout", "writing to a peer that does not read ends with %d after %zu bytes", ret, ok);
        VH_CHECK(t1 - t0 + 6000 >= tm, "write-timeout-early", "a write gives up after %lu us, its timeout is %lu us", (unsigned long) (t1 - t0), (unsigned long) tm);
        VH_CHECK(t1 - t0 <= tm + 15000000, "write-timeout-late", "a write gives up after %lu us, its timeout is %lu us", (unsigned long) (t1 - t0), (unsigned long) tm);
        (void) sb;
        p.sps.reset();
        Rng b(r.next());
        Bytes got = raw_recv_all(p.raw, b);
        VH_CHECK(got.size() >= ok && got.size() <= ok + out.size(), "bytes", "%zu bytes were written successfully, %zu arrived", ok, got.size());
        for (size_t i = 0; i < got.size(); ++i) VH_CHECK(got[i] == out[i % out.size()], "bytes", "byte %zu is not what was written", i);
        st_netfd_close(p.raw);
        c.count("write timeouts");
        c.distinct("nontrivial", tm * 3);
        return;
    }
    // silent peers: several reads time out side by side, each after its own time; then the bytes still come
    int n = 1 + r.next() % 4;
    std::vector<Pair> ps(n);
    std::vector<utime_t> tm(n);
    for (int i = 0; i < n; ++i) { ps[i] = connect_pair(c, r.chance(1, 2)); tm[i] = 15000 + r.next() % 60000; ps[i].sps->set_recv_timeout(tm[i]); ps[i].sps->set_send_timeout(OTHER); }
    Group g;
    for (int i = 0; i < n; ++i) {
        bool full = r.chance(1, 3);
        g.go([&, i, full]() {
            Exact e(64);
            size_t nr = 0;
            ssize_t fr = 0;
            uint64_t t0 = now_us();   // not behind the scheduler\'s clock
            st_usleep(1);
            error_t ret = full ? ps[i].sps->read_fully(e.p, 64, &fr) : ps[i].sps->read(e.p, 64, nr);
            uint64_t d = now_us() - t0;
            VH_CHECK(ret == ERROR_SOCKET_TIMEOUT, "read-timeout", "a read from a silent peer gives %d", ret);
            VH_CHECK(d + 6000 >= tm[i], "read-timeout-early", "a read gives up after %lu us, its timeout is %lu us", (unsigned long) d, (unsigned long) tm[i]);
            VH_CHECK(d <= tm[i] + 15000000, "read-timeout-late", "a read gives up after %lu us, its timeout is %lu us", (unsigned long) d, (unsigned long) tm[i]);
            c.count("read timeouts");
        });
    }
    g.join();
    for (int i = 0; i < n; ++i) {
        Bytes in = r.bytes(1 + r.size(3000));
        Rng a(r.next()), b(r.next());
        Got got;
        ps[i].sps->set_recv_timeout(LONG);
        Group g2;
        g2.go([&]() { raw_send(ps[i].raw, in, a); });
        g2.go([&]() { got = sps_recv(*ps[i].sps, b, in.size(), r.chance(1, 2)); });
        g2.join();
        VH_CHECK(got.d == in, "bytes", "after a timeout %zu of %zu bytes arrive", got.d.size(), in.size());
        // a peer that leaves after a timeout is gone, not silent
        Exact e(64);
        size_t nr = 0;
        ps[i].sps->set_recv_timeout(4000);
        VH_CHECK(ps[i].sps->read(e.p, 64, nr) == ERROR_SOCKET_TIMEOUT, "read-timeout", "a read from a silent peer does not time out");
        int keep = errno;
        st_netfd_close(ps[i].raw);
        errno = keep;
        error_t ret = ps[i].sps->read(e.p, 64, nr);
        VH_CHECK(ret != SUCCESS && ret != ERROR_SOCKET_TIMEOUT, "broken-peer", "a peer that left after a timeout is reported as %d", ret);
        c.count("peers that leave after a timeout");
        ps[i].sps.reset();
    }
    c.distinct("nontrivial", tm[0] * 7 + n);
}

// a port where connections wait and nobody answers: the listener's queue is full
struct Deaf {
    int port = 0, fill[3] = {-1, -1, -1}, fd = -1;
    Deaf() {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a = addr4("127.0.0.1", 0);
        socklen_t l = sizeof a;
        if (bind(fd, (sockaddr*) &a, sizeof a) || listen(fd, 0) || getsockname(fd, (sockaddr*) &a, &l)) { perror("VH: listen"); _exit(96); }
        port = ntohs(a.sin_port);
        for (auto& f : fill) {
            f = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
            connect(f, (sockaddr*) &a, sizeof a);
        }
    }
    ~Deaf() { for (auto f : fill) close(f); close(fd); }
};

int descriptors() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (d && readdir(d)) ++n;
    if (d) closedir(d);
    return n;
}

void tcp_broken(Ctx& c) {
    Rng& r = c.rng;
    if (r.chance(1, 8)) {
        Deaf deaf;
        utime_t tm = 20000 + r.next() % 60000;
        uint64_t t0 = now_us();
        st_usleep(1);
        auto s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, "127.0.0.1", deaf.port, tm);
        uint64_t d = now_us() - t0;
        VH_CHECK(s == nullptr, "connect-timeout", "a connection nobody accepts is said to be there after %lu us", (unsigned long) d);
        VH_CHECK(d + 6000 >= tm, "connect-timeout-early", "connecting is given up after %lu us, the timeout is %lu us", (unsigned long) d, (unsigned long) tm);
        VH_CHECK(d <= tm + 15000000, "connect-timeout-late", "connecting is given up after %lu us, the timeout is %lu us", (unsigned long) d, (unsigned long) tm);
        c.count("connect timeouts");
        return;
    }
    if (r.chance(1, 4)) {
        int port = probe_port(SOCK_STREAM);
        auto s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::TCP, "127.0.0.1", port, 2000000);
        // somebody else may have taken the port in the meantime
        if (s) c.count("ports taken"); else c.count("refused connections reported");
        return;
    }
    Pair p = connect_pair(c, r.chance(1, 2));
    p.sps->set_recv_timeout(LONG);
    p.sps->set_send_timeout(LONG);
    Bytes in = r.bytes(r.size(5000));
    Rng a(r.next()), b(r.next());
    bool reset = r.chance(1, 2), full = r.chance(1, 3);
    raw_send(p.raw, in, a);
    if (reset) { linger lg = {1, 0}; setsockopt(st_netfd_fileno(p.raw), SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
    st_netfd_close(p.raw);
    Got g = sps_recv(*p.sps, b, in.size() + 100000, full);
    VH_CHECK(is_prefix(g.d, in), "bytes", "bytes that were not sent arrive");
    VH_CHECK(g.last != SUCCESS && g.last != ERROR_SOCKET_TIMEOUT, "broken-peer", "a peer that is gone is reported as %d", g.last);
    if (!reset && !full) VH_CHECK(g.d.size() == in.size(), "bytes", "%zu of the %zu bytes sent before the close arrive", g.d.size(), in.size());
    Bytes out = r.bytes(50000);
    error_t ret = SUCCESS;
    for (int i = 0; i < 200 && ret == SUCCESS; ++i) { ret = p.sps->write(&out[0], out.size()); st_usleep(100); }
    VH_CHECK(ret != SUCCESS, "broken-peer", "10 MB are written to a peer that is gone");
    c.count("broken peers reported");
    c.distinct("nontrivial", in.size() * 4 + reset * 2 + full);
}

// a port is taken once: a second listener is refused, unless both share it; and it can be listened on again as soon as
// the listener is gone, whatever its last connections left behind
void tcp_ports(Ctx& c) {
    Rng& r = c.rng;
    auto& f = SingleInstance<ServerSocketFactory>::get_instance();
    bool share = r.chance(1, 3);
    int served = 1 + r.next() % 3;
    // the port is free for the others for a moment: one of them may take it
    for (int attempt = 0;; ++attempt) {
        auto s = f.create_ss(Transport::TCP);
        int port = 0;
        for (int i = 0; i < 50 && !port; ++i) {
            int k = probe_port(SOCK_STREAM);
            if (s->listen("", k, share, 64) == SUCCESS) port = k;
        }
        VH_CHECK(port, "listen", "no free port can be listened on");
        {
            auto s2 = f.create_ss(Transport::TCP);
            error_t ret = s2->listen("", port, share, 64);
            if (share) VH_CHECK(ret == SUCCESS, "shared-port", "a second listener of a shared port is refused with %d", ret);
            else VH_CHECK(ret != SUCCESS, "port-twice", "port %d is listened on twice", port);
        }
        for (int i = 0; i < served; ++i) {
            st_netfd_t raw = nullptr;
            PSocket p;
            Group g;
            g.go([&]() { raw = dial("127.0.0.1", port, nullptr); });
            g.go([&]() { p = s->accept(); });
            g.join();
            VH_CHECK(p != nullptr, "accept", "a connection is not accepted");
            p.reset();                           // the server closes first
            uint8_t b;
            st_read(raw, &b, 1, LONG);
            st_netfd_close(raw);
        }
        s.reset();
        auto again = f.create_ss(Transport::TCP);
        error_t ret = again->listen("", port, share, 64);
        if (ret == SUCCESS) break;
        VH_CHECK(attempt < 5, "listen-again", "a port whose listener is gone cannot be listened on again: %d", ret);
        st_usleep(2000);
    }
    c.count(share ? "ports shared" : "ports listened on again");
    c.distinct("nontrivial", served * 2 + share);
}

}  // namespace

VH_CASE_ST("P27", tcp) {
    tcp_server();
    int before = descriptors();
    if (c.rng.chance(1, 40)) tcp_ports(c); else
    switch (c.rng.next() % 10) {
        case 0: tcp_timeouts(c); break;
        case 1: case 2: tcp_broken(c); break;
        case 3: case 4: case 5: tcp_whole(c); break;
        default: tcp_duplex(c, Rng(c.rng.next())); break;
    }
    int after = descriptors();
    VH_CHECK(after == before, "descriptors", "%d descriptors are open after the case, %d before", after, before);
}

// --------------------------------------------------------------------------- TLS
namespace {
const char* CERT_NAMES[] = {"a", "b", "c"};
std::string cert_path(int i, const char* ext) { return std::string(CERT_DIR) + "/" + CERT_NAMES[i] + ext; }
X509* cert(int i) {
    static X509* x[3];
    if (!x[i]) {
        ::FILE* f = fopen(cert_path(i, ".crt").c_str(), "r");
        if (!f || !(x[i] = PEM_read_X509(f, nullptr, nullptr, nullptr))) { fprintf(stderr, "VH: certificate\n"); _exit(96); }
        fclose(f);
    }
    return x[i];
}

// one direction of a connection: bytes wait in a queue, the middle may cut, alter or break it off
struct Lane {
    std::deque<uint8_t> q;
    bool closed = false;
    st_cond_t cond = st_cond_new();
    uint64_t passed = 0;
    uint64_t flip_at = UINT64_MAX, cut_at = UINT64_MAX;
    uint8_t flip = 0;
    ~Lane() { st_cond_destroy(cond); }
    void put(const uint8_t* p, size_t n) {
        for (size_t i = 0; i < n; ++i, ++passed) {
            if (passed >= cut_at) { closed = true; continue; }
            q.push_back(passed == flip_at ? p[i] ^ flip : p[i]);
        }
        st_cond_broadcast(cond);
    }
    void close() { closed = true; st_cond_broadcast(cond); }
};

class LaneEnd : public IReaderWriter {
 public:
    Lane& in; Lane& out; Cutter cut; Rng r;
    utime_t rtm = LONG, stm = LONG;
    LaneEnd(Lane& i, Lane& o, Cutter c, uint64_t seed) : in(i), out(o), cut(c), r(seed) {}
    void set_recv_timeout(utime_t t) override { rtm = t; }
    utime_t get_recv_timeout() override { return rtm; }
    void set_send_timeout(utime_t t) override { stm = t; }
    utime_t get_send_timeout() override { return stm; }
    error_t read(void* buf, size_t size, size_t& nread) override {
        if (!size) return ERROR_IO_BUFFER_FULL;
        while (in.q.empty()) {
            if (in.closed) return ERROR_SOCKET_CLOSED;
            if (st_cond_timedwait(in.cond, rtm) != 0) return ERROR_SOCKET_TIMEOUT;
        }
        size_t k = cut.piece(std::min(size, in.q.size()));
        for (size_t i = 0; i < k; ++i) { ((uint8_t*) buf)[i] = in.q.front(); in.q.pop_front(); }
        nread = k;
        if (r.chance(1, 4)) yield();
        return SUCCESS;
    }
    error_t read_fully(void* buf, size_t size, ssize_t* nread) override {
        size_t n = 0;
        while (n < size) { size_t k = 0; error_t e = read((uint8_t*) buf + n, size - n, k); if (e != SUCCESS) return e; n += k; }
        if (nread) *nread = n;
        return SUCCESS;
    }
    error_t write(void* buf, size_t size) override {
        if (out.closed) return ERROR_SOCKET_WRITE;
        size_t at = 0;
        while (at < size) {
            size_t k = r.chance(1, 3) ? size - at : std::min<size_t>(size - at, 1 + r.size(4000));
            out.put((uint8_t*) buf + at, k);
            at += k;
            if (r.chance(1, 4)) yield();
        }
        return SUCCESS;
    }
};

// the harness's own TLS end, over any pair of byte functions
struct Engine {
    SSL_CTX* ctx = nullptr;
    SSL* ssl = nullptr;
    BIO *rb = nullptr, *wb = nullptr;
    std::function<ssize_t(uint8_t*, size_t)> rd;
    std::function<bool(const uint8_t*, size_t)> wr;
    bool dead = false;
    Engine(bool server, int crt, const char* sni, bool tls13) {
        ctx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
        SSL_CTX_set_min_proto_version(ctx, TLS1_2_VERSION);
        SSL_CTX_set_max_proto_version(ctx, tls13 ? TLS1_3_VERSION : TLS1_2_VERSION);
        SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr);
        if (server && (SSL_CTX_use_certificate_file(ctx, cert_path(crt, ".crt").c_str(), SSL_FILETYPE_PEM) != 1 ||
                       SSL_CTX_use_PrivateKey_file(ctx, cert_path(crt, ".key").c_str(), SSL_FILETYPE_PEM) != 1)) { fprintf(stderr, "VH: key\n"); _exit(96); }
        ssl = SSL_new(ctx);
        rb = BIO_new(BIO_s_mem());
        wb = BIO_new(BIO_s_mem());
        SSL_set_bio(ssl, rb, wb);
        if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
        if (sni && *sni) SSL_set_tlsext_host_name(ssl, sni);
    }
    ~Engine() { SSL_free(ssl); SSL_CTX_free(ctx); }
    bool flush() {
        char* p = nullptr;
        long n = BIO_get_mem_data(wb, &p);
        if (n > 0) {
            std::vector<uint8_t> b(p, p + n);
            BIO_reset(wb);
            if (!wr(&b[0], b.size())) { dead = true; return false; }
        }
        return true;
    }
    bool feed() {
        uint8_t b[8192];
        ssize_t k = rd(b, sizeof b);
        if (k <= 0) { dead = true; return false; }
        BIO_write(rb, b, k);
        return true;
    }
    bool handshake() {
        while (true) {
            ERR_clear_error();
            int n = SSL_do_handshake(ssl);
            if (!flush()) return false;
            if (n == 1) return true;
            if (SSL_get_error(ssl, n) != SSL_ERROR_WANT_READ || !feed()) return false;
        }
    }
    bool send(const Bytes& d, Rng& r) {
        size_t at = 0;
        int style = r.next() % 3;
        while (at < d.size()) {
            size_t k = std::min<size_t>(d.size() - at, style == 0 ? 16384 : style == 1 ? 1 + r.size(700) : 1 + r.size(16000));
            ERR_clear_error();
            if (SSL_write(ssl, &d[at], k) != (int) k) return false;
            at += k;
            if (r.chance(2, 3) && !flush()) return false;
            if (r.chance(1, 3)) yield();
        }
        return flush();
    }
    Bytes recv(size_t limit, Rng& r) {
        Bytes d;
        std::vector<uint8_t> b(20000);
        while (d.size() < limit) {
            ERR_clear_error();
            int n = SSL_read(ssl, &b[0], std::min<size_t>(limit - d.size(), 1 + r.size(19000)));
            if (n > 0) { d.insert(d.end(), b.begin(), b.begin() + n); continue; }
            if (SSL_get_error(ssl, n) != SSL_ERROR_WANT_READ || !feed()) break;
        }
        return d;
    }
    void over(Lane& in, Lane& out, Rng& r) {
        rd = [&in](uint8_t* p, size_t n) -> ssize_t {
            while (in.q.empty()) { if (in.closed) return 0; if (st_cond_timedwait(in.cond, LONG) != 0) return -1; }
            size_t k = std::min(n, in.q.size());
            for (size_t i = 0; i < k; ++i) { p[i] = in.q.front(); in.q.pop_front(); }
            return k;
        };
        wr = [&out, &r](const uint8_t* p, size_t n) {
            if (out.closed) return false;
            size_t at = 0;
            while (at < n) { size_t k = std::min<size_t>(n - at, 1 + r.size(3000)); out.put(p + at, k); at += k; if (r.chance(1, 3)) yield(); }
            return true;
        };
    }
    void over(st_netfd_t s) {
        rd = [s](uint8_t* p, size_t n) -> ssize_t { return st_read(s, p, n, LONG); };
        wr = [s](const uint8_t* p, size_t n) { return st_write(s, p, n, LONG) == (ssize_t) n; };
    }
};

// which certificate a name is to get; -1: none
class Search : public ISSLCertSearch {
 public:
    std::map<std::string, int> names;
    error_t search(const std::string& n, SSLConfig& cfg) override {
        auto i = names.find(n);
        if (i == names.end()) return ERROR_SSL_CERT_NOT_FOUND;
        cfg.crt_file = cert_path(i->second, ".crt");
        cfg.key_file = cert_path(i->second, ".key");
        return SUCCESS;
    }
};

void tls_over_pipe(Ctx& c) {
    Rng& r = c.rng;
    bool server = r.chance(1, 2);                       // the side under test
    Lane to, from;                                      // to / from the side under test
    Rng er(r.next());
    auto io = std::make_shared<LaneEnd>(to, from, Cutter(r.next() % 4, r.next()), r.next());
    int want = -1;
    std::string sni;
    auto search = std::make_shared<Search>();
    SSLConfig cfg;
    int own = -1;
    if (server) {
        search->names = {{"a.example", 0}, {"b.example", 1}};
        const char* ns[] = {"", "a.example", "b.example", "other.example", "A.example.org"};
        sni = ns[r.next() % 5];
        if (r.chance(2, 3)) { own = 2; cfg.crt_file = cert_path(2, ".crt"); cfg.key_file = cert_path(2, ".key"); }
        bool use = r.chance(2, 3) || own < 0;
        if (!use) search = nullptr;
        auto it = use ? search->names.find(sni) : std::map<std::string, int>::iterator();
        want = use && it != search->names.end() ? it->second : own;
    } else {
        own = want = r.next() % 3;
        if (r.chance(2, 3)) cfg.server_host = sni = r.chance(1, 2) ? "a.example" : "some.host.example";
    }
    auto s = std::make_shared<StSSLSocket>(io, server ? SSL_SERVER : SSL_CLIENT, cfg, server ? search : nullptr);
    Engine e(!server, own, server ? sni.c_str() : nullptr, r.chance(1, 2));
    e.over(from, to, er);
    Bytes in = r.bytes(r.chance(1, 6) ? r.size(120000) : r.size(6000)), out = r.bytes(r.chance(1, 6) ? r.size(120000) : r.size(6000));
    // 0..3 nothing happens; 4 a byte altered; 5 broken off; 6 during the handshake
    int fate = r.next() % 7;
    if (fate == 6) {
        (r.chance(1, 2) ? to : from).flip_at = r.next() % 1500;
        to.flip = from.flip = 1 + r.next() % 255;
        if (r.chance(1, 3)) { to.flip_at = from.flip_at = UINT64_MAX; to.cut_at = r.next() % 1200; }
    }
    error_t hs = -1;
    bool ehs = false;
    Group g;
    g.go([&]() { hs = s->init(); if (hs != SUCCESS) { from.close(); } });
    g.go([&]() { ehs = e.handshake(); if (!ehs) to.close(); });
    g.join();
    c.distinct("nontrivial", in.size() * 131071 + out.size() * 17 + fate * 5 + server);
    if (want < 0) {
        VH_CHECK(hs != SUCCESS, "no-certificate", "a handshake without any certificate succeeds");
        c.count("handshakes without a certificate refused");
        return;
    }
    if (fate == 6 && (hs != SUCCESS || !ehs)) { c.count("broken handshakes refused"); return; }
    VH_CHECK(hs == SUCCESS && ehs, "handshake", "the handshake fails: %d, peer %d (%s, name '%s')", hs, (int) ehs, server ? "server" : "client", sni.c_str());
    if (server) {
        X509* got = SSL_get1_peer_certificate(e.ssl);
        bool same = got && X509_cmp(got, cert(want)) == 0;
        X509_free(got);
        VH_CHECK(same, "certificate", "a client that names '%s' does not get certificate %s", sni.c_str(), CERT_NAMES[want]);
        c.count(sni.empty() ? "clients without a name" : search && search->names.count(sni) ? "clients that name a host" : "clients that name another host");
    } else {
        const char* n = SSL_get_servername(e.ssl, TLSEXT_NAMETYPE_host_name);
        VH_CHECK(sni == (n ? n : ""), "server-name", "the server is asked for '%s', not for '%s'", n ? n : "", sni.c_str());
        c.count("connections to a server");
    }
    if (fate == 4) { to.flip_at = to.passed + r.next() % (in.size() + 60); to.flip = 1 + r.next() % 255; }
    if (fate == 5) to.cut_at = to.passed + r.next() % (in.size() + 40);
    bool whole = fate < 4 || fate == 6;
    if (whole) to.flip_at = from.flip_at = to.cut_at = UINT64_MAX;
    Got got;
    Bytes egot;
    Rng a(r.next()), b(r.next()), d(r.next());
    bool full = whole && r.chance(1, 3), bye = r.chance(1, 2);
    Group h;
    h.go([&]() { e.send(in, er); if (bye) { SSL_shutdown(e.ssl); e.flush(); } to.close(); });
    h.go([&]() { got = sps_recv(*s, a, in.size() + (full ? 0 : 10), full); });
    h.join();
    VH_CHECK(is_prefix(got.d, in), "bytes", "what arrives is not what was sent (%zu of %zu bytes, %s)", got.d.size(), in.size(), fate == 4 ? "altered" : fate == 5 ? "broken off" : "untouched");
    if (whole) {
        VH_CHECK(got.d.size() == in.size(), "bytes", "%zu of %zu bytes arrive, last result %d", got.d.size(), in.size(), got.last);
        c.count("bytes received", in.size());
    } else c.count(fate == 4 ? "altered connections" : "broken connections");
    if (!full) VH_CHECK(got.last != SUCCESS, "end", "the end of the connection is not reported");
    if (fate < 4) {
        Group k;
        k.go([&]() { sps_send(*s, out, b, "tls"); s.reset(); io.reset(); from.close(); });
        k.go([&]() { egot = e.recv(out.size() + 10, d); });
        k.join();
        VH_CHECK(egot == out, "bytes", "%zu bytes were written, %zu arrive at the peer", out.size(), egot.size());
        c.count("bytes sent", out.size());
    }
}

// both directions at once
void tls_duplex(Ctx& c) {
    Rng& r = c.rng;
    Lane to, from;
    Rng er(r.next()), er2(r.next());
    auto io = std::make_shared<LaneEnd>(to, from, Cutter(r.next() % 4, r.next()), r.next());
    SSLConfig cfg;
    cfg.crt_file = cert_path(0, ".crt");
    cfg.key_file = cert_path(0, ".key");
    auto s = std::make_shared<StSSLSocket>(io, SSL_SERVER, cfg);
    Engine e(false, 0, nullptr, false);
    e.over(from, to, er);
    error_t hs = -1;
    bool ehs = false;
    Group g;
    g.go([&]() { hs = s->init(); });
    g.go([&]() { ehs = e.handshake(); });
    g.join();
    VH_CHECK(hs == SUCCESS && ehs, "handshake", "the handshake fails: %d", hs);
    Bytes in = r.bytes(r.size(40000)), out = r.bytes(r.size(40000)), egot;
    Got got;
    Rng a(r.next()), b(r.next()), d(r.next());
    Group h;
    h.go([&]() { e.send(in, er2); });
    h.go([&]() { got = sps_recv(*s, a, in.size(), false); });
    h.go([&]() { sps_send(*s, out, b, "tls"); });
    h.go([&]() { egot = e.recv(out.size(), d); });
    h.join();
    VH_CHECK(got.d == in, "bytes", "%zu of %zu bytes arrive", got.d.size(), in.size());
    VH_CHECK(egot == out, "bytes", "%zu of %zu written bytes arrive", egot.size(), out.size());
    c.count("both directions at once");
    c.distinct("nontrivial", in.size() * 3 + out.size() * 70001);
}

// a connection next to one that breaks: what happens to the one does not reach the other
void tls_neighbours(Ctx& c) {
    Rng& r = c.rng;
    struct Con {
        Lane to, from, hold;
        Rng er{0};
        std::shared_ptr<LaneEnd> io;
        std::shared_ptr<StSSLSocket> s;
        std::unique_ptr<Engine> e;
    };
    Con k[2];
    for (auto& x : k) {
        x.er = Rng(r.next());
        bool server = r.chance(1, 2);
        x.io = std::make_shared<LaneEnd>(x.to, x.from, Cutter(0, r.next()), r.next());
        SSLConfig cfg;
        if (server) { cfg.crt_file = cert_path(0, ".crt"); cfg.key_file = cert_path(0, ".key"); }
        x.s = std::make_shared<StSSLSocket>(x.io, server ? SSL_SERVER : SSL_CLIENT, cfg);
        x.e.reset(new Engine(!server, 0, nullptr, false));
        x.e->over(x.from, x.to, x.er);
        error_t hs = -1;
        bool ehs = false;
        Group g;
        g.go([&]() { hs = x.s->init(); });
        g.go([&]() { ehs = x.e->handshake(); });
        g.join();
        VH_CHECK(hs == SUCCESS && ehs, "handshake", "the handshake fails: %d", hs);
        x.e->over(x.from, x.hold, x.er);
    }
    Bytes a = r.bytes(200 + r.size(4000)), b = r.bytes(1 + r.size(300));
    k[0].e->send(a, k[0].er);
    k[1].e->send(b, k[1].er);
    // nothing of the peers runs from here on: only the two connections
    std::vector<uint8_t> ca(k[0].hold.q.begin(), k[0].hold.q.end()), cb(k[1].hold.q.begin(), k[1].hold.q.end());
    cb[cb.size() - 1 - r.next() % std::min<size_t>(cb.size(), 16)] ^= 1 + r.next() % 255;
    size_t half = r.next() % ca.size(), quarter = r.next() % (half + 1);
    Got got, bad;
    Rng ra(r.next()), rb(r.next());
    ERR_clear_error();
    Group h;
    h.go([&]() {
        k[0].to.put(&ca[0], quarter);
        for (int i = r.next() % 3; i > 0; --i) yield();
        k[1].to.put(&cb[0], cb.size());
        k[1].to.close();
        for (int i = r.next() % 4; i > 0; --i) yield();
        k[0].to.put(&ca[quarter], half - quarter);
        for (int i = r.next() % 4; i > 0; --i) yield();
        k[0].to.put(&ca[half], ca.size() - half);
        k[0].to.close();
    });
    h.go([&]() { got = sps_recv(*k[0].s, ra, a.size(), false); });
    h.go([&]() { bad = sps_recv(*k[1].s, rb, b.size() + 10, false); });
    h.join();
    VH_CHECK(is_prefix(bad.d, b), "bytes", "altered data arrives");
    VH_CHECK(got.d == a, "broken-by-others", "a connection breaks (%zu of %zu bytes, last result %d) because another one got altered data", got.d.size(), a.size(), got.last);
    c.count("connections next to a broken one");
    c.distinct("nontrivial", a.size() * 257 + half * 3 + quarter * 65537);
}

struct TlsServer { PIServerSocket s; int port = 0; };
TlsServer& tls_server() {
    static TlsServer* t = nullptr;
    if (!t) {
        t = new TlsServer;
        t->s = SingleInstance<ServerSocketFactory>::get_instance().create_ss(Transport::HTTPS);
        auto ss = dynamic_cast<StSSLServerSocket*>(t->s.get());
        SSLConfig cfg;
        cfg.crt_file = cert_path(1, ".crt");
        cfg.key_file = cert_path(1, ".key");
        ss->init_config(cfg);
        t->port = listen_free(t->s, SOCK_STREAM);
    }
    return *t;
}

// clients of a TLS port next to others that stall or break the handshake
void tls_clients(Ctx& c) {
    Rng& r = c.rng;
    auto& ts = tls_server();
    int nbad = r.next() % 5, ngood = 1 + r.next() % 3;
    st_usleep(2000);
    int fds = descriptors();
    std::vector<st_netfd_t> bad;
    Group g;
    for (int i = 0; i < nbad; ++i) {
        st_netfd_t s = dial("127.0.0.1", ts.port, nullptr);
        int kind = r.next() % 4;
        Bytes junk = r.bytes(1 + r.size(600));
        if (kind == 1) { st_write(s, &junk[0], junk.size(), LONG); }
        if (kind == 2) { static const uint8_t half[] = {0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3}; st_write(s, half, 1 + r.next() % sizeof half, LONG); }
        if (kind == 3) { st_netfd_close(s); continue; }
        bad.push_back(s);                               // kind 0: silent
    }
    std::vector<Bytes> say(ngood), back(ngood);
    std::vector<PSocket> held(ngood);
    int served = 0;
    uint64_t t0 = now_us();
    // sometimes nobody accepts before all clients are through with the handshake
    bool late = r.chance(1, 2);
    int through = 0;
    for (int i = 0; i < ngood; ++i) {
        say[i] = r.bytes(16 + r.size(3000));
        say[i][0] = i;
        uint64_t sd = r.next();
        g.go([&, i, sd]() {
            Rng q(sd);
            if (q.chance(1, 4)) {                       // the client is the repository's, too
                auto s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::HTTPS, "127.0.0.1", ts.port, 20000000);
                VH_CHECK(s != nullptr, "handshake", "a client of the factory is refused next to %d clients that stall or break the handshake", nbad);
                ++through;
                sps_send(*s, say[i], q, "tls");
                back[i] = sps_recv(*s, q, say[i].size(), q.chance(1, 2)).d;
                c.count("clients of the factory");
                return;
            }
            st_netfd_t s = dial("127.0.0.1", ts.port, nullptr);
            Engine e(false, 0, q.chance(1, 2) ? "x.example" : nullptr, q.chance(1, 2));
            e.over(s);
            VH_CHECK(e.handshake(), "handshake", "a client is refused next to %d clients that stall or break the handshake", nbad);
            ++through;
            VH_CHECK(e.send(say[i], q), "bytes", "the connection breaks");
            back[i] = e.recv(say[i].size(), q);
            st_netfd_close(s);
        });
    }
    for (int i = 0; i < ngood; ++i) {
        uint64_t sd = r.next();
        g.go([&, sd]() {
            Rng q(sd);
            while (late && through < ngood) st_usleep(500);
            auto s = ts.s->accept();
            VH_CHECK(s != nullptr, "accept", "no connection is accepted");
            s->set_recv_timeout(LONG);
            s->set_send_timeout(LONG);
            Exact f(16);
            error_t ret = s->read_fully(f.p, 16, nullptr);
            VH_CHECK(ret == SUCCESS && f.p[0] < say.size(), "bytes", "the first bytes do not arrive: %d", ret);
            size_t n = say[f.p[0]].size();
            Got got = sps_recv(*s, q, n - 16, q.chance(1, 2));
            Bytes all(f.p, f.p + 16);
            all.insert(all.end(), got.d.begin(), got.d.end());
            VH_CHECK(all == say[f.p[0]], "bytes", "what arrives is not what the client sent");
            sps_send(*s, all, q, "tls");
            ++served;
            st_usleep(1000);
        });
    }
    g.join();
    uint64_t d = now_us() - t0;
    VH_CHECK(served == ngood, "handshake", "%d of %d clients were served", served, ngood);
    for (int i = 0; i < ngood; ++i) VH_CHECK(back[i] == say[i], "bytes", "the answer is not what was written");
    // far below the time after which a silent client is given up
    VH_CHECK(d < 8000000 || nbad == 0, "stalled-by-others", "clients waited %lu ms next to %d clients that stall the handshake", (unsigned long) (d / 1000), nbad);
    for (auto s : bad) st_netfd_close(s);
    // the server sees the ends of its clients a little later
    for (int i = 0; i < 400 && descriptors() > fds; ++i) st_usleep(i < 20 ? 500 : 10000);
    VH_CHECK(descriptors() <= fds, "descriptors", "%d descriptors are open after the clients left, %d before", descriptors(), fds);
    if (late && ngood > 1) c.count("clients accepted late", ngood);
    c.count("clients served", ngood);
    c.count("stalling and breaking clients", nbad);
    c.distinct("nontrivial", say[0].size() * 91 + nbad * 7 + ngood);
}
// a connection of the TLS port with a client of the harness
struct TlsPair {
    st_netfd_t fd = nullptr;
    std::unique_ptr<Engine> e;
    PSocket s;
    explicit TlsPair(Rng& r, int rcvbuf = 0) {
        auto& ts = tls_server();
        fd = dial("127.0.0.1", ts.port, nullptr, rcvbuf);
        e.reset(new Engine(false, 0, r.chance(1, 2) ? "x.example" : nullptr, false));
        e->over(fd);
        Group g;
        bool ok = false;
        g.go([&]() { ok = e->handshake(); });
        g.go([&]() { s = ts.s->accept(); });
        g.join();
        VH_CHECK(ok && s, "handshake", "a client is refused");
    }
    ~TlsPair() { s.reset(); st_netfd_close(fd); }
};

// many connections one after the other leave nothing behind
void tls_churn(Ctx& c) {
    Rng& r = c.rng;
    auto& ts = tls_server();
    auto one = [&](bool broken) {
        if (!broken) {
            TlsPair t(r);
            Bytes d = r.bytes(1 + r.size(500));
            VH_CHECK(t.e->send(d, r), "bytes", "the connection breaks");
            Rng q(r.next());
            t.s->set_recv_timeout(LONG);
            VH_CHECK(sps_recv(*t.s, q, d.size(), true).d == d, "bytes", "what arrives is not what the client sent");
            return;
        }
        st_netfd_t s = dial("127.0.0.1", ts.port, nullptr);
        static const uint8_t half[] = {0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3};
        Bytes junk = r.chance(1, 2) ? r.bytes(1 + r.size(100)) : Bytes(half, half + sizeof half);
        st_write(s, &junk[0], junk.size(), LONG);
        st_netfd_close(s);
    };
    int base = 0;
    auto settle = [&]() {
        for (int i = 0; i < 20; ++i) st_usleep(500);
        for (int i = 0; i < 400 && base && descriptors() > base; ++i) st_usleep(10000);
    };
    const int n = 24;
    bool broken = r.chance(1, 2);
    for (int i = 0; i < 6; ++i) one(broken);
    settle();
    int f0 = base = descriptors();
    size_t m0 = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < n; ++i) one(broken);
    settle();
    int f1 = descriptors();
    size_t m1 = __sanitizer_get_current_allocated_bytes();
    VH_CHECK(f1 <= f0, "descriptors", "%d descriptors are left of %d connections", f1 - f0, n);
    // one connection holds some tens of kilobytes
    VH_CHECK(m1 <= m0 + 24 * n, "memory", "%zd bytes are left of %d %s connections", (ssize_t) (m1 - m0), n, broken ? "broken" : "ended");
    c.count("connections of the past", n);
    c.distinct("nontrivial", r.next());
}

// reads and writes over TLS end at their timeout
void tls_timeouts(Ctx& c) {
    Rng& r = c.rng;
    TlsPair t(r, 4096);
    utime_t tm = 20000 + r.next() % 60000;
    if (r.chance(1, 2)) {
        t.s->set_send_timeout(OTHER);
        t.s->set_recv_timeout(tm);
        Exact b(100);
        size_t nr = 0;
        st_usleep(1);
        uint64_t t0 = now_us();
        error_t ret = t.s->read(b.p, 100, nr);
        uint64_t d = now_us() - t0;
        VH_CHECK(ret == ERROR_SOCKET_TIMEOUT, "read-timeout", "a read without data gives %d", ret);
        VH_CHECK(d + 6000 >= tm && d < tm + 5000000, "read-timeout", "the read gives up after %lu of %lu us", (unsigned long) d, (unsigned long) tm);
        c.count("TLS read timeouts");
    } else {
        t.s->set_recv_timeout(OTHER);
        t.s->set_send_timeout(tm);
        Exact b(60000);
        memset(b.p, 7, 60000);
        error_t ret = SUCCESS;
        uint64_t d = 0;
        for (int i = 0; i < 2000 && ret == SUCCESS; ++i) {
            st_usleep(1);
            uint64_t t0 = now_us();
            ret = t.s->write(b.p, 60000);
            d = now_us() - t0;
        }
        VH_CHECK(ret != SUCCESS, "write-timeout", "writes to a peer that reads nothing go on for ever");
        VH_CHECK(d + 6000 >= tm && d < tm * 4 + 5000000, "write-timeout", "the write gives up after %lu of %lu us", (unsigned long) d, (unsigned long) tm);
        c.count("TLS write timeouts");
    }
    c.distinct("nontrivial", tm);
}

// clients that stall the handshake are let go after its timeout (10 s)
void tls_silent(Ctx& c) {
    Rng& r = c.rng;
    auto& ts = tls_server();
    static const uint8_t half[] = {0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3};
    Group g;
    for (int i = 0; i < 3; ++i) {
        st_netfd_t s = dial("127.0.0.1", ts.port, nullptr);
        if (i) st_write(s, half, i == 1 ? 1 + r.next() % sizeof half : sizeof half, LONG);
        g.go([s]() {
            uint8_t b[100];
            uint64_t t0 = now_us();
            ssize_t n;
            while ((n = st_read(s, b, sizeof b, 25000000)) > 0) {}
            bool timeout = n < 0 && errno == ETIME;
            st_netfd_close(s);
            VH_CHECK(!timeout, "silent-client-kept", "a client that stalls the handshake still has its connection after %lu s", (unsigned long) ((now_us() - t0) / 1000000));
        });
    }
    g.join();
    c.count("stalling clients let go", 3);
    c.distinct("nontrivial", r.next());
}
}  // namespace

VH_CASE_ST("P28", tls) {
    if (c.cur % 512 == 5) { tls_silent(c); return; }
    switch (c.rng.next() % 11) {
        case 3: if (c.rng.chance(1, 3)) tls_churn(c); else tls_clients(c); break;
        case 4: tls_timeouts(c); break;
        case 0: tls_duplex(c); break;
        case 1: tls_clients(c); break;
        case 2: tls_neighbours(c); break;
        default: tls_over_pipe(c); break;
    }
}

// --------------------------------------------------------------------------- UDP
namespace {
struct UdpServer { std::shared_ptr<StUdpServerSocket> s; int port = 0; };
UdpServer& udp_server() {
    static UdpServer* t = nullptr;
    if (!t) {
        t = new UdpServer;
        t->s = std::make_shared<StUdpServerSocket>();
        t->port = listen_free(t->s, SOCK_DGRAM);
    }
    return *t;
}
struct Peer {
    st_netfd_t fd = nullptr;
    std::string ip, to;
    int port = 0;
    std::vector<Bytes> sent, got, answers, back;
    std::vector<int> sizes;
    PSocket session;
};
}

VH_CASE_ST("P29", udp) {
    Rng& r = c.rng;
    auto& us = udp_server();
    if (r.chance(1, 30)) {
        // a port that somebody else has
        int fd = socket(AF_INET, SOCK_DGRAM, 0);
        sockaddr_in a = addr4("0.0.0.0", 0);
        socklen_t l = sizeof a;
        if (bind(fd, (sockaddr*) &a, sizeof a) || getsockname(fd, (sockaddr*) &a, &l)) { perror("VH: bind"); _exit(96); }
        int before = descriptors();
        {
            auto s = std::make_shared<StUdpServerSocket>();
            VH_CHECK(s != nullptr, "udp-server", "there is no UDP server socket");
            error_t ret = s->listen("", ntohs(a.sin_port), r.chance(1, 3), 64);
            VH_CHECK(ret != SUCCESS, "port-taken", "a UDP server listens on port %d, which another socket has", ntohs(a.sin_port));
        }
        int after = descriptors();
        VH_CHECK(after == before, "descriptors", "%d descriptors are open after a refused listener, %d before", after, before);
        close(fd);
        c.count("taken ports refused");
    }
    int n = 1 + r.next() % 5;
    std::vector<Peer> ps(n);
    // some peers share the address, some the port, some talk to another address of the server
    int shared = 0;
    // two addresses that look the same when written without a separator: 127.0.0.1 port 23456, 127.0.0.12 port 3456
    int tail = n > 1 && r.chance(1, 3) ? 2000 + r.next() % 8000 : 0, digit = 2 + r.next() % 2;
    if (tail) c.count("addresses alike");
    for (int i = 0; i < n; ++i) {
        auto& p = ps[i];
        if (tail && i < 2) {
            p.ip = i ? fmt("127.0.0.1%d", digit) : "127.0.0.1";
            p.to = "127.0.0.1";
            int fd = socket(AF_INET, SOCK_DGRAM, 0);
            int big = 4 << 20;
            setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
            p.port = i ? tail : digit * 10000 + tail;
            sockaddr_in a = addr4(p.ip, p.port);
            if (bind(fd, (sockaddr*) &a, sizeof a)) {
                a.sin_port = 0;
                if (bind(fd, (sockaddr*) &a, sizeof a)) { perror("VH: udp"); _exit(96); }
                socklen_t l = sizeof a;
                getsockname(fd, (sockaddr*) &a, &l);
                p.port = ntohs(a.sin_port);
            }
            p.fd = st_netfd_open_socket(fd);
            continue;
        }
        p.ip = r.chance(1, 2) ? "127.0.0.1" : fmt("127.0.%d.%d", (int) (r.next() % 2), 1 + (int) (r.next() % 20));
        p.to = r.chance(3, 4) ? "127.0.0.1" : fmt("127.0.0.%d", 2 + (int) (r.next() % 3));
        int fd = socket(AF_INET, SOCK_DGRAM, 0);
        int big = 4 << 20;
        setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
        sockaddr_in a = addr4(p.ip, r.chance(1, 2) ? shared : 0);
        if (bind(fd, (sockaddr*) &a, sizeof a)) { a.sin_port = 0; if (bind(fd, (sockaddr*) &a, sizeof a)) { perror("VH: udp"); _exit(96); } }
        socklen_t l = sizeof a;
        getsockname(fd, (sockaddr*) &a, &l);
        p.port = ntohs(a.sin_port);
        if (!shared) shared = p.port;
        p.fd = st_netfd_open_socket(fd);
    }
    auto send = [&](Peer& p, const Bytes& d) {
        sockaddr_in t = addr4(p.to, us.port);
        if (st_sendto(p.fd, d.data(), d.size(), (sockaddr*) &t, sizeof t, LONG) != (int) d.size()) { perror("VH: sendto"); _exit(96); }
        p.sent.push_back(d);
    };
    auto datagram = [&]() { return r.bytes(r.chance(1, 30) ? 0 : r.chance(1, 30) ? 1 + r.size(60000) : r.chance(1, 4) ? 1 + r.size(8000) : 1 + r.size(1500)); };
    auto some = [&]() { Bytes d = datagram(); if (d.empty()) d.push_back(r.next()); return d; };
    // the first datagram of each opens its session
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(order[i], order[r.next() % (i + 1)]);
    for (int i : order) send(ps[i], datagram());
    for (int i = 0; i < n; ++i) {
        PSocket s;
        Group g;
        g.go([&]() { s = us.s->accept(); });
        g.join();
        VH_CHECK(s != nullptr, "accept", "no session");
        Peer* who = nullptr;
        for (auto& p : ps) if (s->get_peer_ip() == p.ip && s->get_peer_port() == p.port && s->get_self_ip() == p.to) who = &p;
        VH_CHECK(who != nullptr, "session-address", "a session with %s:%d at %s, which sent nothing", s->get_peer_ip().c_str(), s->get_peer_port(), s->get_self_ip().c_str());
        VH_CHECK(!who->session, "session-twice", "two sessions with %s:%d", who->ip.c_str(), who->port);
        VH_CHECK(s->get_self_port() == us.port, "session-address", "the session is said to end at port %d, the server listens at %d", s->get_self_port(), us.port);
        who->session = s;
        s->set_recv_timeout(3000000);
        s->set_send_timeout(LONG);
        c.count("sessions");
    }
    int late = 0;
    // datagrams of all peers mixed, some read at once, some in bulk
    auto drain = [&](Peer& p, size_t upto) {
        while (p.got.size() < upto) {
            size_t want = p.sent[p.got.size()].size();
            if (want > 1 && r.chance(1, 10)) {
                // a buffer that is too small takes nothing
                Exact e(want - 1);
                size_t nr = 0;
                error_t ret = p.session->read(e.p, want - 1, nr);
                VH_CHECK(ret != SUCCESS && ret != ERROR_SOCKET_TIMEOUT, "small-buffer", "a read of %zu bytes of a datagram of %zu gives %d", want - 1, want, ret);
                c.count("small buffers refused");
            }
            size_t k = r.chance(1, 2) ? want : 65536;
            Exact e(k ? k : 1);
            size_t nr = 77;
            if (!want) c.count("empty datagrams");
            uint64_t t0 = now_us();
            error_t ret = p.session->read(e.p, k, nr);
            // once may be the machine
            if (now_us() - t0 > 2500000) VH_CHECK(++late < 3, "datagram-late", "datagrams which are there are read only after the timeout of the read");
            VH_CHECK(ret == SUCCESS, "datagram-lost", "datagram %zu of %zu bytes does not come: %d", p.got.size(), want, ret);
            VH_CHECK(nr == want && memcmp(e.p, p.sent[p.got.size()].data(), want) == 0, "datagram-changed", "datagram %zu of %s:%d has %zu bytes, %zu were sent, or other contents",
                     p.got.size(), p.ip.c_str(), p.port, nr, want);
            p.got.push_back(Bytes(e.p, e.p + nr));
            c.count("datagrams received");
            c.count(want > 4096 ? "large datagrams" : "small datagrams");
        }
    };
    int rounds = r.size(25);
    for (int k = 0; k < rounds; ++k) {
        Peer& p = ps[r.next() % n];
        send(p, datagram());
        if (r.chance(1, 3)) yield();
        if (r.chance(1, 3)) { Peer& q = ps[r.next() % n]; drain(q, q.sent.size()); }
        if (r.chance(1, 3)) {
            Peer& q = ps[r.next() % n];
            Bytes d = some();
            Exact e(d.size());
            memcpy(e.p, d.data(), d.size());
            VH_CHECK(q.session->write(e.p, d.size()) == SUCCESS, "answer", "an answer of %zu bytes cannot be sent", d.size());
            q.answers.push_back(d);
        }
    }
    for (auto& p : ps) drain(p, p.sent.size());
    if (r.chance(1, 300)) {
        // more datagrams than a session keeps: read as they come all arrive, unread the first 4000 stay
        Peer& q = ps[r.next() % n];
        bool unread = r.chance(1, 2);
        size_t first = q.got.size();
        for (int i = 0; i < 4300;) {
            for (int k = 1 + r.next() % 60; k > 0 && i < 4300; --k, ++i) {
                Bytes d = r.bytes(4 + r.next() % 8);
                memcpy(&d[0], &i, 4);
                send(q, d);
            }
            // the server takes them before the next ones
            st_usleep(300);
            yield();
            if (!unread) drain(q, q.sent.size());
        }
        if (unread) {
            drain(q, first + 4000);
            q.session->set_recv_timeout(20000);
            uint8_t b[64];
            size_t nr = 0;
            while (q.session->read(b, 64, nr) == SUCCESS) {}
            q.session->set_recv_timeout(3000000);
            q.got = q.sent;
            send(q, some());
            drain(q, q.sent.size());
            c.count("unread sessions");
        } else c.count("long sessions");
    }
    uint64_t hash = n;
    for (auto& p : ps) {
        for (size_t i = 0; i < p.answers.size(); ++i) {
            std::vector<uint8_t> b(66000);
            sockaddr_in f;
            int fl = sizeof f;
            int k = st_recvfrom(p.fd, &b[0], b.size(), (sockaddr*) &f, &fl, 5000000);
            VH_CHECK(k == (int) p.answers[i].size() && memcmp(&b[0], p.answers[i].data(), k) == 0, "answer", "answer %zu of %zu bytes does not reach %s:%d (%d)", i, p.answers[i].size(), p.ip.c_str(), p.port, k);
            VH_CHECK(ntohs(f.sin_port) == us.port, "answer", "an answer comes from port %d", ntohs(f.sin_port));
            c.count("answers");
        }
        hash = hash * 1000003 + p.sent.size() * 64 + p.answers.size();
    }
    // nothing more for anybody, and a silent peer is a timeout
    for (auto& p : ps) {
        uint8_t b[16];
        VH_CHECK(recv(st_netfd_fileno(p.fd), b, 16, MSG_DONTWAIT) < 0, "answer-astray", "%s:%d gets a datagram for somebody else", p.ip.c_str(), p.port);
        if (r.chance(1, 8)) {
            utime_t tm = 10000 + r.next() % 30000;
            p.session->set_recv_timeout(tm);
            uint64_t t0 = now_us();   // not behind the scheduler\'s clock
            st_usleep(1);
            size_t nr = 0;
            error_t ret = p.session->read(b, 16, nr);
            VH_CHECK(ret == ERROR_SOCKET_TIMEOUT, "read-timeout", "a session without a datagram gives %d", ret);
            VH_CHECK(now_us() - t0 + 6000 >= tm, "read-timeout-early", "the read gives up after %lu of %lu us", (unsigned long) (now_us() - t0), (unsigned long) tm);
            c.count("read timeouts");
        }
    }
    // a session that ended is opened again by the next datagram
    Peer& q = ps[r.next() % n];
    q.session.reset();
    Bytes again = some();
    send(q, again);
    PSocket s;
    { Group g; g.go([&]() { s = us.s->accept(); }); g.join(); }
    VH_CHECK(s && s->get_peer_ip() == q.ip && s->get_peer_port() == q.port, "session-again", "a peer does not get a session after its first one ended");
    s->set_recv_timeout(3000000);
    Exact e(again.size());
    size_t nr = 0;
    VH_CHECK(s->read(e.p, again.size(), nr) == SUCCESS && nr == again.size() && !memcmp(e.p, again.data(), nr), "datagram-lost", "the first datagram of the second session is not there");
    c.count("sessions reopened");
    // the client side: datagrams to and from one peer
    {
        PUdpFd fd;
        VH_CHECK(UdpFd::create_fd(fd) == SUCCESS, "client", "no socket");
        StUdpClientSocket cl(q.ip, q.port, fd);
        cl.set_recv_timeout(3000000);
        cl.set_send_timeout(LONG);
        Bytes d = some();
        Exact x(d.size());
        memcpy(x.p, d.data(), d.size());
        VH_CHECK(cl.write(x.p, d.size()) == SUCCESS, "client", "a datagram cannot be sent");
        std::vector<uint8_t> b(66000);
        sockaddr_in f;
        int fl = sizeof f;
        int k = st_recvfrom(q.fd, &b[0], b.size(), (sockaddr*) &f, &fl, 5000000);
        VH_CHECK(k == (int) d.size() && !memcmp(&b[0], d.data(), k), "client", "a datagram of %zu bytes to %s:%d does not arrive (%d)", d.size(), q.ip.c_str(), q.port, k);
        Bytes a = some();
        st_sendto(q.fd, a.data(), a.size(), (sockaddr*) &f, sizeof f, LONG);
        Exact y(a.size());
        size_t m = 0;
        std::string pi;
        int pp = 0;
        error_t ret = cl.read(y.p, a.size(), m, pi, pp);
        VH_CHECK(ret == SUCCESS && m == a.size() && !memcmp(y.p, a.data(), m), "client", "an answer of %zu bytes does not arrive: %d", a.size(), ret);
        VH_CHECK(pi == q.ip && pp == q.port, "client", "the answer of %s:%d is said to come from %s:%d", q.ip.c_str(), q.port, pi.c_str(), pp);
        c.count("client exchanges");
    }
    c.distinct("nontrivial", hash);
    for (auto& p : ps) { p.session.reset(); st_netfd_close(p.fd); }
}
