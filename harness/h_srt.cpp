// P30 SRT stream ids, P35 SRT sockets: the real handler and sockets over libsrt; the peers of P35 are libsrt sockets
// driven by the harness, so that their acknowledgements tell what has reached the socket under test.
#include "vh.hpp"
#include "io_sched.hpp"
#include "st_util.hpp"
#include <arpa/inet.h>
#include <srt/srt.h>
#include <sys/socket.h>

#include <sps_io_socket.hpp>
#include <sps_host_phase_handler.hpp>
#include <sps_srt_server.hpp>
#include <sps_srt_server_handler.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_io_srt.hpp>

using namespace vh;
using namespace sps;

// sockets made by the code under test get the buffers the case asks for
static int wrap_sndbuf = 0, wrap_rcvbuf = 0, wrap_fail_accept = 0;
extern "C" {
SRTSOCKET __real_srt_create_socket(void);
SRTSOCKET __wrap_srt_create_socket(void) {
    SRTSOCKET s = __real_srt_create_socket();
    if (wrap_sndbuf) srt_setsockflag(s, SRTO_SNDBUF, &wrap_sndbuf, sizeof wrap_sndbuf);
    if (wrap_rcvbuf) srt_setsockflag(s, SRTO_RCVBUF, &wrap_rcvbuf, sizeof wrap_rcvbuf);
    return s;
}
SRTSOCKET __real_srt_accept(SRTSOCKET, struct sockaddr*, int*);
// an accept that fails, as when the socket of a connection cannot be made
SRTSOCKET __wrap_srt_accept(SRTSOCKET s, struct sockaddr* a, int* l) {
    if (wrap_fail_accept) {
        --wrap_fail_accept;
        return __real_srt_accept(SRT_INVALID_SOCK, a, l);
    }
    return __real_srt_accept(s, a, l);
}
}

namespace {

const utime_t LONG = 15000000;

uint64_t now_us() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}
void srt_once() {
    static bool done = false;
    if (done) return;
    done = true;
    srt_startup();
    srt_setloglevel(LOG_CRIT);
    case_deadline = 90;
}

// --------------------------------------------------------------------------- stream ids
std::string word(Rng& r, const char* cs, size_t lo, size_t hi) {
    size_t n = lo + r.next() % (hi - lo + 1), m = strlen(cs);
    std::string s;
    while (s.size() < n) s += cs[r.next() % m];
    return s;
}
const char* const HOSTC = "abcdefghijklmnopqrstuvwxyz0123456789";
const char* const PATHC = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.~:;!$'()*+@%=";

struct Parsed { error_t ret = 0; PRequestUrl req; };
Parsed run_id(const std::string& id) {
    SRTSOCKET fd = __real_srt_create_socket();
    if (srt_setsockflag(fd, SRTO_STREAMID, id.data(), id.size()) != 0) { fprintf(stderr, "VH: stream id %zu\n", id.size()); _exit(96); }
    auto sock = std::make_shared<Socket>(std::make_shared<StSrtSocket>(fd), "127.0.0.1", 1);
    IConnection conn(sock);
    SrtPrepareHandler h;
    Parsed p;
    p.ret = h.handler(conn);
    auto ctx = dynamic_cast<HostContext*>(conn.get_context().get());
    if (ctx) p.req = ctx->req;
    return p;
}

VH_CASE_ST("P30", streamid) {
    srt_once();
    Rng& r = c.rng;
    int kind = r.next() % 8;
    if (kind == 0) {
        // ids that are none: refused
        std::string id;
        switch (r.next() % 6) {
            case 0: id = word(r, "#!:h=,m/abc", 1, 12); while (id.compare(0, 4, "#!::") == 0) id[0] = 'x'; break;
            case 1: id = "#!::"; break;
            case 2: id = "#!::m=request" + std::string(r.chance(1, 2) ? "," : ""); break;
            case 3: id = "#!::u=" + word(r, HOSTC, 1, 9) + ",m=publish"; break;
            case 4: id = "#!::h=,m=" + std::string(r.chance(1, 2) ? "publish" : "request"); break;
            default: {
                std::string w = word(r, HOSTC, 1, 9) + ".org/live/" + word(r, HOSTC, 1, 6);
                id = r.chance(1, 2) ? "h=" + w + ",m=request" : w;
                break;
            }
        }
        Parsed p = run_id(id);
        VH_CHECK(p.ret != SUCCESS, "accepted", "stream id \"%s\" names no stream and is taken for %s%s", id.c_str(), p.req ? p.req->get_host() : "?", p.req ? p.req->get_path() : "?");
        c.count("ids refused");
        c.distinct("nontrivial", fnv(id.data(), id.size()));
        return;
    }
    std::string host, path, query, mode;
    switch (r.next() % 3) {
        case 0: host = fmt("%d.%d.%d.%d", (int) (r.next() % 256), (int) (r.next() % 256), (int) (r.next() % 256), (int) (r.next() % 256)); break;
        case 1: host = word(r, HOSTC, 1, 8); break;
        default: host = word(r, HOSTC, 1, 12) + "." + word(r, HOSTC, 2, 5) + (r.chance(1, 2) ? "-x.org" : ""); break;
    }
    for (int i = 1 + r.next() % 4; i > 0; --i) path += "/" + word(r, PATHC, 1, r.chance(1, 10) ? 60 : 9);
    std::vector<std::pair<std::string, std::string>> qs;
    if (r.chance(1, 3)) {
        for (int i = 1 + r.next() % 3; i > 0; --i) {
            qs.push_back({word(r, HOSTC, 1, 5) + std::to_string(i), r.chance(1, 6) ? "srt://" + word(r, "abc.", 1, 9) + "/x" : word(r, "abcXYZ019-_.", 0, 8)});
            query += (query.empty() ? "" : "&") + qs.back().first + "=" + qs.back().second;
        }
        c.count("urls with a query");
    }
    int m = r.next() % 4;
    mode = m == 0 ? "publish" : m == 1 || m == 2 ? "request" : r.pick(std::vector<std::string>{"", "play", "Request", "requests", "req", "bidirectional", "request "});
    bool with_m = m != 3 || r.chance(1, 2);
    std::vector<std::string> parts;
    std::string url = (r.chance(1, 4) ? "srt://" : "") + host + path + (query.empty() ? "" : "?" + query);
    parts.push_back("h=" + url);
    if (with_m) parts.push_back("m=" + mode);
    for (int i = r.next() % 3; i > 0; --i)
        parts.push_back(r.pick(std::vector<std::string>{"u=", "s=", "t=", "r=", "hm=", "mh=", "xm=", "H=", "M="}) + (r.chance(1, 3) ? "m=request" : r.chance(1, 2) ? "h=other.org/x" : word(r, HOSTC, 0, 9)));
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.next() % i]);
    std::string id = "#!::";
    for (size_t i = 0; i < parts.size(); ++i) id += (i ? "," : "") + parts[i];
    bool trail = r.chance(1, 2);
    if (trail) id += ",";
    if (id.size() > 512) return;
    Parsed p = run_id(id);
    VH_CHECK(p.ret == SUCCESS && p.req, "refused", "stream id \"%s\" is refused with %d", id.c_str(), p.ret);
    VH_CHECK(p.req->host == host, "host", "stream id \"%s\": host \"%s\"", id.c_str(), p.req->host.c_str());
    VH_CHECK(p.req->get_path() == path, "path", "stream id \"%s\": path \"%s\"", id.c_str(), p.req->get_path());
    VH_CHECK(p.req->get_params() == query, "query", "stream id \"%s\": query \"%s\"", id.c_str(), p.req->get_params());
    for (auto& q : qs) VH_CHECK(p.req->get_param(q.first) == q.second, "parameter", "stream id \"%s\": %s is \"%s\"", id.c_str(), q.first.c_str(), p.req->get_param(q.first).c_str());
    bool play = with_m && mode == "request";
    VH_CHECK((p.req->method == "request") == play, "mode", "stream id \"%s\" is taken for a %s", id.c_str(), p.req->method.c_str());
    c.count(play ? "ids to play" : "ids to publish");
    c.count(trail ? "ids ended by a comma" : "ids without a comma at the end");
    if (parts.back()[0] == 'm' && parts.back()[1] == '=' && !trail) c.count("mode at the very end");
    c.distinct("nontrivial", fnv(id.data(), id.size()));
}

// --------------------------------------------------------------------------- sockets
sockaddr_in addr4(const std::string& ip, int port) {
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = inet_addr(ip.c_str());
    a.sin_port = htons(port);
    return a;
}
int probe_port() {
    int fd = socket(AF_INET, SOCK_DGRAM, 0);
    sockaddr_in a = addr4("0.0.0.0", 0);
    socklen_t l = sizeof a;
    if (fd < 0 || bind(fd, (sockaddr*) &a, sizeof a) || getsockname(fd, (sockaddr*) &a, &l)) { perror("VH: port"); _exit(96); }
    close(fd);
    return ntohs(a.sin_port);
}

// the peer: a libsrt socket that never blocks, polled by its coroutine
struct Peer {
    SRTSOCKET fd = SRT_INVALID_SOCK;
    ~Peer() { if (fd != SRT_INVALID_SOCK) srt_close(fd); }
    static SRTSOCKET make(int rcvbuf = 0) {
        SRTSOCKET fd = __real_srt_create_socket();
        bool no = false;
        int delay = -1;
        srt_setsockflag(fd, SRTO_RCVSYN, &no, sizeof no);
        srt_setsockflag(fd, SRTO_SNDSYN, &no, sizeof no);
        srt_setsockflag(fd, SRTO_TSBPDMODE, &no, sizeof no);
        srt_setsockflag(fd, SRTO_SNDDROPDELAY, &delay, sizeof delay);
        srt_setsockflag(fd, SRTO_TLPKTDROP, &no, sizeof no);
        if (rcvbuf) srt_setsockflag(fd, SRTO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        return fd;
    }
    void nap() { if (st_usleep(2000) != 0) fail("aborted", "another part of the case failed"); }
    bool wait_connected() {
        // libsrt shows a socket as broken for a moment while its connection is completed
        int bad = 0;
        for (uint64_t t0 = now_us(); now_us() - t0 < LONG;) {
            SRT_SOCKSTATUS s = srt_getsockstate(fd);
            if (s == SRTS_CONNECTED) return true;
            bad = s >= SRTS_BROKEN ? bad + 1 : 0;
            if (bad > 100) return false;
            nap();
        }
        return false;
    }
    bool send(const Bytes& d, Rng& r) {
        size_t at = 0;
        int style = r.next() % 4;
        while (at < d.size()) {
            size_t k = style == 0 ? 1316 : style == 1 ? 188 : 1 + r.size(1315);
            k = std::min(k, d.size() - at);
            uint64_t t0 = now_us();
            while (srt_sendmsg(fd, (const char*) &d[at], k, -1, true) == SRT_ERROR) {
                if (srt_getsockstate(fd) != SRTS_CONNECTED || now_us() - t0 > LONG) return false;
                nap();
            }
            at += k;
            if (r.chance(1, 40)) nap();
        }
        return true;
    }
    // everything sent is acknowledged
    bool flushed() {
        for (uint64_t t0 = now_us(); now_us() - t0 < LONG;) {
            size_t blocks = 0, bytes = 0;
            if (srt_getsockstate(fd) != SRTS_CONNECTED) return false;
            if (srt_getsndbuffer(fd, &blocks, &bytes) == 0 && blocks == 0) return true;
            nap();
        }
        return false;
    }
    Bytes recv(size_t limit, Rng& r, uint64_t quiet = LONG) {
        Bytes d;
        char b[1500];
        uint64_t t0 = now_us();
        while (d.size() < limit && now_us() - t0 < quiet) {
            int k = srt_recvmsg(fd, b, sizeof b);
            if (k > 0) { d.insert(d.end(), b, b + k); t0 = now_us(); if (r.chance(1, 200)) nap(); continue; }
            if (srt_getsockstate(fd) != SRTS_CONNECTED) break;
            nap();
        }
        return d;
    }
    void close() { srt_close(fd); fd = SRT_INVALID_SOCK; }
};

struct Server { PIServerSocket s; int port = 0; };
// one per buffer size, since connections inherit it from the listener
Server& server(int sndbuf, int rcvbuf) {
    static std::map<std::pair<int, int>, Server*> all;
    Server*& t = all[{sndbuf, rcvbuf}];
    if (!t) {
        t = new Server;
        wrap_sndbuf = sndbuf;
        wrap_rcvbuf = rcvbuf;
        for (int i = 0; i < 50; ++i) {
            t->s = SingleInstance<ServerSocketFactory>::get_instance().create_ss(Transport::SRT);
            t->port = probe_port();
            if (t->s->listen("", t->port, false, 64) == SUCCESS) break;
            t->port = 0;
        }
        wrap_sndbuf = wrap_rcvbuf = 0;
        if (!t->port) { fprintf(stderr, "VH: no free port\n"); _exit(96); }
    }
    return *t;
}

struct Pair { PSocket sps; std::shared_ptr<Peer> peer; };

Pair connect_pair(Ctx& c, bool accepted, int sndbuf = 0, int rcvbuf = 0, int peer_rcvbuf = 0) {
    Rng& r = c.rng;
    Pair p;
    p.peer = std::make_shared<Peer>();
    if (accepted) {
        auto& ts = server(sndbuf, rcvbuf);
        std::string from = "127.0." + std::to_string(r.next() % 3) + "." + std::to_string(1 + r.next() % 200);
        p.peer->fd = Peer::make(peer_rcvbuf);
        sockaddr_in a = addr4(from, 0), t = addr4("127.0.0.1", ts.port);
        if (srt_bind(p.peer->fd, (sockaddr*) &a, sizeof a) || srt_connect(p.peer->fd, (sockaddr*) &t, sizeof t) == SRT_ERROR) { fprintf(stderr, "VH: srt_connect %s\n", srt_getlasterror_str()); _exit(96); }
        bool up = false;
        Group g;
        int bad = r.chance(1, 10) ? 1 + r.next() % 2 : 0;
        wrap_fail_accept = bad;
        g.go([&]() { up = p.peer->wait_connected(); });
        g.go([&]() {
            for (int i = 0; i < bad; ++i) {
                auto s = ts.s->accept();
                VH_CHECK(s == nullptr, "failed-accept", "an accept that fails gives a connection");
                c.count("failed accepts");
            }
            p.sps = ts.s->accept();
        });
        g.join();
        VH_CHECK(p.sps != nullptr, "accept", "a connection is not accepted (peer up %d state %d reason %d)", up, (int) srt_getsockstate(p.peer->fd), srt_getrejectreason(p.peer->fd));
        VH_CHECK(up, "accept", "a connection is accepted but the peer state is %d reason %d)", (int) srt_getsockstate(p.peer->fd), srt_getrejectreason(p.peer->fd));
        sockaddr_in l;
        int ll = sizeof l;
        srt_getsockname(p.peer->fd, (sockaddr*) &l, &ll);
        VH_CHECK(p.sps->get_peer_ip() == from && p.sps->get_peer_port() == ntohs(l.sin_port), "peer-address", "a peer at %s:%d is said to be at %s:%d",
                 from.c_str(), ntohs(l.sin_port), p.sps->get_peer_ip().c_str(), p.sps->get_peer_port());
        c.count("accepted connections");
    } else {
        SRTSOCKET ln = Peer::make(peer_rcvbuf);
        sockaddr_in a = addr4("127.0.0.1", 0);
        int l = sizeof a;
        if (srt_bind(ln, (sockaddr*) &a, sizeof a) || srt_listen(ln, 4) || srt_getsockname(ln, (sockaddr*) &a, &l)) { fprintf(stderr, "VH: srt_listen %s\n", srt_getlasterror_str()); _exit(96); }
        int port = ntohs(a.sin_port);
        wrap_sndbuf = sndbuf;
        wrap_rcvbuf = rcvbuf;
        Group g;
        bool gave_up = false;
        g.go([&]() { p.sps = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::SRT, "127.0.0.1", port, LONG); gave_up = !p.sps; });
        g.go([&]() {
            for (uint64_t t0 = now_us(); now_us() - t0 < LONG && !gave_up; p.peer->nap()) {
                sockaddr_in b;
                int bl = sizeof b;
                SRTSOCKET s = __real_srt_accept(ln, (sockaddr*) &b, &bl);
                if (s != SRT_INVALID_SOCK) { p.peer->fd = s; break; }
            }
        });
        g.join();
        wrap_sndbuf = wrap_rcvbuf = 0;
        srt_close(ln);
        VH_CHECK(p.sps != nullptr && p.peer->fd != SRT_INVALID_SOCK, "connect", "a connection to a listening port fails");
        VH_CHECK(p.sps->get_peer_ip() == "127.0.0.1" && p.sps->get_peer_port() == port, "peer-address", "the peer is said to be at %s:%d",
                 p.sps->get_peer_ip().c_str(), p.sps->get_peer_port());
        c.count("opened connections");
    }
    return p;
}

struct Got { Bytes d; error_t last = 0; uint64_t n = 0; };
Got sps_recv(IReader& s, Rng& r, size_t limit, int full) {
    Got g;
    int style = r.next() % 4;
    while (g.d.size() < limit) {
        size_t k = style == 0 ? 1316 : style == 1 ? 1 + r.next() % 40 : style == 2 ? 188 : 1 + r.size(5000);
        k = std::min(k, limit - g.d.size());
        if (style == 1 && g.d.size() > 3000) style = 3;
        Exact e(k);
        error_t ret;
        size_t nr = 0;
        ssize_t fr = 0;
        if (full) {
            ret = s.read_fully(e.p, k, &fr);
            nr = k;
        } else {
            ret = s.read(e.p, k, nr);
        }
        ++g.n;
        if (ret != SUCCESS) { g.last = ret; return g; }
        VH_CHECK(nr >= 1 && nr <= k, "read-size", "a read of %zu bytes gives %zu", k, nr);
        g.d.insert(g.d.end(), e.p, e.p + nr);
        if (r.chance(1, 30)) yield();
    }
    return g;
}
error_t sps_send(IWriter& s, const Bytes& d, Rng& r) {
    size_t at = 0;
    int style = r.next() % 3;
    while (at < d.size()) {
        size_t k = style == 0 ? d.size() : style == 1 ? 1 + r.size(1600) : 1 + r.size(50000);
        k = std::min(k, d.size() - at);
        Exact e(k);
        memcpy(e.p, &d[at], k);
        error_t ret = s.write(e.p, k);
        if (ret != SUCCESS) return ret;
        at += k;
        if (r.chance(1, 10)) yield();
    }
    return SUCCESS;
}
bool is_prefix(const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

void duplex(Ctx& c) {
    Rng& r0 = c.rng;
    int n = 1 + r0.next() % 3;
    struct One { Pair p; Bytes in, out, got_peer; Got got; Rng a{1}, b{1}, d{1}, e{1}; int full = 0; bool small = false; };
    std::vector<One> cs(n);
    for (auto& o : cs) {
        o.small = r0.chance(1, 2);
        // a small send buffer: writers wait for room
        o.p = o.small ? connect_pair(c, r0.chance(1, 2), 64 * 1500) : connect_pair(c, r0.chance(1, 2));
        o.in = r0.bytes(r0.chance(1, 4) ? r0.size(400000) : r0.size(20000));
        o.out = r0.bytes(r0.chance(1, 4) ? r0.size(400000) : r0.size(20000));
        o.a = Rng(r0.next()); o.b = Rng(r0.next()); o.d = Rng(r0.next()); o.e = Rng(r0.next());
        o.full = r0.next() % 3;
        o.p.sps->set_recv_timeout(LONG);
        o.p.sps->set_send_timeout(LONG);
        VH_CHECK(o.p.sps->get_recv_timeout() == LONG && o.p.sps->get_send_timeout() == LONG, "timeout-setting", "a timeout that was set is not in force");
    }
    Group g;
    for (auto& o : cs) {
        auto* p = &o;
        g.go([p]() { p->p.peer->send(p->in, p->a); });
        g.go([p]() { p->got_peer = p->p.peer->recv(p->out.size(), p->b); });
        g.go([p]() { p->got = p->full == 2 ? sps_recv(*p->p.sps->get_io(), p->d, p->in.size(), 1) : sps_recv(*p->p.sps, p->d, p->in.size(), p->full); });
        g.go([p]() { error_t e = sps_send(*p->p.sps, p->out, p->e); VH_CHECK(e == SUCCESS, "write-failed", "a write fails with %d though the peer reads", e); });
    }
    g.join();
    for (auto& o : cs) {
        VH_CHECK(o.got.d == o.in, "bytes", "%zu bytes were sent, %zu arrived (last result %d), same so far: %d", o.in.size(), o.got.d.size(), o.got.last, (int) is_prefix(o.got.d, o.in));
        VH_CHECK(o.got_peer == o.out, "bytes", "%zu bytes were written, %zu arrived, same so far: %d", o.out.size(), o.got_peer.size(), (int) is_prefix(o.got_peer, o.out));
        c.count("bytes received", o.in.size());
        c.count("bytes sent", o.got_peer.size());
        if (o.small && o.out.size() > 64 * 1316) c.count("writes beyond the buffer");
        c.distinct("nontrivial", o.in.size() * 1000003u + o.out.size() * 17 + o.got.n);
    }
}

// the peer sends, has it acknowledged and closes: all of it arrives, then the end is told
void ending(Ctx& c) {
    Rng& r = c.rng;
    int n = 1 + r.next() % 3;
    struct One { Pair p; Bytes in; Got got; Rng a{1}, b{1}; int full = 0; bool flushed = false; };
    std::vector<One> cs(n);
    for (auto& o : cs) {
        o.p = connect_pair(c, r.chance(1, 2));
        o.p.sps->set_recv_timeout(LONG);
        o.in = r.bytes(1 + r.size(r.chance(1, 3) ? 200000 : 4000));
        o.a = Rng(r.next()); o.b = Rng(r.next());
    }
    Group g;
    for (auto& o : cs) {
        auto* p = &o;
        utime_t late = r.next() % 40000;
        bool slow = r.chance(1, 2);
        g.go([p]() { p->flushed = p->p.peer->send(p->in, p->a) && p->p.peer->flushed(); p->p.peer->close(); });
        g.go([p, late, slow]() {
            if (slow) st_usleep(late);
            p->got = sps_recv(*p->p.sps, p->b, p->in.size() + 1, 0);
        });
    }
    g.join();
    for (auto& o : cs) {
        if (!o.flushed) { c.count("not acknowledged"); continue; }
        VH_CHECK(o.got.d == o.in, "bytes-at-the-end", "%zu bytes were received and acknowledged before the peer closed, %zu are given to the reader, same so far: %d",
                 o.in.size(), o.got.d.size(), (int) is_prefix(o.got.d, o.in));
        VH_CHECK(o.got.last != SUCCESS && o.got.last != ERROR_SRT_SOCKET_TIMEOUT, "end", "the end of a connection is told as %d", o.got.last);
        size_t nr = 0;
        uint8_t b[9];
        error_t e = o.p.sps->read(b, 9, nr);
        VH_CHECK(e != SUCCESS, "end", "a read behind the end gives %d, %zu bytes", e, nr);
        Bytes out = r.bytes(5000);
        o.p.sps->set_send_timeout(LONG);
        e = o.p.sps->write(&out[0], out.size());
        VH_CHECK(e != SUCCESS, "write-after-end", "a write to a peer that is gone succeeds");
        c.count("ends");
        c.count("bytes received", o.in.size());
        c.distinct("nontrivial", o.in.size() * 31 + 5);
    }
}

void timeouts(Ctx& c) {
    Rng& r = c.rng;
    if (r.chance(1, 3)) {
        // a peer that does not read
        Pair p = connect_pair(c, r.chance(1, 2), 64 * 1500, 0, 64 * 1500);
        utime_t tm = 40000 + r.next() % 100000;
        p.sps->set_send_timeout(tm);
        Bytes out = r.bytes(13160);
        error_t ret = SUCCESS;
        size_t ok = 0;
        uint64_t t0 = 0, t1 = 0;
        for (int i = 0; i < 400 && ret == SUCCESS; ++i) {
            t0 = now_us();   // not behind the scheduler\'s clock
            st_usleep(1);
            ret = p.sps->write(&out[0], out.size());
            t1 = now_us();
            if (ret == SUCCESS) ok += out.size();
        }
        VH_CHECK(ret == ERROR_SRT_SOCKET_TIMEOUT, "write-timeout", "writing to a peer that does not read ends with %d after %zu bytes", ret, ok);
        VH_CHECK(t1 - t0 + 6000 >= tm, "write-timeout-early", "a write gives up after %lu us, its timeout is %lu us", (unsigned long) (t1 - t0), (unsigned long) tm);
        VH_CHECK(t1 - t0 <= tm + 15000000, "write-timeout-late", "a write gives up after %lu us, its timeout is %lu us", (unsigned long) (t1 - t0), (unsigned long) tm);
        Rng b(r.next());
        // (libsrt may stop for good when a window this small was full, so what is left is not waited for)
        Bytes got = p.peer->recv(ok, b, 100000);
        VH_CHECK(got.size() > 0 && got.size() <= ok + out.size(), "bytes", "%zu bytes were written successfully, %zu arrived", ok, got.size());
        for (size_t i = 0; i < got.size(); ++i) VH_CHECK(got[i] == out[i % out.size()], "bytes", "byte %zu is not what was written", i);
        c.count("write timeouts");
        c.distinct("nontrivial", tm * 3);
        return;
    }
    int n = 1 + r.next() % 3;
    std::vector<Pair> ps(n);
    std::vector<utime_t> tm(n);
    for (int i = 0; i < n; ++i) { ps[i] = connect_pair(c, r.chance(1, 2)); tm[i] = 15000 + r.next() % 100000; ps[i].sps->set_recv_timeout(tm[i]); }
    Group g;
    for (int i = 0; i < n; ++i) {
        int full = r.next() % 3;
        g.go([&, i, full]() {
            for (int k = 0; k < 2; ++k) {
                Exact e(64);
                size_t nr = 0;
                ssize_t fr = 0;
                uint64_t t0 = now_us();   // not behind the scheduler\'s clock
                st_usleep(1);
                error_t ret = full == 2 ? ps[i].sps->get_io()->read_fully(e.p, 64, &fr) : full ? ps[i].sps->read_fully(e.p, 64, &fr) : ps[i].sps->read(e.p, 64, nr);
                uint64_t d = now_us() - t0;
                VH_CHECK(ret == ERROR_SRT_SOCKET_TIMEOUT, "read-timeout", "a read from a silent peer gives %d", ret);
                VH_CHECK(d + 6000 >= tm[i], "read-timeout-early", "a read gives up after %lu us, its timeout is %lu us", (unsigned long) d, (unsigned long) tm[i]);
                VH_CHECK(d <= tm[i] + 15000000, "read-timeout-late", "a read gives up after %lu us, its timeout is %lu us", (unsigned long) d, (unsigned long) tm[i]);
                c.count("read timeouts");
            }
        });
    }
    g.join();
    // and then the bytes still come, both ways
    for (int i = 0; i < n; ++i) {
        Bytes in = r.bytes(1 + r.size(30000)), out = r.bytes(1 + r.size(30000)), gotp;
        Rng a(r.next()), b(r.next()), d(r.next()), e(r.next());
        Got got;
        ps[i].sps->set_recv_timeout(LONG);
        ps[i].sps->set_send_timeout(LONG);
        int full = r.chance(1, 2);
        Group g2;
        g2.go([&]() { ps[i].peer->send(in, a); });
        g2.go([&]() { got = sps_recv(*ps[i].sps, b, in.size(), full); });
        g2.go([&]() { error_t x = sps_send(*ps[i].sps, out, d); VH_CHECK(x == SUCCESS, "write-failed", "a write after a timeout of a read fails with %d", x); });
        g2.go([&]() { gotp = ps[i].peer->recv(out.size(), e); });
        g2.join();
        VH_CHECK(got.d == in, "bytes", "after a timeout %zu of %zu bytes arrive", got.d.size(), in.size());
        VH_CHECK(gotp == out, "bytes", "after a timeout %zu of %zu bytes arrive at the peer", gotp.size(), out.size());
    }
    c.distinct("nontrivial", tm[0] * 7 + n);
}

// a reader and a writer wait on one connection: what comes wakes the reader although the writer goes on waiting
void both_wait(Ctx& c) {
    Rng& r = c.rng;
    Pair p = connect_pair(c, r.chance(1, 2), 64 * 1500, 0, 64 * 1500);
    p.sps->set_send_timeout(LONG);
    p.sps->set_recv_timeout(LONG);
    bool writer_first = r.chance(1, 2), written = false, aborted = false, broke = false;
    int rounds = 1 + r.next() % 3;
    std::vector<Bytes> in(rounds);
    for (auto& d : in) d = r.bytes(1 + r.size(1300));
    Bytes out = r.bytes(13160);
    int got = 0;
    size_t writes = 0;
    error_t we = SUCCESS;
    uint64_t ended = 0;
    Group g;
    g.go([&]() {
        if (!writer_first) st_usleep(5000);
        while (we == SUCCESS) { we = p.sps->write(&out[0], out.size()); ++writes; }
        ended = now_us();
        written = true;
    });
    g.go([&]() {
        if (writer_first) st_usleep(100000);
        for (int i = 0; i < rounds; ++i) {
            Exact e(1500);
            size_t nr = 0;
            error_t ret = p.sps->read(e.p, 1500, nr);
            if (broke) return;
            VH_CHECK(ret == SUCCESS && nr == in[i].size() && !memcmp(e.p, in[i].data(), nr), "bytes", "while a writer waits a message of %zu bytes is read with result %d, %zu bytes", in[i].size(), ret, nr);
            ++got;
        }
    });
    uint64_t closed = 0;
    g.go([&]() {
        st_usleep(250000);
        size_t before = writes;
        for (int i = 0; i < rounds; ++i) {
            // (the connection of a slow machine may have broken meanwhile)
            if (srt_sendmsg(p.peer->fd, (const char*) &in[i][0], in[i].size(), -1, true) == SRT_ERROR) { broke = true; break; }
            while (got <= i && !written) p.peer->nap();
        }
        aborted = written;
        if (writes == before && !written) c.count("readers woken while a writer waits", rounds);
        closed = now_us();
        p.peer->close();
    });
    g.join();
    if (broke) { c.count("connections broken"); return; }
    VH_CHECK(!aborted && got == rounds, "reader-waits-for-writer", "%d of %d messages are read before the writer of the connection gives up (%d)", got, rounds, we);
    VH_CHECK(we != SUCCESS && we != ERROR_SRT_SOCKET_TIMEOUT && ended < closed + 12000000, "end", "a writer that waits is told of the end of the connection as %d, %ld us after it", we, (long) (ended - closed));
    c.distinct("nontrivial", in[0].size() * 7 + rounds);
}

// nobody listens: no socket, within the time given
void refused(Ctx& c) {
    Rng& r = c.rng;
    int port = probe_port();
    utime_t tm = 50000 + r.next() % 200000;
    uint64_t t0 = now_us();   // not behind the scheduler\'s clock
    st_usleep(1);
    auto s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::SRT, "127.0.0.1", port, tm);
    uint64_t d = now_us() - t0;
    VH_CHECK(s == nullptr, "connected", "a connection to a port where nobody listens succeeds");
    VH_CHECK(d <= tm + 15000000, "connect-late", "connecting gives up after %lu us, its timeout is %lu us", (unsigned long) d, (unsigned long) tm);
    c.count("connections refused");
    c.distinct("nontrivial", tm);
}

VH_CASE_ST("P35", srt) {
    srt_once();
    Rng& r = c.rng;
    wrap_sndbuf = wrap_rcvbuf = wrap_fail_accept = 0;
    switch (r.next() % 11) {
        case 10: both_wait(c); break;
        case 0: case 1: case 2: case 3: duplex(c); break;
        case 4: case 5: case 6: ending(c); break;
        case 7: case 8: timeouts(c); break;
        default: refused(c); break;
    }
}

}
