// P19 HTTP heads, P20 HTTP body framing, P21 HTTP writers
#include "io_sched.hpp"
#include "st_util.hpp"
#include <sps_http_parser.hpp>
#include <sps_http_socket.hpp>
#include <sps_io_url_http.hpp>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/socket.h>

using namespace vh;
using namespace sps;

namespace {
typedef std::vector<std::pair<std::string, std::string>> Headers;

std::string lower(std::string s) { for (auto& ch : s) ch = tolower(ch); return s; }
std::string token(Rng& r, size_t n) {
    static const char t[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    std::string s;
    for (size_t i = 0; i < n; ++i) s += t[r.next() % (sizeof t - 1)];
    return s;
}
std::string value(Rng& r, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; ++i) {
        int k = r.next() % 12;
        s += k == 0 ? ' ' : k == 1 ? (char) (0x80 + r.next() % 0x7f) : k == 2 ? '%' : k == 3 ? ':' : (char) (33 + r.next() % 94);
    }
    while (!s.empty() && s.back() == ' ') s.back() = 'x';
    if (!s.empty() && s[0] == ' ') s[0] = 'y';
    return s;
}
// lengths around and above what 31 and 32 bits hold
size_t big(Rng& r) {
    static const size_t t[] = {2147483647, 2147483648u, 2147483649u, 4294967295u, 4294967296ull, 4294967300ull, 1ull << 40, 5000000000ull};
    return t[r.next() % 8] + (r.chance(1, 2) ? r.next() % 100000 : 0);
}
std::string path_text(Rng& r, size_t n) {
    static const char t[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~/!$'()*,;:@%+";
    std::string s = "/";
    for (size_t i = 0; i < n; ++i) s += t[r.next() % (sizeof t - 1)];
    return s;
}
const char* NAMES[] = {"Accept", "User-Agent", "Connection", "Cookie", "X-Forwarded-For", "Referer", "Range", "ETag"};
// names the parser gives a meaning to are added on purpose only
bool special(const std::string& n) {
    static const std::set<std::string> s = {"host", "content-length", "transfer-encoding", "connection", "upgrade", "proxy-connection", "accept", "server"};
    return s.count(lower(n)) > 0;
}
std::string name(Rng& r) {
    std::string n;
    do { n = r.chance(1, 2) ? NAMES[r.next() % 8] : token(r, 1 + r.next() % 20); } while (special(n));
    return n;
}
std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
Cutter cutter(Rng& r) { return Cutter(r.next() % 4, r.next()); }

struct Head {
    bool request;
    std::string method, target, path, query, host, version;
    int port = 80, status = 0;
    long cl = -1;
    bool chunked = false;
    Headers h;
    std::string text() const {
        std::string s = request ? method + " " + target + " " + version + "\r\n"
                                : version + " " + std::to_string(status) + " Some Reason\r\n";
        for (auto& p : h) s += p.first + ":" + p.second + "\r\n";
        return s + "\r\n";
    }
    Headers expect() const {            // optional white space before a value is no part of it
        Headers o;
        for (auto& p : h) { size_t i = 0; while (i < p.second.size() && (p.second[i] == ' ' || p.second[i] == '\t')) ++i; o.push_back({p.first, p.second.substr(i)}); }
        return o;
    }
};

const char* METHODS[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"};

Head random_head(Rng& r, bool request) {
    Head h;
    h.request = request;
    h.version = r.chance(1, 6) ? "HTTP/1.0" : "HTTP/1.1";
    auto ows = [&]() { return std::string(r.next() % 3 == 0 ? 0 : 1 + r.next() % 3 / 2, r.chance(1, 8) ? '\t' : ' '); };
    auto add = [&](const std::string& n, const std::string& v) { h.h.push_back({n, ows() + v}); };
    if (request) {
        h.method = METHODS[r.next() % 7];
        h.path = path_text(r, r.size(60));
        if (r.chance(1, 2)) { h.query = path_text(r, 1 + r.size(40)).substr(1) + (r.chance(1, 2) ? "?a=b&c=?" : ""); h.target = h.path + "?" + h.query; }
        else h.target = h.path;
        h.host = token(r, 1 + r.next() % 12);
        for (auto& ch : h.host) if (ch == '_') ch = 'u';
        if (r.chance(1, 2)) h.host += ".example.com";
        if (r.chance(1, 3)) h.port = 1 + r.next() % 65535;
    } else {
        h.status = 100 + r.next() % 500;
    }
    int n = r.size(14);
    int host_at = r.next() % (n + 1), fr_at = r.next() % (n + 1), framing = r.next() % 4;
    for (int i = 0; i <= n; ++i) {
        if (request && i == host_at) {
            const char* hn[] = {"Host", "host", "HOST", "hOsT"};
            add(hn[r.next() % 4], h.host + (h.port != 80 ? ":" + std::to_string(h.port) : ""));
        }
        if (i == fr_at) {
            if (framing == 1) {
                h.cl = r.chance(1, 4) ? big(r) : r.next() % 100000;
                add(r.chance(1, 2) ? "Content-Length" : "content-length", std::string(r.chance(1, 6) ? 1 + r.next() % 5 : 0, '0') + std::to_string(h.cl));
            } else if (framing == 2) {
                h.chunked = true;
                add(r.chance(1, 2) ? "Transfer-Encoding" : "transfer-encoding", r.chance(1, 2) ? "chunked" : "Chunked");
            }
        }
        if (i < n) {
            std::string nm = name(r), v = r.chance(1, 8) ? "" : value(r, 1 + r.size(60));
            h.h.push_back({nm, v.empty() ? (r.chance(1, 2) ? " " : "") : ows() + v});
        }
    }
    return h;
}

// brings the head to an exact length with one more header (or more)
void pad_to(Head& h, Rng& r, size_t want) {
    size_t have = h.text().size();
    while (have + 5 <= want) {
        size_t k = want - have;               // "N:V\r\n"
        size_t nl = std::min<size_t>(1 + r.next() % 10, k - 3);
        std::string nm;
        do nm = token(r, nl); while (special(nm));
        size_t vl = std::min<size_t>(k - 3 - nl, r.chance(1, 3) ? 200 : 3000);
        if (k - 3 - nl - vl > 0 && k - 3 - nl - vl < 5) vl = k - 3 - nl;
        h.h.push_back({nm, value(r, vl)});
        have = h.text().size();
    }
}

void check_headers(const std::list<RequestHeader>& got, const Headers& want, const char* where) {
    VH_CHECK(got.size() == want.size(), "header-count", "%s: %zu headers, %zu were sent", where, got.size(), want.size());
    size_t i = 0;
    for (auto& g : got) {
        VH_CHECK(g.key == want[i].first, "header-name", "%s: header %zu is '%s', sent '%s'", where, i, g.key.c_str(), want[i].first.c_str());
        VH_CHECK(g.value == want[i].second, "header-value", "%s: value of '%s' is '%s', sent '%s'", where, g.key.c_str(), g.value.c_str(), want[i].second.c_str());
        ++i;
    }
}

uint64_t shape(const Head& h) {
    uint64_t x = fnv(h.target.data(), h.target.size(), 1469598103934665603ull + h.status);
    for (auto& p : h.h) { x = x * 131 + p.first.size(); x = x * 131 + p.second.size(); }
    return x;
}
}  // namespace

VH_CASE("P19", http_heads) {
    Rng& r = c.rng;
    Head h = random_head(r, r.chance(3, 4));
    int mode = r.next() % 8;
    if (mode == 0) pad_to(h, r, 2040 + r.next() % 17);             // around the limit
    if (mode == 1) pad_to(h, r, 2049 + r.size(5000));
    std::string text = h.text();
    c.distinct("nontrivial", shape(h));
    Bytes tail = r.bytes(r.size(300));
    if (r.chance(1, 4)) tail = bytes("\r\n\r\n");
    if (r.chance(1, 6)) { std::string t = random_head(r, true).text(); tail = bytes(t); }
    HttpType ht = h.request ? HttpType::REQUEST : HttpType::RESPONSE;
    Bytes all = bytes(text);
    all.insert(all.end(), tail.begin(), tail.end());

    {   // whole
        auto io = std::make_shared<SchedReader>(all, cutter(r));
        HttpParser p;
        int ret = p.parse_header(io, ht);
        if (text.size() > 2048) {
            VH_CHECK(ret <= 0, "long-head-accepted", "a head of %zu bytes is accepted", text.size());
            VH_CHECK(io->pos <= 2048, "long-head-read", "%zu bytes were read of a head that is too long", io->pos);
            c.count("over-long heads refused");
            return;
        }
        VH_CHECK(ret > 0, "head-refused", "a well-formed head of %zu bytes is refused (%d): %s", text.size(), ret, text.substr(0, 300).c_str());
        VH_CHECK(io->pos == text.size(), "read-behind-head", "the head has %zu bytes, %zu were taken from the connection", text.size(), io->pos);
        if (text.size() > 2040) c.count("heads at the limit");
        if (h.request) {
            PRequestUrl q = p.get_request();
            VH_CHECK(q != nullptr, "no-request", "no request");
            VH_CHECK(q->method == h.method, "method", "method %s, sent %s", q->method.c_str(), h.method.c_str());
            VH_CHECK(q->path == h.path, "path", "path %s, sent %s", q->path.c_str(), h.path.c_str());
            VH_CHECK(q->params == h.query, "query", "query %s, sent %s", q->params.c_str(), h.query.c_str());
            VH_CHECK(q->host == h.host, "host", "host %s, sent %s", q->host.c_str(), h.host.c_str());
            VH_CHECK(q->port == h.port, "port", "port %d, sent %d", q->port, h.port);
            VH_CHECK(q->is_chunked() == h.chunked, "chunked", "chunked %d, sent %d", q->is_chunked(), h.chunked);
            VH_CHECK(q->get_content_length() == h.cl, "content-length", "content length %lld, sent %ld", (long long) q->get_content_length(), h.cl);
            VH_CHECK(q->has_body() == (h.chunked || h.cl > 0), "has-body", "has_body is %d", q->has_body());
            check_headers(q->headers, h.expect(), "request");
            for (auto& e : h.expect()) {        // look-ups are case-insensitive and give the first of a name
                std::string k = r.chance(1, 2) ? lower(e.first) : e.first, want;
                for (auto& f : h.expect()) if (lower(f.first) == lower(k)) { want = f.second; break; }
                VH_CHECK(q->get_header(k) == want, "header-lookup", "header %s: '%s', sent '%s'", k.c_str(), q->get_header(k).c_str(), want.c_str());
            }
            c.count("request heads");
        } else {
            PHttpResponse q = p.get_response();
            VH_CHECK(q != nullptr, "no-response", "no response");
            VH_CHECK(q->status_code == h.status, "status", "status %d, sent %d", q->status_code, h.status);
            VH_CHECK(q->chunked == h.chunked, "chunked", "chunked %d, sent %d", q->chunked, h.chunked);
            VH_CHECK(q->content_length == h.cl, "content-length", "content length %lld, sent %ld", (long long) q->content_length, h.cl);
            VH_CHECK(q->success() == (h.status == 200), "success", "success %d for %d", q->success(), h.status);
            check_headers(q->headers, h.expect(), "response");
            c.count("response heads");
        }
        // the same bytes in memory
        HttpParser m;
        Exact e(bytes(text));
        VH_CHECK(m.parse_header((const char*) e.p, e.n, ht) > 0, "head-refused", "the head is refused from memory");
    }
    {   // cut off anywhere
        int cuts = 3;
        for (int i = 0; i < cuts; ++i) {
            size_t at = i == 0 ? text.size() - 1 - r.next() % std::min<size_t>(4, text.size()) : r.next() % text.size();
            auto io = std::make_shared<SchedReader>(Bytes(all.begin(), all.begin() + at), cutter(r));
            HttpParser p;
            int ret = p.parse_header(io, ht);
            VH_CHECK(ret <= 0, "cut-head-accepted", "a head cut at %zu of %zu is accepted", at, text.size());
            c.count("cut heads refused");
        }
    }
    {   // malformed
        std::string bad = text;
        size_t eol = bad.find("\r\n");
        const char* what = "";
        size_t second = eol + 2;
        bool has = second < bad.size() - 2;     // there is a header line
        switch (r.next() % 8) {
            case 0: bad = (h.request ? "foo " + h.target + " HTTP/1.1" : "HTTP/1.1 abc OK") + bad.substr(eol); what = "unknown method or status"; break;
            case 1: if (h.request) bad = h.method + " " + h.target + " XTTP/1.1" + bad.substr(eol); else bad = "XTTP/1.1 200 OK" + bad.substr(eol); what = "no HTTP"; break;
            case 2: if (h.request) { bad = h.method + "  HTTP/1.1" + bad.substr(eol); what = "no target"; } else { bad = "HTTP/x.1 200 OK" + bad.substr(eol); what = "bad version"; } break;
            case 3: if (!has) return; bad.insert(second, std::string(1, (char) (1 + r.next() % 8)) + "x: y\r\n"); what = "control character in a name"; break;
            case 4: bad.insert(second, "Content-Length: 12x\r\n"); what = "bad length"; break;
            case 5: bad.insert(second, "Content-Length: 5\r\nContent-Length: 7\r\n"); what = "two lengths"; break;
            case 6: bad.insert(second, ": novalue\r\n"); what = "no name"; break;
            default: bad = std::string(1 + r.next() % 3, (char) r.next() | 0x80) + bad; what = "garbage in front"; break;
        }
        if (r.chance(1, 8)) { bad = "\r\n\r\n"; what = "nothing but empty lines"; }
        if (bad.size() <= 2048) {
            Bytes d = bytes(bad);
            d.insert(d.end(), tail.begin(), tail.end());
            auto io = std::make_shared<SchedReader>(d, cutter(r));
            HttpParser p;
            int ret = p.parse_header(io, ht);
            VH_CHECK(ret <= 0, "malformed-accepted", "a head with %s is accepted: %s", what, bad.substr(0, 200).c_str());
            c.count("malformed heads refused");
        }
    }
    {   // damaged bytes: whatever comes out, it comes out for every segmentation, and nothing behind the head is taken
        Bytes d = all;
        int n = 1 + r.next() % 6;
        for (int i = 0; i < n; ++i) d[r.next() % std::min(d.size(), text.size())] = r.chance(1, 3) ? "\r\n :"[r.next() % 4] : r.byte();
        std::string first;
        size_t end = str(d).find("\r\n\r\n");
        for (int k = 0; k < 3; ++k) {
            auto io = std::make_shared<SchedReader>(d, Cutter(k, r.next()));
            HttpParser p;
            int ret = p.parse_header(io, ht);
            std::string sum = ret > 0 ? "ok" : "no";
            if (ret > 0) {
                VH_CHECK(io->pos == end + 4, "read-behind-head", "the head ends at %zu, %zu bytes were taken", end + 4, io->pos);
                if (h.request) { auto q = p.get_request(); sum += q->method + " " + q->url + " " + q->host + fmt(" %d ", q->port); for (auto& e : q->headers) sum += e.key + "=" + e.value + ";"; }
                else { auto q = p.get_response(); sum += fmt("%d %lld %d ", q->status_code, (long long) q->content_length, q->chunked); for (auto& e : q->headers) sum += e.key + "=" + e.value + ";"; }
            }
            if (k == 0) first = sum;
            VH_CHECK(sum == first, "segmentation", "segmentation %d: %s, in one piece: %s", k, sum.substr(0, 300).c_str(), first.substr(0, 300).c_str());
        }
        c.mix(first.data(), first.size());
        c.count("damaged heads");
    }
}

// ------------------------------------------------------------------------------- bodies
namespace {
struct Framed {
    Bytes body, wire;
    size_t complete = 0;        // wire bytes of the framing
    int kind;                   // 0 length, 1 chunked, 2 until the end
    std::vector<size_t> chunks; // where each chunk's data starts and ends on the wire
};

Framed frame(Rng& r, int kind) {
    Framed f;
    f.kind = kind;
    size_t n = r.chance(1, 10) ? r.size(200000) : r.size(3000);
    f.body = r.bytes(n);
    if (r.chance(1, 4)) for (auto& b : f.body) b = "\r\n0a"[b % 4];           // looks like framing
    if (kind != 1) { f.wire = f.body; f.complete = f.wire.size(); return f; }
    auto put = [&](const std::string& s) { f.wire.insert(f.wire.end(), s.begin(), s.end()); };
    size_t at = 0;
    auto line = [&](size_t k) {
        std::string s = r.chance(1, 3) ? fmt("%zX", k) : fmt("%zx", k);
        if (r.chance(1, 6)) s = std::string(1 + r.next() % (15 - s.size()), '0') + s;
        if (r.chance(1, 10)) s += r.chance(1, 3) ? "\t" : r.chance(1, 2) ? "  " : " ";       // blanks behind the length
        if (r.chance(1, 6)) { std::string e = ";" + token(r, 1 + r.next() % 6) + (r.chance(1, 2) ? "=" + token(r, 1 + r.next() % 5) : ""); if (s.size() + e.size() <= 31) s += e; }
        put(s + "\r\n");
    };
    while (at < n) {
        size_t k = std::min<size_t>(n - at, 1 + (r.chance(1, 3) ? r.size(8) : r.chance(1, 2) ? r.size(600) : r.size(70000)));
        line(k);
        f.chunks.push_back(f.wire.size());
        f.wire.insert(f.wire.end(), f.body.begin() + at, f.body.begin() + at + k);
        f.chunks.push_back(f.wire.size());
        put("\r\n");
        at += k;
    }
    line(0);
    put("\r\n");
    f.complete = f.wire.size();
    return f;
}

struct Got { Bytes data; error_t last; uint64_t reads; };
Got read_all(IReader& s, Rng& r, size_t cap) {
    Got g;
    g.reads = 0;
    int style = r.next() % 3;
    int empty = 0;
    while (true) {
        size_t k = style == 0 ? 4096 : style == 1 ? 1 + r.next() % 9 : 1 + r.size(70000);
        uint8_t* p = (uint8_t*) malloc(k);
        size_t nr = 0;
        error_t ret = s.read(p, k, nr);
        ++g.reads;
        if (ret == SUCCESS) {
            if (nr > k) { free(p); fail("read-size", fmt("a read of %zu bytes returns %zu", k, nr)); }
            g.data.insert(g.data.end(), p, p + nr);
            empty = nr ? 0 : empty + 1;
        }
        free(p);
        if (ret != SUCCESS) { g.last = ret; return g; }
        if (empty > 3) fail("no-progress", "reads return nothing for ever");
        if (g.data.size() > cap) fail("too-much", fmt("%zu bytes, %zu were sent", g.data.size(), cap));
    }
}
bool prefix(const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

void damage_chunked(Rng& r, Framed& f, Framed& d, const char*& what, size_t& good) {
    // one defect in the framing; good = body bytes in front of it
    d = f;
    size_t nchunk = f.chunks.size() / 2;
    size_t i = r.next() % (nchunk + 1);                 // the i-th length line (the last is that of the end)
    size_t line = i == 0 ? 0 : f.chunks[2 * i - 1] + 2;
    size_t eol = str(Bytes(f.wire.begin() + line, f.wire.end())).find("\r\n") + line;
    good = 0;
    for (size_t k = 0; k < i; ++k) good += f.chunks[2 * k + 1] - f.chunks[2 * k];
    auto& w = d.wire;
    switch (r.next() % 6) {
        case 0: w.insert(w.begin() + line, (uint8_t) "gz-+ x\r"[r.next() % 7]); what = "no hexadecimal length"; break;
        case 1: { std::string z(40, '0'); w.insert(w.begin() + line, z.begin(), z.end()); what = "over-long length line"; break; }
        case 2: w.erase(w.begin() + line, w.begin() + eol); what = "empty length line"; break;
        case 3: w.erase(w.begin() + eol); what = "length line without CR"; break;
        case 4: {
            if (!nchunk) { w.insert(w.begin(), 'q'); what = "no hexadecimal length"; good = 0; break; }
            size_t k = r.next() % nchunk;
            w[f.chunks[2 * k + 1] + r.next() % 2] ^= 1 + r.next() % 255;
            good = 0;
            for (size_t j = 0; j <= k; ++j) good += f.chunks[2 * j + 1] - f.chunks[2 * j];
            what = "chunk not ended by CRLF";
            break;
        }
        default: { std::string z = "ffffffffffffffff"; w.erase(w.begin() + line, w.begin() + eol); w.insert(w.begin() + line, z.begin(), z.end()); what = "16 digit length"; break; }
    }
}

int listen_loop(int& port) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    socklen_t l = sizeof a;
    if (bind(fd, (sockaddr*) &a, sizeof a) || listen(fd, 8) || getsockname(fd, (sockaddr*) &a, &l)) { perror("VH: listen"); _exit(96); }
    port = ntohs(a.sin_port);
    return fd;
}

// one exchange of the HTTP client with an origin of the harness
struct Origin {
    std::string request;        // what arrived
    bool early_eof = false;
};

// serves one connection: reads the request, sends `wire` in pieces, closes
void origin(int lfd, Origin& o, const Bytes& wire, uint64_t seed, size_t body_len, bool reset) {
    Rng r(seed);
    st_netfd_t l = st_netfd_open_socket(lfd);
    sockaddr_in a; int al = sizeof a;
    st_netfd_t s = st_accept(l, (sockaddr*) &a, &al, 5000000);
    if (!s) { st_netfd_close(l); fail("no-connection", "the client did not connect"); }
    int one = 1; setsockopt(st_netfd_fileno(s), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    char buf[4096];
    while (true) {
        size_t e = o.request.find("\r\n\r\n");
        if (e != std::string::npos && o.request.size() >= e + 4 + body_len) break;
        ssize_t k = st_read(s, buf, sizeof buf, 5000000);
        if (k <= 0) { o.early_eof = true; break; }
        o.request.append(buf, k);
    }
    size_t at = 0;
    int style = r.next() % 4;
    while (at < wire.size()) {
        size_t k = style == 0 ? wire.size() : style == 1 ? 1 + r.size(3) : style == 2 ? 1 + r.size(400) : 1 + r.size(40000);
        if (style == 1 && at > 600) k = 5000;
        k = std::min(k, wire.size() - at);
        if (st_write(s, &wire[at], k, 5000000) != (ssize_t) k) break;
        at += k;
        if (r.chance(2, 3)) st_usleep(0);
    }
    if (reset) {
        st_usleep(0);
        linger lg = {1, 0};
        setsockopt(st_netfd_fileno(s), SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    } else {
        // closing with the client's bytes unread would reset the connection
        shutdown(st_netfd_fileno(s), SHUT_WR);
        while (st_read(s, buf, sizeof buf, 5000000) > 0) {}
    }
    st_netfd_close(s);
    st_netfd_close(l);
}
}  // namespace

VH_CASE_ST("P20", http_bodies) {
    Rng& r = c.rng;
    bool client = r.chance(1, 5);
    int kind = client ? r.next() % 3 : r.next() % 2;
    Framed f = frame(r, kind);
    Bytes tail = r.bytes(r.size(200));
    if (r.chance(1, 3)) tail = bytes("0\r\n\r\nGET / HTTP/1.1\r\n\r\n");
    int fate = r.next() % 4;        // 0,1 whole; 2 cut off; 3 damaged framing
    if (kind != 1 && fate == 3) fate = 2;
    if (kind == 2 && fate == 2) fate = 0;
    if (fate == 2 && f.complete == 0) fate = 0;
    Bytes wire = f.wire;
    size_t good = f.body.size();
    const char* what = "";
    size_t declared = f.body.size();
    if (fate == 2) {
        size_t at = r.next() % f.complete;
        if (r.chance(1, 4)) at = f.complete - 1 - r.next() % std::min<size_t>(5, f.complete);
        if (r.chance(1, 4)) {                       // a body too large to come whole
            declared = big(r);
            at = f.complete;
            if (kind == 1) {
                std::string l = fmt(r.chance(1, 2) ? "%zx\r\n" : "%zX\r\n", declared);
                wire = f.wire;
                f.chunks.clear();
                wire = bytes(l);
                f.chunks.push_back(wire.size());
                wire.insert(wire.end(), f.body.begin(), f.body.end());
                f.chunks.push_back(wire.size());
                at = wire.size();
            }
            c.count("huge bodies");
        }
        wire.resize(at);
        if (kind == 0) good = at;
        else { good = 0; for (size_t i = 0; i + 1 < f.chunks.size(); i += 2) if (at > f.chunks[i]) good += std::min(at, f.chunks[i + 1]) - f.chunks[i]; }
    } else if (fate == 3) {
        Framed d;
        damage_chunked(r, f, d, what, good);
        wire = d.wire;
    }
    c.distinct("nontrivial", f.body.size() * 1315423911u + f.chunks.size() * 2654435761u + fate * 7 + kind * 3 + wire.size() + (client ? 1u << 30 : 0));
    Got g;
    size_t left_behind = 0;
    if (!client) {
        Bytes d = wire;
        if (fate != 2) d.insert(d.end(), tail.begin(), tail.end());
        auto io = std::make_shared<SchedReader>(d, cutter(r));
        HttpRequestSocket s(io, "127.0.0.1", 1, kind == 1, kind == 1 ? -1 : (int64_t) declared);
        g = read_all(s, r, f.body.size() + 1000000);
        left_behind = d.size() - io->pos;
        if (fate < 2) {
            VH_CHECK(left_behind == tail.size(), "took-next-message", "%zu bytes behind the body were sent, %zu are left on the connection (%s body of %zu)",
                     tail.size(), left_behind, kind == 1 ? "chunked" : "sized", f.body.size());
            for (int i = 0; i < 3; ++i) {           // the end is final
                uint8_t b[8]; size_t nr = 0;
                VH_CHECK(s.read(b, 8, nr) == ERROR_HTTP_RES_EOF, "end-not-final", "a read after the end succeeds");
                VH_CHECK(io->pos + left_behind == d.size(), "took-next-message", "a read after the end takes bytes");
            }
            VH_CHECK(s.eof(), "end-not-final", "eof() is false at the end");
        }
        c.count("server side bodies");
    } else {
        int port = 0;
        int lfd = listen_loop(port);
        std::string head = "HTTP/1.1 200 OK\r\n";
        if (kind == 0) head += "Content-Length: " + std::to_string(declared) + "\r\n";
        if (kind == 1) head += "Transfer-Encoding: chunked\r\n";
        head += "\r\n";
        Bytes all = bytes(head);
        all.insert(all.end(), wire.begin(), wire.end());
        bool behind = kind != 2 && fate < 2 && r.chance(1, 2);
        if (behind) all.insert(all.end(), tail.begin(), tail.end());
        Origin o;
        Group grp;
        uint64_t seed = r.next();
        grp.go([&]() { origin(lfd, o, all, seed, 0, false); });
        error_t oret = -1;
        grp.go([&]() {
            HttpUrlProtocol p;
            PRequestUrl u;
            VH_CHECK(RequestUrl::from(fmt("http://127.0.0.1:%d/x", port), u) == SUCCESS, "url", "the url is refused");
            oret = p.open(u, DEFAULT);
            VH_CHECK(oret == SUCCESS, "open", "a good answer is refused: %d", oret);
            p.set_recv_timeout(8000000);
            g = read_all(p, r, f.body.size() + 1000000);
        });
        grp.join();
        c.count("client side bodies");
    }
    VH_CHECK(prefix(g.data, f.body), "foreign-bytes", "what was read is no prefix of the body (%zu of %zu bytes, %s %s)", g.data.size(), f.body.size(),
             fate == 2 ? "cut off" : fate == 3 ? what : "whole", kind == 1 ? "chunked" : kind == 0 ? "sized" : "until the end");
    if (fate < 2) {
        VH_CHECK(g.data.size() == f.body.size(), "body-incomplete", "%zu of %zu bytes, last result %d", g.data.size(), f.body.size(), g.last);
        if (kind != 2) VH_CHECK(g.last == ERROR_HTTP_RES_EOF, "end-not-seen", "the body ends with result %d", g.last);
        c.count(kind == 1 ? "whole chunked bodies" : "whole sized bodies");
    } else {
        VH_CHECK(g.last != ERROR_HTTP_RES_EOF, "broken-taken-for-whole", "a body %s is taken for whole after %zu of %zu bytes", fate == 2 ? "cut off" : what, g.data.size(), f.body.size());
        VH_CHECK(g.data.size() <= good, "foreign-bytes", "%zu bytes come in front of the defect (%s), %zu were delivered", good, what, g.data.size());
        if (!client && fate == 2 && kind == 0) VH_CHECK(g.data.size() == good, "body-lost", "%zu bytes arrived before the cut, %zu were delivered", good, g.data.size());
        c.count(fate == 2 ? "cut bodies" : "malformed framings refused");
    }
    c.mix(g.data.data(), g.data.size());
    c.mix64(g.last);
}

// ------------------------------------------------------------------------------- writers
namespace {
struct Msg { std::string first; Headers h; std::string rest; };
// independent parse of a head
Msg parse_msg(const std::string& s) {
    Msg m;
    size_t e = s.find("\r\n\r\n");
    VH_CHECK(e != std::string::npos, "no-head", "the head is not ended: %s", s.substr(0, 200).c_str());
    m.rest = s.substr(e + 4);
    size_t at = 0;
    std::string head = s.substr(0, e + 2);
    bool first = true;
    while (at < head.size()) {
        size_t n = head.find("\r\n", at);
        std::string l = head.substr(at, n - at);
        at = n + 2;
        VH_CHECK(l.find('\r') == std::string::npos && l.find('\n') == std::string::npos, "bare-cr", "a bare CR or LF in the head");
        if (first) { m.first = l; first = false; continue; }
        size_t k = l.find(": ");
        VH_CHECK(k != std::string::npos && k > 0, "header-syntax", "header line '%s'", l.c_str());
        m.h.push_back({l.substr(0, k), l.substr(k + 2)});
    }
    return m;
}
int count_of(const Headers& h, const std::string& n, std::string* v = nullptr) {
    int k = 0;
    for (auto& p : h) if (lower(p.first) == lower(n)) { ++k; if (v) *v = p.second; }
    return k;
}
bool dechunk(const std::string& s, std::string& body, size_t& used, bool& ended, std::vector<size_t>& sizes) {
    size_t at = 0;
    ended = false;
    while (at < s.size()) {
        size_t e = s.find("\r\n", at);
        if (e == std::string::npos || e == at) return false;
        size_t k = 0;
        for (size_t i = at; i < e; ++i) { if (!isxdigit((unsigned char) s[i])) return false; k = k * 16 + (isdigit((unsigned char) s[i]) ? s[i] - '0' : (tolower(s[i]) - 'a' + 10)); }
        if (s.size() < e + 2 + k + 2 || s.compare(e + 2 + k, 2, "\r\n")) return false;
        body += s.substr(e + 2, k);
        sizes.push_back(k);
        at = e + 2 + k + 2;
        if (k == 0) { ended = true; break; }
    }
    used = at;
    return true;
}
}

static void response_writer(Ctx& c) {
    Rng& r = c.rng;
    static const std::vector<int> ST = {200, 206, 301, 302, 304, 400, 403, 404, 500, 502, 503, 299, 451};
    int status = r.pick(ST);
    int kind = r.next() % 3;            // 0 length, 1 chunked, 2 none
    std::vector<Bytes> writes;
    Bytes body;
    int n = r.size(12);
    for (int i = 0; i < n; ++i) {
        Bytes b = r.bytes(1 + (r.chance(1, 6) ? r.size(70000) : r.size(400)));
        if (r.chance(1, 5)) for (auto& x : b) x = "\r\n0"[x % 3];
        writes.push_back(b);
        body.insert(body.end(), b.begin(), b.end());
    }
    std::list<RequestHeader> hs;
    Headers want;
    int nh = r.size(10);
    bool server = r.chance(1, 4);
    int fr_at = r.chance(1, 2) ? r.next() % (nh + 1) : -1, sv_at = r.next() % (nh + 1);
    for (int i = 0; i <= nh; ++i) {
        if (i == fr_at && kind == 0) hs.push_back(RequestHeader(r.chance(1, 2) ? "Content-Length" : "content-length", std::to_string(body.size())));
        if (i == fr_at && kind == 1 && r.chance(1, 4)) hs.push_back(RequestHeader("Content-Length", "12"));     // no part of a chunked message
        if (i == fr_at && kind == 1) hs.push_back(RequestHeader(r.chance(1, 2) ? "Transfer-Encoding" : "transfer-encoding", "chunked"));
        if (server && i == sv_at) { hs.push_back(RequestHeader(r.chance(1, 2) ? "Server" : "server", "origin/1")); want.push_back({"server", "origin/1"}); }
        if (i < nh) { std::string nm = name(r), v = value(r, r.size(60)); hs.push_back(RequestHeader(nm, v)); want.push_back({nm, v}); }
    }
    auto io = std::make_shared<SchedReader>(Bytes(), Cutter(0, 1));
    HttpResponseSocket s(io, "127.0.0.1", 1);
    VH_CHECK(s.init(status, nh || server || fr_at >= 0 ? &hs : nullptr, kind == 0 ? (int) body.size() : -1, kind == 1) == SUCCESS, "init", "init fails");
    if (!(nh || server || fr_at >= 0)) want.clear();
    bool explicit_head = r.chance(1, 2) || writes.empty();
    bool fails = r.chance(1, 6);
    if (fails) io->fail_write_after = r.next() % (2 + writes.size());
    bool failed = false;
    if (explicit_head) failed = s.write_header() != SUCCESS;
    size_t done = 0;
    for (auto& b : writes) {
        if (failed) break;
        Exact e(b);
        if (kind != 1 && r.chance(1, 6)) failed = s.write(e.p, 0) != SUCCESS;
        if (failed) break;
        failed = s.write(e.p, e.n) != SUCCESS;
        if (!failed) ++done;
    }
    bool end = kind == 1 && !failed;
    if (end) failed = s.write((void*) "", 0) != SUCCESS;
    std::string out = str(io->written);
    if (fails && (size_t) io->fail_write_after <= io->write_sizes.size() && io->fail_write_after >= 0) {
        // a transport that fails is reported, and what got out is the start of the message
        if (failed) c.count("failing transports reported");
    } else {
        VH_CHECK(!failed, "write-error", "a write fails on a good connection");
    }
    if (!fails) VH_CHECK(!failed, "write-error", "a write fails on a good connection");
    if (failed) return;
    VH_CHECK(!(fails && done < writes.size()), "lost-error", "a failing write is not reported");
    Msg m = parse_msg(out);
    std::string st = fmt("HTTP/1.1 %d ", status);
    VH_CHECK(m.first.compare(0, st.size(), st) == 0, "status-line", "status line '%s' for %d", m.first.c_str(), status);
    std::string v;
    int ncl = count_of(m.h, "Content-Length", &v), nte = count_of(m.h, "Transfer-Encoding");
    VH_CHECK(ncl == (kind == 0) && nte == (kind == 1), "framing-headers", "%d length and %d transfer-encoding headers for a %s body", ncl, nte, kind == 0 ? "sized" : kind == 1 ? "chunked" : "unsized");
    if (kind == 0) VH_CHECK(v == std::to_string(body.size()), "framing-headers", "length %s, is %zu", v.c_str(), body.size());
    if (kind == 1) { std::string t; count_of(m.h, "Transfer-Encoding", &t); VH_CHECK(lower(t) == "chunked", "framing-headers", "transfer-encoding %s", t.c_str()); }
    Headers rest;
    int servers = 0;
    for (auto& p : m.h) {
        if (lower(p.first) == "content-length" || lower(p.first) == "transfer-encoding") continue;
        if (lower(p.first) == "server") { ++servers; if (server) rest.push_back({"server", p.second}); continue; }
        rest.push_back(p);
    }
    VH_CHECK(servers == 1, "server-header", "%d server headers", servers);
    VH_CHECK(rest == want, "headers", "%zu headers of %zu set come out as set", rest.size(), want.size());
    if (kind == 1) {
        std::string b; size_t used = 0; bool ended = false; std::vector<size_t> sizes;
        VH_CHECK(dechunk(m.rest, b, used, ended, sizes), "chunk-syntax", "the chunked body is malformed");
        VH_CHECK(ended && used == m.rest.size(), "chunk-end", "the chunked body is not ended, or goes on behind its end");
        VH_CHECK(b == str(body), "body", "the body differs (%zu of %zu bytes)", b.size(), body.size());
        c.count("chunked messages");
    } else {
        VH_CHECK(m.rest == str(body), "body", "the body differs (%zu of %zu bytes)", m.rest.size(), body.size());
        c.count("plain messages");
    }
    uint64_t x = status * 3 + kind;
    for (auto& b : writes) x = x * 1099511628211ull + b.size();
    for (auto& w : want) x = x * 131 + w.second.size();
    c.distinct("nontrivial", x);
}

static void request_writer(Ctx& c) {
    Rng& r = c.rng;
    int port = 0;
    int lfd = listen_loop(port);
    PRequestUrl u;
    std::string path = path_text(r, r.size(50)), query = r.chance(1, 2) ? path_text(r, 1 + r.size(50)).substr(1) : "";
    std::string host = "h" + token(r, 1 + r.next() % 10) + ".example";
    for (auto& ch : host) if (ch == '_') ch = 'u';
    bool own_port = r.chance(1, 2);
    VH_CHECK(RequestUrl::from("http://" + host + (own_port ? fmt(":%d", port) : "") + path + (query.empty() ? "" : "?" + query), u) == SUCCESS, "url", "the url is refused");
    u->set_ip_port("127.0.0.1", port);
    u->method = METHODS[r.next() % 7];
    Bytes body;
    bool may = u->method != "GET" && u->method != "HEAD";
    if (may && r.chance(2, 3)) body = r.bytes(r.chance(1, 6) ? r.size(300000) : r.size(2000));
    u->body = str(body);
    Headers want;
    int nh = r.size(10);
    int fr = r.next() % 3, fr_at = r.next() % (nh + 1);
    bool accept = r.chance(1, 2), host_h = r.chance(1, 2);
    for (int i = 0; i <= nh; ++i) {
        if (i == fr_at) {
            if (fr == 1) u->headers.push_back(RequestHeader("Content-Length", std::to_string(body.size())));
            if (fr == 2) u->headers.push_back(RequestHeader("transfer-encoding", "chunked"));
            if (accept) { u->headers.push_back(RequestHeader("accept", "text/x")); want.push_back({"accept", "text/x"}); }
            if (host_h) u->headers.push_back(RequestHeader("Host", host));
        }
        if (i < nh) { std::string nm = name(r), v = value(r, r.size(60)); u->headers.push_back(RequestHeader(nm, v)); want.push_back({nm, v}); }
    }
    // what the peer answers; a bodiless answer must not be waited for
    int status = r.pick(std::vector<int>{200, 404, 204, 304, 500});
    Bytes abody = r.bytes(r.size(500));
    std::string head = fmt("HTTP/1.1 %d X\r\n", status);
    bool bodiless = u->method == "HEAD" || status == 204 || status == 304;
    bool length = !(status == 204) && r.chance(2, 3);
    if (length) head += fmt("Content-Length: %zu\r\n", abody.size());
    head += "X-A: 1\r\n\r\n";
    Bytes wire = bytes(head);
    if (!bodiless) wire.insert(wire.end(), abody.begin(), abody.end());
    Origin o;
    Group g;
    uint64_t seed = r.next();
    Got got;
    error_t oret = -1;
    int st = 0;
    g.go([&]() { origin(lfd, o, wire, seed, body.size(), false); });
    g.go([&]() {
        HttpUrlProtocol p;
        oret = p.open(u, DEFAULT);
        VH_CHECK(oret == SUCCESS, "open", "a good answer is refused: %d", oret);
        auto rsp = std::dynamic_pointer_cast<HttpResponse>(p.response());
        VH_CHECK(rsp != nullptr, "no-response", "no response");
        st = rsp->status_code;
        p.set_recv_timeout(8000000);
        got = read_all(p, r, abody.size() + 1000);
    });
    g.join();
    if (bodiless) VH_CHECK(got.last == ERROR_HTTP_RES_EOF, "end-not-seen", "an answer %d to %s has no body, its end is reported with %d", status, u->method.c_str(), got.last);
    VH_CHECK(st == status, "status", "status %d, sent %d", st, status);
    VH_CHECK(got.data == (bodiless ? Bytes() : abody), "answer-body", "%zu bytes of answer, %zu were sent", got.data.size(), bodiless ? 0 : abody.size());
    Msg m = parse_msg(o.request);
    std::string target = path + (query.empty() ? "" : "?" + query);
    VH_CHECK(m.first == u->method + " " + target + " HTTP/1.1", "request-line", "request line '%s', wanted %s %s", m.first.c_str(), u->method.c_str(), target.c_str());
    std::string hv;
    VH_CHECK(count_of(m.h, "Host", &hv) == 1, "host-header", "%d host headers", count_of(m.h, "Host"));
    VH_CHECK(hv == host || hv == host + fmt(":%d", port), "host-header", "host header %s for %s", hv.c_str(), host.c_str());
    VH_CHECK(count_of(m.h, "Transfer-Encoding") == 0, "framing-headers", "a transfer-encoding without chunks");
    std::string cl;
    int ncl = count_of(m.h, "Content-Length", &cl);
    VH_CHECK(ncl <= 1, "framing-headers", "%d lengths", ncl);
    if (!body.empty()) VH_CHECK(ncl == 1, "framing-headers", "a body without a length");
    if (ncl) VH_CHECK(cl == std::to_string(body.size()), "framing-headers", "length %s, is %zu", cl.c_str(), body.size());
    VH_CHECK(m.rest == str(body), "body", "the body differs (%zu of %zu bytes)", m.rest.size(), body.size());
    Headers rest;
    int acc = 0;
    for (auto& p : m.h) {
        std::string l = lower(p.first);
        if (l == "host" || l == "content-length") continue;
        if (l == "accept") { ++acc; if (!accept) continue; }
        rest.push_back(p);
    }
    VH_CHECK(acc == 1, "accept-header", "%d accept headers", acc);
    VH_CHECK(rest == want, "headers", "%zu headers of %zu set come out as set", rest.size(), want.size());
    c.count("client requests");
    c.distinct("nontrivial", fnv(o.request.data(), o.request.size()));
}

VH_CASE_ST("P21", http_writers) {
    if (c.rng.chance(1, 5)) request_writer(c);
    else response_writer(c);
}
