// P32 RTMP command messages
#include <sanitizer/asan_interface.h>
#include "vh.hpp"
#include <sps_avformat_librtmp_packet.hpp>
#include <librtmp/amf.h>
#include <librtmp/log.h>
#include <cmath>
#include <algorithm>

using namespace vh;
using namespace sps;

namespace {
// ---- an AMF0 writer of its own
struct Amf {
    Bytes b;
    Rng& r;
    explicit Amf(Rng& rr) : r(rr) {}
    void u(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t) (v >> (8 * i))); }
    void raw(const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
    void num(double d) { b.push_back(0); uint64_t v; memcpy(&v, &d, 8); u(v, 8); }
    void str(const std::string& s, bool lng = false) {
        if (lng || s.size() > 65535) { b.push_back(12); u(s.size(), 4); } else { b.push_back(2); u(s.size(), 2); }
        raw(s);
    }
    void boolean(bool v) { b.push_back(1); b.push_back(v); }
    void null() { b.push_back(5); }
    void name(const std::string& s) { u(s.size(), 2); raw(s); }
    void end() { u(9, 3); }
};

std::string text(Rng& r, size_t max) {
    size_t n = r.size(max);
    std::string s;
    int style = r.next() % 3;
    for (size_t i = 0; i < n; ++i) s += style == 0 ? (char) ('a' + r.next() % 26) : style == 1 ? (char) (33 + r.next() % 90) : (char) r.byte();
    return s;
}
double number(Rng& r) {
    switch (r.next() % 4) {
        case 0: return (double) (r.next() % 10);
        case 1: return (double) (int32_t) r.next();
        case 2: return (double) (r.next() % 1000000) / 7 + 1;
        default: { double d; do { uint64_t v = r.next(); memcpy(&d, &v, 8); uint8_t hi = v >> 56; if (hi == 0) d = NAN; } while (std::isnan(d)); return d; }
    }
}

struct Val { int kind; std::string s; double n; };       // 0 number, 1 string, 2 anything else
// an object property of any type, value left in v
void value(Amf& a, Rng& r, Val& v, int depth) {
    switch (r.next() % (depth > 2 ? 6 : 9)) {
        case 0: v.kind = 0; v.n = number(r); a.num(v.n); break;
        case 1: v.kind = 1; v.s = text(r, 60); a.str(v.s, r.chance(1, 5)); break;
        case 2: v.kind = 2; a.boolean(r.chance(1, 2)); break;
        case 3: v.kind = 2; a.b.push_back(r.chance(1, 2) ? 5 : 6); break;
        case 4: v.kind = 2; a.b.push_back(11); { double d = number(r); uint64_t x; memcpy(&x, &d, 8); a.u(x, 8); a.u(r.chance(1, 2) ? 255 : r.next() & 0xffff, 2); } break;
        case 5: v.kind = 1; v.s = text(r, 300); a.str(v.s); break;
        case 6: v.kind = 2; {
            a.b.push_back(3);
            for (int i = r.next() % 4; i > 0; --i) { Val w; a.name("n" + text(r, 5)); value(a, r, w, depth + 1); }
            a.end();
        } break;
        case 7: v.kind = 2; {
            int n = r.next() % 4;
            a.b.push_back(8); a.u(n, 4);
            for (int i = 0; i < n; ++i) { Val w; a.name("e" + text(r, 5)); value(a, r, w, depth + 1); }
            a.end();
        } break;
        default: v.kind = 2; {
            int n = r.next() % 4;
            a.b.push_back(10); a.u(n, 4);
            for (int i = 0; i < n; ++i) { double d = number(r); a.num(d); }
        } break;
    }
}

// leaves a pattern where the next calls have their locals
__attribute__((noinline, no_sanitize("address"))) void dirty_stack(uint8_t v) {
    volatile uint8_t a[32768];
    for (size_t i = 0; i < sizeof a; ++i) a[i] = v;
    if (a[v] == (uint8_t) (v + 1)) abort();
}

struct Cmd {
    std::string name, app, tc, stream, type;
    double txn = 0;
    bool has_app = true, has_tc = true, null_object = false, has_stream = false, has_type = false;
    std::vector<std::pair<std::string, Val>> props;
    Bytes b;
    std::vector<size_t> ends;                            // where each top-level value ends
};

const char* NAMES[] = {"connect", "createStream", "play", "publish", "releaseStream", "FCPublish"};

Cmd make(Rng& r) {
    Cmd m;
    Amf a(r);
    auto mark = [&]() { m.ends.push_back(a.b.size()); };
    m.name = NAMES[r.next() % 6];
    a.str(m.name); mark();
    m.txn = number(r);
    a.num(m.txn); mark();
    bool conn = m.name == "connect";
    m.null_object = conn ? r.chance(1, 12) : r.chance(4, 5);
    if (m.null_object) a.b.push_back(r.chance(3, 4) ? 5 : 6);
    else {
        a.b.push_back(3);
        m.has_app = conn && !r.chance(1, 12);
        m.has_tc = conn && !r.chance(1, 12);
        m.app = text(r, 40);
        m.tc = "rtmp://" + text(r, r.chance(1, 10) ? 900 : 60);
        int n = r.next() % 8, pa = r.next() % (n + 1), pt = r.next() % (n + 1);
        for (int i = 0; i <= n; ++i) {
            if (i == pa && m.has_app) { a.name("app"); a.str(m.app, r.chance(1, 10)); }
            if (i == pt && m.has_tc) { a.name("tcUrl"); a.str(m.tc, r.chance(1, 10)); }
            if (i == n) break;
            Val v;
            std::string k = (r.chance(1, 6) ? "app" : r.chance(1, 6) ? "tcUr" : "k") + std::to_string(i) + text(r, 6);
            a.name(k);
            value(a, r, v, 0);
            m.props.push_back({k, v});
        }
        a.end();
    }
    mark();
    if (m.name != "connect" && m.name != "createStream") {
        m.has_stream = !r.chance(1, 15);
        if (m.has_stream) {
            m.stream = text(r, r.chance(1, 8) ? 700 : 40);
            a.str(m.stream, r.chance(1, 10)); mark();
            if (m.name == "publish") {
                m.has_type = r.chance(2, 3);
                if (m.has_type) { const char* t[] = {"live", "record", "append"}; m.type = t[r.next() % 3]; a.str(m.type); mark(); }
            }
            // more values than needed: a play has start, duration, reset; anything may follow a publish type
            if ((m.name == "play" || m.has_type) && r.chance(1, 3))
                for (int i = r.next() % 4; i > 0; --i) { Val v; value(a, r, v, 0); mark(); }
        }
    }
    m.b = a.b;
    return m;
}

std::string sv(const AVal& v) { return v.av_len ? std::string(v.av_val, v.av_len) : ""; }

struct Out { error_t ret; PIRTMPPacket p; };
// The message body ends where the memory sps may touch ends. librtmp itself (not part of the repository, and not
// instrumented) looks at a length field before it checks that there is one: a few bytes behind the body exist for it.
struct Tail {
    uint8_t* p; size_t n;
    explicit Tail(const Bytes& b) : p((uint8_t*) calloc(1, (b.size() + 15) / 8 * 8 + 64)), n(b.size()) {
        if (n) memcpy(p, b.data(), n);
        ASAN_POISON_MEMORY_REGION(p + n, (n + 15) / 8 * 8 + 64 - n);
    }
    ~Tail() { ASAN_UNPOISON_MEMORY_REGION(p, (n + 15) / 8 * 8 + 64); free(p); }
    Tail(const Tail&) = delete;
};
struct Msg {
    WrapRtmpPacket w{false};
    Tail e;
    explicit Msg(const Bytes& b) : e(b) {
        w.packet.m_packetType = RTMP_PACKET_TYPE_AMF0_CMD;
        w.packet.m_body = (char*) e.p;
        w.packet.m_nBodySize = b.size();
    }
};
Out decode(Msg& m, Rng& r) {
    Out o;
    static const uint8_t fill[] = {0x00, 0xff, 0x41, 0x01};
    dirty_stack(fill[r.next() % 4]);
    o.ret = RtmpPacketDecoder::decode(m.w, o.p);
    return o;
}

// what a message with its first k values must give
bool acceptable(const Cmd& m, size_t k) {
    if (k < 3) return false;
    if (m.name == "connect") return !m.null_object && m.has_app && m.has_tc;
    if (m.name == "createStream") return true;
    return m.has_stream && k >= 4;
}

void same(const Cmd& m, size_t k, Out& o, Ctx& c) {
    auto* cmd = dynamic_cast<CommandRtmpPacket*>(o.p.get());
    VH_CHECK(cmd != nullptr, "kind", "a %s message is not recognised", m.name.c_str());
    VH_CHECK(sv(cmd->name) == m.name, "name", "the name of a %s message is '%s'", m.name.c_str(), sv(cmd->name).c_str());
    VH_CHECK(memcmp(&cmd->transaction_id, &m.txn, 8) == 0, "transaction", "transaction %g is read as %g", m.txn, cmd->transaction_id);
    c.count(m.name + " messages");
    if (!m.null_object) {
        for (auto& p : m.props) {
            AVal s = {nullptr, 0};
            double n = 0;
            error_t es = get_amf_string(cmd->object, p.first.c_str(), &s), en = get_amf_num(cmd->object, p.first.c_str(), &n);
            if (p.first.find('\0') != std::string::npos) continue;
            VH_CHECK((es == SUCCESS) == (p.second.kind == 1), "property", "string property: result %d, kind %d", es, p.second.kind);
            VH_CHECK((en == SUCCESS) == (p.second.kind == 0), "property", "number property: result %d, kind %d", en, p.second.kind);
            if (p.second.kind == 1) VH_CHECK(sv(s) == p.second.s, "property", "a string of %zu bytes is read as %d bytes", p.second.s.size(), s.av_len);
            if (p.second.kind == 0) VH_CHECK(memcmp(&n, &p.second.n, 8) == 0, "property", "%g is read as %g", p.second.n, n);
            c.count("properties");
        }
        AVal s;
        VH_CHECK(get_amf_string(cmd->object, "no such property", &s) == ERROR_RTMP_AMF_PROP_NOT_FOUND, "property", "a property that is not there is found");
    }
    if (m.name == "connect") {
        auto* x = dynamic_cast<ConnectRtmpPacket*>(cmd);
        VH_CHECK(x, "kind", "a connect message is taken for another");
        VH_CHECK(sv(x->app) == m.app && sv(x->tc_url) == m.tc, "connect", "app '%s', url '%s' are read as '%s', '%s'", m.app.c_str(), m.tc.c_str(), sv(x->app).c_str(), sv(x->tc_url).c_str());
    } else if (m.name == "createStream") {
        VH_CHECK(dynamic_cast<CreateStreamRtmpPacket*>(cmd), "kind", "a createStream message is taken for another");
    } else {
        auto* x = dynamic_cast<NetStreamRtmpPacket*>(cmd);
        bool kind = m.name == "play" ? dynamic_cast<PlayRtmpPacket*>(cmd) != nullptr : m.name == "publish" ? dynamic_cast<PublishRtmpPacket*>(cmd) != nullptr :
                    m.name == "FCPublish" ? dynamic_cast<FCPublishRtmpPacket*>(cmd) != nullptr : dynamic_cast<ReleaseStreamRtmpPacket*>(cmd) != nullptr;
        VH_CHECK(x && kind, "kind", "a %s message is taken for another", m.name.c_str());
        VH_CHECK(x->stream_params == m.stream, "stream", "stream '%s' is read as '%s'", m.stream.c_str(), x->stream_params.c_str());
        if (m.name == "publish") {
            auto* y = dynamic_cast<PublishRtmpPacket*>(cmd);
            std::string want = m.has_type && k >= 5 ? m.type : "";
            VH_CHECK(y->publish_type == want, "publish-type", "publish type '%s' is read as '%s'", want.c_str(), y->publish_type.c_str());
            if (!want.empty()) c.count("publish types");
        }
    }
}
}  // namespace

VH_CASE("P32", rtmp_commands) {
    Rng& r = c.rng;
    RTMP_LogSetLevel(RTMP_LOGCRIT);
    Cmd m = make(r);
    size_t k = m.ends.size();
    c.distinct("nontrivial", fnv(m.b.data(), m.b.size()));
    {
        Msg w(m.b);
        Out o = decode(w, r);
        if (acceptable(m, k)) {
            VH_CHECK(o.ret == SUCCESS, "refused", "a %s message of %zu values is refused: %d", m.name.c_str(), k, o.ret);
            same(m, k, o, c);
        } else {
            VH_CHECK(o.ret != SUCCESS, "incomplete-accepted", "a %s message without what it must carry is accepted", m.name.c_str());
            c.count("incomplete messages refused");
        }
    }
    // cut off
    for (int i = 0; i < 6; ++i) {
        size_t n = r.chance(1, 3) ? r.next() % std::min<size_t>(m.b.size(), 4) : r.next() % m.b.size();
        if (r.chance(1, 4)) n = m.ends[r.next() % k];
        size_t whole = 0;
        while (whole < k && m.ends[whole] <= n) ++whole;
        bool at_end = n == 0 || (whole && m.ends[whole - 1] == n);
        Bytes b(m.b.begin(), m.b.begin() + n);
        Msg w(b);
        Out o = decode(w, r);
        if (at_end && acceptable(m, whole)) { VH_CHECK(o.ret == SUCCESS, "refused", "a %s message of %zu values is refused: %d", m.name.c_str(), whole, o.ret); same(m, whole, o, c); }
        else if (whole == 2 && !m.null_object && !at_end && o.ret == SUCCESS) {
            // librtmp lets the end of the message end an object
            auto* x = dynamic_cast<CommandRtmpPacket*>(o.p.get());
            VH_CHECK(x && sv(x->name) == m.name && memcmp(&x->transaction_id, &m.txn, 8) == 0, "cut", "a cut message is read as something else");
            if (auto* y = dynamic_cast<ConnectRtmpPacket*>(x)) VH_CHECK(sv(y->app) == m.app && sv(y->tc_url) == m.tc, "cut", "a cut message is read as something else");
            c.count("objects ended by the message");
        } else if (whole >= 4 && m.name != "connect" && !at_end && o.ret == SUCCESS && n > m.ends[3] && (m.name == "play" || whole >= 5)) {
            same(m, whole, o, c);                        // one of the values behind those that matter
        } else {
            VH_CHECK(o.ret != SUCCESS, "cut-accepted", "%zu of %zu bytes of a %s message are accepted", n, m.b.size(), m.name.c_str());
            c.count("cut messages refused");
        }
    }
    // damaged: anything but a memory error or a result that depends on old memory. No byte becomes 0x11: librtmp's
    // own AMF3 decoder, which that selects, reads far outside what it is given
    for (int i = 0; i < 4; ++i) {
        Bytes b = m.b;
        for (int j = 1 + r.next() % 4; j > 0; --j) {
            size_t at = r.next() % b.size();
            switch (r.next() % 3) {
                case 0: b[at] = r.byte(); break;
                case 1: b[at] ^= 1 << r.next() % 8; break;
                default: b[at] = (uint8_t) (r.next() % 18); break;
            }
            if (b[at] == 0x11) b[at] = 0;
        }
        if (std::find(b.begin(), b.end(), 0x11) != b.end()) continue;
        Msg w(b);
        Rng f(r.next());
        Out o = decode(w, r), q = decode(w, f);
        VH_CHECK(o.ret == q.ret, "old-memory", "the same message is once refused with %d and once with %d", o.ret, q.ret);
        if (o.ret == SUCCESS) {
            auto *x = dynamic_cast<CommandRtmpPacket*>(o.p.get()), *y = dynamic_cast<CommandRtmpPacket*>(q.p.get());
            VH_CHECK((x != nullptr) == (y != nullptr), "old-memory", "the same message is once a command and once not");
            if (x) {
                VH_CHECK(sv(x->name) == sv(y->name) && memcmp(&x->transaction_id, &y->transaction_id, 8) == 0, "old-memory", "the same message is read in two ways");
                auto in = [&](const AVal& v) { return v.av_len == 0 || (v.av_val >= (char*) w.e.p && v.av_val + v.av_len <= (char*) w.e.p + w.e.n); };
                VH_CHECK(in(x->name), "outside", "the name lies outside the message");
                if (auto* n = dynamic_cast<ConnectRtmpPacket*>(x)) VH_CHECK(in(n->app) && in(n->tc_url), "outside", "a string lies outside the message");
            }
        }
        c.count(o.ret == SUCCESS ? "damaged messages accepted" : "damaged messages refused");
    }
    // commands of other names are none of these, however close their names are
    {
        std::string n = m.name;
        switch (r.next() % 6) {
            case 0: n += text(r, 6) + "x"; break;
            case 1: n.resize(r.next() % n.size()); break;
            case 2: n[r.next() % n.size()] ^= 0x20; break;
            case 3: n += '\0'; break;
            case 4: n = "x" + n; break;
            default: { static const char* o[] = {"play2", "closeStream", "deleteStream", "FCUnpublish", "_result", "pause", "seek", "getStreamLength"}; n = o[r.next() % 8]; } break;
        }
        Amf a(r);
        a.str(n);
        Bytes b = a.b;
        b.insert(b.end(), m.b.begin() + m.ends[0], m.b.end());
        Msg w(b);
        Out o = decode(w, r);
        VH_CHECK(!dynamic_cast<CommandRtmpPacket*>(o.p.get()), "name", "a message '%s' is taken for a %s", n.c_str(), m.name.c_str());
        c.count("messages of other names");
    }
    // other message types carry no command
    static const int other[] = {1, 2, 3, 4, 5, 6, 8, 9, 7, 0, 22, 255};
    Bytes b = r.bytes(r.size(12));
    Msg w(b);
    w.w.packet.m_packetType = other[r.next() % 12];
    Out o = decode(w, r);
    VH_CHECK(o.ret == SUCCESS && !dynamic_cast<CommandRtmpPacket*>(o.p.get()), "other-type", "a message of type %d is taken for a command", (int) w.w.packet.m_packetType);
}
