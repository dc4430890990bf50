// P24 routing to virtual hosts, P25 configuration files, P26 URLs
#include "vh.hpp"
#include "regs.hpp"
#include <setjmp.h>
#include <sps_install.hpp>
#include <sps_root_module.hpp>
#include <sps_host_module.hpp>
#include <sps_host_global_module.hpp>
#include <sps_http_module.hpp>
#include <sps_server_module.hpp>
#include <sps_srt_module.hpp>
#include <sps_stream_module.hpp>
#include <sps_upstream_module.hpp>
#include <sps_io_url.hpp>

using namespace vh;
using namespace sps;

// The configuration code ends the process on some errors: that is a refusal, too.
static jmp_buf exit_jmp;
static bool exit_armed = false;
static int exit_code = 0;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" __attribute__((noreturn)) void __wrap_exit(int code) {
    if (exit_armed) { exit_code = code; exit_armed = false; longjmp(exit_jmp, 1); }
    __real_exit(code);
}

namespace {

std::string word(Rng& r, size_t max = 12) {
    static const char t[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./:~*%$@!?=+,'\"";
    std::string s;
    size_t n = 1 + r.size(max - 1);
    for (size_t i = 0; i < n; ++i) {
        s += t[r.next() % (sizeof t - 1)];
        if (i + 1 < n && r.chance(1, 25)) s += ";{}#"[r.next() % 4];      // inside a word these mean nothing
    }
    if (r.chance(1, 30)) s = "#" + s;
    char& l = s.back();
    if (l == ';' || l == '{' || l == '}') l = 'z';
    return s;
}

struct Opt { std::string name; char type; std::string def; };      // s string, i int, l int64, b bool
typedef std::map<std::string, std::string> Values;

const std::vector<Opt> HTTP_O = {{"keepalive_timeout", 'i', "10"}, {"access_log", 's', "access.log"}};
const std::vector<Opt> SERVER_O = {{"listen_port", 'i', "80"}, {"server_name", 's', ""}, {"transport", 's', "tcp"}, {"recv_timeout", 'l', "-1"},
    {"send_timeout", 'l', "-1"}, {"reuse_port", 'b', "off"}, {"backlog", 'i', "1024"}, {"ssl_key_file", 's', ""}, {"ssl_crt_file", 's', ""}};
const std::vector<Opt> HOST_O = {{"enabled", 'b', "on"}, {"pass_proxy", 's', ""}, {"pass_url", 's', ""}, {"role", 's', "edge"}, {"type", 's', "proxy"},
    {"edge_avformat", 's', "-"}, {"ssl_key_file", 's', ""}, {"ssl_crt_file", 's', ""}};
const std::vector<Opt> STREAM_O = {{"avformat", 's', "-"}, {"edge", 'b', "on"}, {"pass_proxy", 's', "-"}};
const std::vector<Opt> UP_O = {{"name", 's', "unknown upstream name"}, {"server", 's', "unknown upstream server"}, {"keepalive", 'i', "10"}};
const std::vector<Opt> SRT_O = {{"keepalive_timeout", 'i', "10"}, {"access_log", 's', "access.log"}, {"srt_tlpktdrop", 'i', "0"}, {"srt_nakreport", 'i', "0"}, {"srt_transtype", 's', "live"}};
const std::vector<Opt> NONE_O = {};

struct Block {
    std::string type, name;
    Values v;
    std::vector<Block> subs;
};

struct Writer {
    Rng& r;
    std::vector<std::string> lines;
    explicit Writer(Rng& x) : r(x) {}
    std::string ws(bool need) { std::string s; int n = need ? 1 + r.next() % 3 : r.next() % 3; for (int i = 0; i < n; ++i) s += r.chance(1, 4) ? '\t' : ' '; return s; }
    std::string comment() {
        std::string s = "#";
        int n = r.next() % 5;
        for (int i = 0; i < n; ++i) s += ws(true) + (r.chance(1, 3) ? std::string(";{}#"[r.next() % 4] + std::string(r.chance(1, 2) ? "" : ";")) : word(r));
        return s;
    }
    void line(std::string s) {
        while (r.chance(1, 8)) lines.push_back(r.chance(1, 2) ? ws(false) : ws(false) + comment());
        s = ws(false) + s;
        if (r.chance(1, 6)) s += ws(true) + comment();
        else if (r.chance(1, 6)) s += ws(true);
        if (r.chance(1, 20)) s += "\r";
        lines.push_back(s);
    }
    // the words of a value may be set apart by any white space, the end flag may touch the last one
    std::string join(const std::string& cmd, const std::string& val, const char* end) {
        std::string s = cmd;
        size_t i = 0;
        while (i < val.size()) {
            size_t e = val.find(' ', i);
            if (e == std::string::npos) e = val.size();
            s += ws(true) + val.substr(i, e - i);
            i = e + 1;
        }
        return s + (val.empty() || r.chance(1, 2) ? ws(true) : "") + end;
    }
};

std::string rnd_value(Rng& r, char type) {
    switch (type) {
        case 'i': return std::to_string((int32_t) (r.chance(1, 3) ? r.next() % 100 : r.chance(1, 4) ? r.pick(std::vector<int64_t>{0, -1, 2147483647, -2147483647 - 1}) : (int64_t) (int32_t) r.next()));
        case 'l': return std::to_string(r.chance(1, 3) ? (int64_t) (r.next() % 100000000) : r.chance(1, 4) ? r.pick(std::vector<int64_t>{0, -1, INT64_MAX, 1ll << 32, (1ll << 31)}) : (int64_t) r.next());
        case 'b': return r.chance(2, 5) ? "on" : r.chance(2, 3) ? "off" : r.pick(std::vector<std::string>{"ON", "o", "onx", "1", "true", "yes", "no", "of"});
        default: {
            std::string s = word(r);
            while (r.chance(1, 6)) s += " " + word(r);
            if (r.chance(1, 25)) for (size_t n = 50 + r.size(5000); s.size() < n;) s += (r.chance(1, 10) ? " " : "") + word(r);
            return s;
        }
    }
}

void fill(Rng& r, Block& b, const std::vector<Opt>& opts, Writer& w, int part) {
    // part 0: before the sub-blocks, 1: after them. Options can repeat: the last one counts
    for (auto& o : opts) if (!part) b.v[o.name] = o.def;
    int n = r.next() % (opts.size() + 1);
    for (int i = 0; i < n && !opts.empty(); ++i) {
        const Opt& o = opts[r.next() % opts.size()];
        if (part && r.chance(1, 2)) continue;
        std::string v = rnd_value(r, o.type);
        if (o.name == "transport" || o.name == "type" || o.name == "role") v = r.chance(1, 2) ? v : r.pick(std::vector<std::string>{"tcp", "https", "srt", "stream", "proxy", "api", "edge", "source"});
        b.v[o.name] = v;
        w.line(w.join(o.name, v, ";"));
        if (r.chance(1, 12)) w.line(w.join("no_such_option" + word(r), word(r), ";"));
    }
}

std::string host_name(Rng& r) {
    static const std::vector<std::string> L = {"a", "b", "www", "live", "x1", "example", "com", "org", "cn"};
    std::string s = r.pick(L);
    int n = r.next() % 4;
    for (int i = 0; i < n; ++i) s += "." + r.pick(L);
    return s;
}

Block gen(Rng& r, const std::string& type, Writer& w, int depth) {
    Block b;
    b.type = type;
    const std::vector<Opt>* o = &NONE_O;
    std::vector<std::string> kids;
    int max = 3;
    if (type == "root") { kids = {"http", "globalhost", "upstream", "srt", "upstream", "globalhost"}; max = 6; }
    else if (type == "http") { o = &HTTP_O; kids = {"server"}; }
    else if (type == "srt") { o = &SRT_O; kids = {"server"}; }
    else if (type == "server") { o = &SERVER_O; kids = {"host"}; b.name = r.chance(1, 4) ? "" : word(r); }
    else if (type == "globalhost") { kids = {"host"}; }
    else if (type == "host") { o = &HOST_O; kids = {"stream", "upstream"}; max = 2; b.name = r.chance(1, 3) ? word(r) : host_name(r); if (r.chance(1, 6)) b.name = "*." + b.name; if (r.chance(1, 12)) b.name = "*"; }
    else if (type == "stream") o = &STREAM_O;
    else if (type == "upstream") { o = &UP_O; b.name = r.chance(1, 10) ? "" : "u" + std::to_string(r.next() % 4); }
    if (type != "root") w.line(w.join(type, b.name, "{"));
    fill(r, b, *o, w, 0);
    int n = kids.empty() ? 0 : r.next() % (max + 1);
    if (type == "host") n = r.next() % 2 ? 0 : n;
    for (int i = 0; i < n; ++i) {
        std::string k = r.pick(kids);
        b.subs.push_back(gen(r, k, w, depth + 1));
        if (r.chance(1, 3)) fill(r, b, *o, w, 1);
    }
    if (type != "root") w.line("}");
    return b;
}

class LineReader : public IReader {
 public:
    std::vector<std::string> lines;
    size_t at = 0;
    explicit LineReader(std::vector<std::string> l) : lines(std::move(l)) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return -1; }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    error_t read(void*, size_t, size_t&) override { return ERROR_IO_EOF; }
    error_t read_line(std::string& l) override { if (at >= lines.size()) return ERROR_IO_EOF; l = lines[at++]; return SUCCESS; }
    error_t cur_line_num() override { return (int) at; }
};

void reset_globals() {
    sps_once_install();
    HttpModule::http_servers.clear();
    GlobalHostModule::global_hosts.clear();
    ServerModule::server_modules.clear();
    SingleInstance<UpStreamModules>::get_instance().ups.clear();
}

std::string scratch() {
    static std::string d;
    if (d.empty()) { char t[] = "/tmp/vh_conf_XXXXXX"; d = mkdtemp(t); }
    return d;
}

// -> accepted?
bool load(const std::vector<std::string>& lines, Rng& r, PIModule& root, std::string& how) {
    reset_globals();
    PIReader rd;
    std::string file;
    bool via_file = r.chance(1, 4);
    std::vector<std::string> ls = lines;
    if (via_file) {
        file = scratch() + "/c.conf";
        std::string s;
        bool last_nl = r.chance(1, 2);
        for (size_t i = 0; i < ls.size(); ++i) s += ls[i] + (i + 1 < ls.size() || last_nl ? "\n" : "");
        ::FILE* f = fopen(file.c_str(), "w");
        if (!f || (s.size() && fwrite(s.data(), s.size(), 1, f) != 1)) { perror("VH: scratch"); _exit(96); }
        fclose(f);
        auto p = SingleInstance<UrlProtocol>::get_instance().create("file://" + file);
        VH_CHECK(p != nullptr, "file-protocol", "no reader for %s", file.c_str());
        VH_CHECK(p->open(file) == SUCCESS, "file-open", "%s cannot be opened", file.c_str());
        unlink(file.c_str());
        rd = p;
    } else {
        rd = std::make_shared<LineReader>(ls);
    }
    exit_armed = true;
    if (setjmp(exit_jmp)) { how = fmt("exit(%d)", exit_code); exit_armed = false; return false; }
    root = SingleInstance<ModuleFactoryRegister>::get_instance().create("root", "", nullptr);
    error_t ret = root->init_conf(rd);
    exit_armed = false;
    how = fmt("result %d", ret);
    return ret == SUCCESS;
}

std::string all(const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += x + "\n"; return s.size() > 1500 ? s.substr(0, 1500) + ".." : s; }

void same(const Block& b, const std::string& opt, const std::string& got, const std::vector<std::string>& lines) {
    const std::string& want = b.v.at(opt);
    VH_CHECK(got == want, "option-value", "%s %s: %s is '%s', the file says '%s'\n%s", b.type.c_str(), b.name.c_str(), opt.c_str(), got.c_str(), want.c_str(), all(lines).c_str());
}
std::string onoff(bool b) { return b ? "on" : "off"; }
Values norm(const Block& b, const std::vector<Opt>& opts) { Values v = b.v; for (auto& o : opts) if (o.type == 'b') v[o.name] = v[o.name] == "on" ? "on" : "off"; return v; }

void check_host(Block b, HostModule* h, const std::vector<std::string>& L) {
    VH_CHECK(h != nullptr, "missing-block", "host %s is missing\n%s", b.name.c_str(), all(L).c_str());
    VH_CHECK(h->module_name == b.name, "block-name", "host '%s' is named '%s'\n%s", b.name.c_str(), h->module_name.c_str(), all(L).c_str());
    b.v = norm(b, HOST_O);
    same(b, "enabled", onoff(h->enabled()), L);
    same(b, "pass_proxy", h->pass_proxy(), L);
    same(b, "pass_url", h->pass_url(), L);
    same(b, "role", h->role(), L);
    auto conf = static_cast<HostConfCtx*>(h->conf.get());
    same(b, "type", conf->type, L);
    same(b, "edge_avformat", h->edge_format(), L);
    same(b, "ssl_key_file", h->ssl_key_file(), L);
    same(b, "ssl_crt_file", h->ssl_cert_file(), L);
    VH_CHECK(h->publish() == (b.v["role"] == "source"), "role", "publish() of role %s", b.v["role"].c_str());
    VH_CHECK(h->edge() == (b.v["role"] == "edge"), "role", "edge() of role %s", b.v["role"].c_str());
    VH_CHECK(h->is_streaming() == (b.v["type"] == "stream"), "type", "is_streaming() of type %s", b.v["type"].c_str());
    VH_CHECK(h->is_api() == (b.v["type"] == "api"), "type", "is_api() of type %s", b.v["type"].c_str());
    for (const char* f : {"flv", "ts", "all", "-"})
        VH_CHECK(h->support_publish(f) == (b.v["edge_avformat"] == "all" || b.v["edge_avformat"] == f), "format", "support_publish(%s) with %s", f, b.v["edge_avformat"].c_str());
    const Block* st = nullptr; const Block* up = nullptr;
    for (auto& s : b.subs) (s.type == "stream" ? st : up) = &s;
    VH_CHECK((h->stream_module != nullptr) == (st != nullptr), "missing-block", "stream block of host %s", b.name.c_str());
    VH_CHECK((h->upstream_module != nullptr) == (up != nullptr), "missing-block", "upstream block of host %s", b.name.c_str());
    if (st) {
        Block n = *st; n.v = norm(n, STREAM_O);
        auto sc = static_cast<StreamConfCtx*>(h->stream_module->conf.get());
        same(n, "avformat", sc->avformat, L);
        same(n, "edge", onoff(sc->edge), L);
        same(n, "pass_proxy", sc->pass_proxy, L);
    }
    if (up) {
        auto uc = static_cast<UpStreamConfCtx*>(h->upstream_module->conf.get());
        VH_CHECK(h->upstream_module->module_name == up->name, "block-name", "upstream name");
        same(*up, "server", uc->server, L);
        same(*up, "server", h->upstream_module->get_server(), L);
    }
}

void check_server(const Block& b, ServerModule* s, const std::vector<const Block*>& globals, const std::vector<std::string>& L) {
    VH_CHECK(s != nullptr, "missing-block", "server %s is missing", b.name.c_str());
    VH_CHECK(s->module_name == b.name, "block-name", "server '%s' is named '%s'\n%s", b.name.c_str(), s->module_name.c_str(), all(L).c_str());
    auto c = static_cast<ServerConfCtx*>(s->conf.get());
    Block n = b; n.v = norm(b, SERVER_O);
    same(n, "listen_port", std::to_string(c->listen_port), L);
    same(n, "server_name", c->server_name, L);
    same(n, "transport", c->transport, L);
    same(n, "recv_timeout", std::to_string((int64_t) c->recv_timeout), L);
    same(n, "send_timeout", std::to_string((int64_t) c->send_timeout), L);
    same(n, "reuse_port", onoff(c->reuse_port), L);
    same(n, "backlog", std::to_string(c->backlog), L);
    same(n, "ssl_key_file", c->ssl_key_file, L);
    same(n, "ssl_crt_file", c->ssl_crt_file, L);
    VH_CHECK(s->host_modules.size() == b.subs.size() + globals.size(), "host-count", "server %s has %zu hosts, the file gives it %zu and %zu global ones\n%s",
             b.name.c_str(), s->host_modules.size(), b.subs.size(), globals.size(), all(L).c_str());
    // each host once, its own in file order
    std::vector<HostModule*> left;
    for (auto& h : s->host_modules) left.push_back(h.get());
    for (size_t i = 0; i < b.subs.size(); ++i) check_host(b.subs[i], left[i], L);
    for (size_t i = 0; i < globals.size(); ++i) check_host(*globals[i], left[b.subs.size() + i], L);
}

std::vector<PIModule> subs_of(PIModule m, const std::string& t) {
    std::vector<PIModule> v;
    auto it = m->subs.find(t);
    if (it != m->subs.end()) for (auto& x : it->second) v.push_back(x);
    return v;
}

void check_tree(Ctx& c, const Block& root, PIModule m, const std::vector<std::string>& L) {
    std::vector<const Block*> globals;
    for (auto& b : root.subs) if (b.type == "globalhost") for (auto& h : b.subs) globals.push_back(&h);
    std::map<std::string, int> seen;
    auto http = subs_of(m, "http"), srt = subs_of(m, "srt"), up = subs_of(m, "upstream"), gl = subs_of(m, "globalhost");
    std::vector<PServerModule> servers(HttpModule::http_servers.begin(), HttpModule::http_servers.end());
    size_t si = 0;
    std::map<std::string, const Block*> ups;        // by name, the last one counts
    std::function<void(const Block&)> collect = [&](const Block& b) { for (auto& s : b.subs) { collect(s); if (s.type == "upstream") ups[s.name] = &s; } };
    collect(root);
    for (auto& b : root.subs) {
        size_t k = seen[b.type]++;
        if (b.type == "http") {
            VH_CHECK(k < http.size(), "missing-block", "an http block is missing");
            auto cf = static_cast<HttpConfCtx*>(http[k]->conf.get());
            same(b, "keepalive_timeout", std::to_string(cf->keepalive_timeout), L);
            same(b, "access_log", cf->access_log, L);
            for (auto& s : b.subs) {
                VH_CHECK(si < servers.size(), "missing-block", "server %s is missing", s.name.c_str());
                check_server(s, servers[si++].get(), globals, L);
                c.count("server blocks");
            }
        } else if (b.type == "srt") {
            VH_CHECK(k < srt.size(), "missing-block", "an srt block is missing");
            auto sm = std::dynamic_pointer_cast<SrtModule>(srt[k]);
            auto cf = static_cast<SrtConfCtx*>(sm->conf.get());
            same(b, "keepalive_timeout", std::to_string(cf->keepalive_timeout), L);
            same(b, "access_log", cf->access_log, L);
            same(b, "srt_tlpktdrop", std::to_string(cf->srt_tlpktdrop), L);
            same(b, "srt_nakreport", std::to_string(cf->srt_nakreport), L);
            same(b, "srt_transtype", cf->srt_transtype, L);
            VH_CHECK(sm->srt_servers.size() == b.subs.size(), "missing-block", "servers of an srt block");
            auto it = sm->srt_servers.begin();
            for (auto& s : b.subs) check_server(s, (it++)->get(), globals, L);
        } else if (b.type == "upstream") {
            VH_CHECK(k < up.size(), "missing-block", "an upstream block is missing");
            auto cf = static_cast<UpStreamConfCtx*>(up[k]->conf.get());
            VH_CHECK(up[k]->module_name == b.name, "block-name", "upstream '%s' is named '%s'", b.name.c_str(), up[k]->module_name.c_str());
            same(b, "name", cf->name, L);
            same(b, "server", cf->server, L);
            same(b, "keepalive", std::to_string(cf->keepalive), L);
            c.count("upstream blocks");
        } else if (b.type == "globalhost") {
            auto g = std::dynamic_pointer_cast<GlobalHostModule>(gl[k]);
            VH_CHECK(g->host_modules.size() == b.subs.size(), "host-count", "hosts of a globalhost block");
            for (size_t i = 0; i < b.subs.size(); ++i) { check_host(b.subs[i], g->host_modules[i].get(), L); c.count("global hosts"); }
        }
    }
    VH_CHECK(si == servers.size(), "extra-block", "%zu servers, %zu in the file", servers.size(), si);
    for (auto& t : m->subs) VH_CHECK((int) t.second.size() == seen[t.first], "extra-block", "%zu %s blocks, %d in the file", t.second.size(), t.first.c_str(), seen[t.first]);
    for (auto& u : ups) {
        std::string n = u.first;
        auto p = SingleInstance<UpStreamModules>::get_instance().get(n);
        VH_CHECK(p != nullptr, "missing-block", "upstream %s cannot be found", n.c_str());
        VH_CHECK(p->get_server() == u.second->v.at("server"), "option-value", "upstream %s is '%s', the file says '%s'", n.c_str(), p->get_server().c_str(), u.second->v.at("server").c_str());
    }
}
uint64_t tree_shape(const Block& b) {
    uint64_t h = fnv(b.type.data(), b.type.size()) ^ fnv(b.name.data(), b.name.size());
    for (auto& p : b.v) h = h * 31 + fnv(p.second.data(), p.second.size());
    for (auto& s : b.subs) h = h * 1099511628211ull + tree_shape(s);
    return h;
}
// an option of every type takes the value written, and touches nothing else
void one_option(Ctx& c) {
    Rng& r = c.rng;
    struct Conf { uint8_t a[8]; union { int i; int64_t l; uint64_t u; double d; float f; bool b; } x; uint8_t z[8]; std::string s; } f;
    ConfigOptionType t = r.pick(std::vector<ConfigOptionType>{CONF_OPT_TYPE_INT, CONF_OPT_TYPE_INT64, CONF_OPT_TYPE_UINT64, CONF_OPT_TYPE_DOUBLE, CONF_OPT_TYPE_FLOAT, CONF_OPT_TYPE_BOOL, CONF_OPT_TYPE_STRING});
    memset(f.a, 0xa5, sizeof f.a);
    memset(&f.x, 0xa5, sizeof f.x);
    memset(f.z, 0xa5, sizeof f.z);
    std::string v;
    size_t n = 0;
    ConfigOption o{"x", "", (int) offsetof(Conf, x), t, {.str = ""}};
    double want = 0;
    switch (t) {
        case CONF_OPT_TYPE_INT: v = rnd_value(r, 'i'); n = 4; break;
        case CONF_OPT_TYPE_INT64: case CONF_OPT_TYPE_UINT64: v = rnd_value(r, 'l'); n = 8; break;
        case CONF_OPT_TYPE_BOOL: v = rnd_value(r, 'b'); n = 1; break;
        case CONF_OPT_TYPE_STRING: v = rnd_value(r, 's'); o.offset = offsetof(Conf, s); break;
        default: {
            // sixteenths are exact in both types
            want = (int64_t) (r.next() % (1 << 20)) / 16.0 * (r.chance(1, 3) ? -1 : 1);
            v = fmt(r.chance(1, 2) ? "%.4f" : "%.17g", want);
            n = t == CONF_OPT_TYPE_DOUBLE ? 8 : 4;
        }
    }
    Exact e(v.size() + 1);
    memcpy(e.p, v.c_str(), v.size() + 1);
    VH_CHECK(o.opt_set(&f, (const char*) e.p, v.size()) == SUCCESS, "refused", "a value '%s' of type %d is refused", v.c_str(), t);
    bool ok = true;
    switch (t) {
        case CONF_OPT_TYPE_INT: ok = std::to_string(f.x.i) == v; break;
        case CONF_OPT_TYPE_INT64: case CONF_OPT_TYPE_UINT64: ok = std::to_string(f.x.l) == v; break;
        case CONF_OPT_TYPE_BOOL: ok = f.x.b == (v == "on"); break;
        case CONF_OPT_TYPE_STRING: ok = f.s == v; break;
        case CONF_OPT_TYPE_DOUBLE: ok = f.x.d == want; break;
        default: ok = f.x.f == (float) want;
    }
    VH_CHECK(ok, "option-value", "a value of type %d, '%s', is stored as another", t, v.c_str());
    for (int i = 0; i < 8; ++i) VH_CHECK(f.a[i] == 0xa5 && f.z[i] == 0xa5, "option-place", "setting an option of type %d changes its neighbours", t);
    for (size_t i = n; i < 8; ++i) VH_CHECK(((uint8_t*) &f.x)[i] == 0xa5, "option-place", "setting an option of type %d changes more than its %zu bytes", t, n);
    c.count("options of every type");
}
}  // namespace

VH_CASE("P25", configurations) {
    Rng& r = c.rng;
    if (r.chance(1, 4)) one_option(c);
    Writer w(r);
    Block root = gen(r, "root", w, 0);
    if (r.chance(1, 3)) w.line("comment " + word(r) + ";");
    PIModule m;
    std::string how;
    bool ok = load(w.lines, r, m, how);
    VH_CHECK(ok, "refused", "a valid configuration is refused (%s):\n%s", how.c_str(), all(w.lines).c_str());
    check_tree(c, root, m, w.lines);
    c.count("configurations");
    c.distinct("nontrivial", tree_shape(root));

    // ---- the same with one defect is refused
    std::vector<std::string> bad = w.lines;
    size_t at = r.next() % (bad.size() + 1);
    std::vector<size_t> open_at, close_at, item_at;
    for (size_t i = 0; i < w.lines.size(); ++i) {
        std::string s = w.lines[i];
        // first word and last word in front of a comment
        size_t a = s.find_first_not_of(" \t\r");
        if (a == std::string::npos || s[a] == '#') continue;
        size_t e = a;
        char flag = 0;
        while (true) {
            size_t z = s.find_first_of(" \t\r", e);
            if (z == std::string::npos) z = s.size();
            if (strchr(";{}", s[z - 1])) { flag = s[z - 1]; break; }
            e = s.find_first_not_of(" \t\r", z);
            if (e == std::string::npos) break;
        }
        if (flag == '{') open_at.push_back(i);
        else if (flag == '}') close_at.push_back(i);
        else if (flag == ';') item_at.push_back(i);
    }
    const char* what = nullptr;
    switch (r.next() % 9) {
        case 0: if (close_at.empty()) break; bad.erase(bad.begin() + r.pick(close_at)); what = "a missing }"; break;
        case 1: bad.insert(bad.begin() + at, "}"); what = "one } too many"; break;
        case 2: bad.insert(bad.begin() + at, r.chance(1, 2) ? "listen_port 80" : "host x"); what = "a line without end"; break;
        case 3: bad.insert(bad.begin() + at, "nosuchblock" + std::string(r.chance(1, 2) ? " x" : "") + " {"); bad.insert(bad.begin() + at + 1, "}"); what = "an unknown block"; break;
        case 4: bad.insert(bad.begin() + at, "listen_port 80; backlog 5;"); what = "two options in a line"; break;
        case 5: bad.insert(bad.begin() + at, r.pick(std::vector<std::string>{";", "{", "listen_port;"})); what = "a lone end flag or option"; break;
        case 6: if (open_at.empty()) break; bad.resize(r.pick(open_at) + 1); what = "a file that ends inside a block"; break;
        case 7:
            if (open_at.empty()) break;
            if (!close_at.empty() && r.chance(1, 2)) { bad[r.pick(close_at)] = word(r) + "}"; what = "a word stuck to }"; break; }
            bad.insert(bad.begin() + r.pick(open_at) + 1, "backlog 7 }"); what = "text in front of }"; break;
        default: bad.push_back(r.pick(std::vector<std::string>{"http {", "server x {", "globalhost {"})); bad.push_back(r.pick(std::vector<std::string>{"http {", "upstream u {", "globalhost {"})); bad.push_back("}"); bad.push_back("}"); what = "a block in the wrong place"; break;
    }
    if (what) {
        PIModule b;
        bool accepted = load(bad, r, b, how);
        VH_CHECK(!accepted, "defect-accepted", "a configuration with %s is accepted:\n%s", what, all(bad).c_str());
        c.count("defects refused");
        c.distinct("defects", fnv(what, strlen(what)));
    }
    // ---- arbitrary damage: accepted or refused, never a crash
    std::vector<std::string> fz = w.lines;
    if (fz.empty()) fz.push_back("");
    int n = 1 + r.next() % 8;
    for (int i = 0; i < n; ++i) {
        std::string& s = fz[r.next() % fz.size()];
        switch (r.next() % 6) {
            case 0: if (!s.empty()) s[r.next() % s.size()] = (char) r.next(); break;
            case 1: s.insert(r.next() % (s.size() + 1), 1, ";{}# \t"[r.next() % 6]); break;
            case 2: if (!s.empty()) s.erase(r.next() % s.size(), 1 + r.next() % 5); break;
            case 3: s = fz[r.next() % fz.size()]; break;
            case 4: s = r.pick(std::vector<std::string>{"location x {", "location {", "root {", "stream s {", "host a {", "rtmp {", "srt {", "host {", "http {", "server {", "globalhost {", "upstream {", "}"}); break;
            default: std::swap(s, fz[r.next() % fz.size()]); break;
        }
    }
    PIModule f;
    bool acc = load(fz, r, f, how);
    c.count(acc ? "damaged configurations accepted" : "damaged configurations refused");
    c.eval();
}

// ------------------------------------------------------------------------------- routing
namespace {
PHostModule mk_host(const std::string& name) {
    return std::dynamic_pointer_cast<HostModule>(SingleInstance<ModuleFactoryRegister>::get_instance().create("host", name, nullptr));
}
// reference: which of the blocks (by index) a name selects, -1 none
int route(const std::vector<std::string>& blocks, const std::string& name) {
    for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i] == name) return i;
    size_t d = name.find('.');
    if (d != std::string::npos) {
        std::string w = "*" + name.substr(d);
        for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i] == w) return i;
    }
    for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i] == "*") return i;
    return -1;
}
// names up to the longest there are: some cases share a tail of long labels, some a long first part
struct Stem {
    std::string head, tail;
    Stem() {}
    Stem(Rng& r) {
        if (!r.chance(1, 4)) return;
        auto label = [&](size_t n) { std::string s; while (s.size() < n) s += "abcdefgh0123-xyz"[s.size() && s.size() + 1 < n ? r.next() % 16 : r.next() % 8]; return s; };
        if (r.chance(1, 3)) { head = label(1 + r.next() % 40); return; }
        for (int i = 1 + r.next() % 3; i; --i) tail += "." + label(r.chance(1, 2) ? 63 : 1 + r.next() % 63);
    }
    std::string of(const std::string& h) const { return head + h + tail; }
};
std::vector<std::string> block_names(Rng& r, int n, bool dup, const Stem& stem) {
    std::vector<std::string> v;
    while ((int) v.size() < n) {
        std::string h = r.chance(1, 12) ? host_name(r) : stem.of(host_name(r));
        if (r.chance(1, 3)) h = "*." + h;
        else if (r.chance(1, 10)) h = "*";
        if (!dup && std::find(v.begin(), v.end(), h) != v.end()) continue;
        v.push_back(h);
    }
    return v;
}
std::string probe(Rng& r, const std::vector<std::string>& blocks, const Stem& stem) {
    std::string n = stem.of(host_name(r));
    if (!blocks.empty() && r.chance(2, 3)) {
        std::string b = r.pick(blocks);
        if (b == "*") return n;
        if (b[0] == '*') b = b.substr(2);
        switch (r.next() % 6) {
            case 0: n = b; break;
            case 1: n = "q." + b; break;
            case 2: n = "q.r." + b; break;
            case 3: n = "q" + b; break;
            case 4: n = b + ".q"; break;
            default: { size_t d = b.find('.'); n = d == std::string::npos ? b : b.substr(d + 1); }
        }
    }
    return n;
}
}

VH_CASE("P24", host_routing) {
    Rng& r = c.rng;
    reset_globals();
    int mode = r.next() % 3;
    Stem stem(r);
    std::vector<std::string> names = block_names(r, 1 + r.size(12), r.chance(1, 5), stem);
    std::map<std::string, int> cnt;
    bool dup = false;
    for (auto& n : names) dup |= cnt[n]++ > 0;
    PHostModulesRouter router;
    std::vector<std::string> eff = names;       // blocks in force, by index
    std::vector<PHostModule> mods;
    uint64_t sh = mode;
    for (auto& n : names) sh = sh * 1099511628211ull + fnv(n.data(), n.size());
    if (mode == 0) {                            // the router itself
        router = std::make_shared<HostModulesRouter>();
        std::set<std::string> seen;
        eff.clear();
        for (auto& n : names) {
            PHostModule h = mk_host(n);
            bool first = seen.insert(n).second;
            error_t ret = router->register_host(h);
            VH_CHECK((ret == SUCCESS) == first, "duplicate", "host %s, block %s: result %d", n.c_str(), first ? "the first of its name" : "a second one", ret);
            if (first) { eff.push_back(n); mods.push_back(h); }
            else c.count("duplicates refused");
        }
        for (const char* bad : {"*x", "*.", "*x.com"}) VH_CHECK(router->register_host(mk_host(bad)) != SUCCESS, "bad-wildcard", "'%s' is accepted", bad);
    } else if (mode == 1) {                     // two routers merged
        size_t k = r.next() % (names.size() + 1);
        router = std::make_shared<HostModulesRouter>();
        auto second = std::make_shared<HostModulesRouter>();
        std::set<std::string> a, b;
        eff.clear();
        bool clash = false;
        for (size_t i = 0; i < names.size(); ++i) {
            PHostModule h = mk_host(names[i]);
            std::set<std::string>& s = i < k ? a : b;
            if (!s.insert(names[i]).second) continue;
            VH_CHECK((i < k ? router : second)->register_host(h) == SUCCESS, "refused", "host %s is refused", names[i].c_str());
            if (i >= k && a.count(names[i])) clash = true;
            eff.push_back(names[i]);
            mods.push_back(h);
        }
        error_t ret = router->merge(second.get());
        VH_CHECK((ret == SUCCESS) == !clash, "duplicate", "merge of %s sets: %d", clash ? "clashing" : "disjoint", ret);
        if (clash) { c.count("duplicates refused"); return; }
    } else {                                    // from a configuration: own and global hosts, and a second server block on the port
        std::vector<std::string> own, glob, more;
        for (auto& n : names) (r.chance(1, 2) ? own : r.chance(1, 2) ? glob : more).push_back(n);
        std::vector<std::string> L;
        auto hosts = [&](const std::vector<std::string>& v) { for (auto& n : v) { L.push_back("host " + n + " {"); L.push_back("}"); } };
        bool global_first = r.chance(1, 2);
        if (global_first) { L.push_back("globalhost {"); hosts(glob); L.push_back("}"); }
        L.push_back("http {");
        L.push_back("server s1 {"); L.push_back("listen_port 1;"); hosts(own); L.push_back("}");
        bool split = r.chance(1, 4);
        if (split) { L.push_back("}"); L.push_back("http {"); }
        L.push_back("server s2 {"); L.push_back("listen_port 1;"); hosts(more); L.push_back("}");
        L.push_back("}");
        if (!global_first) { L.push_back("globalhost {"); hosts(glob); L.push_back("}"); }
        PIModule m;
        std::string how;
        VH_CHECK(load(L, r, m, how), "refused", "the configuration is refused (%s):\n%s", how.c_str(), all(L).c_str());
        VH_CHECK(HttpModule::http_servers.size() == 2, "missing-block", "%zu servers", HttpModule::http_servers.size());
        auto s1 = HttpModule::http_servers.front(), s2 = HttpModule::http_servers.back();
        error_t ret = ServerModule::get_router(s1.get(), router);
        if (ret == SUCCESS) ret = s1->merge_server(s2);
        VH_CHECK((ret == SUCCESS) == !dup, "duplicate", "host blocks with%s duplicates: %d\n%s", dup ? "" : "out", ret, all(L).c_str());
        if (dup) { c.count("duplicates refused"); return; }
        eff.clear();
        for (auto& h : s1->host_modules) { eff.push_back(h->module_name); mods.push_back(h); }
        auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
        VH_CHECK(sorted(eff) == sorted(names), "missing-block", "hosts in force: %zu, configured: %zu", eff.size(), names.size());
    }
    c.distinct("nontrivial", sh);
    for (int i = 0; i < 30; ++i) {
        std::string p = probe(r, eff, stem);
        if (p.size() > 100) c.count("long names");
        int k = route(eff, p);
        PHostModule h = router->find_host(p);
        VH_CHECK((h ? h->module_name : "none") == (k < 0 ? "none" : eff[k]), "routing", "'%s' goes to '%s', should go to '%s'", p.c_str(),
                 h ? h->module_name.c_str() : "none", k < 0 ? "none" : eff[k].c_str());
        if (k >= 0) VH_CHECK(h == mods[k], "routing", "'%s' goes to another block named '%s'", p.c_str(), eff[k].c_str());
        c.count(k < 0 ? "names without a host" : eff[k] == "*" ? "names to the default" : eff[k][0] == '*' ? "names to a wildcard" : "names to an exact host");
    }
}

// ------------------------------------------------------------------------------- URLs
VH_CASE("P26", urls) {
    Rng& r = c.rng;
    static const char pc[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~!$'()*,;:@%+";
    static const char hc[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-";
    auto text = [&](const char* set, size_t n) { std::string s; size_t l = strlen(set); for (size_t i = 0; i < n; ++i) s += set[r.next() % l]; return s; };
    std::string schema = r.pick(std::vector<std::string>{"http", "http", "https", "rtmp", "srt", "ftp", "x", "HTTP"});
    int defport = schema == "http" ? 80 : schema == "https" ? 443 : schema == "rtmp" ? 1935 : 0;
    // one in ten has long parts
    size_t big = r.chance(1, 10) ? 1 + r.next() % 40 : 1;
    std::string host = text(hc, 1 + r.size(15) * std::min<size_t>(big, 4));
    int labels = r.next() % 4;
    for (int i = 0; i < labels; ++i) host += "." + text(hc, 1 + r.size(8));
    if (r.chance(1, 8)) host = fmt("%d.%d.%d.%d", (int) (r.next() % 256), (int) (r.next() % 256), (int) (r.next() % 256), (int) (r.next() % 256));
    bool has_port = r.chance(1, 2);
    int port = has_port ? (r.chance(1, 4) ? r.pick(std::vector<int>{1, 80, 443, 65535}) : 1 + r.next() % 65535) : defport;
    std::string path;
    int segs = r.next() % 5;
    std::string ext;
    for (int i = 0; i < segs; ++i) {
        std::string s = text(pc, r.size(12) * big);
        if (r.chance(1, 4)) s += "." + text(pc, r.size(4));
        path += "/" + s;
    }
    if (r.chance(1, 2) || path.empty()) path += "/";
    if (r.chance(1, 2)) { path += text(pc, 1 + r.size(5) * big); path += "." + r.pick(std::vector<std::string>{"flv", "ts", "m3u8", "x.flv", "", "a.b.c"}); }
    { size_t sl = path.rfind('/'); std::string last = path.substr(sl + 1); size_t d = last.rfind('.'); if (d != std::string::npos) ext = last.substr(d + 1); }
    std::string query;
    std::vector<std::pair<std::string, std::string>> pp;
    bool has_query = r.chance(1, 2);
    if (has_query) {
        int n = 1 + r.next() % (big > 1 ? 40 : 5);
        for (int i = 0; i < n; ++i) {
            std::string k = text(pc, 1 + r.size(6) * big), v = text(pc, r.size(10) * big);
            if (r.chance(1, 6)) v += "=" + text(pc, r.size(4));
            if (r.chance(1, 8)) v += r.chance(1, 2) ? "/x" : "?y";
            if (!query.empty()) query += "&";
            if (r.chance(1, 6)) { query += k; continue; }      // no value
            if (r.chance(1, 15)) query += "&";
            query += k + "=" + v;
            pp.push_back({k, v});
        }
    }
    bool file = r.chance(1, 10);
    std::string url;
    if (file) {
        schema = "file";
        path = (r.chance(1, 2) ? "/" : "") + text(pc, 1 + r.size(8)) + (r.chance(1, 2) ? "/" : "") + text(pc, 1 + r.size(8)) + (r.chance(1, 2) ? ".conf" : "") + (r.chance(1, 5) ? "?x" : "");
        size_t sl = path.rfind('/');
        std::string last = sl == std::string::npos ? path : path.substr(sl + 1);
        size_t d = last.rfind('.');
        ext = d == std::string::npos ? "" : last.substr(d + 1);
        url = "file://" + path;
        host = ""; query = ""; pp.clear();
    } else {
        url = schema + "://" + host + (has_port ? ":" + std::to_string(port) : "") + path + (has_query ? "?" + query : "");
    }
    {
        PRequestUrl u;
        error_t ret = RequestUrl::from(url, u);
        VH_CHECK(ret == SUCCESS, "refused", "%s is refused", url.c_str());
        auto want = [&](const char* part, const std::string& got, const std::string& exp) {
            VH_CHECK(got == exp, part, "%s of %s is '%s', should be '%s'", part, url.c_str(), got.c_str(), exp.c_str());
        };
        want("scheme", u->schema, schema);
        want("scheme", u->get_schema(), schema);
        want("host", u->host, host);
        want("host", u->get_host(), host);
        if (!file && !(schema == "HTTP" && !has_port)) { want("port", std::to_string(u->port), std::to_string(port)); want("port", std::to_string(u->get_port()), std::to_string(port)); }
        want("path", u->path, path);
        want("path", u->get_path(), path);
        want("extension", u->ext, ext);
        want("extension", u->get_ext(), ext);
        want("query", u->params, query);
        want("target", u->url, file ? path : path + (query.empty() ? "" : "?" + query));
        want("method", u->method, "GET");
        std::vector<std::pair<std::string, std::string>> got;
        for (auto& p : u->pp) if (!(p.key.empty() && p.value.empty())) got.push_back({p.key, p.value});
        VH_CHECK(got == pp, "parameters", "%zu parameters of %s, should be %zu", got.size(), url.c_str(), pp.size());
        for (auto& p : pp) {
            std::string first;
            for (auto& q : pp) if (q.first == p.first) { first = q.second; break; }
            want("parameter", u->get_param(p.first), first);
        }
        want("parameter", u->get_param("no such parameter"), "");
        c.count(file ? "file urls" : "urls");
        if (url.size() > 1000) c.count("long urls");
        c.distinct("nontrivial", fnv(url.data(), url.size()));
    }
    if (!file) {    // malformed
        std::string bad;
        switch (r.next() % 8) {
            case 0: bad = schema + "//" + host + path; break;
            case 1: bad = schema + "://"; break;
            case 2: bad = schema + "://" + host + ":" + std::to_string(65536 + r.next() % 100000) + path; break;
            case 3: bad = schema + "://" + host + ":x1" + path; break;
            case 4: bad = schema + "://" + host + " x" + path; break;
            case 5: bad = ""; break;
            case 6: bad = schema + "://" + host + "\x01" + path; break;
            default: bad = ":" + url; break;
        }
        PRequestUrl u;
        VH_CHECK(RequestUrl::from(bad, u) != SUCCESS, "malformed-accepted", "'%s' is accepted", bad.c_str());
        c.count("malformed urls refused");
    }
    {   // damage: never a crash, and whatever is accepted is made of pieces of the input
        std::string d = url;
        int n = 1 + r.next() % 5;
        for (int i = 0; i < n && !d.empty(); ++i) {
            size_t at = r.next() % d.size();
            switch (r.next() % 3) { case 0: d[at] = (char) (1 + r.next() % 255); break; case 1: d.erase(at, 1 + r.next() % 4); break; default: d.insert(at, 1, ":/?#[]@.&="[r.next() % 10]); }
        }
        PRequestUrl u;
        if (RequestUrl::from(d, u) == SUCCESS) {
            for (auto& s : {u->schema, u->host, u->path, u->params, u->ext}) VH_CHECK(d.find(s) != std::string::npos, "foreign-part", "'%s' has a part '%s'", d.c_str(), s.c_str());
            VH_CHECK(u->port >= -1 && u->port <= 65535, "port", "port %d of '%s'", u->port, d.c_str());
            c.count("damaged urls accepted");
        } else c.count("damaged urls refused");
    }
}
