// P34 coroutine lifecycle
#include "st_util.hpp"
#include <sps_sys_co.hpp>
#include <sps_sys_sync.hpp>
#include <sps_sys_st_co.hpp>
namespace sps { int get_context_id(); }
using namespace vh;
using namespace sps;

namespace {
struct Book {              // what happened to one coroutine
    int created = 0, on_start = 0, handler = 0, on_stop = 0, destroyed = 0, starts = 0;
    bool inside = false, dropped_before_run = false;
    std::string err;
    std::vector<int> ids;
};
struct World;
struct H : public ICoHandler {
    std::shared_ptr<Book> b; World* w; int depth; uint64_t seed; uint64_t canary = 0xC0FFEE123456789ull;
    Bytes payload;
    H(std::shared_ptr<Book> b, World* w, int d, uint64_t s) : b(b), w(w), depth(d), seed(s), payload(64, 0x5a) { b->created++; }
    ~H() override {
        b->destroyed++;
        if (b->inside) b->err = "object destroyed while its coroutine runs";
        if (canary != 0xC0FFEE123456789ull) b->err = "object overwritten";
        canary = 0;
    }
    void on_start() override { b->on_start++; if (b->handler || b->inside) b->err = "on_start out of order"; b->inside = true; }
    void on_stop() override { b->on_stop++; if (b->handler != 1) b->err = "on_stop out of order"; b->inside = false; }
    error_t handler() override;
};
struct World {
    std::vector<std::shared_ptr<Book>> books;
    std::list<std::pair<PICoHandler, int>> held;
    std::map<int, Book*> live_ids;
    uint64_t order = 0;
    int running = 0, max_running = 0;
    int gather = 0;             // coroutines wait for each other until so many run at once
    std::string err;
    std::shared_ptr<Book> launch(Rng& r, int depth) {
        auto b = std::make_shared<Book>();
        books.push_back(b);
        auto h = std::make_shared<H>(b, this, depth, r.next());
        if (ICoFactory::get_instance().start(h) != SUCCESS) { err = "start refused"; return b; }
        b->starts++;
        switch (r.next() % 4) {
            case 0: h.reset(); b->dropped_before_run = true; break;                 // dropped before it ever ran
            case 1: held.push_back({h, 1}); break;                                   // dropped while it runs
            default: held.push_back({h, 2}); break;                                  // kept beyond its end
        }
        return b;
    }
};
error_t H::handler() {
    b->handler++;
    Rng r(seed);
    World* world = w;
    world->running++; world->max_running = std::max(world->max_running, world->running);
    int id = get_context_id();
    if (world->live_ids.count(id)) b->err = fmt("context id %d of two running coroutines", id);
    world->live_ids[id] = b.get();
    int n = r.next() % 6;
    for (int i = 0; world->max_running < world->gather && i < 2000; ++i) yield();
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 3)) yield(); else if (r.chance(1, 6)) Sleep::get_instance().usleep(r.next() % 2000);
        for (auto x : payload) if (x != 0x5a) b->err = "payload overwritten";
        if (canary != 0xC0FFEE123456789ull) b->err = "object gone while its coroutine runs";
        if (get_context_id() != id) b->err = "context id changed";
        if (depth < 2 && r.chance(1, 8)) world->launch(r, depth + 1);
        // somebody lets go of a running coroutine, perhaps of this one
        if (!world->held.empty() && r.chance(1, 3)) for (auto it = world->held.begin(); it != world->held.end(); ++it) if (it->second == 1 && static_cast<H*>(it->first.get())->b->handler) { world->held.erase(it); break; }
    }
    world->live_ids.erase(id);
    world->order = world->order * 1000003 + (uint64_t) id + 1;
    world->running--;
    return r.chance(1, 2) ? SUCCESS : ERROR_SOCKET_CLOSED;
}
}

VH_CASE_ST("P34", lifecycle) {
    Rng& r = c.rng;
    World w;
    int n = 1 + r.next() % 25;
    if (r.chance(1, 150)) { n = 900; w.gather = 300; c.count("crowds"); }
    for (int i = 0; i < n; ++i) { w.launch(r, 0); if (!w.gather && r.chance(1, 4)) yield(); }
    uint64_t t0 = st_utime();
    for (int k = 0; st_utime() - t0 < 8000000; ++k) {
        if (k < 100) yield(); else st_usleep(300);
        bool busy = w.running > 0;
        for (auto& b : w.books) if (b->starts && !b->dropped_before_run && !b->on_stop) busy = true;
        if (!busy && k > 20) break;
    }
    for (int i = 0; i < 5; ++i) yield();
    VH_CHECK(w.err.empty(), "start", "%s", w.err.c_str());
    size_t i = 0;
    for (auto& b : w.books) {
        VH_CHECK(b->err.empty(), "lifecycle", "coroutine %zu: %s", i, b->err.c_str());
        if (b->dropped_before_run) {
            VH_CHECK(b->handler == 0 && b->destroyed == 1, "dropped", "coroutine %zu dropped before it ran: ran %d times, destroyed %d times", i, b->handler, b->destroyed);
            c.count("dropped before they ran");
        } else {
            VH_CHECK(b->on_start == 1 && b->handler == 1 && b->on_stop == 1, "runs", "coroutine %zu: on_start %d, handler %d, on_stop %d times", i, b->on_start, b->handler, b->on_stop);
            c.count("ran to their end");
        }
        ++i;
    }
    w.held.clear();
    for (size_t k = 0; k < w.books.size(); ++k)
        VH_CHECK(w.books[k]->destroyed == 1, "release", "coroutine object %zu destroyed %d times after its end and release", k, w.books[k]->destroyed);
    // a thread that is no coroutine has no id, whatever ran on its stack before
    static int seen;
    seen = 0;
    std::vector<st_thread_t> plain;
    for (int i = 0; i < 3; ++i) plain.push_back(st_thread_create([](void*) -> void* { seen += get_context_id() != -1; return nullptr; }, nullptr, 1, 0));
    for (auto t : plain) st_thread_join(t, nullptr);
    VH_CHECK(seen == 0, "context", "a thread that is no coroutine has the context id of one that ended");
    VH_CHECK(get_context_id() == -1, "context", "the main thread has context id %d", get_context_id());
    c.distinct("nontrivial", w.order ^ (uint64_t) n << 48);
    c.distinct("concurrency", w.max_running);
    if (c.cur < 3) c.sample(fmt("%zu coroutines, %d at once", w.books.size(), w.max_running));
}
