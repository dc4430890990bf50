// Coroutines for harness code: failures inside a coroutine are carried to the case.
#ifndef ST_UTIL_HPP
#define ST_UTIL_HPP
#include "vh.hpp"
#include <public.h>
#include <memory>
#include <list>

namespace vh {

struct Group {
    struct Task { Group* g = nullptr; std::function<void()> fn; st_thread_t t = nullptr; bool done = false; bool failed = false; Violation v; };
    std::list<Task> tasks;
    bool aborted = false;      // a task failed: the others should end
    Violation first;           // what failed first; the rest follows from it
    static void* run(void* a) {
        Task* t = (Task*) a;
        try { t->fn(); }
        catch (Violation& v) { t->failed = true; t->v = v; }
        catch (std::exception& e) { t->failed = true; t->v = Violation{"uncaught-exception", e.what()}; }
        catch (const char* e) { t->failed = true; t->v = Violation{"uncaught-exception", e}; }
        t->done = true;
        if (t->failed) {
            if (!t->g->aborted) { t->g->first = t->v; }
            t->g->aborted = true;
            for (auto& o : t->g->tasks) if (&o != t && o.t && !o.done) st_thread_interrupt(o.t);
        }
        return nullptr;
    }
    Task* go(std::function<void()> f, int stack = 512 * 1024) {
        tasks.emplace_back();
        Task* t = &tasks.back();
        t->fn = std::move(f);
        t->g = this;
        t->t = st_thread_create(run, t, 1, stack);
        if (!t->t) { fprintf(stderr, "VH: no coroutine\n"); abort(); }
        return t;
    }
    // waits for all and rethrows the first failure
    void join() {
        for (auto& t : tasks) if (t.t) { st_thread_join(t.t, nullptr); t.t = nullptr; }
        if (aborted) throw first;
    }
};
inline void yield() { st_usleep(0); }

}
#endif
