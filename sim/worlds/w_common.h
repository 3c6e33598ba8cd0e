/* helpers shared by the worlds */
#ifndef W_COMMON_H
#define W_COMMON_H
#include "sim.h"
#include "sim_io.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_io.h>
#include <string.h>
#include <stdio.h>
#include <algorithm>
using namespace sim;

static inline size_t &base_fibers() { static size_t n = 2; return n; }
static inline void world_begin() { base_fibers() = live_fibers(); alloc_track_begin(); }

/* end of run: every thread is gone, every descriptor closed, every block freed */
static inline void world_end(bool check_mem = true)
{
    faults_stop();
    if (!wait_until([] { return live_fibers() <= base_fibers(); }, 3600 * SEC, "threads end"))
        fail("thread-leak", "%zu threads still running after everything was destroyed", live_fibers() - base_fibers());
    if (M_thread_active_model(NULL, NULL)) SIM_CHECK(M_thread_count() == 0, "thread-count", "library reports %zu threads, none runs", M_thread_count());
    M_library_cleanup();
    SIM_CHECK(open_fds() == 0, "fd-leak", "descriptors left open: %s", open_fds_desc().c_str());
    if (check_mem) {
        size_t b = 0; std::string d;
        size_t n = alloc_outstanding(&b, &d);
        SIM_CHECK(n == 0, "memory-leak", "%zu blocks / %zu bytes still allocated: %s", n, b, d.c_str());
    }
}


struct JoinAll {
    std::vector<M_threadid_t> t;
    M_thread_attr_t *a;
    JoinAll() { a = M_thread_attr_create(); M_thread_attr_set_create_joinable(a, M_TRUE); }
    ~JoinAll() { if (a) M_thread_attr_destroy(a); }
    static void *tramp(void *p) { auto *f = (std::function<void()> *)p; (*f)(); delete f; return NULL; }
    void go(std::function<void()> f)
    {
        auto *h = new std::function<void()>(f);
        sim::thread_fail_exempt() = true; M_threadid_t id = M_thread_create(a, tramp, h); sim::thread_fail_exempt() = false;
        SIM_CHECK(id != 0, "thread-create", "thread creation failed without a fault");
        t.push_back(id);
    }
    void join() { for (auto x : t) SIM_CHECK(M_thread_join(x, NULL), "join-failed", "M_thread_join failed"); t.clear(); if (a) M_thread_attr_destroy(a); a = NULL; }
};
/* random pause in world code */
static inline void jitter(Stream s = WL)
{
    switch (choose(s, 8)) {
    case 0: case 1: case 2: return;
    case 3: case 4: point("jitter"); return;
    case 5: for (uint64_t n = 1 + choose(s, 4); n; n--) point("jitter"); return;
    case 6: sleep_ns((1 + choose(s, 50)) * US); return;
    default: sleep_ns((1 + choose(s, 20)) * MS); return;
    }
}
#endif
