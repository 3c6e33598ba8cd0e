/* T01 mutex/cond, T02 rwlock, T03 threadpool, T04 pipeline, T05 thread life cycle, T06 atomics */
#include "w_common.h"

/* ============================== T01: mutex and condition variables ============================ */
struct MtxModel {
    M_thread_mutex_t *m; int owner = -1, depth = 0; int inuse = 0; uint64_t ver = 0; bool rec; int64_t counter = 0, expect = 0;
    void begin() { inuse++; ver++; }
    void end() { inuse--; ver++; }
    void got() {
        if (owner == self_id()) { SIM_CHECK(rec, "relock", "non-recursive mutex locked twice by one thread"); depth++; }
        else { SIM_CHECK(owner < 0, "mutual-exclusion", "thread %d got the mutex while thread %d holds it", self_id(), owner); owner = self_id(); depth = 1; }
    }
    void drop() { SIM_CHECK(owner == self_id(), "mutual-exclusion", "lost ownership"); if (--depth == 0) owner = -1; }
};
static void mtx_worker(MtxModel &x, int iters)
{
    for (int i = 0; i < iters; i++) {
        int d = x.rec ? 1 + (int)wl(3) : 1;
        bool use_try = wl(3) == 0;
        x.begin();
        if (use_try) {
            uint64_t v = x.ver; bool free_at_start = x.inuse == 1;
            if (!M_thread_mutex_trylock(x.m)) {
                SIM_CHECK(!(free_at_start && x.ver == v), "trylock-refused", "trylock failed on a mutex nobody used");
                probe("t01.try_busy");
                x.end(); jitter(); continue;
            }
        } else SIM_CHECK(M_thread_mutex_lock(x.m), "lock-failed", "mutex lock returned false");
        x.got();
        int64_t c = x.counter;
        for (int k = 1; k < d; k++) { SIM_CHECK(wl(2) ? M_thread_mutex_lock(x.m) : M_thread_mutex_trylock(x.m), "recursive-lock", "recursive relock failed"); x.got(); }
        if (wl(2)) jitter();
        SIM_CHECK(x.counter == c, "mutual-exclusion", "protected value changed while the mutex was held");
        x.counter = c + 1; x.expect++;
        for (int k = 0; k < d; k++) {
            x.drop();
            SIM_CHECK(M_thread_mutex_unlock(x.m), "unlock-failed", "mutex unlock returned false");
            if (k + 1 < d && wl(2)) point("partly-unlocked");
        }
        x.end();
        jitter();
    }
}
static void t01_mutex()
{
    world_begin();
    allow({ F_STALL });
    int n = 2 + (int)wl(3);
    MtxModel x; x.rec = wl(2); x.m = M_thread_mutex_create(x.rec ? M_THREAD_MUTEXATTR_RECURSIVE : M_THREAD_MUTEXATTR_NONE);
    SIM_CHECK(x.m, "create", "mutex_create returned NULL");
    { JoinAll j; for (int i = 0; i < n; i++) j.go([&] { mtx_worker(x, 1 + (int)wl(8)); }); j.join(); }
    SIM_CHECK(x.counter == x.expect, "lost-update", "counter %ld, expected %ld", (long)x.counter, (long)x.expect);
    M_thread_mutex_destroy(x.m);
    world_end();
}
SIM_WORLD(T01, t01_mutex, "thread/m_thread.c thread/m_thread_pthread.c thread/m_thread_attr.c", "pthread scheduler", 2);

/* bounded buffer: nothing lost, duplicated or reordered, nobody sleeps forever */
static void t01_buffer()
{
    world_begin();
    allow({ F_STALL, F_SPURIOUS_WAKE });
    M_thread_mutex_t *m = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
    M_thread_cond_t *ne = M_thread_cond_create(M_THREAD_CONDATTR_NONE), *nf = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
    std::deque<int> q; size_t cap = 1 + wl(3);
    int np = 1 + (int)wl(3), nc = 1 + (int)wl(3), per = 1 + (int)wl(6), total = np * per, got = 0, holder = -1; bool bcast = wl(2);
    std::vector<int> seen(total, 0); std::vector<int> last(np, -1); int finished_consumers = 0;
    auto lock = [&] { M_thread_mutex_lock(m); SIM_CHECK(holder < 0, "mutual-exclusion", "lock while held by %d", holder); holder = self_id(); };
    auto unlock = [&] { SIM_CHECK(holder == self_id(), "mutual-exclusion", "not holder"); holder = -1; M_thread_mutex_unlock(m); };
    auto wait = [&](M_thread_cond_t *c, bool timed) {
        holder = -1;
        if (timed) { M_thread_cond_timedwait(c, m, 1 + wl(200)); }
        else SIM_CHECK(M_thread_cond_wait(c, m), "cond-wait-failed", "cond_wait returned false");
        SIM_CHECK(holder < 0, "mutual-exclusion", "cond wait returned while %d holds the mutex", holder); holder = self_id();
    };
    JoinAll j;
    for (int p = 0; p < np; p++) j.go([&, p] {
        for (int i = 0; i < per; i++) {
            lock();
            while (q.size() >= cap) wait(nf, wl(4) == 0);
            q.push_back(p * per + i);
            if (wl(2)) { unlock(); bcast ? M_thread_cond_broadcast(ne) : M_thread_cond_signal(ne); }
            else { bcast ? M_thread_cond_broadcast(ne) : M_thread_cond_signal(ne); unlock(); }
            jitter();
        }
    });
    for (int c = 0; c < nc; c++) j.go([&] {
        for (;;) {
            lock();
            while (q.empty() && got < total) wait(ne, wl(4) == 0);
            if (q.empty()) { finished_consumers++; unlock(); break; }
            int v = q.front(); q.pop_front(); got++; seen[v]++;
            SIM_CHECK(last[v / per] < v % per, "order", "producer order violated"); last[v / per] = v % per;
            M_thread_cond_signal(nf);
            if (got == total) M_thread_cond_broadcast(ne);
            unlock();
            jitter();
        }
    });
    j.join();
    for (int i = 0; i < total; i++) SIM_CHECK(seen[i] == 1, "lost-item", "item %d seen %d times", i, seen[i]);
    SIM_CHECK(finished_consumers == nc, "lost-wakeup", "consumers");
    M_thread_cond_destroy(ne); M_thread_cond_destroy(nf); M_thread_mutex_destroy(m);
    world_end();
}
SIM_WORLD(T01, t01_buffer, "thread/m_thread.c thread/m_thread_pthread.c", "pthread scheduler", 2);

/* timed waits: TRUE means activated, FALSE means the whole time passed; signal wakes one, broadcast all */
static void t01_timed()
{
    world_begin();
    allow({ F_STALL, F_WALL_JUMP });
    M_thread_mutex_t *m = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
    M_thread_cond_t *c = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
    int n = 1 + (int)wl(4); uint64_t sigs = 0; int waiting = 0; bool bc = wl(2); bool longw = wl(4) == 0; bool anytrue = false; int woke_inf = 0, inf = 0;
    int sig_plan = (int)wl(4);
    JoinAll j; std::vector<uint64_t> woken;
    uint64_t cap_ms = longw ? 20ull * 3600 * 1000 : 3000;
    opts().max_time = 30 * 24 * 3600 * SEC;
    bool jumped = false;
    int ended = 0;
    for (int i = 0; i < n; i++) { bool infinite = sig_plan && bc && wl(4) == 0; if (infinite) inf++; j.go([&, infinite] {
        jitter();
        uint64_t ms = wl(5) == 0 ? wl(3) : 1 + wl(cap_ms);
        bool abs = wl(2);
        M_thread_mutex_lock(m);
        waiting++;
        uint64_t s0 = sigs, t0 = now(); bool r; int64_t w0 = wall_ns();
        if (infinite) r = M_thread_cond_wait(c, m);
        else if (abs) {
            M_timeval_t tv; memset(&tv, 0, sizeof tv); int64_t w = w0 + (int64_t)ms * 1000000;
            tv.tv_sec = w / 1000000000; tv.tv_usec = (w % 1000000000) / 1000;
            if (wl(3) == 0 && tv.tv_sec > 5) { uint64_t k = 1 + wl(4); tv.tv_sec -= k; tv.tv_usec += k * 1000000; probe("t01.unnormalised_abstime"); }
            r = M_thread_cond_timedwait_abs(c, m, &tv);
        } else r = M_thread_cond_timedwait(c, m, ms);
        uint64_t el = now() - t0; waiting--;
        if (r) {
            anytrue = true; if (infinite) woke_inf++;
            SIM_CHECK(sigs > s0, "woken-unsignalled", "wait reported activation but nothing was signalled during it (%llu ms)", (unsigned long long)ms);
        } else {
            SIM_CHECK(!infinite, "cond-wait-failed", "cond_wait returned false");
            if (!jumped && !fault_enabled(F_WALL_JUMP)) {
                SIM_CHECK(el + 2 * MS >= ms * MS, "timedwait-early", "timed out after %llu ms, asked for %llu ms", (unsigned long long)(el / MS), (unsigned long long)ms);
                probe("t01.timeout");
                if (!any_fault_enabled()) SIM_CHECK(el <= ms * MS + 2 * SEC, "timedwait-late", "timed out after %llu ms, asked for %llu ms", (unsigned long long)(el / MS), (unsigned long long)ms);
            }
        }
        ended++;
        M_thread_mutex_unlock(m);
    }); }
    for (int k = 0; k < sig_plan; k++) {
        sleep_ns(wl(longw ? 3600 * 1000 : 1500) * MS);
        M_thread_mutex_lock(m);
        int w = waiting; sigs++;
        if (bc) M_thread_cond_broadcast(c); else M_thread_cond_signal(c);
        uint64_t t0 = now();
        M_thread_mutex_unlock(m);
        (void)w; (void)t0;
    }
    for (int k = 0; inf && ended < n && k < 4000; k++) { M_thread_mutex_lock(m); sigs++; M_thread_cond_broadcast(c); M_thread_mutex_unlock(m); sleep_ns(100 * MS); }
    j.join();
    M_thread_cond_destroy(c); M_thread_mutex_destroy(m);
    world_end();
}
SIM_WORLD(T01, t01_timed, "thread/m_thread.c thread/m_thread_pthread.c base/time", "pthread scheduler, clocks", 2);

/* broadcast reaches every thread that was waiting; signal reaches at least one */
static void t01_wake()
{
    world_begin();
    allow({ F_STALL });
    M_thread_mutex_t *m = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
    M_thread_cond_t *c = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
    int n = 1 + (int)wl(5), waiting = 0, woke = 0, rounds = 1 + (int)wl(3);
    for (int r = 0; r < rounds; r++) {
        JoinAll j; waiting = woke = 0;
        for (int i = 0; i < n; i++) j.go([&] { jitter(); M_thread_mutex_lock(m); waiting++; M_thread_cond_wait(c, m); woke++; M_thread_mutex_unlock(m); });
        wait_until([&] { return waiting == n; }, 3600 * SEC, "all waiting");
        bool bc = wl(2);
        M_thread_mutex_lock(m);
        if (bc) M_thread_cond_broadcast(c); else for (int i = 0; i < n; i++) M_thread_cond_signal(c);
        M_thread_mutex_unlock(m);
        j.join();
        SIM_CHECK(woke == n, "lost-wakeup", "woke %d of %d", woke, n);
    }
    M_thread_cond_destroy(c); M_thread_mutex_destroy(m);
    world_end();
}
SIM_WORLD(T01, t01_wake, "thread/m_thread.c thread/m_thread_pthread.c", "pthread scheduler", 1);

/* ============================== T02: read/write locks ========================================== */
/* both implementations: the system's read/write lock, and the one made of a mutex and conditions for systems and
 * thread models without */
extern "C" { M_thread_rwlock_t *M_thread_rwlock_emu_create(void); void M_thread_rwlock_emu_destroy(M_thread_rwlock_t *); M_bool M_thread_rwlock_emu_lock(M_thread_rwlock_t *, M_thread_rwlock_type_t); M_bool M_thread_rwlock_emu_unlock(M_thread_rwlock_t *); }
struct RwOps { M_thread_rwlock_t *(*create)(void); void (*destroy)(M_thread_rwlock_t *); M_bool (*lock)(M_thread_rwlock_t *, M_thread_rwlock_type_t); M_bool (*unlock)(M_thread_rwlock_t *); };
static RwOps rw_ops()
{
    if (wl(2) == 0) { probe("t02.emulated"); return { M_thread_rwlock_emu_create, M_thread_rwlock_emu_destroy, M_thread_rwlock_emu_lock, M_thread_rwlock_emu_unlock }; }
    return { M_thread_rwlock_create, M_thread_rwlock_destroy, M_thread_rwlock_lock, M_thread_rwlock_unlock };
}
static void t02_rwlock()
{
    world_begin();
    RwOps rw = rw_ops();
    allow({ F_STALL, F_SPURIOUS_WAKE });
    M_thread_rwlock_t *l = rw.create();
    SIM_CHECK(l, "create", "rwlock_create returned NULL");
    int readers = 0, writer = -1; int64_t value = 0, wrote = 0; int maxr = 0;
    /* writer preference: a reader that started after a writer was certainly waiting must not be admitted before it */
    int nr = 1 + (int)wl(4), nw = 1 + (int)wl(3);
    JoinAll j;
    for (int i = 0; i < nr; i++) j.go([&] {
        for (int k = 1 + (int)wl(5); k; k--) {
            SIM_CHECK(rw.lock(l, M_THREAD_RWLOCK_TYPE_READ), "lock-failed", "read lock failed");
            SIM_CHECK(writer < 0, "reader-with-writer", "read lock granted while %d writes", writer);
            readers++; maxr = std::max(maxr, readers);
            int64_t v = value; jitter();
            SIM_CHECK(v == value && writer < 0, "reader-with-writer", "value changed under a read lock");
            readers--;
            SIM_CHECK(rw.unlock(l), "unlock-failed", "read unlock failed");
            jitter();
        }
    });
    for (int i = 0; i < nw; i++) j.go([&] {
        for (int k = 1 + (int)wl(4); k; k--) {
            SIM_CHECK(rw.lock(l, M_THREAD_RWLOCK_TYPE_WRITE), "lock-failed", "write lock failed");
            SIM_CHECK(writer < 0 && readers == 0, "writer-not-alone", "write lock granted with %d readers, writer %d", readers, writer);
            writer = self_id();
            int64_t v = value; jitter(); value = v + 1; wrote++;
            SIM_CHECK(writer == self_id() && readers == 0, "writer-not-alone", "write lock shared");
            writer = -1;
            SIM_CHECK(rw.unlock(l), "unlock-failed", "write unlock failed");
            jitter();
        }
    });
    j.join();
    SIM_CHECK(value == wrote, "lost-update", "value %ld wrote %ld", (long)value, (long)wrote);
    if (maxr > 1) probe("t02.parallel_readers");
    rw.destroy(l);
    world_end();
}
SIM_WORLD(T02, t02_rwlock, "thread/m_thread.c thread/m_thread_pthread.c thread/m_thread_rwlock_emu.c", "pthread scheduler and rwlock", 2);

/* readers share; a waiting writer goes before readers that come after it */
static void t02_sharing()
{
    world_begin();
    RwOps rw = rw_ops();
    allow({ F_STALL });
    M_thread_rwlock_t *l = rw.create();
    int n = 2 + (int)wl(3), inside = 0, done = 0; bool writer_done = false; int mode = (int)wl(2);
    JoinAll j;
    if (mode == 0) {
        /* n readers meet inside: only possible if read locks are shared */
        for (int i = 0; i < n; i++) j.go([&] {
            jitter();
            rw.lock(l, M_THREAD_RWLOCK_TYPE_READ); inside++;
            if (!wait_until([&] { return inside == n; }, 600 * SEC, "readers meet")) fail("readers-not-shared", "%d of %d readers inside", inside, n);
            done++; if (wl(2)) jitter();
            rw.unlock(l);
        });
        j.join();
        rw.lock(l, M_THREAD_RWLOCK_TYPE_WRITE); rw.unlock(l);
    } else {
        rw.lock(l, M_THREAD_RWLOCK_TYPE_READ);
        int started = 0; bool w_started = false;
        j.go([&] { w_started = true; rw.lock(l, M_THREAD_RWLOCK_TYPE_WRITE); writer_done = true; jitter(); rw.unlock(l); });
        wait_until([&] { return w_started; }, 600 * SEC, "writer started");
        faults_stop();
        sleep_ns(SEC);    /* the writer is blocked on the lock by now */
        for (int i = 0; i < n; i++) j.go([&] { started++; rw.lock(l, M_THREAD_RWLOCK_TYPE_READ); SIM_CHECK(writer_done, "writer-starved", "a new reader was admitted before the waiting writer"); rw.unlock(l); });
        sleep_ns(SEC);
        SIM_CHECK(!writer_done, "writer-not-alone", "writer admitted while a reader holds the lock");
        rw.unlock(l);
        j.join();
    }
    rw.destroy(l);
    world_end();
}
SIM_WORLD(T02, t02_sharing, "thread/m_thread.c thread/m_thread_pthread.c thread/m_thread_rwlock_emu.c", "pthread scheduler and rwlock", 1);

/* ============================== T03: thread pool ================================================ */
struct PoolParent;
struct PoolTask { int id; PoolParent *par; int ran = 0, fin = 0; int kind = 0; uint64_t ns = 0; bool notify = false; void *child = NULL; };
struct PoolParent { M_threadpool_parent_t *p; std::vector<PoolTask *> tasks; int outstanding = 0; };
struct PoolWorld {
    M_threadpool_t *pool; size_t min, max, qmax; uint64_t idle; int running = 0, maxrun = 0; bool destroyed = false; int barrier = 0, barrier_n = 0; uint64_t total = 0;
};
static PoolWorld *PW;
static void pool_task(void *a)
{
    PoolTask *t = (PoolTask *)a;
    SIM_CHECK(!PW->destroyed, "task-after-destroy", "task runs after the pool was destroyed");
    SIM_CHECK(t->ran == 0, "task-ran-twice", "task %d ran again", t->id);
    t->ran++; PW->running++; PW->maxrun = std::max(PW->maxrun, PW->running);
    SIM_CHECK((size_t)PW->running <= PW->max, "too-many-threads", "%d tasks at once, limit %zu", PW->running, PW->max);
    switch (t->kind) {
    case 0: break;
    case 1: for (uint64_t n = t->ns % 5; n; n--) point("task"); break;
    case 2: sleep_ns(t->ns); break;
    case 3:
        PW->barrier++;
        if (!wait_until([] { return PW->barrier >= PW->barrier_n; }, 3600 * SEC, "pool barrier")) fail("pool-stalled", "only %d of %d tasks run together with %zu threads allowed", PW->barrier, PW->barrier_n, PW->max);
        break;
    }
    PW->running--;
    t->ran++;
    if (!t->notify) t->par->outstanding--;
}
static void pool_fin(void *a)
{
    PoolTask *t = (PoolTask *)a;
    SIM_CHECK(t->ran == 2, "finish-before-task", "finished callback of task %d before the task ended", t->id);
    SIM_CHECK(t->fin == 0, "finish-twice", "finished callback of task %d again", t->id);
    t->fin++; t->par->outstanding--;
}
static uint64_t null_task_runs;
static void pool_null_task(void *a) { SIM_CHECK(a == NULL, "task-argument", "task got %p, NULL was dispatched", a); null_task_runs++; }
static void t03_pool()
{
    world_begin();
    allow({ F_STALL, F_SPURIOUS_WAKE });
    PoolWorld w; PW = &w; null_task_runs = 0;
    w.min = wl(4); w.max = std::max<size_t>(1, w.min + wl(4)); if (w.max > 5) w.max = 5; if (w.min > w.max) w.min = w.max;
    switch (wl(4)) { case 0: w.idle = 0; break; case 1: w.idle = 1 + wl(20); break; case 2: w.idle = 1 + wl(2000); break; default: w.idle = M_UINT64_MAX; }
    switch (wl(3)) { case 0: w.qmax = w.max + wl(3); break; case 1: w.qmax = 0; break; default: w.qmax = SIZE_MAX; }
    w.pool = M_threadpool_create(w.min, w.max, w.idle, w.qmax);
    SIM_CHECK(w.pool, "create", "threadpool_create failed");
    size_t qcap = w.qmax == 0 ? w.max * 8 : w.qmax, slots0 = M_threadpool_available_slots(w.pool);
    SIM_CHECK(M_threadpool_available_slots(w.pool) == qcap || w.qmax == 0, "slots", "empty pool has %zu slots, expected %zu", M_threadpool_available_slots(w.pool), qcap);
    SIM_CHECK(M_threadpool_num_threads(w.pool) >= w.min, "min-threads", "%zu threads, minimum %zu", M_threadpool_num_threads(w.pool), w.min);
    int nd = 1 + (int)wl(3); bool shared = wl(3) == 0; bool nulls = wl(4) == 0; bool use_wat = wl(3) == 0; uint64_t nnull = 0; bool wat = false;
    PoolParent sp; if (shared) sp.p = M_threadpool_parent_create(w.pool);
    int next = 0; std::vector<PoolTask *> all;
    deadline(now() + 7200 * SEC, "pool-stalled", "dispatched tasks were not all executed");
    {
        JoinAll j;
        for (int d = 0; d < nd; d++) j.go([&] {
            PoolParent own; PoolParent *pp = shared ? &sp : &own;
            if (!shared) own.p = M_threadpool_parent_create(w.pool);
            for (int r = 1 + (int)wl(3); r; r--) {
                for (int b = 1 + (int)wl(3); b; b--) {
                    if (use_wat && wl(2) && !wat) { wat = true; M_threadpool_wait_available_thread(pp->p); wat = false; probe("t03.wait_available"); }
                    int k = 1 + (int)size_pick(WL, 8); bool notify = wl(2);
                    std::vector<void *> args;
                    for (int i = 0; i < k; i++) {
                        PoolTask *t = new PoolTask; t->id = next++; t->par = pp; t->kind = (int)wl(3); t->ns = 1 + wl(wl(4) == 0 ? 3 * SEC : 5 * MS); t->notify = notify;
                        pp->tasks.push_back(t); all.push_back(t); args.push_back(t); pp->outstanding++;
                    }
                    if (notify) M_threadpool_dispatch_notify(pp->p, pool_task, args.data(), args.size(), pool_fin);
                    else M_threadpool_dispatch(pp->p, pool_task, args.data(), args.size());
                    if (nulls && !shared) { uint64_t q = 1 + wl(3); nnull += q; M_threadpool_dispatch(pp->p, pool_null_task, NULL, q); }
                    SIM_CHECK(M_threadpool_num_threads(w.pool) <= w.max, "too-many-threads", "more threads than the maximum");
                    SIM_CHECK(M_threadpool_available_slots(w.pool) <= slots0, "queue-overflow", "%zu slots available of %zu: more tasks wait than the queue holds", M_threadpool_available_slots(w.pool), slots0);
                    jitter();
                }
                if (!shared) {
                    if (wl(4) == 0) {
                        bool outst = own.outstanding > 0; (void)outst;
                        if (M_threadpool_parent_destroy(own.p)) {
                            SIM_CHECK(own.outstanding == 0, "parent-destroyed-busy", "parent destroyed with %d tasks outstanding", own.outstanding);
                            own.p = M_threadpool_parent_create(w.pool);
                        } else probe("t03.parent_destroy_refused");
                    }
                    M_threadpool_parent_wait(own.p);
                    SIM_CHECK(own.outstanding == 0, "wait-returned-early", "parent_wait returned with %d tasks outstanding", own.outstanding);
                    for (auto t : own.tasks) SIM_CHECK(t->ran == 2 && t->fin == (t->notify ? 1 : 0), "wait-returned-early", "task %d ran=%d fin=%d after parent_wait", t->id, t->ran, t->fin);
                }
                if (wl(3) == 0) sleep_ns(wl(3000) * MS);
            }
            if (!shared) SIM_CHECK(M_threadpool_parent_destroy(own.p), "parent-destroy-refused", "parent_destroy refused though nothing is outstanding");
        });
        j.join();
    }
    if (shared) { M_threadpool_parent_wait(sp.p); SIM_CHECK(sp.outstanding == 0, "wait-returned-early", "outstanding %d", sp.outstanding); SIM_CHECK(M_threadpool_parent_destroy(sp.p), "parent-destroy-refused", "parent_destroy refused though nothing is outstanding"); }
    for (auto t : all) SIM_CHECK(t->ran == 2 && t->fin == (t->notify ? 1 : 0), "task-lost", "task %d ran=%d fin=%d", t->id, t->ran, t->fin);
    SIM_CHECK(null_task_runs == nnull, "task-lost", "%llu argument-less tasks ran, %llu dispatched", (unsigned long long)null_task_runs, (unsigned long long)nnull);
    faults_stop();
    if (w.idle != M_UINT64_MAX && wl(2)) {
        sleep_ns((w.idle + 1000) * MS);
        SIM_CHECK(M_threadpool_num_threads(w.pool) == w.min, "idle-threads", "%zu threads after the idle time, minimum is %zu", M_threadpool_num_threads(w.pool), w.min);
        probe("t03.idle_reaped");
    }
    if (wl(2)) {   /* as many tasks as threads can make progress together */
        PoolParent bp; bp.p = M_threadpool_parent_create(w.pool);
        w.barrier_n = (int)w.max; std::vector<PoolTask> ts((size_t)w.max);
        for (auto &t : ts) { t.id = -1; t.kind = 3; t.par = &bp; bp.outstanding++; void *a = &t; M_threadpool_dispatch(bp.p, pool_task, &a, 1); }
        M_threadpool_parent_wait(bp.p);
        SIM_CHECK(w.barrier == w.barrier_n, "pool-stalled", "barrier");
        SIM_CHECK(M_threadpool_parent_destroy(bp.p), "parent-destroy-refused", "refused");
        probe("t03.barrier");
    }
    M_threadpool_destroy(w.pool); w.destroyed = true;
    SIM_CHECK(w.running == 0, "destroy-returned-early", "pool_destroy returned while %d tasks run", w.running);
    deadline_clear();
    for (auto t : all) delete t;
    world_end();
}
SIM_WORLD(T03, t03_pool, "thread/m_threadpool.c thread/m_thread.c thread/m_thread_pthread.c base/data llist", "pthread scheduler, clocks", 4);

static void t03_create_fail()
{
    world_begin();
    allow({ F_THREAD_CREATE_FAIL, F_STALL });
    size_t mn = 1 + wl(4);
    M_threadpool_t *p = M_threadpool_create(mn, mn + wl(2), wl(2) ? M_UINT64_MAX : 10, 0);
    if (p) {
        SIM_CHECK(M_threadpool_num_threads(p) == mn, "min-threads", "created with %zu threads instead of %zu", M_threadpool_num_threads(p), mn);
        M_threadpool_destroy(p);
    } else { SIM_CHECK(any_fault_enabled(), "create", "threadpool_create failed without a fault"); probe("t03.create_refused"); }
    world_end();
}
SIM_WORLD(T03, t03_create_fail, "thread/m_threadpool.c thread/m_thread.c", "pthread scheduler", 1);

/* ============================== T04: pipeline ==================================================== */
struct M_thread_pipeline_task { int id; int step_done = 0; bool in_step = false; int fail_at = -1; int finished = 0; int result = 0; bool own_failed = false; int seq = -1; };
struct PipeWorld { M_thread_pipeline_t *p; int steps; int active[8]; std::vector<M_thread_pipeline_task *> all; std::vector<int> last; int fincount = 0; bool destroying = false; bool anyfail = false; bool noabort = false; int last_success = -1; uint64_t maxwork; };
static PipeWorld *PP;
static M_bool pipe_step(M_thread_pipeline_task *t, int s)
{
    SIM_CHECK(!t->finished, "step-after-finish", "task %d step %d after its finish callback", t->id, s);
    SIM_CHECK(!t->in_step, "task-in-two-steps", "task %d is in two steps at once", t->id);
    SIM_CHECK(t->step_done == s, "step-order", "task %d entered step %d after %d steps", t->id, s, t->step_done);
    SIM_CHECK(!t->own_failed, "step-after-failure", "task %d entered step %d after failing", t->id, s);
    SIM_CHECK(PP->active[s] < 0, "step-not-serial", "step %d runs tasks %d and %d at once", s, PP->active[s], t->id);
    SIM_CHECK(PP->last[s] < t->seq, "task-order", "step %d got task %d after task %d", s, t->seq, PP->last[s]);
    PP->last[s] = t->seq; PP->active[s] = t->id; t->in_step = true;
    uint64_t k = wl(5);
    if (k == 1) point("step"); else if (k == 2) sleep_ns(1 + wl(PP->maxwork)); else if (k == 3) for (uint64_t n = wl(6); n; n--) point("step");
    t->in_step = false; PP->active[s] = -1; t->step_done = s + 1;
    if (t->fail_at == s) { t->own_failed = true; PP->anyfail = true; return M_FALSE; }
    return M_TRUE;
}
static M_bool ps0(M_thread_pipeline_task_t *t) { return pipe_step(t, 0); }
static M_bool ps1(M_thread_pipeline_task_t *t) { return pipe_step(t, 1); }
static M_bool ps2(M_thread_pipeline_task_t *t) { return pipe_step(t, 2); }
static M_bool ps3(M_thread_pipeline_task_t *t) { return pipe_step(t, 3); }
static M_bool ps4(M_thread_pipeline_task_t *t) { return pipe_step(t, 4); }
static void pipe_fin(M_thread_pipeline_task_t *t, M_thread_pipeline_result_t r)
{
    SIM_CHECK(!t->in_step, "finish-during-step", "finish callback of task %d while a step runs on it", t->id);
    SIM_CHECK(t->finished == 0, "finish-twice", "task %d finished twice", t->id);
    t->finished++; t->result = (int)r; PP->fincount++;
    if (r == M_THREAD_PIPELINE_RESULT_SUCCESS) {
        SIM_CHECK(t->step_done == PP->steps && !t->own_failed, "success-without-steps", "task %d reported success after %d of %d steps", t->id, t->step_done, PP->steps);
        SIM_CHECK(PP->last_success < t->seq, "success-order", "task %d succeeded after a later task", t->id);
        PP->last_success = t->seq;
    } else if (r == M_THREAD_PIPELINE_RESULT_FAIL) {
        SIM_CHECK(t->own_failed, "fail-without-failure", "task %d reported as failed though none of its steps failed", t->id);
    } else if (r == M_THREAD_PIPELINE_RESULT_ABORT) {
        SIM_CHECK(PP->destroying || (PP->anyfail && !PP->noabort), "abort-without-cause", "task %d aborted though nothing failed and the pipeline is not being destroyed", t->id);
        SIM_CHECK(t->step_done < PP->steps, "success-reported-as-abort", "task %d passed all %d steps and is reported as aborted", t->id, PP->steps);
        SIM_CHECK(!t->own_failed, "failure-reported-as-abort", "task %d failed in step %d but is reported as aborted", t->id, t->fail_at);
    } else fail("result", "result %d", (int)r);
}
static void t04_pipeline()
{
    world_begin();
    allow({ F_STALL, F_SPURIOUS_WAKE });
    PipeWorld w; PP = &w;
    static const M_thread_pipeline_task_cb cbs[] = { ps0, ps1, ps2, ps3, ps4 };
    w.steps = 1 + (int)wl(4); for (auto &a : w.active) a = -1; w.last.assign(8, -1); w.noabort = wl(2); w.maxwork = wl(2) ? 5 * MS : 100 * US;
    M_thread_pipeline_steps_t *st = M_thread_pipeline_steps_create();
    for (int i = 0; i < w.steps; i++) SIM_CHECK(M_thread_pipeline_steps_insert(st, cbs[i]), "steps", "insert");
    w.p = M_thread_pipeline_create(st, w.noabort ? M_THREAD_PIPELINE_FLAG_NOABORT : M_THREAD_PIPELINE_FLAG_NONE, pipe_fin);
    M_thread_pipeline_steps_destroy(st);
    SIM_CHECK(w.p, "create", "pipeline_create failed");
    int n = (int)size_pick(WL, 12), failrate = wl(3) == 0 ? 0 : 2 + (int)wl(10); bool aborted_early = wl(3) == 0; size_t lim = wl(4);
    deadline(now() + 7200 * SEC, "pipeline-stalled", "the pipeline did not finish its tasks");
    int inserted = 0; bool refused = false;
    for (int i = 0; i < n; i++) {
        auto *t = new M_thread_pipeline_task; t->id = i; t->seq = i;
        if (failrate && wl((uint64_t)failrate) == 1) t->fail_at = (int)wl((uint64_t)w.steps);
        w.all.push_back(t);
        if (!M_thread_pipeline_task_insert(w.p, t)) {
            SIM_CHECK(w.anyfail && !w.noabort, "insert-refused", "insert refused although nothing failed");
            SIM_CHECK(t->finished == 0, "finish-of-refused", "refused task was finished");
            t->finished = -1; refused = true; continue;
        }
        SIM_CHECK(!refused, "insert-after-refusal", "insert accepted after the pipeline had shut down");
        inserted++;
        if (wl(3) == 0) { M_thread_pipeline_wait(w.p, lim); SIM_CHECK((size_t)(inserted - w.fincount) <= lim, "wait-returned-early", "wait(%zu) returned with %d unfinished", lim, inserted - w.fincount); }
        if (wl(4) == 0) { size_t q = M_thread_pipeline_queue_count(w.p); SIM_CHECK(q <= (size_t)inserted, "queue-count", "count %zu of %d", q, inserted); }
        jitter();
    }
    if (!aborted_early) {
        M_thread_pipeline_wait(w.p, 0);
        SIM_CHECK(w.fincount == inserted, "wait-returned-early", "wait(0) returned with %d unfinished", inserted - w.fincount);
        SIM_CHECK(M_thread_pipeline_queue_count(w.p) == 0, "queue-count", "count after wait(0)");
    } else jitter();
    bool st_ok = M_thread_pipeline_status(w.p);
    SIM_CHECK(st_ok || (w.anyfail && !w.noabort), "status", "status false without a failure");
    if (!aborted_early) SIM_CHECK(st_ok == !(w.anyfail && !w.noabort), "status", "status %d anyfail %d noabort %d", st_ok, w.anyfail, w.noabort);
    w.destroying = true;
    M_thread_pipeline_destroy(w.p);
    deadline_clear();
    for (auto t : w.all) SIM_CHECK(t->finished == 1 || t->finished == -1, "task-lost", "task %d was never finished", t->id);
    for (auto t : w.all) if (t->finished == 1) probe(t->result == 1 ? "t04.success" : t->result == 2 ? "t04.fail" : "t04.abort");
    for (auto t : w.all) delete t;
    world_end();
}
SIM_WORLD(T04, t04_pipeline, "thread/m_thread_pipeline.c thread/m_thread.c thread/m_thread_pthread.c", "pthread scheduler", 4);
/* waiting for a limit returns as soon as no more than that many tasks are left, though these do not end */
static bool t04_hold; static int t04_fin;
static M_bool hold_step(M_thread_pipeline_task_t *t) { if (t->fail_at == 1) wait_until([] { return !t04_hold; }, 3600 * SEC, "held task"); else jitter(); return M_TRUE; }
static M_bool hold_pass(M_thread_pipeline_task_t *) { if (wl(3) == 0) jitter(); return M_TRUE; }
static void hold_fin(M_thread_pipeline_task_t *t, M_thread_pipeline_result_t r) { t04_fin++; t->result = (int)r; t->finished++; }
static void t04_wait()
{
    world_begin(); allow({ F_STALL, F_SPURIOUS_WAKE });
    t04_hold = true; t04_fin = 0; int ns = 1 + (int)wl(3), at = (int)wl(ns);
    M_thread_pipeline_steps_t *st = M_thread_pipeline_steps_create(); for (int i = 0; i < ns; i++) M_thread_pipeline_steps_insert(st, i == at ? hold_step : hold_pass);
    M_thread_pipeline_t *p = M_thread_pipeline_create(st, 0, hold_fin); M_thread_pipeline_steps_destroy(st); SIM_CHECK(p, "create", "pipeline_create failed");
    size_t lim = 1 + wl(4), n = wl(5); std::vector<M_thread_pipeline_task> ts(n + lim);
    JoinAll j; int nw = 1 + (int)wl(3), back = 0;
    for (size_t i = 0; i < n + lim; i++) { ts[i].id = ts[i].seq = (int)i; ts[i].fail_at = i >= n; SIM_CHECK(M_thread_pipeline_task_insert(p, &ts[i]), "insert-refused", "insert refused"); }
    for (int k = 0; k < nw; k++) j.go([&] { jitter(); M_thread_pipeline_wait(p, lim); SIM_CHECK((size_t)t04_fin >= n, "wait-returned-early", "wait(%zu) returned with %zu unfinished", lim, n + lim - (size_t)t04_fin); back++; });
    if (!wait_until([&] { return back == nw; }, 600 * SEC, "waiters of the limit")) fail("wait-stalled", "%d of %d waiters for %zu tasks have not returned though only so many are left", nw - back, nw, lim);
    t04_hold = false; j.join(); M_thread_pipeline_wait(p, 0); M_thread_pipeline_destroy(p);
    for (auto &t : ts) SIM_CHECK(t.finished == 1 && t.result == 1, "task-lost", "task %d finished %d times, result %d", t.id, t.finished, t.result);
    world_end();
}
SIM_WORLD(T04, t04_wait, "thread/m_thread_pipeline.c thread/m_thread.c thread/m_thread_pthread.c", "pthread scheduler", 1);
static void t04_create_fail()
{
    world_begin();
    allow({ F_THREAD_CREATE_FAIL });
    PipeWorld w; PP = &w; w.steps = 1 + (int)wl(5); for (auto &a : w.active) a = -1; w.last.assign(8, -1); w.maxwork = MS;
    M_thread_pipeline_steps_t *st = M_thread_pipeline_steps_create();
    static const M_thread_pipeline_task_cb cbs[] = { ps0, ps1, ps2, ps3, ps4 };
    for (int i = 0; i < w.steps; i++) M_thread_pipeline_steps_insert(st, cbs[i]);
    w.p = M_thread_pipeline_create(st, 0, pipe_fin);
    M_thread_pipeline_steps_destroy(st);
    if (w.p) { auto t = new M_thread_pipeline_task; t->id = t->seq = 0; M_thread_pipeline_task_insert(w.p, t); M_thread_pipeline_wait(w.p, 0); SIM_CHECK(t->result == 1, "result", "result %d", t->result); w.destroying = true; M_thread_pipeline_destroy(w.p); delete t; }
    else { SIM_CHECK(any_fault_enabled(), "create", "pipeline_create failed"); probe("t04.create_refused"); }
    world_end();
}
SIM_WORLD(T04, t04_create_fail, "thread/m_thread_pipeline.c thread/m_thread.c", "pthread scheduler", 1);

/* ============================== T05: thread life cycle ============================================ */
struct TlsVal { int chain = 0; int owner; int key; int destroyed = 0; };
static std::vector<TlsVal *> *tls_vals;
static std::vector<M_thread_tls_key_t> *tls_keys_g;
static void tls_dtor(void *p) { SIM_CHECK(p, "tls-null-destroyed", "a destructor was called for a cleared (NULL) value"); TlsVal *v = (TlsVal *)p; v->destroyed++;
    if (v->chain > 0) {         /* the end of this value stores another one, or looks at others */
        size_t ki = wl(tls_keys_g->size());
        M_thread_tls_getspecific((*tls_keys_g)[ki]);
        {     /* also for its own key */
            void *had = M_thread_tls_getspecific((*tls_keys_g)[ki]); SIM_CHECK(had != p, "tls-destroyed-in-place", "a value that is being destroyed is still found under its key");
            if (!had) {
                TlsVal *n = new TlsVal; n->owner = self_id(); n->key = (int)ki; n->chain = v->chain - 1; tls_vals->push_back(n);
                SIM_CHECK(M_thread_tls_setspecific((*tls_keys_g)[ki], n), "tls-set", "setspecific failed in a destructor"); probe("t05.late_value");
            }
        }
    }
 SIM_CHECK(v->destroyed == 1, "tls-destroyed-twice", "destructor of key %d ran twice", v->key); SIM_CHECK(v->owner == self_id(), "tls-wrong-thread", "destructor ran in thread %d, value belongs to %d", self_id(), v->owner); }
static int once_runs; static bool once_inside; static M_thread_once_t once_ctl;
static void once_fn(M_uint64 f) { once_runs++; once_inside = true; for (uint64_t n = f; n; n--) point("once"); once_inside = false; }
static int dtor_calls;
static void user_dtor(void) { dtor_calls++; }
static void t05_threads()
{
    world_begin();
    allow({ F_STALL, F_SPURIOUS_WAKE, F_THREAD_CREATE_FAIL });
    std::vector<TlsVal *> vals; tls_vals = &vals; std::vector<M_thread_tls_key_t> keys; tls_keys_g = &keys; once_runs = 0; once_inside = false; memset(&once_ctl, 0, sizeof once_ctl); dtor_calls = 0;
    bool ud = wl(2); if (ud) M_thread_destructor_insert(user_dtor);
    M_thread_mutex_t *init = M_thread_mutex_create(0); M_thread_mutex_destroy(init);
    int nk = 1 + (int)wl(3);
    for (int i = 0; i < nk; i++) keys.push_back(M_thread_tls_key_create(wl(4) ? tls_dtor : NULL));
    std::vector<bool> hasd; (void)hasd;
    struct Th { M_threadid_t id = 0; bool joinable; std::function<void *()> f; bool started = false, ended = false; M_threadid_t self_seen = 0; void *rv; };
    int n = 1 + (int)wl(5); std::vector<Th *> ths; int once_true = 0, once_calls = 0, ran = 0, running_now = 0;
    M_thread_spinlock_t sl = M_THREAD_SPINLOCK_STATIC_INITIALIZER; int sl_owner = -1; int64_t sl_cnt = 0, sl_exp = 0;
    std::map<int, std::vector<TlsVal *>> expect_dead;
    for (int i = 0; i < n; i++) {
        Th *t = new Th; t->joinable = wl(3) != 0; t->rv = (void *)(uintptr_t)(0x1000 + i);
        t->f = [&, t]() -> void * {
            SIM_CHECK(!t->started, "thread-ran-twice", "thread function entered twice");
            t->started = true; running_now++; ran++;
            t->self_seen = M_thread_self();
            SIM_CHECK(M_thread_count() >= 1, "thread-count", "count %zu inside a thread", M_thread_count());
            if (wl(2)) {
                once_calls++;
                bool r = M_thread_once(&once_ctl, once_fn, 3);
                if (r) once_true++;
                SIM_CHECK(!once_inside && once_runs == 1, "once-incomplete", "M_thread_once returned before the routine had completed");
            }
            std::map<int, TlsVal *> mine;
            for (int k = (int)wl(6); k; k--) {
                int ki = (int)wl((uint64_t)nk);
                if (wl(3) == 0) { SIM_CHECK(M_thread_tls_getspecific(keys[ki]) == (mine.count(ki) ? mine[ki] : NULL), "tls-value", "wrong TLS value for key %d", ki); }
                else if (mine.count(ki) && wl(3) == 0) {     /* clear */
                    TlsVal *v = mine[ki]; v->chain = 0; mine.erase(ki);
                    SIM_CHECK(M_thread_tls_setspecific(keys[ki], NULL), "tls-set", "clearing failed");
                    SIM_CHECK(M_thread_tls_getspecific(keys[ki]) == NULL, "tls-value", "cleared value still there"); probe("t05.cleared");
                } else {
                    if (mine.count(ki)) mine[ki]->chain = 0; /* replaced */
                    TlsVal *v = new TlsVal; v->owner = self_id(); v->key = ki; v->chain = wl(3) ? 0 : 1 + (int)wl(2); vals.push_back(v);
                    SIM_CHECK(M_thread_tls_setspecific(keys[ki], v), "tls-set", "setspecific failed"); mine[ki] = v;
                }
                jitter();
            }
            for (auto &e : mine) SIM_CHECK(M_thread_tls_getspecific(keys[e.first]) == e.second, "tls-value", "wrong TLS value at the end");
            if (wl(2)) for (int k = 1 + (int)wl(3); k; k--) {
                M_thread_spinlock_lock(&sl);
                SIM_CHECK(sl_owner < 0, "spinlock-exclusion", "spinlock held by %d and %d", sl_owner, self_id());
                sl_owner = self_id(); int64_t c = sl_cnt; if (wl(2)) point("in spinlock"); sl_cnt = c + 1; sl_exp++; sl_owner = -1;
                M_thread_spinlock_unlock(&sl);
            }
            running_now--; t->ended = true;
            return t->rv;
        };
        ths.push_back(t);
    }
    struct R { static void *run(void *p) { return ((Th *)p)->f(); } };
    int created = 0;
    for (auto t : ths) {
        M_thread_attr_t *a = M_thread_attr_create(); M_thread_attr_set_create_joinable(a, t->joinable ? M_TRUE : M_FALSE);
        t->id = M_thread_create(t->joinable || wl(2) ? a : NULL, R::run, t);
        M_thread_attr_destroy(a);
        if (!t->id) { SIM_CHECK(any_fault_enabled() && !t->started, "create", "thread_create failed (started %d)", t->started); probe("t05.create_failed"); continue; }
        created++;
        for (auto o : ths) if (o != t && o->id && !o->ended) SIM_CHECK(o->id != t->id, "thread-id-reused", "two live threads share an id");
        jitter();
    }
    for (auto t : ths) if (t->id && t->joinable) {
        void *rv = NULL;
        bool novalue = wl(4) == 0;
        SIM_CHECK(M_thread_join(t->id, novalue ? NULL : &rv), "join-failed", "join failed");
        if (novalue) rv = t->rv;
        SIM_CHECK(t->ended, "join-early", "join returned before the thread function ended");
        SIM_CHECK(rv == t->rv, "join-value", "join returned %p, thread returned %p", rv, t->rv);
        SIM_CHECK(t->self_seen == t->id, "thread-self", "id mismatch");
        SIM_CHECK(!M_thread_join(t->id, &rv), "join-again", "a second join on the same id succeeded");
    }
    faults_stop();
    SIM_CHECK(wait_until([] { return live_fibers() <= base_fibers(); }, 3600 * SEC, "threads end"), "thread-leak", "threads do not end");
    SIM_CHECK(M_thread_count() == 0, "thread-count", "count %zu after all threads ended", M_thread_count());
    SIM_CHECK(ran == created, "thread-lost", "%d of %d threads ran", ran, created);
    SIM_CHECK(once_runs == (once_calls ? 1 : 0) && once_true == once_runs, "once", "once routine ran %d times, %d callers told so", once_runs, once_true);
    SIM_CHECK(sl_cnt == sl_exp, "spinlock-exclusion", "count %ld expected %ld", (long)sl_cnt, (long)sl_exp);
    if (ud) { SIM_CHECK(dtor_calls == created, "thread-destructor", "thread destructor ran %d times for %d threads", dtor_calls, created); M_thread_destructor_remove(user_dtor); }
    /* values under keys with a destructor are destroyed exactly once, those without never */
    for (auto v : vals) SIM_CHECK(v->destroyed <= 1, "tls-destroyed-twice", "value destroyed %d times", v->destroyed);
    std::map<int, std::set<int>> per; for (auto v : vals) per[v->key].insert(v->destroyed);
    for (auto &e : per) SIM_CHECK(e.second.size() == 1, "tls-destructor-missed", "some values of key %d were destroyed and some were not", e.first);
    if (once_calls) { SIM_CHECK(M_thread_once_reset(&once_ctl), "once-reset", "reset refused"); SIM_CHECK(!M_thread_once_reset(&once_ctl), "once-reset", "second reset accepted"); SIM_CHECK(M_thread_once(&once_ctl, once_fn, 0) && once_runs == 2, "once-reset", "once does not run again after reset"); }
    for (auto v : vals) delete v;
    for (auto t : ths) delete t;
    world_end();
}
SIM_WORLD(T05, t05_threads, "thread/m_thread.c thread/m_thread_tls.c thread/m_thread_pthread.c thread/m_thread_attr.c", "pthread scheduler", 3);

/* ============================== T06: atomics ======================================================= */
static void t06_atomics()
{
    world_begin();
    allow({ F_STALL });
    bool w64 = wl(2); M_uint32 a32 = 0; M_uint64 a64 = 0;
    M_uint64 start = w64 ? (wl(3) == 0 ? 0xFFFFFFFFull - wl(4) : wl(3) == 0 ? M_UINT64_MAX - wl(4) : wl(1000)) : (wl(3) == 0 ? 0xFFFFFFFFu - wl(4) : wl(1000));
    a32 = (M_uint32)start; a64 = start;
    int n = 2 + (int)wl(3); M_uint64 sum = 0; int mode = (int)wl(3); std::multiset<M_uint64> priors; uint64_t mask = w64 ? ~0ull : 0xFFFFFFFFull;
    /* mode 0: only increments: every prior value distinct; 1: mixed add/sub: final sum; 2: CAS counter */
    JoinAll j; uint64_t ops = 0;
    for (int i = 0; i < n; i++) j.go([&] {
        for (int k = 1 + (int)wl(8); k; k--) {
            if (mode == 0) {
                M_uint64 p = w64 ? M_atomic_inc_u64(&a64) : M_atomic_inc_u32(&a32); priors.insert(p & mask); sum += 1; ops++;
            } else if (mode == 1) {
                M_uint64 v = wl(w64 ? 1ull << 40 : 1000), p;
                switch (wl(4)) {
                case 0: p = w64 ? M_atomic_add_u64(&a64, v) : M_atomic_add_u32(&a32, (M_uint32)v); sum += v; break;
                case 1: p = w64 ? M_atomic_sub_u64(&a64, v) : M_atomic_sub_u32(&a32, (M_uint32)v); sum -= v; break;
                case 2: p = w64 ? M_atomic_inc_u64(&a64) : M_atomic_inc_u32(&a32); sum += 1; break;
                default: p = w64 ? M_atomic_dec_u64(&a64) : M_atomic_dec_u32(&a32); sum -= 1; break;
                }
                (void)p; ops++;
            } else {
                for (;;) {
                    M_uint64 o = w64 ? *(volatile M_uint64 *)&a64 : *(volatile M_uint32 *)&a32, nv = (o + 1) & mask;
                    point("cas");
                    bool ok = w64 ? M_atomic_cas64(&a64, o, nv) : M_atomic_cas32(&a32, (M_uint32)o, (M_uint32)nv);
                    if (ok) { priors.insert(o); sum += 1; break; }
                    probe("t06.cas_lost");
                }
                ops++;
            }
            if (wl(3) == 0) jitter();
        }
    });
    j.join();
    M_uint64 fin = w64 ? a64 : a32;
    SIM_CHECK(fin == ((start + sum) & mask), "atomic-lost-update", "final %llx expected %llx", (unsigned long long)fin, (unsigned long long)((start + sum) & mask));
    if (mode != 1) { M_uint64 e = start & mask; for (uint64_t k = 0; k < ops; k++, e = (e + 1) & mask) SIM_CHECK(priors.count(e) == 1, "atomic-prior", "prior value %llx returned %zu times", (unsigned long long)e, priors.count(e)); }
    world_end();
}
SIM_WORLD(T06, t06_atomics, "thread/m_atomic.c", "pthread scheduler", 1);
