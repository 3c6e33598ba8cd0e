/* pthread, TLS, signal-mask and clock seams */
#include "sim_int.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/resource.h>

using namespace sim;

static const uint32_t DEAD = 0xDEADDEADu;

/* ---- mutex ---------------------------------------------------------------------------------- */
struct PM { int lock; unsigned count; int owner; uint32_t magic; int kind; };
static_assert(sizeof(PM) <= sizeof(pthread_mutex_t), "mutex size");
static int me() { return cur->id + 1; }

extern "C" int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof *m);
    PM *p = (PM *)m;
    if (a) { int k; if (pthread_mutexattr_gettype(a, &k) == 0) p->kind = k; }
    return 0;
}
extern "C" int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
    PM *p = (PM *)m;
    if (p->magic == DEAD) fail("mutex-destroyed-twice", "a mutex was destroyed twice");
    if (p->lock) {
        if (running) fail("mutex-destroyed-locked", "a mutex was destroyed while locked by thread %d", p->owner - 1);
        return EBUSY;
    }
    if (running && waiters(m)) fail("mutex-destroyed-waited", "a mutex was destroyed while a thread waits for it");
    p->magic = DEAD;
    return 0;
}
static int mlock(pthread_mutex_t *m)
{
    PM *p = (PM *)m;
    if (p->magic == DEAD) fail("mutex-use-after-destroy", "lock of a destroyed mutex");
    if (p->lock && p->owner == me()) {
        if (p->kind == PTHREAD_MUTEX_RECURSIVE) { p->count++; return 0; }
        if (p->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (p->lock) {
        block(m, "mutex");
        if (p->magic == DEAD) fail("mutex-use-after-destroy", "a mutex was destroyed while a thread waited for it");
    }
    p->lock = 1; p->owner = me(); p->count = 1;
    return 0;
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { point("mutex_lock"); return mlock(m); }
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    point("mutex_trylock");
    PM *p = (PM *)m;
    if (p->magic == DEAD) fail("mutex-use-after-destroy", "trylock of a destroyed mutex");
    if (p->lock) {
        if (p->owner == me() && p->kind == PTHREAD_MUTEX_RECURSIVE) { p->count++; return 0; }
        return EBUSY;
    }
    p->lock = 1; p->owner = me(); p->count = 1;
    return 0;
}
static int munlock(pthread_mutex_t *m)
{
    PM *p = (PM *)m;
    if (p->magic == DEAD) fail("mutex-use-after-destroy", "unlock of a destroyed mutex");
    if (!p->lock || p->owner != me()) {
        if (running) fail("mutex-unlock-not-owner", "thread %d unlocked a mutex held by %d", me() - 1, p->lock ? p->owner - 1 : -1);
        return EPERM;
    }
    if (--p->count) return 0;
    p->lock = 0; p->owner = 0;
    wake_all(m);
    return 0;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    int r = munlock(m);
    point("mutex_unlock");
    return r;
}

/* ---- condition variables -------------------------------------------------------------------- */
struct PC { uint32_t magic; };
extern "C" int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
extern "C" int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
    PC *p = (PC *)c;
    if (p->magic == DEAD) fail("cond-destroyed-twice", "a condition variable was destroyed twice");
    if (running && waiters(c)) fail("cond-destroyed-waited", "a condition variable was destroyed while a thread waits on it");
    p->magic = DEAD;
    return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    PC *p = (PC *)c;
    PM *pm = (PM *)m;
    point("cond_wait");
    if (p->magic == DEAD) fail("cond-use-after-destroy", "wait on a destroyed condition variable");
    if (!pm->lock || pm->owner != me()) fail("cond-wait-unlocked", "cond wait without holding the mutex");
    unsigned cnt = pm->count;
    bool ok;
    bool spur = fault(F_SPURIOUS_WAKE);
    pm->lock = 0; pm->owner = 0; pm->count = 0;
    wake_all(m);
    int64_t wdl = ts ? (int64_t)ts->tv_sec * (int64_t)SEC + ts->tv_nsec : 0;
    if (spur) {
        uint64_t d = now() + (1 + choose(FAULT, 20)) * 50 * US;
        if (ts && wall_deadline_to_mono(wdl) <= d) { spur = false; ok = block_wall(c, "cond", wdl); }
        else { block(c, "cond", d); ok = true; }
    }
    else if (ts) ok = block_wall(c, "cond", wdl);
    else ok = block(c, "cond");
    while (pm->lock) { block(m, "cond-relock"); if (pm->magic == DEAD) fail("mutex-use-after-destroy", "mutex destroyed during cond wait"); }
    if (pm->magic == DEAD) fail("mutex-use-after-destroy", "mutex destroyed during cond wait");
    pm->lock = 1; pm->owner = me(); pm->count = cnt;
    return ok ? 0 : ETIMEDOUT;
}
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, NULL); }
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000l) return EINVAL;
    return cwait(c, m, ts);
}
extern "C" int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    point("cond_signal");
    if (((PC *)c)->magic == DEAD) fail("cond-use-after-destroy", "signal of a destroyed condition variable");
    wake_one(c);
    return 0;
}
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    point("cond_broadcast");
    if (((PC *)c)->magic == DEAD) fail("cond-use-after-destroy", "broadcast of a destroyed condition variable");
    wake_all(c);
    return 0;
}

/* ---- rwlock ----------------------------------------------------------------------------------- */
struct PR { uint32_t magic; int writer; int readers; int wwait; int kind; int reserved[2]; };
static_assert(sizeof(PR) <= sizeof(pthread_rwlock_t), "rwlock size");
extern "C" int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a)
{
    memset(l, 0, sizeof *l);
    if (a) { int k; if (pthread_rwlockattr_getkind_np(a, &k) == 0) ((PR *)l)->kind = k; }
    return 0;
}
extern "C" int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l)
{
    PR *p = (PR *)l;
    if (p->magic == DEAD) fail("rwlock-destroyed-twice", "rwlock destroyed twice");
    if (running && (p->writer || p->readers || waiters(l))) fail("rwlock-destroyed-in-use", "rwlock destroyed while held or waited for");
    p->magic = DEAD;
    return 0;
}
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    point("rdlock");
    PR *p = (PR *)l;
    if (p->magic == DEAD) fail("rwlock-use-after-destroy", "rdlock of a destroyed rwlock");
    if (p->writer == me()) return EDEADLK;
    while (p->writer || (p->kind == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP && p->wwait)) block(l, "rdlock");
    p->readers++;
    return 0;
}
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    point("wrlock");
    PR *p = (PR *)l;
    if (p->magic == DEAD) fail("rwlock-use-after-destroy", "wrlock of a destroyed rwlock");
    if (p->writer == me()) return EDEADLK;
    p->wwait++;
    while (p->writer || p->readers) block(l, "wrlock");
    p->wwait--;
    p->writer = me();
    return 0;
}
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    PR *p = (PR *)l;
    if (p->magic == DEAD) fail("rwlock-use-after-destroy", "unlock of a destroyed rwlock");
    if (p->writer) {
        if (p->writer != me()) { if (running) fail("rwlock-unlock-not-owner", "rwlock write-held by %d unlocked by %d", p->writer - 1, me() - 1); return EPERM; }
        p->writer = 0;
    } else if (p->readers > 0) p->readers--;
    else { if (running) fail("rwlock-unlock-not-held", "unlock of an rwlock that is not held"); return EPERM; }
    wake_all(l);
    point("rwunlock");
    return 0;
}

/* ---- once, keys --------------------------------------------------------------------------------- */
extern "C" int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
{
    int *s = (int *)o;
    point("once");
    while (*s == 1) block(o, "once");
    if (*s == 2) return 0;
    *s = 1; fn(); *s = 2; wake_all(o);
    return 0;
}
struct Key { bool used; void (*dtor)(void *); };
static Key keys[256];
extern "C" int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
    for (unsigned i = 1; i < 256; i++) if (!keys[i].used) { keys[i].used = true; keys[i].dtor = d; *k = i; return 0; }
    return EAGAIN;
}
extern "C" int __wrap_pthread_key_delete(pthread_key_t k) { if (k < 256) keys[k].used = false; if (fibers) for (auto f : *fibers) f->tsd.erase(k); return 0; }
extern "C" void *__wrap_pthread_getspecific(pthread_key_t k) { if (!cur) return NULL; auto it = cur->tsd.find(k); return it == cur->tsd.end() ? NULL : it->second; }
extern "C" int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (!cur) return EINVAL; cur->tsd[k] = (void *)v; return 0; }
void sim::pthread_exit_hooks()
{
    for (int it = 0; it < 4; it++) {
        bool any = false;
        for (unsigned k = 1; k < 256; k++) {
            auto f = cur->tsd.find(k);
            if (f == cur->tsd.end() || !f->second || !keys[k].used || !keys[k].dtor) continue;
            void *v = f->second; f->second = NULL; any = true;
            keys[k].dtor(v);
        }
        if (!any) break;
    }
    for (auto &e : cur->emutls) free(e.second);
    cur->emutls.clear();
}
struct emutls_control { size_t size, align; void *obj; void *value; };
extern "C" void *__emutls_get_address(emutls_control *c)
{
    Fiber *f = cur;
    if (!f) { static std::map<void *, void *> boot; void *&v = boot[c]; if (!v) { v = calloc(1, c->size); if (c->value) memcpy(v, c->value, c->size); } return v; }
    void *&v = f->emutls[c];
    if (!v) { v = calloc(1, c->size); if (c->value) memcpy(v, c->value, c->size); }
    return v;
}

/* ---- threads ------------------------------------------------------------------------------------ */
static std::vector<Fiber *> handles;            /* pthread_t slots, reused lowest first like real implementations */
static const uintptr_t HBASE = 0x70000000ul;
static pthread_t handle_of(Fiber *f)
{
    for (size_t i = 0; i < handles.size(); i++) if (handles[i] == f) return (pthread_t)(HBASE + i * 4096);
    for (size_t i = 0; i < handles.size(); i++) if (!handles[i]) { handles[i] = f; return (pthread_t)(HBASE + i * 4096); }
    handles.push_back(f);
    return (pthread_t)(HBASE + (handles.size() - 1) * 4096);
}
static Fiber *of_handle(pthread_t t)
{
    size_t i = ((uintptr_t)t - HBASE) / 4096;
    return i < handles.size() ? handles[i] : NULL;
}
static void release_handle(Fiber *f) { for (auto &h : handles) if (h == f) h = NULL; }

bool &sim::thread_fail_exempt() { static bool b; return b; }
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    point("pthread_create");
    if (!thread_fail_exempt() && fault(F_THREAD_CREATE_FAIL)) return EAGAIN;
    int ds = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &ds);
    Fiber *f = spawn("thr", [fn, arg]() {
        Fiber *s = cur;
        s->retval = fn(arg);
        pthread_exit_hooks();
        if (s->detached) release_handle(s);
    });
    f->name = "thr" + std::to_string(f->id);
    f->is_pthread = true; f->detached = ds == PTHREAD_CREATE_DETACHED;
    f->sigmask = cur->sigmask;
    *t = handle_of(f);
    point("pthread_created");
    return 0;
}
extern "C" int __wrap_pthread_join(pthread_t t, void **rv)
{
    point("pthread_join");
    Fiber *f = of_handle(t);
    if (!f) { if (running) fail("join-invalid-thread", "pthread_join on a thread handle that is not joinable any more"); return ESRCH; }
    if (f->detached) { fail("join-detached", "pthread_join on a detached thread"); }
    if (f->joined) fail("join-twice", "two joins on one thread");
    f->joined = true;
    while (f->state != DONE) block(f, "pthread_join");
    if (rv) *rv = f->retval;
    release_handle(f);
    return 0;
}
extern "C" int __wrap_pthread_detach(pthread_t t) { Fiber *f = of_handle(t); if (!f) return ESRCH; f->detached = true; if (f->state == DONE) release_handle(f); return 0; }
extern "C" pthread_t __wrap_pthread_self(void) { return handle_of(cur); }
extern "C" int __wrap_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
extern "C" int __wrap_pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
extern "C" int __wrap_setpriority(int, id_t, int) { return 0; }
extern "C" int __wrap_sched_getaffinity(pid_t, size_t n, cpu_set_t *s) { memset(s, 0, n); for (int i = 0; i < 4; i++) CPU_SET(i, s); return 0; }
extern "C" int __wrap_sched_yield(void) { yield_hint(); return 0; }

extern "C" long __wrap_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4; return sysconf(n); }

/* ---- signals --------------------------------------------------------------------------------------- */
static bool sigpipe_ignored;
namespace sim {
bool in_main_proc();                        /* else: a forked child or a simulated program */
void sigpipe_raise()
{
    ev("sigpipe");
    if (sigpipe_ignored || !in_main_proc()) return;
    if (sigismember(&cur->sigmask, SIGPIPE)) { cur->sigpipe_pending = true; return; }
    fail("sigpipe", "a write to a closed peer raised SIGPIPE, which would kill the process");
}
}
extern "C" int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o)
{
    if (o) *o = cur->sigmask;
    if (s) for (int i = 1; i < 32; i++) {
        bool in = sigismember(s, i);
        if (how == SIG_BLOCK) { if (in) sigaddset(&cur->sigmask, i); }
        else if (how == SIG_UNBLOCK) { if (in) sigdelset(&cur->sigmask, i); }
        else { if (in) sigaddset(&cur->sigmask, i); else sigdelset(&cur->sigmask, i); }
    }
    if (cur->sigpipe_pending && !sigismember(&cur->sigmask, SIGPIPE)) {
        cur->sigpipe_pending = false;
        if (!sigpipe_ignored) fail("sigpipe", "a pending SIGPIPE was delivered, which would kill the process");
    }
    return 0;
}
extern "C" int __wrap_sigprocmask(int how, const sigset_t *s, sigset_t *o) { return __wrap_pthread_sigmask(how, s, o); }
extern "C" int __wrap_sigpending(sigset_t *s) { sigemptyset(s); if (cur->sigpipe_pending) sigaddset(s, SIGPIPE); return 0; }
extern "C" int __wrap_sigtimedwait(const sigset_t *s, siginfo_t *, const struct timespec *)
{
    if (sigismember(s, SIGPIPE) && cur->sigpipe_pending) { cur->sigpipe_pending = false; return SIGPIPE; }
    errno = EAGAIN; return -1;
}
extern "C" int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *o)
{
    if (o) memset(o, 0, sizeof *o);
    if (sig == SIGPIPE && a && in_main_proc()) sigpipe_ignored = a->sa_handler == SIG_IGN;
    return 0;
}
extern "C" sighandler_t __wrap_signal(int sig, sighandler_t h) { if (sig == SIGPIPE && in_main_proc()) sigpipe_ignored = h == SIG_IGN; return SIG_DFL; }

/* ---- clocks ------------------------------------------------------------------------------------------ */
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    time_read();
    int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns() : (int64_t)now();
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    return 0;
}
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *)
{
    time_read();
    int64_t v = wall_ns();
    tv->tv_sec = v / 1000000000; tv->tv_usec = (v % 1000000000) / 1000;
    return 0;
}
extern "C" time_t __wrap_time(time_t *t) { time_read(); time_t v = wall_ns() / 1000000000; if (t) *t = v; return v; }
extern "C" int __wrap_nanosleep(const struct timespec *r, struct timespec *) { sleep_ns((uint64_t)r->tv_sec * SEC + r->tv_nsec); return 0; }
extern "C" int __wrap_usleep(useconds_t u) { sleep_ns((uint64_t)u * 1000); return 0; }
extern "C" unsigned __wrap_sleep(unsigned s) { sleep_ns((uint64_t)s * SEC); return 0; }

extern "C" pid_t __wrap_getpid(void);

extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    if (n == SYS_gettid) return 5000 + (cur ? cur->id : 0);
    if (n == SYS_getrandom) { unsigned char *p = (unsigned char *)a; for (long i = 0; i < b; i++) p[i] = (unsigned char)(mix(seed() + 77, (uint64_t)i * 3 + now()) >> 13); return b; }
    return syscall(n, a, b, c, d, e, f);
}
extern "C" void __wrap_arc4random_buf(void *p, size_t n) { static uint64_t k; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(mix(seed() + 99, k++) >> 11); }
