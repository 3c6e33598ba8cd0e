#include "sim_int.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <queue>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" void sim_ctx_swap(void **save_sp, void *new_sp);
asm(R"(
    .text
    .globl sim_ctx_swap
    .type sim_ctx_swap,@function
sim_ctx_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .size sim_ctx_swap,.-sim_ctx_swap
)");

namespace sim {

Shm     *shm;
uint8_t *cov_map;
uintptr_t *cov_pcs;            /* where each edge is, for coverage reports (MSTDSIM_COVPC) */
std::vector<Fiber *> *fibers;
Fiber   *cur;
bool     running = false;

static Opts     g_opts;
Opts &opts() { return g_opts; }

/* ---------------------------------------------------------------- PRNG / choices ---------------- */
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static uint64_t g_seed;
static int      g_mode;
static uint64_t g_cnt[NSTREAM];
/* replay input: the recorded choices, sorted in place in shared memory.  No heap: the addresses the code under test gets from
 * the allocator must be the same whether a run is drawn from the seed or replayed, because code may hash pointers. */
static Choice  *g_inb[NSTREAM + 1];
static size_t   g_sched_i;
static const Choice *in_find(int s, uint64_t idx)
{
    Choice *b = g_inb[s], *e = g_inb[s + 1];
    Choice *i = std::lower_bound(b, e, idx, [](const Choice &c, uint64_t v) { return c.idx < v; });
    return i != e && i->idx == idx ? i : NULL;
}
static uint64_t g_hash = 1469598103934665603ull;

uint64_t seed() { return g_seed; }
bool verbose() { return shm->verbose != 0; }

static void rec(Stream s, uint64_t idx, uint64_t val)
{
    if (val == 0) return;
    if (shm->nrec >= MAX_CHOICES) { shm->rec_overflow = 1; return; }
    Choice &c = shm->rec[shm->nrec++];
    c.stream = s; c.idx = idx; c.val = val;
}
static uint64_t rnd(Stream s, uint64_t idx) { return mix(mix(g_seed, 0x1234567 + s), idx); }

uint64_t choose(Stream s, uint64_t n)
{
    if (n <= 1) return 0;
    uint64_t idx = g_cnt[s]++;
    uint64_t v;
    if (g_mode == 0) v = rnd(s, idx) % n;
    else { const Choice *it = in_find(s, idx); v = it ? it->val : 0; if (v >= n) v = n - 1; }
    rec(s, idx, v);
    return v;
}
bool chance(Stream s, uint32_t num, uint32_t den)
{
    uint64_t idx = g_cnt[s]++;
    bool v;
    if (g_mode == 0) v = rnd(s, idx) % den < num;
    else { const Choice *it = in_find(s, idx); v = it && it->val; }
    rec(s, idx, v ? 1 : 0);
    return v;
}
uint64_t size_pick(Stream s, uint64_t max)
{
    uint64_t k = choose(s, 8);
    uint64_t lim = k < 3 ? 4 : k < 5 ? 64 : k < 7 ? 1024 : max;
    if (lim > max) lim = max;
    return choose(s, lim + 1);
}

/* ---------------------------------------------------------------- faults ------------------------ */
static const char *fnames[NFAULT] = {
    "spurious_wakeup", "thread_stall", "eintr", "short_read", "short_write", "spurious_eagain", "net_delay",
    "net_reset", "net_conn_refused", "net_conn_timeout", "net_blackhole", "net_halfclose", "thread_create_fail",
    "socket_fail", "accept_fail", "pipe_fail", "wall_clock_jump", "disk_eio_read", "disk_eio_write", "disk_full",
    "disk_fsync_fail", "disk_open_fail", "disk_rename_fail", "disk_unlink_fail", "crash", "torn_write", "lost_write",
    "alloc_fail", "dns_loss", "dns_dup", "dns_delay", "dns_servfail", "dns_nxdomain", "fork_fail", "small_kernel_buffer",
    "sql_disconnect", "sql_deadlock", "sql_error", "sql_connect_fail", "sql_delay", "peer_abort", "peer_stall", "byte_corruption",
    "mkdir_fail", "lock_busy", "cancel", "process_kill", "writer_fail"
};
const char *fault_name(int f) { return fnames[f]; }
static uint32_t g_rate[NFAULT];       /* out of 10000 */
static bool     g_fstopped;
void allow(std::initializer_list<Fault> l)
{
    /* swarm: a quarter of the runs are fault free; in the others every allowed kind is off, rare, common or frequent */
    bool on = choose(CFG, 4) != 0;
    for (Fault f : l) {
        static const uint32_t rates[6] = { 0, 0, 30, 200, 1000, 3000 };
        uint64_t k = choose(CFG, 6);
        g_rate[f] = on ? rates[k] : 0;
        if (g_rate[f]) shm->faulty = 1;
    }
}
static bool g_hold_disk;
void faults_hold_disk(bool on) { g_hold_disk = on; }
bool fault(Fault f)
{
    if (!g_rate[f] || g_fstopped || (g_hold_disk && f >= F_DISK_EIO_READ && f <= F_DISK_UNLINK_FAIL)) return false;
    if (!chance(FAULT, g_rate[f], 10000)) return false;
    shm->faults[f]++;
    ev("fault", f);
    return true;
}
void fault_count(Fault f) { shm->faults[f]++; shm->faulty = 1; ev("fault", f); }
bool fault_enabled(Fault f) { return g_rate[f] != 0 && !g_fstopped; }
void faults_stop() { g_fstopped = true; ev("faults_stop"); }
bool faults_stopped() { return g_fstopped; }
bool any_fault_enabled() { for (int i = 0; i < NFAULT; i++) if (g_rate[i]) return true; return false; }
bool fault_enabled_ever(Fault f) { return g_rate[f] != 0; }

/* ---------------------------------------------------------------- reporting ---------------------- */
static uint64_t g_now, g_steps;
void logf(const char *fmt, ...)
{
    if (!shm->verbose) return;
    char b[2048];
    int  n = snprintf(b, sizeof b, "[%12.6fms s%-6llu f%-2d %-10.10s] ", g_now / 1e6, (unsigned long long)g_steps, cur ? cur->id : -1, cur ? cur->name.c_str() : "-");
    va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (shm->loglen + n < sizeof shm->log) { memcpy(shm->log + shm->loglen, b, n); shm->loglen += n; }
    else { /* keep the first and the last quarter */
        size_t q = sizeof shm->log / 4;
        memmove(shm->log + q, shm->log + shm->loglen - q, q);
        shm->loglen = 2 * q;
        memcpy(shm->log + shm->loglen, b, n); shm->loglen += n;
    }
}
void ev(const char *name, int64_t a, int64_t b, int64_t c)
{
    uint64_t h = g_hash;
    h = hash_bytes(name, strlen(name), h);
    uint64_t v[4] = { (uint64_t)a, (uint64_t)b, (uint64_t)c, g_now ^ ((uint64_t)(cur ? cur->id : 99) << 56) };
    h = mix(mix(mix(mix(h, v[0]), v[1]), v[2]), v[3]);
    g_hash = h;
    if (shm->verbose) logf("%s %lld %lld %lld", name, (long long)a, (long long)b, (long long)c);
}
void probe(const char *name, uint64_t n)
{
    for (auto &p : shm->probes) {
        if (!p.name[0]) { strncpy(p.name, name, sizeof p.name - 1); p.count = n; return; }
        if (!strncmp(p.name, name, sizeof p.name - 1)) { p.count += n; return; }
    }
}
void state_mark(uint64_t h) { if (shm->nmarks < 64) shm->marks[shm->nmarks++] = h; }
static void flush_stats()
{
    shm->hash = g_hash; shm->steps = g_steps; shm->acc = cur_pos(); shm->simtime = g_now;
}
void fail(const char *cls, const char *fmt, ...)
{
    running = false;
    if (shm->status == ST_NONE || shm->status == ST_OK) {
        snprintf(shm->cls, sizeof shm->cls, "%s", cls);
        va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
        shm->status = ST_VIOLATION;
        flush_stats();
        if (shm->verbose) {
            logf("VIOLATION %s: %s", shm->cls, shm->msg);
            if (fibers) for (auto f : *fibers) logf("  fiber %d %s state=%d on=%s %p", f->id, f->name.c_str(), f->state, f->what ? f->what : "-", f->obj);
        }
    }
    _exit(1);
}
void inconclusive(const char *why)
{
    running = false;
    snprintf(shm->cls, sizeof shm->cls, "inconclusive"); snprintf(shm->msg, sizeof shm->msg, "%s", why);
    shm->status = ST_INCONCLUSIVE; flush_stats(); _exit(0);
}
void finish_ok()
{
    running = false;
    shm->status = ST_OK; flush_stats(); _exit(0);
}

/* ---------------------------------------------------------------- time / events ---------------- */
struct Event { uint64_t at, seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Event *a, const Event *b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };
static std::priority_queue<Event *, std::vector<Event *>, EvCmp> *g_events;
static uint64_t g_evseq;
static int64_t  g_walloff;
static int      g_noprempt;
static uint64_t g_tick = 1000;
static uint64_t g_dl = NEVER; static const char *g_dlcls, *g_dlwhy;

uint64_t now() { return g_now; }
uint64_t tick_ns() { return g_tick; }
void     time_read() { if (running) g_now += 50; }
int64_t  wall_ns() { return (int64_t)g_now + g_walloff; }
int64_t  wall_offset() { return g_walloff; }
void     set_wall_offset(int64_t o) { g_walloff = o; }
void     wall_jump(int64_t d) { g_walloff += d; ev("wall_jump", d); }
void at(uint64_t when, std::function<void()> f)
{
    Event *e = new Event; e->at = when < g_now ? g_now : when; e->seq = g_evseq++; e->f = std::move(f);
    g_events->push(e);
}
void deadline(uint64_t when, const char *cls, const char *why) { g_dl = when; g_dlcls = cls; g_dlwhy = why; }
void deadline_clear() { g_dl = NEVER; }
void no_preempt(int d) { g_noprempt += d; }
static std::string blocked_desc()
{
    std::string s;
    for (auto f : *fibers) if (f->state != DONE) {
        s += "{" + f->name + ":" + (f->state == BLOCKED ? (f->what ? f->what : "?") : "running") + "} ";
    }
    return s;
}
static void check_deadline()
{
    if (g_now > g_dl) { g_dl = NEVER; fail(g_dlcls, "%s (t=%.3fs; %s)", g_dlwhy, g_now / 1e9, blocked_desc().c_str()); }
    if (g_now > g_opts.max_time) fail("no-progress-time", "run did not finish within the simulated time limit: %s", blocked_desc().c_str());
}
static void fire_due()
{
    while (!g_events->empty() && g_events->top()->at <= g_now) {
        Event *e = g_events->top(); g_events->pop();
        no_preempt(1); int er = errno;
        e->f();
        errno = er; no_preempt(-1);
        delete e;
    }
    for (auto f : *fibers) if (f->state == BLOCKED && f->deadline != NEVER) {
        uint64_t dl = f->deadline_is_wall ? wall_deadline_to_mono((int64_t)f->deadline) : f->deadline;
        if (dl <= g_now) { f->state = RUNNABLE; f->timed_out = true; f->obj = NULL; f->pred = NULL; }
    }
}
uint64_t wall_deadline_to_mono(int64_t w)
{
    int64_t m = w - g_walloff;
    return m < 0 ? 0 : (uint64_t)m;
}
static void advance(uint64_t ns)
{
    g_now += ns;
    if (!g_events->empty() && g_events->top()->at <= g_now) { fire_due(); }
    else for (auto f : *fibers) if (f->state == BLOCKED && f->deadline != NEVER) { fire_due(); break; }
    check_deadline();
}

/* ---------------------------------------------------------------- scheduler -------------------- */
static int64_t  g_cd = 1 << 30, g_refill = 1 << 30;
static uint64_t g_accbase;
static int      g_strategy;           /* 0 random walk, 1 priorities (PCT) */
static uint32_t g_psync;              /* /1000 chance of switching at a sync point */
static uint64_t g_memmean;            /* mean distance of memory preemptions, 0 = none */
static int64_t  g_prio_low = -1;
static uint64_t g_last_sync_acc;
static uint64_t g_schedrnd;

uint64_t cur_pos() { return g_accbase + (uint64_t)(g_refill - g_cd); }
static void refill(int64_t n) { uint64_t p = cur_pos(); g_accbase = p; g_refill = g_cd = n; }
static uint64_t srnd() { return rnd(SCHED, ++g_schedrnd); }

static void set_next_mem()
{
    int64_t n = 4000000;
    if (g_mode == 1) {
        uint64_t p = cur_pos();
        size_t ns = g_inb[SCHED + 1] - g_inb[SCHED];
        while (g_sched_i < ns && g_inb[SCHED][g_sched_i].idx <= p) g_sched_i++;
        if (g_sched_i < ns) { uint64_t d = g_inb[SCHED][g_sched_i].idx - p; if (d < (uint64_t)n) n = (int64_t)d; }
        if (!g_opts.mem_preempt) n = 4000000;
    } else if (g_memmean && g_opts.mem_preempt) {
        uint64_t r = srnd() % (2 * g_memmean) + 1;
        n = (int64_t)r;
    }
    if (n < 1) n = 1;
    refill(n);
}

static void tickpos() { if (--g_cd <= 0) set_next_mem(); }
static void switch_to(Fiber *n)
{
    Fiber *o = cur;
    if (n == o) return;
    tickpos();           /* every switch has its own position */
    o->saved_errno = errno;
    cur = n;
    shm->switches++;
    g_hash = mix(g_hash, cur_pos() * 64 + n->id);
    if (shm->verbose) logf("-- switch f%d(%s:%s) -> f%d(%s) at %llu", o->id, o->name.c_str(), o->state == RUNNABLE ? "preempted" : o->state == DONE ? "exited" : o->what, n->id, n->name.c_str(), (unsigned long long)cur_pos());
    __sanitizer_start_switch_fiber(o->state == DONE ? NULL : &o->fake_stack, n->stack, n->stack_size);
    sim_ctx_swap(&o->sp, n->sp);
    __sanitizer_finish_switch_fiber(cur->fake_stack, NULL, NULL);
    errno = cur->saved_errno;
}

static void collect(std::vector<Fiber *> &v) { v.clear(); for (auto f : *fibers) if (f->state == RUNNABLE) v.push_back(f); }
static std::vector<Fiber *> *g_cand;

static Fiber *default_next()
{
    Fiber *best = NULL, *first = NULL;
    for (auto f : *g_cand) { if (!first) first = f; if (f->id > cur->id) { best = f; break; } }
    return best ? best : first;
}
static Fiber *by_id(uint64_t id) { for (auto f : *g_cand) if ((uint64_t)f->id == id) return f; return NULL; }

/* the current fiber cannot continue */
static void forced_switch()
{
    for (;;) {
        collect(*g_cand);
        if (!g_cand->empty()) break;
        uint64_t t = NEVER;
        if (!g_events->empty()) t = g_events->top()->at;
        for (auto f : *fibers) if (f->state == BLOCKED && f->deadline != NEVER) {
            uint64_t dl = f->deadline_is_wall ? wall_deadline_to_mono((int64_t)f->deadline) : f->deadline;
            if (dl < t) t = dl;
        }
        if (t == NEVER) {
            if (g_opts.deadlock_is_violation) fail("deadlock", "no thread can run and no timer is pending: %s", blocked_desc().c_str());
            inconclusive("deadlock");
        }
        if (t > g_now) g_now = t;
        fire_due();
        check_deadline();
        if (++g_steps > g_opts.max_steps) fail("no-progress", "step limit reached: %s", blocked_desc().c_str());
    }
    uint64_t pos = cur_pos();
    Fiber *d = default_next(), *n = d;
    if (g_cand->size() > 1 || true) {
        if (g_mode == 0) {
            if (g_cand->size() > 1) {
                if (g_strategy == 1) { for (auto f : *g_cand) if (n == NULL || f->prio > n->prio) n = f; }
                else n = (*g_cand)[srnd() % g_cand->size()];
            }
        } else {
            const Choice *it = in_find(SCHED, pos);
            if (it) { Fiber *w = by_id(it->val - 1); if (w) n = w; }
        }
        if (n != d) rec(SCHED, pos, n->id + 1);
    }
    switch_to(n);
}

static void preempt(Fiber *n)
{
    rec(SCHED, cur_pos(), n->id + 1);
    shm->preempts++;
    switch_to(n);
}

static void maybe_stall()
{
    if (fault(F_STALL)) {
        uint64_t d = (choose(FAULT, 4) + 1) * (choose(FAULT, 2) ? 50 * MS : 100 * US) ;
        cur->state = BLOCKED; cur->obj = NULL; cur->what = "stalled"; cur->deadline = g_now + d; cur->deadline_is_wall = false; cur->timed_out = false;
        tickpos();
        forced_switch();
        tickpos();
    }
}

static bool consider_preempt(bool sync)
{
    if (g_noprempt) return false;
    if (g_mode == 1) {
        const Choice *it = in_find(SCHED, cur_pos());
        if (!it) return false;
        collect(*g_cand);
        Fiber *w = by_id(it->val - 1);
        if (w && w != cur) { preempt(w); return true; }
        return false;
    }
    if (g_strategy == 1) {
        collect(*g_cand);
        if (g_cand->size() < 2) return false;
        if (!sync || srnd() % 1000 < g_psync) cur->prio = g_prio_low--;      /* priority change point */
        Fiber *n = cur;
        for (auto f : *g_cand) if (f->prio > n->prio) n = f;
        if (n != cur) { preempt(n); return true; }
        return false;
    }
    if (sync && srnd() % 1000 >= g_psync) return false;
    collect(*g_cand);
    if (g_cand->size() < 2) return false;
    Fiber *n = (*g_cand)[srnd() % g_cand->size()];
    if (n != cur) { preempt(n); return true; }
    return false;
}

/* debugging aid (run -vv): call chain of the running fiber, by frame pointers */
const char *sym_name(uintptr_t pc);
__attribute__((noinline, no_sanitize("address"))) static void backtrace_log()
{
    char b[900]; size_t o = 0; b[0] = 0;
    uintptr_t *fp = (uintptr_t *)__builtin_frame_address(0);
    for (int i = 0; i < 14 && fp && fp[1]; i++) {
        const char *n = sym_name(fp[1] - 1);
        if (i > 0 && strcmp(n, "?")) o += snprintf(b + o, o < sizeof b ? sizeof b - o : 0, " %s", n);
        uintptr_t *nx = (uintptr_t *)fp[0];
        if (nx <= fp || (uintptr_t)nx - (uintptr_t)fp > (1u << 20)) break;
        fp = nx;
    }
    logf("  bt%s", b);
}
void point(const char *what)
{
    if (!running) return;
    (void)what;
    g_steps++;
    if (g_steps > g_opts.max_steps) fail("no-progress", "step limit reached: %s", blocked_desc().c_str());
    if (shm->verbose > 1 && g_steps + 60 > g_opts.max_steps) backtrace_log();
    g_last_sync_acc = cur_pos();
    tickpos();
    advance(g_tick);
    if (g_noprempt) return;
    if (fault_enabled(F_STALL)) maybe_stall();
    consider_preempt(true);
}
/* as point(), but certain to let somebody else run if possible (spin loops) */
void yield_hint()
{
    if (!running) return;
    g_steps++;
    if (g_steps > g_opts.max_steps) fail("no-progress", "step limit reached (spinning): %s", blocked_desc().c_str());
    g_last_sync_acc = cur_pos();
    tickpos();
    cur->prio = g_prio_low--;
    advance(g_tick + 1000);
    if (g_noprempt) return;
    collect(*g_cand);
    if (g_cand->size() < 2) {
        /* nobody else: let time pass, the longer it spins the faster, so that pollers reach the next event in few steps */
        static uint64_t spins, at; if (at != shm->switches) { at = shm->switches; spins = 0; }
        if (++spins > 16) advance(std::min<uint64_t>(spins * US, MS));
        return;
    }
    Fiber *d = default_next(), *n = d;
    if (g_mode == 0) { if (g_strategy != 1) n = (*g_cand)[srnd() % g_cand->size()]; else for (auto f : *g_cand) if (f->prio > n->prio) n = f; }
    else { const Choice *it = in_find(SCHED, cur_pos()); if (it) { Fiber *w = by_id(it->val - 1); if (w) n = w; } }
    if (n != d) rec(SCHED, cur_pos(), n->id + 1);
    if (n != cur) switch_to(n);
}

static void mem_event()
{
    uint64_t p = cur_pos();
    if (!running) { refill(1 << 30); return; }
    if (p > g_opts.max_acc) fail("runaway", "instruction budget exhausted: %s", blocked_desc().c_str());
    if (p - g_last_sync_acc > g_opts.max_acc / 3) fail("busy-loop", "a thread executed %llu accesses without blocking or any system interaction: %s", (unsigned long long)(p - g_last_sync_acc), blocked_desc().c_str());
    if (!g_noprempt && g_opts.mem_preempt) {
        consider_preempt(false);
    }
    set_next_mem();
}
#define HIT() do { if (__builtin_expect(--g_cd <= 0, 0)) mem_event(); } while (0)
extern "C" {
void __sanitizer_cov_load1(uint8_t *) { HIT(); }
void __sanitizer_cov_load2(uint16_t *) { HIT(); }
void __sanitizer_cov_load4(uint32_t *) { HIT(); }
void __sanitizer_cov_load8(uint64_t *) { HIT(); }
void __sanitizer_cov_load16(__uint128_t *) { HIT(); }
void __sanitizer_cov_store1(uint8_t *) { HIT(); }
void __sanitizer_cov_store2(uint16_t *) { HIT(); }
void __sanitizer_cov_store4(uint32_t *) { HIT(); }
void __sanitizer_cov_store8(uint64_t *) { HIT(); }
void __sanitizer_cov_store16(__uint128_t *) { HIT(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = 1 + (n++ % (COV_SIZE - 1));
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    if (cov_map && running) { if (__builtin_expect(!cov_map[*g] && cov_pcs, 0)) cov_pcs[*g] = (uintptr_t)__builtin_return_address(0); cov_map[*g] = 1; }
    HIT();
}
}

/* ---------------------------------------------------------------- fibers ------------------------ */
Fiber *self() { return cur; }
int self_id() { return cur ? cur->id : -1; }
bool finished(Fiber *f) { return f->state == DONE; }
size_t live_fibers() { size_t n = 0; for (auto f : *fibers) if (f->state != DONE) n++; return n; }

static const size_t STACK = 512 * 1024;
static std::vector<char *> *g_stack_pool;
static uintptr_t g_stack_next = 0x200000000000ull;

static void fiber_main()
{
    __sanitizer_finish_switch_fiber(NULL, NULL, NULL);
    errno = 0;
    cur->fn();
    cur->fn = nullptr;
    ev("fiber_exit", cur->id);
    cur->state = DONE;
    cur->what = "done";
    g_steps++;
    tickpos();
    wake_all(cur);
    g_stack_pool->push_back(cur->stack);   /* reused only after the switch away below */
    forced_switch();
    __builtin_trap();
}
extern "C" void sim_fiber_entry();
asm(R"(
    .text
    .globl sim_fiber_entry
sim_fiber_entry:
    xorl %ebp, %ebp
    callq *%rbx
    ud2
)");

static Fiber *new_fiber(const char *name)
{
    Fiber *f = new Fiber;
    f->id = (int)fibers->size(); f->name = name; f->state = RUNNABLE; f->sp = NULL; f->stack = NULL; f->stack_size = 0;
    f->obj = NULL; f->what = NULL; f->deadline = NEVER; f->deadline_is_wall = false; f->timed_out = false; f->pred = NULL;
    f->saved_errno = 0; f->fake_stack = NULL; f->is_pthread = false; f->detached = false; f->joined = false; f->retval = NULL;
    sigemptyset(&f->sigmask); f->sigpipe_pending = false; f->proc = cur ? cur->proc : NULL;
    f->prio = 1000000 + (g_mode == 0 ? (int64_t)(srnd() % 1000000) : 0);
    fibers->push_back(f);
    return f;
}
Fiber *spawn(const char *name, std::function<void()> fn)
{
    if (live_fibers() > 200) inconclusive("too many threads");
    Fiber *f = new_fiber(name);
    f->fn = std::move(fn);
    if (!g_stack_pool->empty()) { f->stack = g_stack_pool->back(); g_stack_pool->pop_back(); __asan_unpoison_memory_region(f->stack, STACK); }
    else {
        f->stack = (char *)mmap((void *)g_stack_next, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        g_stack_next += STACK + 65536;
        if (f->stack == MAP_FAILED) inconclusive("stack mmap failed");
    }
    f->stack_size = STACK;
    void **sp = (void **)(f->stack + STACK - 64);
    sp = (void **)((uintptr_t)sp & ~15ull);
    *--sp = NULL;                       /* alignment */
    *--sp = (void *)sim_fiber_entry;    /* return address */
    *--sp = NULL;                       /* rbp */
    *--sp = (void *)fiber_main;         /* rbx */
    *--sp = NULL; *--sp = NULL; *--sp = NULL; *--sp = NULL; /* r12..r15 */
    f->sp = sp;
    ev("spawn", f->id);
    return f;
}
bool block(const void *obj, const char *what, uint64_t dl)
{
    cur->state = BLOCKED; cur->obj = obj; cur->what = what; cur->deadline = dl; cur->deadline_is_wall = false; cur->timed_out = false; cur->pred = NULL;
    tickpos(); g_steps++;
    if (g_noprempt) fail("harness-error", "blocking on %s while preemption is disabled", what);
    forced_switch();
    cur->deadline = NEVER; cur->obj = NULL;
    return !cur->timed_out;
}
bool block_wall(const void *obj, const char *what, int64_t wdl)
{
    cur->state = BLOCKED; cur->obj = obj; cur->what = what; cur->deadline = (uint64_t)wdl; cur->deadline_is_wall = true; cur->timed_out = false; cur->pred = NULL;
    tickpos(); g_steps++;
    forced_switch();
    cur->deadline = NEVER; cur->deadline_is_wall = false; cur->obj = NULL;
    return !cur->timed_out;
}
void wake_all(const void *obj)
{
    if (!fibers) return;
    for (auto f : *fibers) if (f->state == BLOCKED && f->obj == obj) { f->state = RUNNABLE; f->obj = NULL; }
}
size_t waiters(const void *obj) { size_t n = 0; for (auto f : *fibers) if (f->state == BLOCKED && f->obj == obj) n++; return n; }
bool wake_one(const void *obj)
{
    size_t n = waiters(obj);
    if (!n) return false;
    uint64_t k = n > 1 ? choose(RND, n) : 0;
    for (auto f : *fibers) if (f->state == BLOCKED && f->obj == obj) { if (k-- == 0) { f->state = RUNNABLE; f->obj = NULL; return true; } }
    return false;
}
void io_changed()
{
    if (!fibers) return;
    for (auto f : *fibers) if (f->state == BLOCKED && f->pred && (*f->pred)()) { f->state = RUNNABLE; f->pred = NULL; }
}
bool io_block(std::function<bool()> ready, const char *what, uint64_t dl)
{
    if (ready()) return true;
    if (g_noprempt) fail("harness-error", "blocking I/O %s while preemption is disabled", what);
    cur->state = BLOCKED; cur->obj = NULL; cur->what = what; cur->deadline = dl; cur->deadline_is_wall = false; cur->timed_out = false; cur->pred = &ready;
    tickpos(); g_steps++;
    forced_switch();
    cur->deadline = NEVER; cur->pred = NULL;
    return !cur->timed_out;
}
bool wait_until(std::function<bool()> pred, uint64_t timeout_ns, const char *what)
{
    uint64_t end = timeout_ns == NEVER ? NEVER : g_now + timeout_ns;
    uint64_t nap = 200 * US, t0 = g_now;
    while (!pred()) {
        if (g_now >= end) return false;
        uint64_t t = g_now + nap; if (t > end) t = end;
        block(&pred, what, t);
        if (nap < std::max<uint64_t>(20 * MS, (g_now - t0) / 64)) nap += nap / 2;
    }
    return true;
}
void join(Fiber *f) { while (f->state != DONE) block(f, "join"); }
void sleep_ns(uint64_t ns) { if (!running) { g_now += ns; return; } point("sleep"); static char s; block(&s, "sleep", g_now + ns); }

/* ---------------------------------------------------------------- sanitizer / crash glue --------- */
static void asan_cb(const char *txt)
{
    if (!shm) return;
    strncpy(shm->asan, txt, sizeof shm->asan - 1);
    if (shm->status == ST_NONE) shm->status = ST_ASAN;
    flush_stats();
    running = false;
    _exit(99);
}
static World *g_worlds, *g_mainworld;
World *worlds() { return g_worlds; }
WorldReg::WorldReg(const char *prop, const char *name, void (*run)(), const char *real, const char *stub, unsigned weight)
{
    w.prop = prop; w.name = name; w.run = run; w.real = real; w.stub = stub; w.weight = weight; w.next = NULL;
    World **p = &g_worlds;
    while (*p) p = &(*p)->next;
    *p = &w;
}

static std::string *g_carried;
int incarnation() { return shm->carry.incarnation; }
const std::string &carried() { return *g_carried; }
void crash_restart(const std::string &o, const std::string &fs)
{
    running = false;
    Carry &c = shm->carry;
    if (o.size() + fs.size() > sizeof c.data || c.incarnation > 20) inconclusive("crash state too large");
    c.incarnation++;
    for (int i = 0; i < NSTREAM; i++) c.cnt[i] = g_cnt[i];
    for (int i = 0; i < NFAULT; i++) c.rate[i] = g_rate[i];
    c.now = g_now; c.steps = g_steps; c.pos = cur_pos(); c.hash = g_hash; c.evseq = g_evseq; c.srnd = g_schedrnd; c.walloff = g_walloff;
    c.noracle = o.size(); c.nfs = fs.size();
    memcpy(c.data, o.data(), o.size()); memcpy(c.data + o.size(), fs.data(), fs.size());
    shm->status = ST_RESTART; flush_stats();
    _exit(0);
}

void prepare_process()
{
    __asan_set_error_report_callback(asan_cb);
    fibers = new std::vector<Fiber *>;
    fibers->reserve(256);
    g_events = new std::priority_queue<Event *, std::vector<Event *>, EvCmp>;
    g_stack_pool = new std::vector<char *>;
    g_cand = new std::vector<Fiber *>;
    g_cand->reserve(256);
    g_now = 1000 * SEC;                       /* boot time */
    g_walloff = 1600000000ll * (int64_t)SEC;
    cur = new_fiber("main");
    kernel_init();
}

void run_world(int idx)
{
    World *w = g_worlds;
    while (idx-- && w) w = w->next;
    if (!w) _exit(3);
    g_seed = shm->seed; g_mode = shm->mode;
    if (g_mode == 1) {
        std::sort(shm->in, shm->in + shm->nin, [](const Choice &a, const Choice &b) { return a.stream != b.stream ? a.stream < b.stream : a.idx < b.idx; });
        Choice *c = shm->in, *e = shm->in + shm->nin;
        for (int i = 0; i <= NSTREAM; i++) { while (c < e && (int)c->stream < i) c++; g_inb[i] = c; }
    }
    g_opts.max_steps = 400000; g_opts.max_acc = 300000000ull; g_opts.max_time = g_now + 48ull * 3600 * SEC;
    g_opts.mem_preempt = true; g_opts.deadlock_is_violation = true;
    g_carried = new std::string;
    if (shm->carry.incarnation) {
        Carry &c = shm->carry;
        for (int i = 0; i < NSTREAM; i++) g_cnt[i] = c.cnt[i];
        for (int i = 0; i < NFAULT; i++) g_rate[i] = c.rate[i];
        g_now = c.now + 1 * SEC; g_steps = c.steps; g_hash = c.hash; g_evseq = c.evseq; g_schedrnd = c.srnd; g_walloff = c.walloff;
        g_accbase = c.pos; g_last_sync_acc = c.pos;
        g_carried->assign(c.data, c.noracle);
        fs_load(c.data + c.noracle);
    }
    /* scheduling swarm: drawn from the scheduler's own PRNG, it needs no replay record because replay replays positions */
    if (g_mode == 0) {
        static const uint32_t ps[6] = { 500, 250, 100, 30, 5, 0 };
        static const uint64_t mm[8] = { 0, 0, 15, 60, 250, 1000, 5000, 40000 };
        g_strategy = srnd() % 3 == 0 ? 1 : 0;
        g_psync = ps[srnd() % 6];
        if (g_strategy == 1) g_psync /= 10;
        g_memmean = mm[srnd() % 8];
    }
    static const uint64_t ticks[5] = { 1000, 200, 5000, 20000, 100000 };
    g_tick = ticks[choose(CFG, 5)];
    g_mainworld = w;
    fibers->at(0)->prio = 1000000 + (g_mode == 0 ? (int64_t)(srnd() % 1000000) : 0);
    set_next_mem();
    running = true;
    ev("begin", (int64_t)hash_bytes(w->name, strlen(w->name)), (int64_t)g_tick);
    /* the world runs on a fixed-address stack; the process stack depends on argv/environment */
    Fiber *wf = spawn("world", [] { g_mainworld->run(); finish_ok(); });
    join(wf);
    finish_ok();
}

} /* namespace sim */

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:handle_segv=1:"
           "quarantine_size_mb=64:thread_local_quarantine_size_kb=1024:symbolize=0:abort_on_error=0:detect_odr_violation=0:max_malloc_fill_size=4096:malloc_fill_byte=190:"
           "print_legend=0:print_module_map=0:intercept_tls_get_addr=0:use_sigaltstack=1:check_initialization_order=0:start_deactivated=0";
}
