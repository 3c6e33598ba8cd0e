/* mstdsim: deterministic simulator for Monetra/mstdlib.  One seed == one execution. */
#ifndef MSTDSIM_H
#define MSTDSIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>

namespace sim {

/* ---- choice streams ---------------------------------------------------------------------- */
enum Stream { CFG = 0, WL = 1, SCHED = 2, FAULT = 3, RND = 4, NSTREAM = 5 };
uint64_t choose(Stream s, uint64_t n);             /* uniform 0..n-1; 0 is the benign/minimal value */
bool     chance(Stream s, uint32_t num, uint32_t den);
inline uint64_t wl(uint64_t n) { return choose(WL, n); }
inline uint64_t range(Stream s, uint64_t lo, uint64_t hi) { return lo + choose(s, hi - lo + 1); } /* inclusive */
uint64_t size_pick(Stream s, uint64_t max);        /* skewed to small, sometimes large: 0..max */

/* ---- fault kinds --------------------------------------------------------------------------- */
enum Fault {
    F_SPURIOUS_WAKE, F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY,
    F_NET_RESET, F_NET_CONN_REFUSED, F_NET_CONN_TIMEOUT, F_NET_BLACKHOLE, F_NET_HALFCLOSE, F_THREAD_CREATE_FAIL,
    F_SOCKET_FAIL, F_ACCEPT_FAIL, F_PIPE_FAIL, F_WALL_JUMP, F_DISK_EIO_READ, F_DISK_EIO_WRITE, F_DISK_FULL,
    F_DISK_FSYNC_FAIL, F_DISK_OPEN_FAIL, F_DISK_RENAME_FAIL, F_DISK_UNLINK_FAIL, F_CRASH, F_TORN_WRITE, F_LOST_WRITE,
    F_ALLOC_FAIL, F_DNS_LOSS, F_DNS_DUP, F_DNS_DELAY, F_DNS_SERVFAIL, F_DNS_NXDOMAIN, F_FORK_FAIL, F_SMALL_BUF,
    F_SQL_DISCONNECT, F_SQL_DEADLOCK, F_SQL_ERROR, F_SQL_CONNECT_FAIL, F_SQL_DELAY, F_PEER_ABORT, F_PEER_STALL, F_CORRUPT,
    F_MKDIR_FAIL, F_LOCK_BUSY, F_CANCEL, F_PROC_KILL, F_WRITER_FAIL,
    NFAULT
};
const char *fault_name(int f);
void allow(std::initializer_list<Fault> l);        /* world declares which kinds may be drawn for this run */
/* threads the world itself starts are not subject to thread-creation faults */
bool &thread_fail_exempt();
bool fault(Fault f);                               /* draw: does the fault fire here? (counts it) */
void fault_count(Fault f);                         /* count a fault injected by explicit schedule */
bool fault_enabled(Fault f);
bool fault_enabled_ever(Fault f);                     /* the same, but not changed by faults_stop() */
void faults_stop();                                /* no further faults are injected (liveness phase) */
void faults_hold_disk(bool on);                    /* no disk errors while held */
bool faults_stopped();
bool any_fault_enabled();                          /* true if this run is a fault-injecting run */

/* ---- virtual time -------------------------------------------------------------------------- */
uint64_t now();                                    /* monotonic ns */
uint64_t tick_ns();                                /* what one step costs in this run */
int64_t  wall_ns();                                /* wall clock ns */
void     wall_jump(int64_t ns);
const uint64_t US = 1000ull, MS = 1000000ull, SEC = 1000000000ull, NEVER = ~0ull;
void     at(uint64_t when, std::function<void()> f);  /* event callback; must not block */
void     deadline(uint64_t when, const char *cls, const char *why); /* violation if still running then */
void     deadline_clear();

/* ---- fibers -------------------------------------------------------------------------------- */
struct Fiber;
Fiber   *self();
int      self_id();
Fiber   *spawn(const char *name, std::function<void()> f);   /* a simulated OS thread */
void     join(Fiber *f);
bool     finished(Fiber *f);
size_t   live_fibers();
void     point(const char *what = "point");        /* schedule point */
void     sleep_ns(uint64_t ns);
bool     block(const void *obj, const char *what, uint64_t deadline = NEVER); /* false on timeout */
void     wake_all(const void *obj);
bool     wake_one(const void *obj);
size_t   waiters(const void *obj);
bool     wait_until(std::function<bool()> pred, uint64_t timeout_ns, const char *what); /* world helper */
void     no_preempt(int delta);
struct NoPreempt { NoPreempt() { no_preempt(1); } ~NoPreempt() { no_preempt(-1); } };

/* ---- reporting ----------------------------------------------------------------------------- */
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
[[noreturn]] void inconclusive(const char *why);
void     ev(const char *name, int64_t a = 0, int64_t b = 0, int64_t c = 0);   /* hashed event log */
void     logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     /* verbose only, not hashed */
void     probe(const char *name, uint64_t n = 1);
bool     verbose();
uint64_t seed();
void     state_mark(uint64_t h);                   /* contribute to the distinct-state measure */
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim::fail(cls, __VA_ARGS__); } while (0)

/* ---- per run options set by worlds before real work ------------------------------------- */
struct Opts {
    uint64_t max_steps;       /* sync points */
    uint64_t max_acc;         /* memory accesses/edges */
    uint64_t max_time;        /* simulated ns */
    bool     mem_preempt;     /* allow preemption at instrumented loads/stores */
    bool     deadlock_is_violation;
};
Opts &opts();

/* ---- simulated kernel objects ------------------------------------------------------------ */
size_t   open_fds();                               /* number of simulated descriptors open */
std::string open_fds_desc();
void     sigpipe_policy_check();

/* allocation accounting (blocks allocated by simulated code since mark and not yet freed) */
void     alloc_track_begin();
size_t   alloc_outstanding(size_t *bytes, std::string *desc);
void     alloc_fail_window(int delta);      /* F_ALLOC_FAIL is only drawn inside a window */

/* crash and restart: the world runs again in a fresh process image with only durable files */
int      incarnation();
const std::string &carried();

/* ---- worlds --------------------------------------------------------------------------------- */
struct World {
    const char *prop;         /* property id */
    const char *name;
    void (*run)();
    const char *real;         /* which components run real code */
    const char *stub;         /* which are stubbed */
    unsigned weight;
    World *next;
};
World *worlds();
struct WorldReg { World w; WorldReg(const char *prop, const char *name, void (*run)(), const char *real, const char *stub, unsigned weight = 1); };
#define SIM_WORLD(prop, fn, real, stub, weight) static sim::WorldReg reg_##prop##_##fn(#prop, #fn, fn, real, stub, weight)

} /* namespace sim */
#endif
