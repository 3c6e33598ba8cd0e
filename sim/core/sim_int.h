/* internal interfaces between simulator parts */
#ifndef SIM_INT_H
#define SIM_INT_H
#include "sim.h"
#include <pthread.h>
#include <signal.h>
#include <unordered_map>

namespace sim {

struct Choice { uint32_t stream; uint32_t pad; uint64_t idx; uint64_t val; };
enum { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_INCONCLUSIVE, ST_ASAN, ST_CRASH, ST_TIMEOUT, ST_RESTART };
const size_t MAX_CHOICES = 1u << 19;
struct Probe { char name[48]; uint64_t count; };
struct Carry {                /* what survives a simulated crash into the next incarnation */
    int32_t  incarnation;
    uint64_t cnt[8], now, steps, pos, hash, evseq, srnd;
    int64_t  walloff;
    uint32_t rate[64];
    uint64_t noracle, nfs;
    char     data[8u << 20];
};
struct Shm {
    /* in */
    int32_t  mode;            /* 0 generate, 1 replay */
    int32_t  verbose;
    int32_t  world;
    uint64_t seed;
    uint64_t nin;
    /* out */
    int32_t  status;
    char     cls[128];
    char     msg[4096];
    uint64_t hash, steps, acc, simtime, switches, preempts, nrec;
    int32_t  rec_overflow;
    int32_t  faulty;
    uint64_t faults[64];
    Probe    probes[96];
    uint64_t marks[64]; uint32_t nmarks;
    char     asan[24576];
    uint64_t loglen;
    char     log[4u << 20];
    Choice   in[MAX_CHOICES];
    Choice   rec[MAX_CHOICES];
    Carry    carry;
};
extern Shm *shm;
extern uintptr_t *cov_pcs;
extern uint8_t *cov_map;      /* shared coverage bitmap */
const size_t COV_SIZE = 1u << 17;

struct Proc;
enum FState { RUNNABLE, BLOCKED, DONE };
struct Fiber {
    int         id;
    std::string name;
    FState      state;
    void       *sp;
    char       *stack;
    size_t      stack_size;
    std::function<void()> fn;
    const void *obj;
    const char *what;
    uint64_t    deadline;
    bool        deadline_is_wall;
    bool        timed_out;
    std::function<bool()> *pred;    /* I/O waiters */
    int         saved_errno;
    void       *fake_stack;
    int64_t     prio;
    /* pthread emulation */
    bool        is_pthread, detached, joined;
    void       *retval;
    std::map<unsigned, void *> tsd;
    std::map<void *, void *>   emutls;
    sigset_t    sigmask;
    bool        sigpipe_pending;
    struct Proc *proc;
};
extern std::vector<Fiber *> *fibers;
extern Fiber *cur;
extern bool running;

void run_world(int idx);       /* in the forked child: never returns */
void prepare_process();        /* in the zygote, before forking children */
void worlds_prepare();

/* file-descriptor layer */
void io_changed();             /* re-evaluate blocked I/O predicates */
bool io_block(std::function<bool()> ready, const char *what, uint64_t deadline);
void kernel_init();
void set_wall_offset(int64_t off);
int64_t wall_offset();
uint64_t wall_deadline_to_mono(int64_t wall_ns);
bool block_wall(const void *obj, const char *what, int64_t wall_deadline_ns);
void yield_hint();             /* the current fiber polls/spins: let others run */
uint64_t cur_pos();
[[noreturn]] void crash_restart(const std::string &oracle, const std::string &fsimage);
void fs_load(const char *image);
std::string fs_image();
void fs_crash_now();
void time_read();               /* reading a clock takes a little time */
void pthread_exit_hooks();      /* run TSD destructors of the current fiber */
}
#endif
