/* E01 timers, E02 triggers and queued tasks, E03 loop exit */
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/io/m_io_layer.h>
#include "w_common.h"

static std::string ms_s(uint64_t ns) { char b[40]; snprintf(b, sizeof b, "%llu.%03llums", (unsigned long long)(ns / MS), (unsigned long long)(ns % MS / US)); return b; }

/* ============================== E01: timers ==================================================== */
namespace {
struct TimerWorld;
struct TM {                                     /* reference model of one timer */
    TimerWorld *w; int id; M_event_timer_t *t = NULL;
    bool mono = false, autorm = false; uint64_t firecount = 0;
    bool alive = false;                         /* handle valid */
    bool started = false; uint64_t interval = 0, min_due = 0, max_due = 0, busy_at_due = 0; bool fuzzy = false;
    uint64_t cnt = 0; bool in_cb = false; int loop_fiber = -1;
    int op = 0;                                 /* world operation in progress from another fiber */
    uint64_t op_gen = 0;                        /* bumped at begin and end of every operation */
    int64_t end_wall = 0, start_wall = 0;       /* 0: none */
    uint64_t fires = 0, wfires_at_due = 0; uint64_t grace_due = NEVER;         /* a callback already chosen when another thread stopped the timer may still begin */
};
struct TimerWorld {
    M_event_t *ev; bool pool; std::vector<TM *> tm; uint64_t busy = 0; int cb_now = 0; bool ops_on = true, quiet = false; bool jumps; std::map<void *, int> loop_thread; std::set<void *> loop_in_cb;
    uint64_t fires = 0; uint64_t slack(TM *x);   /* every simulated call costs some time */
};
}
uint64_t TimerWorld::slack(TM *x) { return 15 * MS + (fires - x->wfires_at_due) * 2 * MS; }
static uint64_t gen_interval() { switch (wl(6)) { case 0: return 1; case 1: return 1 + wl(10); case 2: case 3: return 1 + wl(200); case 4: return 1000 + wl(100000); default: return 1 + wl(3000); } }

static void tm_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg);
/* model: (re)started between t0 and now by an operation */
static void tm_started(TM *x, uint64_t interval, uint64_t t0, uint64_t extra_lo, uint64_t extra_hi, bool ok)
{
    x->started = ok; x->cnt = 0; x->interval = interval; x->min_due = t0 + extra_lo; x->max_due = now() + extra_hi; x->busy_at_due = x->w->busy; x->wfires_at_due = x->w->fires; x->fuzzy = false;
}
static void tm_op(TM *x, bool own)
{
    TimerWorld *w = x->w;
    if (!x->alive || x->op || !w->ops_on) return;
    if (x->in_cb && x->autorm && !own) return;          /* the callback owns the handle of a self removing timer */
    uint64_t t0 = now(); x->op++; x->op_gen++; bool was_started = x->started; uint64_t was_due = x->fuzzy ? 0 : x->min_due;
    bool overlapped = x->in_cb && !own; uint64_t cb_before = x->fires;
    unsigned what = (unsigned)wl(7);
    sim::ev("op", x->id, what, own);
    if (x->autorm && (x->firecount || x->end_wall)) { x->op--; return; }  /* may vanish by itself at any time */
    switch (what) {
    case 0: {   /* start */
        uint64_t iv = gen_interval(); bool ok = M_event_timer_start(x->t, iv);
        SIM_CHECK(ok, "timer-start-refused", "timer %d start(%llu) refused", x->id, (unsigned long long)iv);
        tm_started(x, iv, t0, iv * MS, iv * MS, true); break;
    }
    case 1: {   /* reset */
        if (!x->interval) break;
        bool same = wl(2); uint64_t iv = same ? x->interval : gen_interval(); bool ok = M_event_timer_reset(x->t, same ? 0 : iv);
        SIM_CHECK(ok, "timer-start-refused", "timer %d reset(%llu) refused", x->id, (unsigned long long)iv);
        tm_started(x, iv, t0, iv * MS, iv * MS, true); break;
    }
    case 2:     /* stop */
        if (x->autorm) { x->alive = false; x->started = false; M_event_timer_stop(x->t); probe("e01.autoremove_stop"); if (overlapped) probe("e01.autoremove_stop_executing"); break; }
        M_event_timer_stop(x->t); x->started = false; break;
    case 3:     /* remove */
        if (wl(3)) break;
        x->started = false; x->alive = false; SIM_CHECK(M_event_timer_remove(x->t), "timer-remove", "remove refused"); probe("e01.remove"); if (overlapped) probe("e01.remove_executing"); break;
    case 4: {   /* adjust */
        if (x->mono || !x->started) break;
        uint64_t iv = gen_interval(); bool ok = M_event_timer_adjust(x->t, iv);
        SIM_CHECK(ok, "timer-adjust-refused", "adjust refused"); SIM_CHECK(M_event_timer_get_interval_ms(x->t) == iv, "timer-interval", "interval not updated");
        x->interval = iv; probe("e01.adjust");
        if (x->in_cb && own) break;              /* applies to the next schedule */
        if (x->fires != cb_before || overlapped) { x->fuzzy = true; break; }
        if (x->min_due > now() + (iv + 1) * MS) { x->cnt = 0; x->min_due = t0 + iv * MS; x->max_due = now() + iv * MS; x->busy_at_due = w->busy; x->wfires_at_due = w->fires; }
        else if (x->max_due + 2 * MS < t0 + iv * MS) {} /* keeps its due time */
        else { x->min_due = std::min(x->min_due, t0 + iv * MS); x->max_due = std::max(x->max_due, now() + iv * MS); if (x->firecount) x->fuzzy = true; }
        break;
    }
    case 5: {   /* status */
        bool before = x->started; bool s = M_event_timer_get_status(x->t); bool after = x->started;
        if (x->firecount == 0 && !x->end_wall && before == after && x->fires == cb_before) SIM_CHECK(s == before, "timer-status", "timer %d reports %d, expected %d", x->id, s, before);
        break;
    }
    default: {  /* remaining */
        uint64_t r = M_event_timer_get_remaining_ms(x->t);
        if (!x->started || x->in_cb || x->fires != cb_before || x->fuzzy || x->firecount || any_fault_enabled()) break;
        uint64_t hi = x->max_due > t0 ? x->max_due - t0 : 0;
        SIM_CHECK(r * MS <= hi + w->slack(x), "timer-remaining", "timer %d: %llu ms remaining, at most %s expected", x->id, (unsigned long long)r, ms_s(hi).c_str());
        break;
    }
    }
    if (!own && was_started && (x->fires != cb_before || was_due <= now() + MS)) x->grace_due = now();   /* its callback may have been chosen already */
    if ((x->fires != cb_before || overlapped) && x->alive) { x->fuzzy = true; }
    x->op--; x->op_gen++;
}
static void tm_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg)
{
    TM *x = (TM *)arg; TimerWorld *w = x->w; uint64_t b0 = now();
    SIM_CHECK(type == M_EVENT_TYPE_OTHER && !io, "timer-args", "unexpected callback arguments");
    SIM_CHECK(M_event_get_pool(ev) == w->ev, "timer-args", "callback for a foreign event handle");
    SIM_CHECK(!x->in_cb, "timer-reentered", "timer %d callback entered twice", x->id);
    SIM_CHECK(!w->loop_in_cb.count(ev), "loop-callbacks-overlap", "two callbacks of one event loop run at the same time");
    if (!w->loop_thread.count(ev)) w->loop_thread[ev] = self_id();
    SIM_CHECK(w->loop_thread[ev] == self_id(), "loop-thread", "callback ran outside of its event loop thread");
    if (x->loop_fiber < 0) x->loop_fiber = self_id();
    SIM_CHECK(x->loop_fiber == self_id(), "loop-thread", "timer moved to another thread");
    x->in_cb = true; w->loop_in_cb.insert(ev); w->cb_now++; x->fires++; w->fires++;
    uint64_t g0 = x->op_gen; bool overlapped = x->op > 0, amb = false;
    sim::ev("fire", x->id, (int64_t)(b0 / MS));
    if (!overlapped) {
        if (x->grace_due != NEVER && x->started && b0 + MS >= x->min_due) { x->grace_due = NEVER; x->fuzzy = amb = true; }
        if (x->grace_due != NEVER) { x->grace_due = NEVER; probe("e01.grace"); x->in_cb = false; w->loop_in_cb.erase(ev); w->cb_now--; return; }
        SIM_CHECK(x->started || (x->fuzzy && x->firecount), "timer-fired-stopped", "timer %d fired although it is stopped or removed", x->id);
        if (!x->fuzzy) {
            SIM_CHECK(b0 + MS >= x->min_due, "timer-early", "timer %d fired %s early (interval %llu ms, mode %s)", x->id, ms_s(x->min_due - b0).c_str(), (unsigned long long)x->interval, x->mono ? "monotonic" : "relative");
            if (!any_fault_enabled()) {
                uint64_t lim = x->max_due + (w->busy - x->busy_at_due) + w->slack(x);
                SIM_CHECK(w->pool || w->cb_now > 1 || b0 <= lim, "timer-late", "timer %d fired %s late (interval %llu ms, mode %s, fire %llu)", x->id, ms_s(b0 - lim).c_str(), (unsigned long long)x->interval, x->mono ? "monotonic" : "relative", (unsigned long long)x->fires);
            }
        }
        x->cnt++;
        SIM_CHECK(x->firecount == 0 || x->fuzzy || x->cnt <= x->firecount, "timer-firecount", "timer %d fired %llu times, firecount %llu", x->id, (unsigned long long)x->cnt, (unsigned long long)x->firecount);
        if (x->end_wall && !w->jumps) SIM_CHECK(wall_ns() <= x->end_wall + (int64_t)(5 * MS) || any_fault_enabled(), "timer-after-end", "timer %d fired after its end time", x->id);
    }
    if (x->autorm && x->firecount && x->cnt >= x->firecount) x->alive = false;
    if (w->quiet) { x->in_cb = false; w->loop_in_cb.erase(ev); w->cb_now--; return; }
    uint64_t own_restart0 = x->op_gen;
    switch (wl(10)) { case 0: point("cb"); break; case 1: sleep_ns(wl(5) * MS); break; case 2: sleep_ns(wl(300) * MS); break; default: break; }
    bool restarted = false;
    if (wl(4) == 0 && x->alive) { uint64_t before = x->op_gen; uint64_t due = x->min_due; tm_op(x, true); if (x->op_gen != before && x->min_due != due) restarted = true; }
    else if (wl(6) == 0) { TM *o = w->tm[wl(w->tm.size())]; if (o != x) tm_op(o, false); }
    if (restarted && wl(2)) sleep_ns(wl(50) * MS);
    (void)own_restart0; (void)g0;
    uint64_t e = now();
    x->in_cb = false; w->loop_in_cb.erase(ev); w->cb_now--; w->busy += e - b0;
    if (!x->alive) return;
    if (x->firecount && x->fuzzy && !restarted) return;        /* count unknown until the next start */
    if (x->firecount && x->cnt >= x->firecount && !restarted) { x->started = false; return; }
    if (restarted) { if (e + MS > x->min_due) x->fuzzy = true; probe("e01.restart_in_callback"); return; }
    if (!x->started) return;
    uint64_t iv = x->interval * MS;
    if (x->mono) { x->min_due += iv; x->max_due += iv; x->wfires_at_due = w->fires; }
    else { x->min_due = e + iv; x->max_due = e + iv; x->busy_at_due = w->busy; x->wfires_at_due = w->fires; }
    if (x->op > 0 || x->op_gen != g0 || amb) { if (!restarted) x->fuzzy = true; } else if (!x->mono && !x->firecount) x->fuzzy = false;   /* a monotonic schedule stays unknown until the next start */
    if (x->fuzzy) return;
}
static void e01_timers()
{
    world_begin();
    bool tvs = wl(3) == 0;
    if (tvs) allow({ F_STALL, F_EINTR }); else allow({ F_STALL, F_EINTR, F_WALL_JUMP });
    TimerWorld w; w.pool = wl(4) == 0; w.jumps = !tvs;
    opts().max_time = 400 * 24 * 3600 * SEC;
    w.ev = w.pool ? M_event_pool_create(2 + wl(3)) : M_event_create(wl(3) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE);
    SIM_CHECK(w.ev, "create", "event create");
    int n = 1 + (int)wl(5);
    for (int i = 0; i < n; i++) {
        TM *x = new TM; x->w = &w; x->id = i; w.tm.push_back(x);
        x->mono = wl(3) == 0; x->autorm = wl(3) == 0; x->firecount = wl(3) == 0 ? 1 + wl(4) : 0;
        x->t = M_event_timer_add(w.ev, tm_cb, x); SIM_CHECK(x->t, "create", "timer add"); x->alive = true;
        SIM_CHECK(!M_event_timer_get_status(x->t), "timer-status", "a new timer reports to be started");
        M_event_timer_set_mode(x->t, x->mono ? M_EVENT_TIMER_MODE_MONOTONIC : M_EVENT_TIMER_MODE_RELATIVE);
        M_event_timer_set_autoremove(x->t, x->autorm ? M_TRUE : M_FALSE); M_event_timer_set_firecount(x->t, x->firecount);
        uint64_t iv = gen_interval(), first = iv * MS, flo = first;
        bool start_now = wl(8) != 0;
        if (tvs && start_now && wl(2)) {
            int64_t d = (int64_t)wl(5000) * 1000000 - 500000000ll; int64_t s = wall_ns() + d; M_timeval_t tv; memset(&tv, 0, sizeof tv); tv.tv_sec = s / 1000000000; tv.tv_usec = s % 1000000000 / 1000;
            SIM_CHECK(M_event_timer_set_starttv(x->t, &tv), "timer-tv", "starttv"); first = d < 0 ? 0 : (uint64_t)d; flo = first > 2 * MS ? first - 2 * MS : 0; first += 2 * MS; probe("e01.starttv");
        }
        if (tvs && wl(3) == 0) {
            int64_t s = wall_ns() + (int64_t)wl(20000) * 1000000; M_timeval_t tv; memset(&tv, 0, sizeof tv); tv.tv_sec = s / 1000000000; tv.tv_usec = s % 1000000000 / 1000;
            SIM_CHECK(M_event_timer_set_endtv(x->t, &tv), "timer-tv", "endtv"); x->end_wall = s; probe("e01.endtv");
        }
        if (wl(6) == 0) SIM_CHECK(!M_event_timer_start(x->t, 31ull * 86400 * 1000), "timer-too-long", "an interval above 30 days was accepted");
        if (start_now) { uint64_t t0 = now(); SIM_CHECK(M_event_timer_start(x->t, iv), "timer-start-refused", "start refused"); tm_started(x, iv, t0, flo, first, true); }
        else x->interval = 0;
        if (x->end_wall) x->autorm ? (void)(x->firecount = x->firecount ? x->firecount : 1000000, M_event_timer_set_firecount(x->t, x->firecount)) : (void)0;
    }
    bool ended = false; M_event_err_t rv = M_EVENT_ERR_MISUSE; uint64_t t_end = 0; size_t n_after = 0;
    JoinAll j;
    int nctl = (int)wl(3);
    for (int k = 0; k < nctl; k++) j.go([&] {
        for (int q = 1 + (int)wl(8); q && !ended; q--) {
            switch (wl(3)) { case 0: jitter(); break; case 1: sleep_ns(wl(3000) * MS); break; default: sleep_ns(wl(100) * MS); }
            if (ended) break;
            tm_op(w.tm[wl(w.tm.size())], false);
        }
    });
    j.go([&] { rv = M_event_loop(w.ev, M_TIMEOUT_INF); ended = true; });
    sleep_ns((wl(2) ? 20 : 3) * SEC + wl(5000) * MS);
    w.ops_on = false; wait_until([&] { for (auto x : w.tm) if (x->op) return false; return true; }, 3600 * SEC, "ops");
    sleep_ns(1 * MS);
    t_end = now(); int64_t w_end = wall_ns();
    if (!any_fault_enabled() && !w.pool && w.cb_now == 0) for (auto x : w.tm) if (x->started && x->alive && !x->fuzzy && !x->end_wall)
        SIM_CHECK(x->max_due + w.slack(x) + (w.busy - x->busy_at_due) >= t_end, "timer-never-fired", "timer %d is overdue by %s and was not fired", x->id, ms_s(t_end - x->max_due).c_str());
    (void)w_end;
    M_event_done(w.ev);
    deadline(now() + 3600 * SEC, "loop-exit", "the loop did not end after M_event_done");
    j.join(); deadline_clear();
    SIM_CHECK(rv == M_EVENT_ERR_DONE, "loop-rv", "loop returned %d", (int)rv);
    /* one more short run settles queued removals */
    w.loop_thread.clear(); for (auto x : w.tm) { x->loop_fiber = -1; x->fuzzy = true; }
    faults_stop(); w.quiet = true; size_t want = 0, maybe = 0;
    for (int k = 0; k < 120; k++) {     /* a monotonic timer that is far behind is served first */
        rv = M_event_loop(w.ev, 50 + wl(100) + 50 * k); SIM_CHECK(rv == M_EVENT_ERR_TIMEOUT, "loop-rv", "loop returned %d", (int)rv);
        w.loop_thread.clear(); for (auto x : w.tm) { x->loop_fiber = -1; x->fuzzy = true; }
        n_after = M_event_num_objects(w.ev); want = maybe = 0; for (auto x : w.tm) if (x->alive) { if (x->end_wall && x->autorm) maybe++; else want++; }
        if (n_after >= want && n_after <= want + maybe) break;
    }
    SIM_CHECK(n_after >= want && n_after <= want + maybe, "object-count", "event handle reports %zu objects, expected %zu..%zu", n_after, want, want + maybe);
    for (auto x : w.tm) if (x->alive && !x->autorm && wl(2)) { M_event_timer_remove(x->t); x->alive = false; }
    M_event_destroy(w.ev);
    for (auto x : w.tm) delete x;
    world_end();
}
SIM_WORLD(E01, e01_timers, "io/m_event.c io/m_event_timer.c io/m_event_epoll.c io/m_event_poll.c io/m_io_osevent*.c base/data/m_queue.c base/time", "kernel: epoll/poll/pipe/clock", 3);

/* ============================== E02: triggers and queued tasks ================================== */
namespace {
struct Trig { int id; M_event_trigger_t *t = NULL; uint64_t signalled = 0, begun_sig = 0, done = 0; bool removed = false, removing = false, in_cb = false; int old_grace = 1, rm_grace = 2; int loop_fiber = -1; int ops = 0; uint64_t last_sig_time = 0; uint64_t cbs = 0; bool edited = false; std::set<void *> *in_loop; M_event_t *pool; };
struct Task { int id; int runs = 0; int posted = 0; uint64_t when = 0; };
}
static std::set<void *> *task_in_loop;
static std::map<void *, int> *loop_fib;
static void loop_enter(M_event_t *ev)
{
    SIM_CHECK(!task_in_loop->count(ev), "loop-callbacks-overlap", "two callbacks of one event loop run at the same time"); task_in_loop->insert(ev);
    if (!loop_fib->count(ev)) (*loop_fib)[ev] = self_id();
    SIM_CHECK((*loop_fib)[ev] == self_id(), "loop-thread", "callback ran outside of its event loop thread");
}
static void trig_cb_int(M_event_t *ev, M_event_type_t type, void *arg, bool second)
{
    Trig *t = (Trig *)arg;
    loop_enter(ev);
    SIM_CHECK(type == M_EVENT_TYPE_OTHER, "trigger-args", "event type %d", (int)type);
    if (t->removed && t->rm_grace-- > 0) { probe("e02.grace"); task_in_loop->erase(ev); return; }   /* was already being delivered */
    SIM_CHECK(!t->removed, "trigger-removed-fired", "trigger %d fired after it was removed", t->id);
    SIM_CHECK(t->signalled + (uint64_t)t->ops > 0, "trigger-unsignalled", "trigger %d fired but was never signalled", t->id);
    SIM_CHECK(t->cbs < t->signalled + (uint64_t)t->ops, "trigger-unsignalled", "trigger %d fired %llu times for %llu signals", t->id, (unsigned long long)t->cbs + 1, (unsigned long long)t->signalled);
    (void)second;
    t->cbs++; t->begun_sig = t->signalled; t->in_cb = true;
    sim::ev("trig", t->id, (int64_t)t->signalled);
    if (wl(3) == 0) jitter();
    if (wl(6) == 0 && !t->removing) { t->ops++; M_event_trigger_signal(t->t); t->signalled++; t->ops--; }
    t->in_cb = false; task_in_loop->erase(ev);
}
static void trig_cb(M_event_t *ev, M_event_type_t type, M_io_t *, void *arg) { Trig *t = (Trig *)arg; SIM_CHECK(!t->edited || t->old_grace-- > 0, "trigger-old-callback", "the replaced callback was called"); trig_cb_int(ev, type, arg, false); }
static void trig_cb2(M_event_t *ev, M_event_type_t type, M_io_t *, void *arg) { trig_cb_int(ev, type, arg, true); }
static void task_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg)
{
    Task *t = (Task *)arg; loop_enter(ev);
    SIM_CHECK(type == M_EVENT_TYPE_OTHER && !io, "task-args", "bad args");
    t->runs++; SIM_CHECK(t->runs == 1, "task-ran-twice", "task %d ran %d times", t->id, t->runs);
    SIM_CHECK(t->posted, "task-args", "not posted");
    sim::ev("task", t->id); if (wl(4) == 0) jitter();
    task_in_loop->erase(ev);
}
static void e02_triggers()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_SPURIOUS_WAKE });
    std::set<void *> in_loop; std::map<void *, int> lf; task_in_loop = &in_loop; loop_fib = &lf;
    bool pool = wl(3) == 0;
    M_event_t *ev = pool ? M_event_pool_create(2 + wl(3)) : M_event_create((wl(3) ? 0 : M_EVENT_FLAG_NON_SCALABLE) | (wl(4) ? 0 : M_EVENT_FLAG_NOWAKE));
    bool nowake = false; (void)nowake;
    int nt = 1 + (int)wl(4), nth = 1 + (int)wl(3), ntask = (int)wl(12);
    std::vector<Trig *> tr; std::vector<Task *> tk; int next_task = 0; bool started = false, ended = false; M_event_err_t rv = M_EVENT_ERR_MISUSE; uint64_t last_act = 0;
    for (int i = 0; i < nt; i++) { Trig *t = new Trig; t->id = i; t->in_loop = &in_loop; t->pool = ev; t->t = M_event_trigger_add(ev, trig_cb, t); SIM_CHECK(t->t, "create", "trigger add"); tr.push_back(t); }
    for (int i = 0; i < ntask; i++) { Task *t = new Task; t->id = i; tk.push_back(t); }
    auto act = [&] {
        last_act = now();
        if (wl(3) == 0 && next_task < ntask) { Task *t = tk[next_task++]; t->posted = 1; SIM_CHECK(M_event_queue_task(ev, task_cb, t), "task-refused", "queue_task failed"); last_act = now(); return; }
        Trig *t = tr[wl(tr.size())];
        if (t->removed || t->ops) return;
        t->ops++;
        if (wl(12) == 0 && !t->in_cb && !t->edited) { SIM_CHECK(M_event_trigger_edit_cb(t->t, trig_cb2, t), "trigger-edit", "edit refused"); t->ops--; t->edited = true; probe("e02.edited"); return; }
        t->signalled++;                                  /* from here on a callback is due */
        M_event_trigger_signal(t->t);
        t->ops--; last_act = now();
    };
    bool pre = wl(2); if (pre) for (int k = (int)wl(5); k; k--) act();
    JoinAll j;
    j.go([&] { started = true; rv = M_event_loop(ev, M_TIMEOUT_INF); ended = true; });
    for (int k = 0; k < nth; k++) j.go([&] { for (int q = 1 + (int)wl(10); q; q--) { jitter(); act(); } });
    std::vector<M_threadid_t> loop_t(j.t.begin(), j.t.begin() + 1); j.t.erase(j.t.begin());
    j.join();
    while (next_task < ntask) { Task *t = tk[next_task++]; t->posted = 1; SIM_CHECK(M_event_queue_task(ev, task_cb, t), "task-refused", "queue_task failed"); if (wl(2)) jitter(); }
    /* progress: every signal is followed by a callback that began after it, every task runs */
    faults_stop();
    bool ok = wait_until([&] { for (auto t : tr) if (t->begun_sig != t->signalled || t->in_cb) return false; for (auto t : tk) if (!t->runs) return false; return in_loop.empty(); }, 60 * SEC, "callbacks");
    if (!ok) {
        for (auto t : tr) SIM_CHECK(t->begun_sig == t->signalled, "trigger-lost", "trigger %d: signal %llu was never followed by a callback (last callback saw %llu)", t->id, (unsigned long long)t->signalled, (unsigned long long)t->begun_sig);
        for (auto t : tk) SIM_CHECK(t->runs, "task-lost", "queued task %d never ran", t->id);
        fail("trigger-lost", "callbacks outstanding");
    }
    /* remove some: they never fire again */
    for (auto t : tr) if (wl(3) == 0) { if (wl(2)) { t->ops++; t->signalled++; t->begun_sig = t->signalled; M_event_trigger_signal(t->t); t->ops--; } wait_until([&] { return !t->in_cb; }, 60 * SEC, "cb end"); t->removing = true; M_event_trigger_remove(t->t); t->removed = true; probe("e02.removed"); }
    sleep_ns(5 * SEC);     /* longer than any stall still in progress */
    size_t left = 0; for (auto t : tr) if (!t->removed) left++;
    SIM_CHECK(M_event_num_objects(ev) == left, "object-count", "event handle reports %zu objects, expected %zu", M_event_num_objects(ev), left);
    M_event_done(ev);
    deadline(now() + 3600 * SEC, "loop-exit", "the loop did not end after M_event_done");
    M_thread_join(loop_t[0], NULL); deadline_clear();
    SIM_CHECK(rv == M_EVENT_ERR_DONE && started && ended, "loop-rv", "loop returned %d", (int)rv);
    M_event_destroy(ev);                                 /* frees the remaining triggers */
    for (auto t : tr) delete t;
    for (auto t : tk) delete t;
    world_end();
}
SIM_WORLD(E02, e02_triggers, "io/m_event.c io/m_event_trigger.c io/m_event_timer.c io/m_event_epoll.c io/m_event_poll.c io/m_io_osevent*.c", "kernel: epoll/poll/pipe/clock", 3);

/* ============================== E03: loop exit ===================================================== */
static uint64_t e03_busy;
static void e03_tick(M_event_t *, M_event_type_t, M_io_t *, void *arg) { (*(uint64_t *)arg)++; if (wl(6) == 0) { uint64_t d = wl(20) * MS; e03_busy += d; sleep_ns(d); } }
struct E03In { M_event_t *ev; int what; bool called = false; };
static void e03_inside(M_event_t *ev, M_event_type_t, M_io_t *, void *arg)
{
    E03In *x = (E03In *)arg;
    M_event_t *h = wl(2) ? ev : x->ev;                   /* child handles escalate to the pool */
    SIM_CHECK(M_event_get_status(ev) == M_EVENT_STATUS_RUNNING, "loop-status", "status %d inside a callback", (int)M_event_get_status(ev));
    if (wl(4) == 0) { SIM_CHECK(M_event_loop(ev, 10) == M_EVENT_ERR_MISUSE, "loop-reentered", "running a running loop was not refused"); probe("e03.reenter"); }
    if (x->ev == ev && wl(6) == 0) { M_event_destroy(x->ev); probe("e03.destroy_running"); }
    x->called = true;
    switch (x->what) { case 0: M_event_done(h); break; case 1: M_event_return(h); break; default: M_event_done_with_disconnect(h, wl(2) ? 0 : wl(2000), wl(4) ? 1 + wl(5000) : M_TIMEOUT_INF); break; }
}
static void e03_exit()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_WALL_JUMP });
    bool pool = wl(3) == 0, empty = wl(4) == 0, notimers = empty && wl(2); uint32_t flags = (wl(3) ? 0 : M_EVENT_FLAG_NON_SCALABLE) | (empty ? M_EVENT_FLAG_EXITONEMPTY : 0) | (notimers ? M_EVENT_FLAG_EXITONEMPTY_NOTIMERS : 0);
    if (empty) pool = false;
    M_event_t *ev = pool ? M_event_pool_create(2 + wl(3)) : M_event_create(flags);
    uint64_t ticks = 0; e03_busy = 0; int nt = (int)wl(4); std::vector<M_event_timer_t *> tv; uint64_t miniv = 1000000, maxfin = 0;
    std::vector<uint64_t> ivs;
    for (int i = 0; i < nt; i++) { M_event_timer_t *t = M_event_timer_add(ev, e03_tick, &ticks); uint64_t iv = 5 + wl(500), fc = empty ? 1 + wl(3) : wl(3); M_event_timer_set_firecount(t, fc); if (empty) { M_event_timer_set_autoremove(t, M_TRUE); maxfin = std::max(maxfin, iv * fc); } miniv = std::min(miniv, iv); M_event_timer_start(t, iv); tv.push_back(t); }
    int rounds = 1 + (int)wl(3); bool dwd_used = false;
    for (int r = 0; r < rounds && !dwd_used; r++) {
        uint64_t tmo = wl(3) == 0 ? M_TIMEOUT_INF : wl(4) == 0 ? wl(3) : 1 + wl(6000);
        int what = empty ? 3 : (int)wl(pool ? 4 : 4);     /* 0 done 1 return 2 done_with_disconnect 3 nothing */
        if (what == 2 && wl(2)) what = (int)wl(2);
        if (tmo == M_TIMEOUT_INF && what == 3 && !empty) what = (int)wl(2);
        bool from_cb = wl(2), before = what < 2 && wl(5) == 0; uint64_t after = before ? 0 : wl(3000); E03In in; in.ev = ev; in.what = what;
        M_event_timer_t *it = NULL; uint64_t t0 = now(); M_event_err_t rv; uint64_t busy0 = e03_busy; uint64_t dwd_min = 0, dwd_max = 0;
        JoinAll j; uint64_t called_at = 0; bool called = false;
        if (what < 3) {
            if (before) { what == 0 ? M_event_done(ev) : M_event_return(ev); called = true; called_at = now(); probe("e03.before_start"); }
            else if (from_cb) { it = M_event_timer_oneshot(ev, after, M_FALSE, e03_inside, &in); }
            else j.go([&] { sleep_ns(after * MS); called_at = now(); called = true;
                switch (what) { case 0: M_event_done(ev); break; case 1: M_event_return(ev); break;
                default: { uint64_t b = wl(2) ? 0 : wl(2000), d = wl(4) ? 1 + wl(5000) : M_TIMEOUT_INF; dwd_min = b; dwd_max = d; M_event_done_with_disconnect(ev, b, d); break; } } });
        }
        deadline(now() + 3600 * SEC, "loop-exit", "the event loop did not end");
        rv = M_event_loop(ev, tmo);
        uint64_t el = now() - t0;
        deadline_clear();
        M_event_status_t st = M_event_get_status(ev);
        sim::ev("loop", (int)rv, (int64_t)(el / MS), what);
        if (what == 2) dwd_used = true;
        uint64_t lim = tmo == M_TIMEOUT_INF ? NEVER : tmo * MS;
        switch (rv) {
        case M_EVENT_ERR_TIMEOUT:
            SIM_CHECK(tmo != M_TIMEOUT_INF, "loop-timeout-inf", "the loop timed out although no timeout was set (exit request %d)", what);
            SIM_CHECK(el + 2 * MS >= lim, "loop-timeout-early", "the loop timed out after %s, %llu ms were asked for (exit request %d)", ms_s(el).c_str(), (unsigned long long)tmo, what);
            SIM_CHECK(st == M_EVENT_STATUS_PAUSED, "loop-status", "status %d after a timeout", (int)st);
            break;
        case M_EVENT_ERR_DONE:
            SIM_CHECK(what == 0 || what == 2 || empty, "loop-rv", "the loop returned DONE, exit request was %d", what);
            if (what == 0 && !from_cb) SIM_CHECK(called, "loop-rv", "DONE before M_event_done was called");
            SIM_CHECK(st == M_EVENT_STATUS_DONE, "loop-status", "status %d after the loop returned DONE", (int)st);
            break;
        case M_EVENT_ERR_RETURN:
            SIM_CHECK(what == 1, "loop-rv", "the loop returned RETURN, exit request was %d", what);
            SIM_CHECK(st == M_EVENT_STATUS_RETURN, "loop-status", "status %d after the loop returned RETURN", (int)st);
            break;
        default: fail("loop-rv", "loop returned %d", (int)rv);
        }
        if (!any_fault_enabled()) {
            uint64_t slack = 20 * MS + (e03_busy - busy0);
            if (tmo != M_TIMEOUT_INF) SIM_CHECK(el <= lim + slack, "loop-timeout-late", "the loop ended after %s, timeout %llu ms", ms_s(el).c_str(), (unsigned long long)tmo);
            if (what < 2) {
                uint64_t x = after * MS;
                if (x + slack < lim) {
                    SIM_CHECK(rv == (what == 0 ? M_EVENT_ERR_DONE : M_EVENT_ERR_RETURN), "loop-rv", "exit request %d after %llu ms, loop returned %d after %s", what, (unsigned long long)after, (int)rv, ms_s(el).c_str());
                    SIM_CHECK(el <= x + slack && el + 2 * MS >= x, "loop-exit-time", "exit requested at %llu ms, loop ended at %s", (unsigned long long)after, ms_s(el).c_str());
                }
            }
            if (what == 2 && !pool && after * MS + slack < lim) {
                /* nothing but timers: nothing to wait for */
                SIM_CHECK(rv == M_EVENT_ERR_DONE, "loop-rv", "graceful exit with no i/o objects: loop returned %d", (int)rv);
                SIM_CHECK(el <= after * MS + slack + 501 * MS, "loop-exit-time", "graceful exit of an empty loop took until %s (requested at %llu ms)", ms_s(el).c_str(), (unsigned long long)after);
            }
            if (empty) {
                uint64_t x = r == 0 && !notimers ? maxfin * MS : 0;
                if (r == 0 && rv == M_EVENT_ERR_DONE) SIM_CHECK(el + 4 * MS >= x, "exit-on-empty-early", "a loop that ends when it is empty ended after %s, its last timer ends after %s", ms_s(el).c_str(), ms_s(x).c_str());
                if (r == 0) { if (x + slack + 10 * MS < lim) SIM_CHECK(rv == M_EVENT_ERR_DONE && el <= x + slack + 10 * MS, "exit-on-empty", "the loop should end when empty after %s, ended after %s with %d", ms_s(x).c_str(), ms_s(el).c_str(), (int)rv); }
            }
        }
        j.join();
        if ((called || in.called) && rv == M_EVENT_ERR_TIMEOUT && what < 2) {
            /* a request that came too late is honoured by the next run */
            M_event_err_t r2 = M_event_loop(ev, 10 * 1000); SIM_CHECK(r2 == (what == 0 ? M_EVENT_ERR_DONE : M_EVENT_ERR_RETURN), "exit-request-lost", "an exit request before the loop runs again was lost: %d", (int)r2);
            probe("e03.late_request");
        }
        if (pool && (called || in.called)) break;          /* loops of a pool that had timed out keep the request for their next run */
        if (it) M_event_timer_remove(it);
    }
    M_event_destroy(ev);
    world_end();
}
SIM_WORLD(E03, e03_exit, "io/m_event.c io/m_event_timer.c io/m_event_epoll.c io/m_event_poll.c", "kernel: epoll/poll/pipe/clock", 2);

/* ---- graceful exit of a loop with i/o objects, some of which take their time or never finish ---- */
namespace {
struct E03Obj { int kind; uint64_t dly, nat; M_io_t *io = NULL; bool alive = false; int asked = 0, terminal = 0; uint64_t asked_at = 0, gone_at = 0; bool natural = false; };
}
extern "C" struct M_io_handle { E03Obj *o; };
static M_bool e03l_init(M_io_layer_t *) { return M_TRUE; }
static M_io_state_t e03l_state(M_io_layer_t *l) { E03Obj *o = M_io_layer_get_handle(l)->o; return o->natural ? M_IO_STATE_DISCONNECTED : o->asked ? M_IO_STATE_DISCONNECTING : M_IO_STATE_CONNECTED; }
static void e03_close(M_event_t *, M_event_type_t, M_io_t *, void *a) { E03Obj *o = (E03Obj *)a; if (!o->alive) return; o->natural = true; M_io_layer_t *l = M_io_layer_acquire(o->io, 0, NULL); M_io_layer_softevent_add(l, M_FALSE, M_EVENT_TYPE_DISCONNECTED, M_IO_ERROR_DISCONNECT); M_io_layer_release(l); }
static M_bool e03l_disc(M_io_layer_t *l)
{
    E03Obj *o = M_io_layer_get_handle(l)->o; o->asked++; if (o->asked == 1) o->asked_at = now();
    if (o->kind == 0) return M_TRUE;
    if (o->kind == 1 && o->asked == 1) M_event_timer_oneshot(M_io_get_event(M_io_layer_get_io(l)), o->dly, M_TRUE, e03_close, o);
    return M_FALSE;
}
static void e03l_unreg(M_io_layer_t *) {}
static void e03l_destroy(M_io_layer_t *l) { M_free(M_io_layer_get_handle(l)); }
static void e03_obj(M_event_t *, M_event_type_t t, M_io_t *io, void *a)
{
    E03Obj *o = (E03Obj *)a;
    if (t != M_EVENT_TYPE_DISCONNECTED && t != M_EVENT_TYPE_ERROR) return;
    SIM_CHECK(o->alive && !o->terminal, "terminal-twice", "an object was told twice that it is disconnected"); o->terminal++; o->alive = false; o->gone_at = now(); M_io_destroy(io);
}
struct E03Req { M_event_t *ev; uint64_t b, d; };
static void e03_req(M_event_t *ev, M_event_type_t, M_io_t *, void *a) { E03Req *r = (E03Req *)a; M_event_done_with_disconnect(wl(2) ? ev : r->ev, r->b, r->d); }
static void e03_disc()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_WALL_JUMP });
    bool pool = wl(3) == 0, plain = !pool && wl(4) == 0;     /* plain: ends when empty, nobody asks */
    uint32_t flags = (wl(3) ? 0 : M_EVENT_FLAG_NON_SCALABLE) | (plain ? M_EVENT_FLAG_EXITONEMPTY | (wl(2) ? M_EVENT_FLAG_EXITONEMPTY_NOTIMERS : 0) : 0);
    M_event_t *ev = pool ? M_event_pool_create(2 + wl(2)) : M_event_create(flags);
    uint64_t r = plain ? 0 : wl(1500), b = wl(3) == 0 ? 0 : wl(1500), d = wl(4) ? 1 + wl(3000) : M_TIMEOUT_INF, tmo = !pool && wl(2) ? 1 + wl(6000) : M_TIMEOUT_INF;
    bool mayhang = !plain && (d != M_TIMEOUT_INF || tmo != M_TIMEOUT_INF); uint64_t G = 0; int n = (int)wl(6); if (plain) n++;
    std::vector<E03Obj *> os; M_io_callbacks_t *cb = M_io_callbacks_create();
    M_io_callbacks_reg_init(cb, e03l_init); M_io_callbacks_reg_state(cb, e03l_state); M_io_callbacks_reg_disconnect(cb, e03l_disc); M_io_callbacks_reg_unregister(cb, e03l_unreg); M_io_callbacks_reg_destroy(cb, e03l_destroy);
    for (int i = 0; i < n; i++) {
        E03Obj *o = new E03Obj; o->kind = (int)wl(mayhang ? 3 : 2); o->dly = wl(1500); o->nat = plain || wl(3) == 0 ? wl(4000) : NEVER / MS; os.push_back(o);
        o->io = M_io_init(M_IO_TYPE_STREAM); M_io_handle *h = (M_io_handle *)M_malloc_zero(sizeof *h); h->o = o; M_io_layer_add(o->io, "SIM", h, cb); o->alive = true;
        SIM_CHECK(M_event_add(ev, o->io, e03_obj, o), "event-add", "M_event_add failed");
        if (o->nat < NEVER / MS) M_event_timer_oneshot(M_io_get_event(o->io), o->nat, M_TRUE, e03_close, o);
        uint64_t g = plain ? o->nat : std::min(o->nat, o->kind == 0 ? r + b : o->kind == 1 ? r + b + o->dly : NEVER / MS);
        G = std::max(G, g);
    }
    M_io_callbacks_destroy(cb);
    for (int i = (int)wl(3); i; i--) { static uint64_t sink; M_event_timer_t *t = M_event_timer_add(ev, e03_tick, &sink); M_event_timer_start(t, 50 + wl(500)); if (plain) M_event_timer_stop(t); }
    e03_busy = 0; JoinAll j; E03Req rq = { ev, b, d }; uint64_t t0 = now(); bool done = false;
    if (!plain) { if (wl(2)) M_event_timer_oneshot(ev, r, M_FALSE, e03_req, &rq); else j.go([&] { sleep_ns(r * MS); M_event_done_with_disconnect(ev, b, d); }); }
    deadline(now() + 3600 * SEC, "loop-exit", "the event loop did not end");
    M_event_err_t rv = M_event_loop(ev, tmo); uint64_t el = now() - t0; done = true; (void)done;
    deadline_clear();
    uint64_t lim = d == M_TIMEOUT_INF || plain ? NEVER / MS : r + b + d, x = std::max(r, std::min(G, lim)); size_t left = 0; for (auto o : os) left += o->alive;
    sim::ev("loop", (int)rv, (int64_t)(el / MS), (int)left);
    SIM_CHECK(rv == M_EVENT_ERR_DONE || (rv == M_EVENT_ERR_TIMEOUT && tmo != M_TIMEOUT_INF), "loop-rv", "the loop returned %d (timeout %llu)", (int)rv, (unsigned long long)tmo);
    if (rv == M_EVENT_ERR_TIMEOUT) SIM_CHECK(el + 2 * MS >= tmo * MS, "loop-timeout-early", "the loop timed out after %s, %llu ms were asked for", ms_s(el).c_str(), (unsigned long long)tmo);
    if (rv == M_EVENT_ERR_DONE) {
        if (left) { SIM_CHECK(lim < NEVER / MS && !plain, "left-behind", "the loop was done with %zu objects left", left); SIM_CHECK(el + 4 * MS >= lim * MS, "disconnect-time-cut", "the loop gave up %zu objects after %s: asked after %llu ms, disconnect after %llu, %llu allowed for it", left, ms_s(el).c_str(), (unsigned long long)r, (unsigned long long)b, (unsigned long long)d); }
        if (plain) SIM_CHECK(!left, "left-behind", "a loop that ends when it is empty ended with %zu objects", left);
        SIM_CHECK(M_event_get_status(ev) == M_EVENT_STATUS_DONE, "loop-status", "status %d after the loop returned DONE", (int)M_event_get_status(ev));
        if (left) probe("e03.gave_up"); else probe("e03.emptied");
    }
    for (auto o : os) if (o->asked) SIM_CHECK(o->asked_at - t0 + 2 * MS >= (r + b) * MS, "disconnect-early", "an object was disconnected %s after the start, that was asked for after %llu+%llu ms", ms_s(o->asked_at - t0).c_str(), (unsigned long long)r, (unsigned long long)b);
    if (!any_fault_enabled()) {
        uint64_t slack = 30 * MS + e03_busy;
        if (tmo == M_TIMEOUT_INF || x + slack / MS < tmo) {
            SIM_CHECK(rv == M_EVENT_ERR_DONE, "loop-rv", "graceful exit: loop returned %d after %s instead of being done after %llu ms", (int)rv, ms_s(el).c_str(), (unsigned long long)x);
            SIM_CHECK(el <= x * MS + slack, "loop-exit-time", "graceful exit took until %s instead of %llu ms (asked after %llu, disconnect after %llu, %llu allowed, last object done after %llu)", ms_s(el).c_str(), (unsigned long long)x, (unsigned long long)r, (unsigned long long)b, (unsigned long long)d, (unsigned long long)G);
        } else if (tmo != M_TIMEOUT_INF) SIM_CHECK(el <= tmo * MS + slack, "loop-timeout-late", "the loop ended after %s, timeout %llu ms", ms_s(el).c_str(), (unsigned long long)tmo);
        for (auto o : os) if (!plain && o->kind != 2 && o->nat > r + b + slack / MS && (r + b + slack / MS) * MS < el) SIM_CHECK(o->asked, "not-disconnected", "an object that was there was not disconnected");
    }
    j.join();
    for (auto o : os) if (o->alive) { o->alive = false; M_io_destroy(o->io); }
    M_event_destroy(ev);
    for (auto o : os) delete o;
    world_end();
}
SIM_WORLD(E03, e03_disc, "io/m_event.c io/m_event_timer.c io/m_io.c io/m_io_layer.c io/m_event_epoll.c io/m_event_poll.c", "kernel: epoll/poll/pipe/clock; a user-defined i/o layer", 2);
