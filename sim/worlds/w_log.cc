/* L01 async writer; L02 log manager with memory, stream and syslog outputs */
#include "w_common.h"
#include <mstdlib/mstdlib_log.h>

/* ---- L01: the queue between the threads that log and the thread that writes -------------------------- */
namespace {
struct Msg { std::string s; uint64_t b = 0, e = NEVER; bool acc = false; int consumed = 0; uint64_t cseq = 0; int prod; };
struct AW {
    M_async_writer_t *w = NULL; std::vector<Msg> m; std::map<std::string, size_t> idx; uint64_t seq = 0; bool in_cb = false; bool slow = false, reject = false; uint64_t reported = 0; std::map<M_uint64, uint64_t> seen, sets, last; bool stopped = true, destroyed = false; uint64_t stops = 0, starts = 0;
    uint64_t slow_until = 0; size_t ncons = 0; std::string last_rejected; std::vector<std::string> out; bool notice_last = false; uint64_t fails = 0; uint64_t longest = 0; bool final = false; const char *le; uint64_t destroys = 0;
};
AW *A;
}
static M_bool aw_cb(char *msg, M_uint64 cmd, void *thunk)
{
    AW &a = *A; uint64_t t0 = now();
    SIM_CHECK(thunk == (void *)&a, "wrong-thunk", "callback got another thunk"); SIM_CHECK(!a.destroyed, "write-after-destroy", "the writer is used after its data was destroyed");
    SIM_CHECK(!a.in_cb, "concurrent-callback", "the write callback runs in two threads at once"); a.in_cb = true;
    SIM_CHECK(!a.stopped, "write-while-stopped", "the write callback runs though the writer is stopped");
    std::string s = msg ? msg : ""; for (int b = 0; b < 8; b++) if (cmd & (1u << b)) { M_uint64 c = 1u << b; SIM_CHECK(a.seen[c] < a.sets[c], "command-repeated", "command %llu was passed %llu times, set %llu times", (unsigned long long)c, (unsigned long long)a.seen[c] + 1, (unsigned long long)a.sets[c]); a.seen[c]++; }
    SIM_CHECK(msg || cmd, "empty-call", "the callback was called without a message and without a command");
    bool no = a.reject && !a.final && fault(F_WRITER_FAIL);
    if (a.slow) { switch (choose(SCHED, 6)) { case 0: case 1: break; case 2: case 3: point("cb"); break; case 4: sleep_ns((1 + choose(SCHED, 500)) * US); break; default: sleep_ns((1 + choose(SCHED, 40)) * MS); } } else point("cb");
    unsigned long long n; char tail[64] = ""; bool notice = sscanf(s.c_str(), "%llu messages were dropped (%63[^)])", &n, tail) == 2;
    if (notice) { SIM_CHECK(s.size() >= strlen(a.le) && s.compare(s.size() - strlen(a.le), std::string::npos, a.le) == 0, "line-end", "notice does not end with the line ending: %s", s.c_str()); SIM_CHECK(n > 0 && n < 100000, "notice", "%s", s.c_str()); if (!no) { a.reported += n; probe("aw.notice"); a.notice_last = true; a.out.push_back("!" + std::to_string(n)); } }
    else if (msg) {
        auto i = a.idx.find(s); SIM_CHECK(i != a.idx.end(), "unknown-message", "text that was never written: %.60s", s.c_str()); Msg &m = a.m[i->second];
        SIM_CHECK(!m.consumed, "duplicate-message", "message written twice: %.60s", s.c_str()); SIM_CHECK(m.acc || m.e == NEVER, "refused-message", "a message that was refused is written: %.60s", s.c_str());
        if (!no) { m.consumed = 1; m.cseq = ++a.seq; a.ncons++; a.out.push_back(s); }
    }
    for (int b = 0; b < 8; b++) if (cmd & (1u << b)) a.last[1u << b] = ++a.seq;
    if (no) { probe("aw.rejected"); a.fails++; if (choose(SCHED, 2)) sleep_ns(choose(SCHED, 20) * MS); }
    a.longest = std::max(a.longest, now() - t0); a.in_cb = false;
    return no ? M_FALSE : M_TRUE;
}
static void aw_stop(void *t) { SIM_CHECK(t == (void *)A, "wrong-thunk", "stop callback got another thunk"); SIM_CHECK(!A->in_cb, "concurrent-callback", "stop callback while a write is in progress"); A->stops++; SIM_CHECK(A->stops <= A->starts, "stop-twice", "stop callback called %llu times for %llu starts", (unsigned long long)A->stops, (unsigned long long)A->starts); point("stop_cb"); }
static void aw_destroy(void *t) { SIM_CHECK(t == (void *)A, "wrong-thunk", "destroy callback got another thunk"); SIM_CHECK(!A->in_cb, "destroy-in-use", "data destroyed while a write is in progress"); SIM_CHECK(!A->destroyed, "destroy-twice", "destroy callback called twice"); A->destroyed = true; }
static size_t aw_new(int prod, size_t len, const char *le) { AW &a = *A; Msg m; char b[32]; snprintf(b, sizeof b, "%c%05zu:", 'a' + prod, a.m.size()); m.s = b; while (m.s.size() + strlen(le) < len) m.s += 'x'; m.s += le; m.prod = prod; a.m.push_back(m); a.idx[m.s] = a.m.size() - 1; return a.m.size() - 1; }
static bool aw_write(size_t i) { AW &a = *A; a.m[i].b = ++a.seq; std::string t = a.m[i].s; bool r = M_async_writer_write(a.w, t.c_str()); a.m[i].acc = r; a.m[i].e = ++a.seq; SIM_CHECK(r || !a.m[i].consumed, "refused-message", "a message reported as refused was written"); return r; }
static void aw_start()
{
    AW &a = *A;
    for (int k = 0; ; k++) { a.stopped = false; a.starts++; if (M_async_writer_start(a.w)) break; a.starts--; a.stopped = true; SIM_CHECK(fault_enabled(F_THREAD_CREATE_FAIL), "start-failed", "start failed without a fault"); SIM_CHECK(!M_async_writer_is_running(a.w), "start-failed", "reported as running after a failed start"); probe("aw.start_failed"); if (k > 3) faults_stop(); SIM_CHECK(k < 50, "start-failed", "does not start any more after a failed start"); }
    SIM_CHECK(M_async_writer_is_running(a.w), "state", "not running after start"); SIM_CHECK(M_async_writer_start(a.w), "state", "starting a running writer reports a failure");
}
static void aw_order(bool flushed, bool nolimit)
{
    AW &a = *A; std::vector<Msg *> c; for (auto &m : a.m) if (m.consumed) c.push_back(&m);
    std::sort(c.begin(), c.end(), [](Msg *x, Msg *y) { return x->cseq < y->cseq; });
    uint64_t maxb = 0; Msg *mx = NULL;
    for (auto m : c) { if (mx && m->e < maxb) fail("order", "message %.20s was written before %.20s was handed in, and came out after it", m->s.c_str(), mx->s.c_str()); if (m->b > maxb) { maxb = m->b; mx = m; } }
    if (flushed && nolimit) for (auto &m : a.m) if (m.acc) SIM_CHECK(m.consumed, "message-lost", "message %.20s was accepted, the queue never was full, and it was not written", m.s.c_str());
}
static void aw_finish(bool started, bool nolimit, uint64_t acc, uint64_t over)
{
    AW &a = *A; faults_stop(); a.final = true; size_t live0 = live_fibers(); (void)live0;
    bool flush = wl(3) != 0; int how = (int)wl(4); uint64_t to = how == 1 ? 1 + wl(200) : 0; bool running = M_async_writer_is_running(a.w);
    SIM_CHECK(running == !a.stopped, "state", "is_running says %d", running); a.destroys++;
    if (how == 0) { M_async_writer_destroy(a.w, flush ? M_TRUE : M_FALSE); SIM_CHECK(wait_until([&] { return a.destroyed; }, 3600 * SEC, "destroyed"), "not-destroyed", "the writer was told to go away and never did"); }
    else {
        uint64_t t0 = now(); bool r = M_async_writer_destroy_blocking(a.w, flush ? M_TRUE : M_FALSE, to);
        if (to && !any_fault_enabled()) SIM_CHECK(now() - t0 <= to * MS + 1000 * MS, "destroy-timeout", "destroy with a timeout of %llu ms took %.3f s", (unsigned long long)to, (now() - t0) / 1e9);
        if (r) SIM_CHECK(a.destroyed, "not-destroyed", "blocking destroy reported success and the data was not destroyed"); else { SIM_CHECK(to, "destroy-failed", "destroy without a timeout reported a timeout"); probe("aw.destroy_timeout"); SIM_CHECK(now() - t0 >= to * MS, "destroy-timeout", "destroy gave up after %.3f s, its timeout is %llu ms", (now() - t0) / 1e9, (unsigned long long)to); SIM_CHECK(wait_until([&] { return a.destroyed; }, 3600 * SEC, "destroyed"), "not-destroyed", "the writer was told to go away and never did"); flush = false; }
    }
    SIM_CHECK(a.stops == a.starts, "stop-callback", "%llu starts, %llu stop callbacks", (unsigned long long)a.starts, (unsigned long long)a.stops);
    aw_order(flush && running, nolimit);
    if (running && started) SIM_CHECK(a.ncons + a.reported == acc + over, "drop-count", "%llu messages handed in, %zu written, %llu reported as dropped", (unsigned long long)(acc + over), a.ncons, (unsigned long long)a.reported);
    (void)running;
}
static void log_async()
{
    world_begin(); allow({ F_STALL, F_SPURIOUS_WAKE, F_WRITER_FAIL, F_THREAD_CREATE_FAIL });
    AW a; A = &a; size_t maxb = (size_t[]){ 30, 80, 200, 600, 1000000 }[choose(CFG, 5)]; a.slow = choose(CFG, 2); a.reject = choose(CFG, 3); int lm = (int)choose(CFG, 3); a.le = lm == 1 ? "\r\n" : "\n";
    a.w = M_async_writer_create(maxb, aw_cb, &a, aw_stop, aw_destroy, lm == 0 ? M_ASYNC_WRITER_LINE_END_NATIVE : lm == 1 ? M_ASYNC_WRITER_LINE_END_WINDOWS : M_ASYNC_WRITER_LINE_END_UNIX);
    SIM_CHECK(M_str_eq(M_async_writer_get_line_end(a.w), a.le), "line-end", "wrong line ending"); SIM_CHECK(M_async_writer_get_thunk(a.w) == &a, "wrong-thunk", "wrong thunk");
    deadline(now() + 100000 * SEC, "stuck", "the writer does not come to an end");
    int np = 1 + (int)wl(3); size_t nm = 1 + wl(25); bool live = true; if (wl(3)) aw_start();
    JoinAll j; size_t ended = 0;
    for (int p = 0; p < np; p++) j.go([&, p] { for (size_t i = 0; i < nm; i++) { aw_write(aw_new(p, wl(6) ? 9 + wl(40) : 9 + wl(maxb > 1000 ? 300 : maxb + 20), a.le)); if (wl(3) == 0) jitter(); } ended++; });
    if (wl(2)) j.go([&] { for (size_t n = wl(10); n; n--) { jitter(); M_uint64 c = 1u << (4 + wl(2)); bool f = wl(2); a.sets[c]++; uint64_t at = ++a.seq; SIM_CHECK(M_async_writer_set_command(a.w, c, f ? M_TRUE : M_FALSE), "command-refused", "command refused"); (void)at; } ended++; }); else ended++;
    for (size_t n = wl(14); n; n--) {
        jitter();
        switch (wl(6)) {
        case 0: if (!a.stopped) { M_async_writer_stop(a.w); a.stopped = true; SIM_CHECK(!a.in_cb, "stop-early", "stop returned while a write is in progress"); SIM_CHECK(a.stops == a.starts, "stop-early", "stop returned before the thread was stopped"); SIM_CHECK(!M_async_writer_is_running(a.w), "state", "running after stop"); SIM_CHECK(!M_async_writer_is_alive(a.w, 10), "state", "alive after stop"); probe("aw.stop"); } break;
        case 1: if (a.stopped) aw_start(); break;
        case 2: if (!a.stopped) { M_uint64 c = 1u << wl(4); a.sets[c]++; uint64_t at = ++a.seq; SIM_CHECK(M_async_writer_set_command_block(a.w, c), "command-refused", "command refused"); SIM_CHECK(a.last[c] > at, "command-early", "the call waits for the command to be processed, and it returned before that"); probe("aw.block_cmd"); } break;
        case 3: if (!a.stopped) { uint64_t f0 = a.fails; a.longest = 0; uint64_t t0 = now(); bool r = M_async_writer_is_alive(a.w, 5000); if (!any_fault_enabled()) SIM_CHECK(r, "alive", "the thread is reported as hanging, it answers within %.3f s", a.longest / 1e9); if (!r) SIM_CHECK(now() - t0 >= 5000 * MS, "alive", "reported as hanging after %.3f s", (now() - t0) / 1e9); (void)f0; } break;
        case 4: SIM_CHECK(M_async_writer_is_running(a.w) == !a.stopped, "state", "is_running is wrong"); break;
        default: if (maxb > 1000 && wl(3) == 0) M_async_writer_set_max_bytes(a.w, maxb); break;
        }
    }
    (void)live; j.join();
    if (wl(4) && a.stopped) aw_start();
    if (wl(3) == 0 && !a.stopped) {
        /* every command given arrives: with the next message, or at once when forced */
        faults_stop(); a.final = true; bool f = wl(2); M_uint64 c = 1u << wl(6); a.sets[c]++; uint64_t at = ++a.seq; SIM_CHECK(M_async_writer_set_command(a.w, c, f ? M_TRUE : M_FALSE), "command-refused", "command refused");
        size_t before = a.m.size(); if (!f) aw_write(aw_new(0, 10, a.le));
        (void)before; SIM_CHECK(wait_until([&] { return a.last[c] > at; }, 3600 * SEC, "command"), "command-lost", "a %scommand never reached the callback", f ? "forced " : "");
        SIM_CHECK(wait_until([&] { for (auto &s : a.sets) if (!a.seen[s.first]) return false; return true; }, 3600 * SEC, "commands"), "command-lost", "a command never reached the callback");
    }
    uint64_t acc = 0, over = 0; for (auto &m : a.m) { if (m.acc) acc++; else over++; if (!m.acc) SIM_CHECK(m.s.size() > maxb, "refused", "a message of %zu bytes was refused, the limit is %zu", m.s.size(), maxb); }
    if (a.w) aw_finish(true, maxb > 1000, acc, over);
    deadline_clear(); world_end();
}
/* nobody writes while the thread runs: what comes out is exactly what a bounded queue that drops its oldest entries gives */
static void log_async_model()
{
    world_begin(); allow({ F_STALL, F_SPURIOUS_WAKE });
    AW a; A = &a; size_t maxb = 20 + choose(CFG, 200); a.le = "\n"; a.slow = choose(CFG, 2);
    a.w = M_async_writer_create(maxb, aw_cb, &a, aw_stop, aw_destroy, M_ASYNC_WRITER_LINE_END_UNIX);
    deadline(now() + 100000 * SEC, "stuck", "the writer does not come to an end");
    std::deque<std::string> q; size_t stored = 0; uint64_t dropped = 0; std::vector<std::string> want; uint64_t acc = 0, over = 0;
    for (uint64_t rounds = 1 + wl(4); rounds; rounds--) {
        for (uint64_t n = wl(25); n; n--) {
            if (wl(15) == 0) { maxb = 20 + wl(200); M_async_writer_set_max_bytes(a.w, maxb); }
            size_t i = aw_new(0, 9 + wl(wl(4) ? 30 : 230), a.le); size_t len = a.m[i].s.size(); bool r = aw_write(i);
            SIM_CHECK(r == (len <= maxb), "accept", "a message of %zu bytes: %s, limit %zu", len, r ? "accepted" : "refused", maxb);
            if (!r) { dropped++; over++; continue; }
            acc++; q.push_back(a.m[i].s); stored += len; while (stored > maxb) { stored -= q.front().size(); q.pop_front(); dropped++; }
        }
        bool fl = rounds == 1 && wl(2); size_t expect = q.size(); uint64_t d0 = dropped;
        if (dropped && !q.empty()) { want.push_back("!" + std::to_string(dropped)); dropped = 0; }
        for (auto &s : q) want.push_back(s);
        q.clear(); stored = 0; aw_start(); (void)d0;
        if (fl) { if (dropped) want.push_back("!" + std::to_string(dropped)); SIM_CHECK(M_async_writer_destroy_blocking(a.w, M_TRUE, 0), "destroy-failed", "blocking destroy without a timeout failed"); a.w = NULL; }
        else { SIM_CHECK(wait_until([&] { return a.out.size() >= want.size() && !a.in_cb; }, 3600 * SEC, "queue drained"), "message-lost", "%zu of %zu lines came out", a.out.size(), want.size()); (void)expect; M_async_writer_stop(a.w); a.stopped = true; }
        if (a.out != want) { size_t k = 0; while (k < a.out.size() && k < want.size() && a.out[k] == want[k]) k++; fail("wrong-output", "line %zu is \"%.30s\", a bounded queue gives \"%.30s\" (%zu lines, %zu expected)", k, k < a.out.size() ? a.out[k].c_str() : "-", k < want.size() ? want[k].c_str() : "-", a.out.size(), want.size()); }
        if (!a.w) break;
    }
    if (a.w) { bool b = wl(2); if (b) SIM_CHECK(M_async_writer_destroy_blocking(a.w, M_FALSE, 0), "destroy-failed", "destroy of a stopped writer failed"); else M_async_writer_destroy(a.w, M_FALSE); }
    SIM_CHECK(a.destroyed, "not-destroyed", "data not destroyed"); SIM_CHECK(a.stops == a.starts, "stop-callback", "stop callback missing");
    deadline_clear(); world_end();
}
SIM_WORLD(L01, log_async, "log/m_async_writer.c, threads", "output (callback that is slow or refuses), clock, threads", 3);
SIM_WORLD(L01, log_async_model, "log/m_async_writer.c, threads", "output callback, clock, threads", 1);

/* ---- L02: log manager ---------------------------------------------------------------------------------- */
namespace {
struct Ver { uint64_t b, e; M_uint64 tags; int filt; };   /* configuration change: call began at b, returned at e; filt: -1 none, k: only messages with thunk % 2 == k */
struct LMod { M_log_module_t *h = NULL; int kind = 0; std::vector<Ver> v; uint64_t add_b = 0, add_e = NEVER, rm_b = NEVER, rm_e = NEVER; size_t max = 0; uint64_t ttl = 0, t_add = 0; int expired = 0; bool lossy = false; uint64_t exp_seq = 0; bool taken = false; std::string out; int filt_alive = 0; bool has_filter = false; int pri[64]; uint64_t last_used = 0; bool gone = false; uint64_t t_exp = 0; };
struct LMsg { uint64_t b, e = NEVER; M_uint64 tag; size_t th; std::vector<std::string> lines; uint64_t t_b = 0, t_e = 0; };
struct LW { M_log_t *log = NULL; std::vector<LMod *> mods; std::vector<LMsg> msg; uint64_t seq = 0; const char *le = "\n"; std::map<M_uint64, std::vector<std::pair<uint64_t, std::string>>> names; bool suspended = false; int prefix = 0; };
LW *L;
const M_uint64 TAGS[5] = { 1, 2, 16, 1ull << 40, 1ull << 63 };
}
static M_bool l_filter(M_uint64 tag, void *ft, void *mt) { (void)tag; size_t k = (size_t)ft & 1; point("filter"); return ((size_t)mt & 1) == k ? M_TRUE : M_FALSE; }
static void l_filter_free(void *) { probe("log.filter_free"); }
static void l_expire(M_log_module_t *m, void *t) { LMod *x = (LMod *)t; (void)m; SIM_CHECK(!x->expired, "expired-twice", "a memory buffer expired twice"); SIM_CHECK(!x->gone, "expire-after-remove", "expire callback for a module that was removed by its user"); x->expired++; x->exp_seq = L->seq; x->t_exp = now(); SIM_CHECK(now() >= x->t_add + x->ttl * SEC, "expired-early", "memory buffer expired after %.1f s, limit %llu s", (now() - x->t_add) / 1e9, (unsigned long long)x->ttl); probe("log.expired"); }
static void l_prefix(M_buf_t *b, M_uint64 tag, void *pt, void *mt) { (void)tag; (void)mt; SIM_CHECK(pt == (void *)L, "wrong-thunk", "prefix callback got another thunk"); M_buf_add_str(b, " >> "); }
static void l_cfg(LMod *m)
{
    Ver v = m->v.empty() ? Ver{ 0, 0, 0, -1 } : m->v.back(); v.b = ++L->seq; v.e = NEVER; bool tg = m->has_filter || wl(3);
    if (tg) { v.tags = 0; for (auto t : TAGS) if (wl(3)) v.tags |= t; } else v.filt = (int)wl(2);
    m->v.push_back(v);
    M_log_error_t r = tg ? M_log_module_set_accepted_tags(L->log, m->h, v.tags) : M_log_module_set_filter(L->log, m->h, l_filter, (void *)(size_t)(2 + v.filt), l_filter_free);
    if (!tg) m->has_filter = true;
    if (r == M_LOG_MODULE_NOT_FOUND && m->expired) { m->v.pop_back(); return; }
    SIM_CHECK(r == M_LOG_SUCCESS, "config-failed", "changing a module failed: %s", M_log_err_to_str(r));
    m->v.back().e = ++L->seq; M_uint64 g = 0; if (M_log_module_get_accepted_tags(L->log, m->h, &g) == M_LOG_SUCCESS) SIM_CHECK(g == m->v.back().tags, "accepted-tags", "accepted tags are %llx, set to %llx", (unsigned long long)g, (unsigned long long)m->v.back().tags);
}
static void l_add(int kind)
{
    LMod *m = new LMod(); m->kind = kind; L->mods.push_back(m); m->add_b = ++L->seq; M_log_error_t r; for (auto &p : m->pri) p = M_SYSLOG_INFO;
    m->t_add = now();
    if (kind == 0) { m->max = wl(3) ? 100000 : 50 + wl(500); m->ttl = wl(3) ? 100000 : wl(8); r = M_log_module_add_membuf(L->log, m->max, m->ttl, l_expire, m, &m->h); }
    else if (kind == 1) { m->lossy = wl(3) == 0; r = M_log_module_add_syslog(L->log, "prod", M_SYSLOG_FACILITY_LOCAL3, m->lossy ? 60 + wl(400) : 1000000, &m->h); }
    else r = M_log_module_add_stream(L->log, kind == 2 ? M_STREAM_STDOUT : M_STREAM_STDERR, 1000000, &m->h);
    if (r == M_LOG_SUSPENDED && L->suspended) { L->mods.pop_back(); delete m; return; }
    if (r == M_LOG_GENERIC_FAIL && fault_enabled(F_THREAD_CREATE_FAIL) && kind) { probe("log.add_failed"); SIM_CHECK(!m->h, "add-failed", "a module was returned together with an error"); L->mods.pop_back(); delete m; return; }
    SIM_CHECK(r == M_LOG_SUCCESS && m->h, "add-failed", "adding a module failed: %s", M_log_err_to_str(r));
    m->v.push_back({ 0, m->add_b, 0, -1 }); m->add_e = ++L->seq; m->last_used = now();
    if (kind == 1 && wl(2)) for (auto t : TAGS) { int p = (int)wl(8); SIM_CHECK(M_log_module_syslog_set_tag_priority(L->log, m->h, t, (M_syslog_priority_t)p) == M_LOG_SUCCESS, "config-failed", "priority"); m->pri[M_uint64_log2(t)] = p; }
    l_cfg(m);
}
static void l_remove(LMod *m)
{
    m->rm_b = ++L->seq; M_log_error_t r;
    if (m->kind == 0 && wl(3)) { M_buf_t *b = NULL; r = M_log_module_take_membuf(L->log, m->h, &b); if (r == M_LOG_SUCCESS && b) { m->taken = true; m->out.assign(M_buf_peek(b) ? M_buf_peek(b) : "", M_buf_len(b)); M_buf_cancel(b); } else SIM_CHECK(m->expired, "take-failed", "the buffer can not be taken: %s", M_log_err_to_str(r)); }
    else { if (m->kind != 0) { m->taken = true; } r = M_log_module_remove(L->log, m->h); }
    m->rm_e = ++L->seq; if (m->taken) m->gone = true; if (!m->expired) { SIM_CHECK(r == M_LOG_SUCCESS, "remove-failed", "%s", M_log_err_to_str(r)); SIM_CHECK(!M_log_module_present(L->log, m->h), "remove-failed", "module still present"); }
    m->gone = true;
}
static std::vector<std::string> l_lines(const std::string &o, const char *le) { std::vector<std::string> r; size_t p = 0, k; while ((k = o.find(le, p)) != std::string::npos) { r.push_back(o.substr(p, k - p)); p = k + strlen(le); } if (p < o.size()) r.push_back("!" + o.substr(p)); return r; }
/* the text of a line starts at its "<" */
static void l_check(LMod *m, size_t i)
{
    LW &w = *L; std::vector<std::string> out = l_lines(m->out, w.le); std::map<std::string, size_t> pos; size_t total = 0;
    static const char *kn[] = { "memory buffer", "syslog", "stdout", "stderr" };
    std::map<std::string, LMsg *> all; for (auto &g : w.msg) for (auto &l : g.lines) all[l] = &g;
    for (size_t k = 0; k < out.size(); k++) {
        std::string &s = out[k]; size_t p = s.find('<'); SIM_CHECK(p != std::string::npos && s[0] != '!', "garbled-line", "%s %zu: line \"%s\"", kn[m->kind], i, s.c_str()); std::string id = s.substr(p);
        auto g = all.find(id); SIM_CHECK(g != all.end(), "garbled-line", "%s %zu: line \"%s\" was never logged", kn[m->kind], i, s.c_str());
        SIM_CHECK(!pos.count(id), "duplicate-line", "%s %zu has the line %s twice", kn[m->kind], i, id.c_str()); pos[id] = k; total += s.size() + strlen(w.le);
        /* time, tag name, separator */
        std::string pre = s.substr(0, p); auto nm = w.names[g->second->tag]; bool okp = false; std::vector<std::string> cand; for (auto &n : nm) if (n.first < g->second->e) cand.push_back(n.second);
        for (size_t c = 0; c < cand.size() && !okp; c++) { std::string sep = w.prefix ? " >> " : ": "; std::string t = (cand[c].empty() ? "" : " [" + cand[c] + "]") + sep; okp = pre.size() > t.size() && pre.compare(pre.size() - t.size(), std::string::npos, t) == 0; }
        SIM_CHECK(okp, "prefix", "%s %zu: line \"%s\" does not start with time, the name of its tag and the separator", kn[m->kind], i, s.c_str());
        size_t d = pre.find_first_not_of("0123456789"); SIM_CHECK(d >= 10, "prefix", "line \"%s\" does not start with a time", s.c_str()); int64_t tt = strtoll(pre.c_str(), NULL, 10); SIM_CHECK(tt >= (int64_t)(g->second->t_b / SEC) && tt <= (int64_t)(g->second->t_e == 0 ? (uint64_t)wall_ns() / SEC : g->second->t_e / SEC), "timestamp", "line \"%s\" carries the time %lld, it was logged at %lld..%lld", s.c_str(), (long long)tt, (long long)(g->second->t_b / SEC), (long long)(g->second->t_e / SEC));
    }
    bool full = m->kind == 0 && total > m->max;
    if (m->kind == 0 && !out.empty()) SIM_CHECK(total - (out.back().size() + strlen(w.le)) <= m->max, "buffer-limit", "memory buffer of %zu bytes accepted a line when it already held %zu", m->max, total - out.back().size() - strlen(w.le));
    for (auto &g : w.msg) {
        /* what configurations may the write have seen */
        bool yes = true, no = true; size_t th = g.th;
        for (size_t k = 0; k < m->v.size(); k++) { uint64_t from = m->v[k].b, to = k + 1 < m->v.size() ? m->v[k + 1].e : NEVER; if (from >= g.e || to <= g.b) continue; bool acc = (m->v[k].tags & g.tag) && (m->v[k].filt < 0 || (int)(th & 1) == m->v[k].filt); if (acc) no = false; else yes = false; }
        if (m->add_b >= g.e || m->rm_e <= g.b) { no = true; yes = false; } else if (!(m->add_e <= g.b && g.e <= m->rm_b)) yes = false;
        if (m->expired || full || m->lossy || g.e == NEVER) yes = false;
        for (auto &l : g.lines) { bool in = pos.count(l); if (in) SIM_CHECK(!no, "unwanted-line", "%s %zu has %s, which it did not accept", kn[m->kind], i, l.c_str()); else SIM_CHECK(!yes, "line-lost", "%s %zu (%zu lines) misses %s", kn[m->kind], i, out.size(), l.c_str()); }
        for (size_t k = 1; k < g.lines.size(); k++) if (pos.count(g.lines[k - 1]) && pos.count(g.lines[k])) SIM_CHECK(pos[g.lines[k - 1]] < pos[g.lines[k]], "order", "lines of one message are out of order");
    }
    std::vector<std::pair<size_t, LMsg *>> o; for (auto &p : pos) o.push_back({ p.second, all[p.first] }); std::sort(o.begin(), o.end()); uint64_t maxb = 0;
    for (auto &x : o) { SIM_CHECK(x.second->e >= maxb, "order", "%s %zu: a message comes after one that was logged later", kn[m->kind], i); maxb = std::max(maxb, x.second->b); }
}
static void log_manager()
{
    world_begin(); sim::thread_fail_exempt() = false; allow({ F_STALL, F_SPURIOUS_WAKE, F_THREAD_CREATE_FAIL });
    LW w; L = &w; bool win = choose(CFG, 3) == 1; w.le = win ? "\r\n" : "\n"; w.log = M_log_create(win ? M_LOG_LINE_END_WINDOWS : M_LOG_LINE_END_UNIX, M_TRUE, NULL);
    M_log_set_time_format(w.log, "%t"); syslog_lines().clear(); std::string io[2]; stdio_sink() = [&](bool err, const char *p, size_t n) { io[err].append(p, n); };
    deadline(now() + 100000 * SEC, "stuck", "logging does not come to an end");
    for (auto t : TAGS) w.names[t].push_back({ 0, "" });
    if (choose(CFG, 3) == 1) { w.prefix = 1; M_log_set_prefix(w.log, l_prefix, &w, NULL); }
    if (choose(CFG, 2)) { bool pad = choose(CFG, 2); (void)pad; int k = 0; for (auto t : TAGS) { std::string n = "tag" + std::to_string(k++); SIM_CHECK(M_log_set_tag_name(w.log, t, n.c_str()) == M_LOG_SUCCESS, "tag-name", "name refused"); w.names[t].back().second = n; } }
    bool sys = false, so = false, se = false; std::set<int> once; int active = 0;
    auto addany = [&] { if (active > 5) return; int k = (int)wl(5); if (k == 1) { if (sys || w.suspended) return; sys = true; } else if (k == 2) { if (so || w.suspended) return; so = true; } else if (k == 3) { if (se || w.suspended) return; se = true; } else k = 0; if (w.suspended) k = 0; l_add(k); active++; };
    for (uint64_t n = 1 + wl(4); n; n--) addany();
    size_t np = 1 + wl(3), nm = 1 + wl(15); bool stop = false; size_t running = np;
    JoinAll j;
    for (size_t p = 0; p < np; p++) j.go([&, p] {
        for (size_t i = 0; i < nm; i++) {
            LMsg g; g.tag = TAGS[wl(5)]; g.th = wl(2); size_t nl = wl(4) ? 1 : 1 + wl(4); std::string text; char b[64];
            for (size_t l = 0; l < nl; l++) { snprintf(b, sizeof b, "<%zu.%zu.%zu>", p, i, l); std::string s = b; for (size_t k = wl(4) ? wl(10) : wl(200); k; k--) s += 'z'; g.lines.push_back(s); text += s; if (l + 1 < nl || wl(3) == 0) text += wl(2) ? "\n" : " \t\r\n"; }
            g.b = ++w.seq; g.t_b = (uint64_t)wall_ns(); size_t at = w.msg.size(); w.msg.push_back(g);
            M_log_error_t r = wl(2) ? M_log_write(w.log, g.tag, (void *)(4 + g.th), text.c_str()) : M_log_printf(w.log, g.tag, (void *)(4 + g.th), "%s", text.c_str());
            SIM_CHECK(r == M_LOG_SUCCESS, "write-failed", "logging failed: %s", M_log_err_to_str(r));
            w.msg[at].e = ++w.seq; w.msg[at].t_e = (uint64_t)wall_ns();
            if (wl(3) == 0) jitter(); if (wl(20) == 0) sleep_ns(wl(6) * SEC);
        }
        running--;
    });
    int names = 0;
    for (uint64_t n = wl(25); n; n--) {
        jitter(); if (wl(12) == 0) sleep_ns(wl(4) * SEC); LMod *m = w.mods.empty() ? NULL : w.mods[wl(w.mods.size())]; if (m && m->gone) m = NULL;
        switch (wl(8)) {
        case 0: case 1: if (m) l_cfg(m); break;
        case 2: addany(); break;
        case 3: if (m && m->kind != 1 && m->kind < 2) { l_remove(m); active--; } break;
        case 4: { M_uint64 t = TAGS[wl(5)]; std::string nm2 = "n" + std::to_string(++names); w.names[t].push_back({ ++w.seq, nm2 }); SIM_CHECK(M_log_set_tag_name(w.log, t, nm2.c_str()) == M_LOG_SUCCESS, "tag-name", "name refused"); SIM_CHECK(M_log_get_tag(w.log, nm2.c_str()) == t, "tag-name", "name not found"); SIM_CHECK(M_log_set_tag_name(w.log, t == 1 ? 2 : 1, nm2.c_str()) == M_LOG_DUPLICATE_TAG_NAME, "tag-name", "one name for two tags"); break; }
        case 5: if (!w.suspended) { M_log_suspend(w.log); w.suspended = true; SIM_CHECK(!sys || !syslog_open() , "suspend", "syslog still open after suspend"); size_t s0 = syslog_lines().size(), a0 = io[0].size() + io[1].size(); sleep_ns(wl(3000) * MS); SIM_CHECK(syslog_lines().size() == s0 && io[0].size() + io[1].size() == a0, "suspend", "output while suspended"); probe("log.suspend"); } break;
        case 6: if (w.suspended) { { sim::thread_fail_exempt() = true; M_log_resume(w.log, NULL); sim::thread_fail_exempt() = false; } w.suspended = false; } break;
        default: if (wl(2)) M_log_reopen_all(w.log); else { M_list_t *l = M_log_all_modules(w.log); M_list_destroy(l, M_TRUE); } break;
        }
    }
    j.join(); stop = true; (void)stop;
    if (w.suspended) { { sim::thread_fail_exempt() = true; M_log_resume(w.log, NULL); sim::thread_fail_exempt() = false; } w.suspended = false; }
    if (wl(2)) { sleep_ns(wl(20) * SEC); LMsg g; g.tag = TAGS[wl(5)]; g.th = 0; g.lines = { "<last>" }; g.b = ++w.seq; g.t_b = (uint64_t)wall_ns(); M_log_write(w.log, g.tag, (void *)4, "<last>"); g.e = ++w.seq; g.t_e = (uint64_t)wall_ns(); w.msg.push_back(g);
        for (auto m : w.mods) if (m->kind == 0 && !m->gone && !m->expired) { bool any = m->v.back().tags & g.tag; if (any && !any_fault_enabled()) SIM_CHECK(g.t_b < (uint64_t)0 + (uint64_t)wall_ns() + 1 && now() - m->t_add <= m->ttl * SEC + 3 * SEC, "not-expired", "a memory buffer with a limit of %llu s is still there after %.1f s and a message for it", (unsigned long long)m->ttl, (now() - m->t_add) / 1e9); } }
    for (auto m : w.mods) if (m->kind == 0 && !m->gone) { m->rm_b = ++w.seq; M_buf_t *b = NULL; M_log_error_t r = M_log_module_take_membuf(w.log, m->h, &b); if (m->expired) { SIM_CHECK(!b, "take-expired", "the contents of an expired buffer were handed out"); } else { SIM_CHECK(r == M_LOG_SUCCESS && b, "take-failed", "%s", M_log_err_to_str(r)); m->taken = true; m->out.assign(M_buf_peek(b) ? M_buf_peek(b) : "", M_buf_len(b)); M_buf_cancel(b); } m->rm_e = ++w.seq; m->gone = true; }
    if (wl(2)) M_log_destroy_blocking(w.log, 0); else M_log_destroy(w.log);
    w.log = NULL; for (auto m : w.mods) m->gone = true;
    SIM_CHECK(wait_until([] { return live_fibers() <= base_fibers(); }, 3600 * SEC, "writers end"), "thread-leak", "log threads do not end after the log was destroyed");
    for (size_t i = 0; i < w.mods.size(); i++) {
        LMod *m = w.mods[i]; if (m->kind == 0 && !m->taken) continue;
        if (m->kind == 1) { for (auto &s : syslog_lines()) { std::string t = s.s; if (t.find(" messages were dropped (") != std::string::npos) { SIM_CHECK(m->lossy, "line-lost", "messages dropped though the queue was never full"); SIM_CHECK(atoi(t.c_str()) > 0, "garbled-line", "syslog: %s", t.c_str()); SIM_CHECK(s.pri >= 0 && (s.pri & ~7) == (int)M_SYSLOG_FACILITY_LOCAL3, "priority", "the notice about dropped messages has priority %d", s.pri); probe("log.syslog_notice"); continue; } while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); m->out += t + w.le; size_t p = t.find('<'); SIM_CHECK(p != std::string::npos, "garbled-line", "syslog: %s", s.s.c_str()); std::string id = t.substr(p); for (auto &g : w.msg) for (auto &l : g.lines) if (l == id) SIM_CHECK(s.pri == ((int)M_SYSLOG_FACILITY_LOCAL3 | m->pri[M_uint64_log2(g.tag)]), "priority", "syslog line %s has priority %d, expected %d", id.c_str(), s.pri, (int)M_SYSLOG_FACILITY_LOCAL3 | m->pri[M_uint64_log2(g.tag)]); } }
        if (m->kind >= 2) m->out = io[m->kind - 2];
        l_check(m, i); probe("log.checked");
    }
    for (auto m : w.mods) delete m;
    stdio_sink() = nullptr; deadline_clear(); world_end();
}
SIM_WORLD(L02, log_manager, "log/m_log.c, m_log_common.c, m_log_membuf.c, m_log_stream.c, m_log_syslog.c, m_async_writer.c, threads", "stdout/stderr, syslog(3), clock, threads", 1);
