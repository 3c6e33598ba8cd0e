/* I06: processes as I/O objects: start, streams, exit, timeout, termination */
#include "w_common.h"

namespace i06 {
enum { IN, OUT, ERR, PROC };
struct Kid {
    size_t id = 0; std::string kind, so, se, in; int rc = 0; uint64_t ms = 0; size_t chunk = 100; std::vector<std::string> args; std::map<std::string, std::string> env; bool has_env = false; uint64_t tmo = 0;
    /* program */
    bool started = false, ended = false, killed = false, eof = false; std::string got; uint64_t t_start = 0, t_end = 0;
    /* user */
    M_thread_mutex_t *mu = NULL; M_io_t *io[4] = { NULL, NULL, NULL, NULL }; bool open[4] = { false, false, false, false }, conn[4] = { false, false, false, false }, ended_io[4] = { false, false, false, false }; size_t sent = 0, maxw = 1, maxr = 1; std::string rd[3];
    bool user_killed = false, term = false, keep_proc = false, keep_in = false; int result = -2; uint64_t t_add = 0, t_conn = 0; bool added = false; uint64_t close_in_after = 0;
    bool all_closed() const { return !open[0] && !open[1] && !open[2] && !open[3]; }
};
struct Wd { std::vector<Kid *> k; M_event_t *ev = NULL; bool quiet = false; };
static Wd *G;
struct Ref { Kid *k; int which; };
static std::string pat(size_t id, int which, size_t n) { std::string s; s.reserve(n); for (size_t i = 0; i < n; i++) s += (char)mix((uint64_t)id * 4 + (uint64_t)which + 191, i); return s; }
static const char *nm[] = { "stdin", "stdout", "stderr", "process" };
}
using namespace i06;

static int i06_prog(ProcCtx &c)
{
    size_t id = 0; SIM_CHECK(c.argv.size() >= 2 && c.argv[0] == c.path && sscanf(c.argv[1].c_str(), "%zu", &id) == 1 && id < G->k.size(), "command-line", "a program was started as '%s' with %zu arguments", c.argv.empty() ? "" : c.argv[0].c_str(), c.argv.size());
    Kid &k = *G->k[id]; SIM_CHECK(!k.started, "started-twice", "program %zu was started twice", id); k.started = true; k.t_start = now();
    SIM_CHECK(c.argv.size() == k.args.size() + 1 && std::equal(k.args.begin(), k.args.end(), c.argv.begin() + 1), "arguments", "program %zu got %zu arguments, not the %zu it was given", id, c.argv.size() - 1, k.args.size());
    if (k.has_env) { std::map<std::string, std::string> e; for (auto &x : c.env) { size_t p = x.find('='); SIM_CHECK(p != std::string::npos, "environment", "program %zu has '%s' in its environment", id, x.c_str()); e[x.substr(0, p)] = x.substr(p + 1); } SIM_CHECK(e == k.env, "environment", "program %zu has %zu variables in its environment, not the %zu given", id, e.size(), k.env.size()); }
    SIM_CHECK(c.inherited() == 0, "inherited-descriptor", "program %zu has %zu descriptors besides its standard ones", id, c.inherited());
    char b[4096]; ssize_t r; const std::string kind = k.kind;
    auto emit = [&](int fd, std::string s) { size_t o = 0; while (o < s.size()) { size_t n = std::min<size_t>(s.size() - o, 1 + choose(SCHED, k.chunk)); if (c.out(fd, s.data() + o, n) < 0) return false; o += n; if (choose(SCHED, 6) == 0) jitter(SCHED); } return true; };
    if (kind == "cat") { for (;;) { r = c.in(b, 1 + choose(SCHED, sizeof b)); if (r <= 0) break; k.got.append(b, (size_t)r); if (!emit(1, std::string(b, (size_t)r))) break; } k.eof = r == 0; }
    else if (kind == "sink") { for (;;) { r = c.in(b, sizeof b); if (r <= 0) break; k.got.append(b, (size_t)r); } k.eof = r == 0; emit(1, k.so); }
    else if (kind == "gen") { bool a = choose(SCHED, 2); if (a) emit(1, k.so); emit(2, k.se); if (!a) emit(1, k.so); }
    else if (kind == "early") { c.close_fd(0); emit(1, k.so); sleep_ns(choose(SCHED, 50) * MS); }
    else if (kind == "sleep") { if (choose(SCHED, 2)) { c.close_fd(1); c.close_fd(2); } uint64_t t = now() + k.ms * MS; while (now() < t && !c.killed()) sleep_ns(std::min<uint64_t>(t - now(), 5 * MS)); }
    else if (kind == "hang") { emit(1, k.so); while (!c.killed()) sleep_ns(20 * MS); }
    k.ended = true; k.killed = c.killed(); k.t_end = now(); sim::ev("prog_end", (int64_t)id, k.rc, k.killed);
    return k.rc;
}
static void shut(Kid *k, int w) { if (!k->open[w]) return; k->open[w] = false; M_io_t *io = k->io[w]; k->io[w] = NULL; M_io_destroy(io); }
static void check_read(Kid *k, int w)
{
    const std::string &want = w == ERR ? k->se : k->kind == "cat" ? k->in : k->so;
    SIM_CHECK(k->rd[w].size() <= want.size() && want.compare(0, k->rd[w].size(), k->rd[w]) == 0, "wrong-data", "program %zu (%s): %s is not what the program wrote", k->id, k->kind.c_str(), nm[w]);
}
static void i06_feed(Kid *k)
{
    while (k->open[IN] && k->sent < k->in.size()) {
        size_t n = std::min(k->in.size() - k->sent, k->maxw), l = 12345678; M_io_error_t e = M_io_write(k->io[IN], (const unsigned char *)k->in.data() + k->sent, n, &l);
        if (e == M_IO_ERROR_SUCCESS) { SIM_CHECK(l > 0 && l <= n, "write-length", "program %zu: writing %zu bytes says %zu", k->id, n, l); k->sent += l; }
        else if (e == M_IO_ERROR_WOULDBLOCK) return;
        else { bool takes = k->kind == "cat" || k->kind == "sink"; SIM_CHECK(!takes || k->ended || k->killed || k->user_killed || k->term || (!k->started && any_fault_enabled()) || k->tmo || !k->open[OUT], "write-error", "program %zu (%s): writing to it failed (%d), it still reads", k->id, k->kind.c_str(), e); shut(k, IN); return; }
    }
    if (k->open[IN] && !k->keep_in) shut(k, IN);
}
static void i06_cb(M_event_t *, M_event_type_t t, M_io_t *io, void *arg)
{
    Ref *r = (Ref *)arg; Kid *k = r->k; int w = r->which;
    M_thread_mutex_lock(k->mu);
    sim::ev("cb", (int64_t)k->id * 4 + w, t); if (verbose()) logf("kid %zu %s event %d", k->id, nm[w], t);
    if (!k->open[w]) { M_thread_mutex_unlock(k->mu); return; }   /* being destroyed by another thread */
    SIM_CHECK(io == k->io[w], "wrong-object", "event for another object");
    SIM_CHECK(!k->ended_io[w], "event-after-end", "program %zu: %s got event %d after its end was reported", k->id, nm[w], t);
    if (t == M_EVENT_TYPE_CONNECTED) { SIM_CHECK(!k->conn[w], "connected-twice", "program %zu: %s reported as connected twice", k->id, nm[w]); k->conn[w] = true; }
    if (t == M_EVENT_TYPE_DISCONNECTED || t == M_EVENT_TYPE_ERROR) k->ended_io[w] = true;
    if (w == PROC) {
        if (t == M_EVENT_TYPE_CONNECTED) { k->t_conn = now(); SIM_CHECK(M_io_process_get_pid(io) > 0, "pid", "a started program has no process id"); M_io_state_t s = M_io_get_state(io); SIM_CHECK(s == M_IO_STATE_CONNECTED || s == M_IO_STATE_DISCONNECTED || s == M_IO_STATE_ERROR, "state", "state %d after the start was reported", s); int c = 0; bool have = M_io_process_get_result_code(io, &c); SIM_CHECK(!have || k->ended || k->kind == "noexec", "result", "program %zu runs and has result %d", k->id, c); }
        else if (t == M_EVENT_TYPE_DISCONNECTED || t == M_EVENT_TYPE_ERROR) {
            int c = -7; bool have = M_io_process_get_result_code(io, &c); M_io_error_t e = M_io_get_error(io); M_io_state_t s = M_io_get_state(io); k->term = true; bool to = e == M_IO_ERROR_TIMEDOUT; sim::ev("term", t, e, c); logf("kid %zu (%s) ends: event %d error %d result %d/%d", k->id, k->kind.c_str(), t, e, have, c);
            SIM_CHECK(k->conn[PROC] || (t == M_EVENT_TYPE_ERROR && !k->started), "end-without-start", "program %zu (%s): end reported, its start was not", k->id, k->kind.c_str());
            if (!k->conn[PROC]) { SIM_CHECK(fault_enabled(F_FORK_FAIL) || fault_enabled(F_THREAD_CREATE_FAIL), "start-failed", "program %zu was not started although nothing failed", k->id); SIM_CHECK(s == M_IO_STATE_ERROR, "state", "state %d, the program was not started", s); SIM_CHECK(!have, "result", "a program that was never started has result %d", c); probe("i06.start_failed"); }
            else if (k->kind == "noexec") { SIM_CHECK(t == M_EVENT_TYPE_ERROR, "exec-failed", "a file which cannot be executed was run"); probe("i06.noexec"); }
            else if (to) {
                SIM_CHECK(t == M_EVENT_TYPE_ERROR && k->tmo, "timeout", "program %zu: event %d with a timeout error, timeout %llu ms", k->id, t, (unsigned long long)k->tmo); SIM_CHECK(now() - k->t_add + 2 * MS >= k->tmo * MS, "killed-early", "program %zu killed after %.1f ms, the timeout is %llu ms", k->id, (now() - k->t_add) / 1e6, (unsigned long long)k->tmo); SIM_CHECK(!have, "result", "a program which was killed has result %d", c);
                if (G->quiet) SIM_CHECK(now() - k->t_conn <= (k->tmo + 3000) * MS, "killed-late", "program %zu was killed after %.1f ms, the timeout is %llu ms", k->id, (now() - k->t_conn) / 1e6, (unsigned long long)k->tmo); probe("i06.timeout");
            } else {
                SIM_CHECK(k->ended && !k->killed, "end-early", "program %zu (%s): end reported while it runs", k->id, k->kind.c_str());
                if (k->rc < 0 || k->rc < 126) SIM_CHECK(t == M_EVENT_TYPE_DISCONNECTED, "exit-event", "program %zu exited with %d, reported with event %d", k->id, k->rc, t);
                if (t == M_EVENT_TYPE_DISCONNECTED) SIM_CHECK(s == M_IO_STATE_DISCONNECTED, "state", "state %d after the exit", s);
                if (k->rc >= 0) SIM_CHECK(have && c == k->rc, "result", "program %zu exited with %d, the result is %s %d", k->id, k->rc, have ? "" : "none", c); else SIM_CHECK(!have, "result", "program %zu was ended by signal %d, reported as exit code %d", k->id, -k->rc, c);
                if (G->quiet && k->tmo) SIM_CHECK(k->t_end - k->t_start <= (k->tmo + 3000) * MS, "not-killed", "program %zu ran for %.1f ms, the timeout is %llu ms", k->id, (k->t_end - k->t_start) / 1e6, (unsigned long long)k->tmo);
                if (G->quiet) SIM_CHECK(now() - k->t_end <= 3000 * MS, "end-late", "the exit of program %zu was reported %.1f ms later", k->id, (now() - k->t_end) / 1e6);
                probe("i06.exit");
            }
            SIM_CHECK(!k->conn[PROC] || k->kind == "noexec" || k->started || to, "never-ran", "program %zu never ran", k->id);
            if (!k->keep_proc) shut(k, PROC);
        } else fail("event", "event %d for a process", t);
    } else if (w == IN) {
        if (t == M_EVENT_TYPE_CONNECTED || t == M_EVENT_TYPE_WRITE) i06_feed(k);
        else if (t == M_EVENT_TYPE_DISCONNECTED || t == M_EVENT_TYPE_ERROR) { bool takes = k->kind == "cat" || k->kind == "sink"; SIM_CHECK(!takes || k->ended || k->killed || k->user_killed || k->term || k->tmo || any_fault_enabled() || !k->open[OUT], "input-closed", "program %zu (%s) still reads, its input was reported as closed", k->id, k->kind.c_str()); shut(k, IN); probe("i06.in_closed"); }
        else SIM_CHECK(t != M_EVENT_TYPE_READ, "event", "read event for an object that only writes");
    } else {
        if (t == M_EVENT_TYPE_READ) {
            unsigned char b[3000]; for (int i = 0; i < 200; i++) { size_t l = 12345678, n = std::min(k->maxr, sizeof b); M_io_error_t e = M_io_read(io, b, n, &l); if (e != M_IO_ERROR_SUCCESS) { SIM_CHECK(e == M_IO_ERROR_WOULDBLOCK || e == M_IO_ERROR_DISCONNECT, "read-error", "program %zu: reading failed with %d", k->id, e); break; } SIM_CHECK(l > 0 && l <= n, "read-length", "%zu bytes into a buffer of %zu", l, n); k->rd[w].append((char *)b, l); check_read(k, w); }
        } else if (t == M_EVENT_TYPE_DISCONNECTED || t == M_EVENT_TYPE_ERROR) {
            SIM_CHECK(t == M_EVENT_TYPE_DISCONNECTED, "event", "program %zu: %s ends with an error %d", k->id, nm[w], M_io_get_error(io));
            bool cut = k->killed || k->user_killed || k->tmo || !k->started; /* ended by someone else */
            if (k->kind != "sleep" && !cut) { SIM_CHECK(k->ended, "early-eof", "end of %s of program %zu (%s) while it runs", nm[w], k->id, k->kind.c_str()); const std::string want = w == ERR ? k->se : k->kind == "cat" ? k->got : k->so; if (k->open[OUT] || w == OUT) SIM_CHECK(k->rd[w] == want, "lost-data", "program %zu (%s) wrote %zu bytes to its %s, %zu came out", k->id, k->kind.c_str(), want.size(), nm[w], k->rd[w].size()); probe("i06.drained"); }
            shut(k, w);
        } else SIM_CHECK(t != M_EVENT_TYPE_WRITE, "event", "write event for an object that only reads");
    }
    M_thread_mutex_unlock(k->mu);
}
static void i06_user(void)
{
    Wd *g = G;
    for (uint64_t ops = 1 + wl(3); ops; ops--) {
        Kid *k = new Kid; k->id = g->k.size(); g->k.push_back(k);
        static const char *kinds[] = { "cat", "sink", "gen", "gen", "early", "sleep", "hang", "noexec" }; k->kind = kinds[wl(8)]; static const int rcs[] = { 0, 0, 0, 1, 7, 100, 125, 255, 127, -9, -15, -11 }; k->rc = rcs[wl(12)];
        size_t big = (size_t[]){ 10, 200, 3000, 70000 }[wl(4)]; big = std::min<size_t>(big, net().bufcap < 65536 ? net().bufcap * 30 : big); k->so = k->kind == "cat" ? "" : pat(k->id, 1, k->kind == "hang" ? wl(15) : wl(big)); k->se = k->kind == "gen" && wl(2) ? pat(k->id, 2, wl(big)) : ""; k->in = k->kind == "cat" || k->kind == "sink" ? pat(k->id, 3, wl(big)) : wl(2) ? pat(k->id, 3, wl(8)) : ""; k->chunk = big > 3000 ? 1000 + wl(20000) : 1 + wl(500); k->maxw = big / 60 + 1 + wl(2000); k->maxr = big / 60 + 1 + wl(3000); k->ms = wl(400);
        char b[32]; snprintf(b, sizeof b, "%zu", k->id); k->args.push_back(b); for (uint64_t n = wl(4); n; n--) k->args.push_back(wl(4) ? "arg " + std::to_string(wl(50)) + "\"'$x" : "");
        M_list_str_t *args = M_list_str_create(M_LIST_STR_NONE); for (auto &a : k->args) M_list_str_insert(args, a.c_str());
        M_hash_dict_t *env = NULL; k->has_env = wl(2); bool bare = false; std::string cmd = k->kind == "noexec" ? "/usr/bin/i06bad" : "/usr/bin/i06prog"; uint64_t how = wl(4);
        if (how == 1) { cmd = cmd.substr(9); bare = true; } else if (how == 2) cmd = "." + cmd; else if (how == 3) cmd = cmd.substr(1);
        if (k->has_env) { env = M_hash_dict_create(16, 75, M_HASH_DICT_NONE); if (bare || wl(2)) k->env["PATH"] = wl(2) ? "/nowhere:/usr/bin" : "/usr/bin"; for (uint64_t n = wl(4); n; n--) k->env["V" + std::to_string(n)] = wl(3) ? "val=" + std::to_string(wl(100)) : ""; for (auto &e : k->env) M_hash_dict_insert(env, e.first.c_str(), e.second.c_str()); }
        k->tmo = k->kind == "hang" ? (wl(3) ? 1 + wl(500) : 0) : wl(3) ? 0 : (wl(2) ? 1 + wl(300) : 1000000); bool fire = k->kind == "hang" && !k->tmo; /* only the user ends it */
        uint64_t which = wl(8) ? 7 : wl(8); bool bogus = wl(10) == 0;
        if (bogus) { /* what cannot be run is refused */
            M_io_t *p = (M_io_t *)1, *i = (M_io_t *)1; uint64_t x = wl(4); M_io_error_t e = M_io_process_create(x == 0 ? "/usr/bin/i06none" : x == 1 ? "i06none" : x == 2 ? "/usr/bin/i06data" : "", args, env, 0, &p, &i, NULL, NULL); SIM_CHECK(e == (x < 2 ? M_IO_ERROR_NOTFOUND : x == 2 ? M_IO_ERROR_NOTPERM : M_IO_ERROR_INVALID) || (x == 0 && e == M_IO_ERROR_NOTPERM), "refused", "a command that cannot be run: error %d (case %llu)", e, (unsigned long long)x); SIM_CHECK(!p && !i, "refused", "objects for a command that was refused"); probe("i06.refused");
        }
        k->mu = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE); uint64_t order = wl(24); bool discard = wl(12) == 0;
        k->keep_proc = wl(4) == 0 || fire; k->keep_in = wl(4) == 0;
        M_io_error_t e = M_io_process_create(cmd.c_str(), args, env, k->tmo, &k->io[PROC], which & 1 ? &k->io[IN] : NULL, which & 2 ? &k->io[OUT] : NULL, which & 4 ? &k->io[ERR] : NULL);
        if (wl(2)) { M_list_str_destroy(args); M_hash_dict_destroy(env); args = NULL; env = NULL; }
        if (e != M_IO_ERROR_SUCCESS) { SIM_CHECK(fault_enabled(F_PIPE_FAIL) && e == M_IO_ERROR_NOSYSRESOURCES, "create", "no process for '%s': error %d", cmd.c_str(), e); SIM_CHECK(!k->io[PROC] && !k->io[IN] && !k->io[OUT] && !k->io[ERR], "create", "objects of a process that failed"); probe("i06.create_failed"); }
        else {
            for (int i = 0; i < 4; i++) { k->open[i] = k->io[i] != NULL; SIM_CHECK(k->open[i] == (i == PROC || (which >> i & 1)), "create", "%s object is %sthere", nm[i], k->open[i] ? "" : "not "); }
            SIM_CHECK(M_io_get_state(k->io[PROC]) == M_IO_STATE_INIT, "state", "state before the start"); SIM_CHECK(M_io_process_get_pid(k->io[PROC]) == 0, "pid", "process id before the start");
            Ref *rf[4]; for (int i = 0; i < 4; i++) rf[i] = new Ref{ k, i };
            if (!discard) {
                int o[4] = { 0, 1, 2, 3 }; for (int i = 3; i > 0; i--) { std::swap(o[i], o[order % (uint64_t)(i + 1)]); order /= (uint64_t)(i + 1); }
                for (int i = 0; i < 4; i++) { int w = o[i]; if (!k->open[w]) continue; M_thread_mutex_lock(k->mu); if (w == PROC) { k->added = true; k->t_add = now(); } if (k->open[w]) SIM_CHECK(M_event_add(g->ev, k->io[w], i06_cb, rf[w]), "add", "the %s object cannot be added", nm[w]); M_thread_mutex_unlock(k->mu); if (wl(4) == 0) jitter(); }
            }
            uint64_t ends = now() + 60 * SEC; bool cut = discard || fire || wl(4) == 0;
            for (uint64_t n = wl(6); n && !k->all_closed(); n--) {
                if (wl(2)) jitter(); else sleep_ns(wl(100) * MS);
                if (wl(6) == 0) { int w = (int)wl(3); M_thread_mutex_lock(k->mu); if (w == OUT && k->kind == "cat") w = IN; if (w == IN) k->keep_in = false; shut(k, w); M_thread_mutex_unlock(k->mu); probe("i06.stream_dropped"); }
                if (wl(6) == 0 && k->open[PROC]) { M_thread_mutex_lock(k->mu); if (k->open[PROC]) { int c; bool have = M_io_process_get_result_code(k->io[PROC], &c); if (have) SIM_CHECK((k->ended && c == k->rc) || k->kind == "noexec", "result", "program %zu has result %d, it %s", k->id, c, k->ended ? "ended with another one" : "still runs"); (void)M_io_get_state(k->io[PROC]); } M_thread_mutex_unlock(k->mu); }
            }
            if (cut) { M_thread_mutex_lock(k->mu); k->user_killed = true; shut(k, PROC); M_thread_mutex_unlock(k->mu); probe(k->ended ? "i06.destroy_ended" : k->started ? "i06.destroy_running" : "i06.destroy_before"); }
            M_thread_mutex_lock(k->mu); k->keep_in = false; if (k->sent >= k->in.size() || discard) shut(k, IN); M_thread_mutex_unlock(k->mu);
            if (discard) for (int i = 0; i < 3; i++) shut(k, i);
            else {
                /* the program's end closes its streams; whatever happened the process object reports an end */
                if (cut) ends = NEVER;
                SIM_CHECK(wait_until([k] { return k->term || !k->open[PROC]; }, cut ? NEVER : 3000 * SEC, "end of the process"), "no-end", "program %zu (%s): the end was never reported", k->id, k->kind.c_str()); (void)ends;
                M_thread_mutex_lock(k->mu); shut(k, PROC); M_thread_mutex_unlock(k->mu);
                if (!wait_until([k] { return !k->open[OUT] && !k->open[ERR]; }, 3000 * SEC, "end of the streams")) fail("no-eof", "program %zu (%s): its streams never end", k->id, k->kind.c_str());
                M_thread_mutex_lock(k->mu); shut(k, IN); M_thread_mutex_unlock(k->mu);
            }
        }
        M_list_str_destroy(args); M_hash_dict_destroy(env);
    }
}
static void i06_world()
{
    setenv("PATH", "/nowhere:/usr/bin:/bin", 1);
    world_begin(); Wd wd; wd.ev = M_event_create(wl(3) ? M_EVENT_FLAG_NONE : M_EVENT_FLAG_NON_SCALABLE);
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_FORK_FAIL, F_PIPE_FAIL, F_THREAD_CREATE_FAIL });
    net_swarm(); fs_mkdirs("/usr/bin"); program_register("/usr/bin/i06prog", i06_prog); fs_write_file("/usr/bin/i06bad", "neither a script nor a program", 0755); fs_write_file("/usr/bin/i06data", "data", 0644);
    G = &wd; wd.quiet = !any_fault_enabled(); wd.k.reserve(64);
        deadline(now() + 20000 * SEC, "stuck", "processes and their users do not come to an end");
    JoinAll l, j; l.go([&wd] { M_event_loop(wd.ev, M_TIMEOUT_INF); });
    for (uint64_t n = 1 + wl(3); n; n--) j.go([] { i06_user(); }); j.join();
    M_event_done(wd.ev); l.join(); M_event_destroy(wd.ev);
    for (Kid *k : wd.k) SIM_CHECK(!k->started || k->ended || k->killed || proc_stats().zombies == 0, "still-running", "program %zu still runs", k->id);
    SIM_CHECK(wait_until([] { return proc_stats().forks == proc_stats().exits; }, SEC, "exits"), "still-running", "a program outlives its destroyed object"); SIM_CHECK(proc_stats().zombies == 0, "zombie", "programs that ended were never waited for");
    for (Kid *k : wd.k) { if (k->mu) M_thread_mutex_destroy(k->mu); if (k->eof && !k->user_killed && !k->tmo && (k->kind == "sink" || k->kind == "cat")) SIM_CHECK(k->got == k->in.substr(0, k->sent), "lost-input", "%zu bytes were written to program %zu, it got %zu", k->sent, k->id, k->got.size()); }
    deadline_clear(); world_end();
}
SIM_WORLD(I06, i06_world, "io/m_io_process.c, io/m_io_pipe_posix.c, event loop, thread layer", "fork/exec/waitid/kill, pipes, the programs started, files", 1);
