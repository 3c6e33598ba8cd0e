/* T07 started programs: M_popen and what it gives back */
#include "w_common.h"

namespace {
struct Kid {
    std::string kind; size_t out = 0, err = 0; int rc = 0; uint64_t ms = 0; bool started = false, ended = false, killed = false, eof = false; std::string got; std::string so, se; uint64_t t_end = 0; bool in_open = true; size_t chunk = 4096;
};
std::vector<Kid> *K;
}
static std::string pat(int id, int which, size_t n) { std::string s; s.reserve(n); for (size_t i = 0; i < n; i++) s += (char)mix((uint64_t)id * 2 + which + 91, i); return s; }
static int sh_prog(ProcCtx &c)
{
    SIM_CHECK(c.argv.size() == 3 && c.argv[0] == "/bin/sh" && c.argv[1] == "-c", "command-line", "the shell got %zu arguments", c.argv.size());
    int id = -1; char extra[8]; SIM_CHECK(sscanf(c.argv[2].c_str(), "exec kid %d%1s", &id, extra) == 1 && id >= 0 && (size_t)id < K->size(), "command-line", "the shell was told to run '%s'", c.argv[2].c_str());
    SIM_CHECK(c.inherited() == 0, "inherited-descriptor", "the program has %zu descriptors besides its standard ones: it keeps other programs' pipes open", c.inherited());
    auto k = [id]() -> Kid & { return (*K)[(size_t)id]; };
    SIM_CHECK(!k().started, "started-twice", "program %d started twice", id); k().started = true;
    int rc = k().rc; std::string kind = k().kind; char b[4096]; ssize_t r;
    auto emit = [&](int fd, std::string s) { size_t o = 0; while (o < s.size()) { size_t n = std::min<size_t>(s.size() - o, 1 + choose(SCHED, k().chunk)); if (c.out(fd, s.data() + o, n) < 0) return false; o += n; if (choose(SCHED, 6) == 0) jitter(SCHED); } return true; };
    if (kind == "cat") { for (;;) { r = c.in(b, 1 + choose(SCHED, sizeof b)); if (r <= 0) break; k().got.append(b, (size_t)r); if (!emit(1, std::string(b, (size_t)r))) break; } k().eof = r == 0; }
    else if (kind == "sink") { for (;;) { r = c.in(b, sizeof b); if (r <= 0) break; k().got.append(b, (size_t)r); } k().eof = r == 0; emit(1, k().so); }
    else if (kind == "gen") { bool a = choose(SCHED, 2); if (a) emit(1, k().so); emit(2, k().se); if (!a) emit(1, k().so); }
    else if (kind == "mix") { size_t i = 0, j = 0; while (!c.killed() && (i < k().so.size() || j < k().se.size())) { size_t n = 1 + choose(SCHED, k().chunk); if (choose(SCHED, 2) && i < k().so.size()) { n = std::min(n, k().so.size() - i); emit(1, k().so.substr(i, n)); i += n; } else if (j < k().se.size()) { n = std::min(n, k().se.size() - j); emit(2, k().se.substr(j, n)); j += n; } } }
    else if (kind == "early") { c.close_fd(0); emit(1, k().so); }
    else if (kind == "sleep") { if (choose(SCHED, 2)) { c.close_fd(1); c.close_fd(2); } uint64_t t = now() + k().ms * MS; while (now() < t && !c.killed()) sleep_ns(std::min<uint64_t>(t - now(), 5 * MS)); }
    else if (kind == "hang") { emit(1, k().so); while (!c.killed()) sleep_ns(20 * MS); }
    k().ended = true; k().killed = c.killed(); k().t_end = now();
    return rc;
}
static void popen_user(int me)
{
    (void)me;
    for (uint64_t ops = 1 + wl(3); ops; ops--) {
        size_t id = K->size(); { Kid k; static const char *kinds[] = { "cat", "sink", "gen", "mix", "early", "sleep", "hang" }; k.kind = kinds[wl(7)]; static const int rcs[] = { 0, 0, 0, 1, 7, 255, 124, 125, 126, 127, -9, -15, -11 }; k.rc = rcs[wl(13)]; size_t big = (size_t[]){ 10, 200, 3000, 70000, 150000 }[wl(5)]; big = std::min<size_t>(big, net().bufcap < 65536 ? net().bufcap * 30 : big); k.out = wl(big); k.err = wl(3) ? 0 : wl(big); k.chunk = big > 3000 ? 1000 + wl(20000) : 1 + wl(500); if (k.kind == "cat") k.out = 0; if (k.kind == "hang") k.out = std::min<size_t>(k.out, 15); k.ms = wl(400); k.so = pat((int)id, 1, k.out); k.se = k.kind == "gen" || k.kind == "mix" ? pat((int)id, 2, k.err) : ""; K->push_back(k); }
        auto k = [id]() -> Kid & { return (*K)[id]; };
        char cmd[64]; snprintf(cmd, sizeof cmd, "kid %zu", id); M_popen_err_t err = (M_popen_err_t)7; bool want_err = wl(5);
        M_popen_handle_t *mp = M_popen(cmd, want_err ? &err : NULL);
        if (!mp) { SIM_CHECK(fault_enabled(F_FORK_FAIL) || fault_enabled(F_PIPE_FAIL), "start-failed", "no program although nothing failed (error %d)", err); if (want_err) SIM_CHECK(err == M_POPEN_ERR_PIPE || err == M_POPEN_ERR_SPAWN, "error-code", "error %d", err); probe("popen.fail"); continue; }
        std::string kind = k().kind, rd[3]; bool closed[3] = { false, false, false }, eof[3] = { false, false, false }; std::string sent; size_t echo_room = net().bufcap < 65536 ? 0 : 60000; bool done = false;
        auto drain = [&](int fd, uint64_t tmo) {
            char b[3000]; size_t n = 1 + wl(sizeof b); uint64_t t0 = now(); bool alive_writer = !k().ended && !k().killed;
            if (closed[fd]) { SIM_CHECK(M_popen_read(mp, fd == 1 ? M_POPEN_FD_READ : M_POPEN_FD_ERR, b, n, 0) == -1, "read-closed", "reading a closed stream does not fail"); return; }
            ssize_t r = M_popen_read(mp, fd == 1 ? M_POPEN_FD_READ : M_POPEN_FD_ERR, b, n, tmo);
            SIM_CHECK(r != -1, "read-error", "reading what program %zu (%s) wrote failed", id, kind.c_str());
            if (r == -2) { closed[fd] = eof[fd] = true; probe("popen.eof"); if (kind != "sleep") SIM_CHECK(!alive_writer || k().ended || k().killed, "early-eof", "end of stream while the program still runs"); }
            else if (r == 0) { SIM_CHECK(tmo != M_TIMEOUT_INF, "read-zero", "0 bytes without a timeout"); if (!fault_enabled(F_EINTR)) SIM_CHECK(now() - t0 >= tmo * MS, "read-early", "timed out after %.3f s, the timeout is %llu ms", (now() - t0) / 1e9, (unsigned long long)tmo); }
            else { SIM_CHECK(r > 0 && (size_t)r <= n, "read-length", "%zd bytes into a buffer of %zu", r, n); rd[fd].append(b, (size_t)r); }
            const std::string &w = fd == 2 ? k().se : kind == "cat" ? sent : k().so;
            SIM_CHECK(rd[fd].size() <= w.size() && w.compare(0, rd[fd].size(), rd[fd]) == 0, "wrong-data", "program %zu (%s): stream %d is not what the program wrote", id, kind.c_str(), fd);
        };
        auto put = [&](size_t n) {
            if (closed[0]) return;
            bool takes = kind == "cat" || kind == "sink"; if (kind == "cat" && sent.size() - rd[1].size() + n > echo_room) return;
            if (!takes && sent.size() + n > 10) n = 10 - std::min<size_t>(10, sent.size()); if (!n) return;
            std::string s = pat((int)id, 3, n + sent.size()).substr(sent.size()); size_t o = 0;
            while (o < n) {
                std::string rest = s.substr(o); sent += rest; bool gone = k().ended || k().killed; (void)gone;
                ssize_t r = M_popen_write(mp, M_POPEN_FD_WRITE, rest.data(), rest.size());
                SIM_CHECK(r != 0 && r <= (ssize_t)rest.size(), "write-length", "writing %zu bytes says %zd", rest.size(), r);
                if (r < 0) { SIM_CHECK(!takes || k().killed || k().ended, "write-error", "writing to program %zu (%s) failed, it still reads", id, kind.c_str()); closed[0] = true; sent.resize(sent.size() - rest.size()); probe("popen.write_fail"); return; }
                sent.resize(sent.size() - (rest.size() - (size_t)r)); o += (size_t)r;
            }
        };
        for (uint64_t n = wl(12); n; n--) {
            jitter();
            switch (wl(6)) {
            case 0: put(1 + wl(wl(4) ? 30 : 20000)); break;
            case 1: drain(1, wl(3) ? wl(60) : 0); break;
            case 2: drain(2, wl(3) ? wl(60) : 0); break;
            case 3: if (wl(4) == 0) { int r = M_popen_closefd(mp, M_POPEN_FD_WRITE); SIM_CHECK(r == (closed[0] ? 0 : 1), "closefd", "closing the input says %d", r); closed[0] = true; } break;
            case 4: { M_popen_status_t s = M_popen_check(mp); SIM_CHECK(s != M_POPEN_STATUS_ERROR, "check", "the program's state cannot be asked for"); if (s == M_POPEN_STATUS_DONE) { SIM_CHECK(k().ended || !k().started, "check", "program %zu (%s) reported as done while it runs", id, kind.c_str()); done = true; } else SIM_CHECK(!done, "check", "a program that was done is reported as running"); break; }
            default: jitter();
            }
        }
        /* take everything: the streams end when the program ends */
        if (wl(3) == 0 && kind != "hang") {
            if (!closed[0]) { M_popen_closefd(mp, M_POPEN_FD_WRITE); closed[0] = true; }
            bool a = k().out + sent.size() > 200 || wl(2); (void)a;
            while (!closed[1] || !closed[2]) { if (!closed[1]) drain(1, 20); if (!closed[2]) drain(2, closed[1] ? M_TIMEOUT_INF : 20); }
            if (!k().killed) { if (kind != "sleep") SIM_CHECK(rd[1] == (kind == "cat" ? sent : k().so), "lost-data", "program %zu (%s) wrote %zu bytes, %zu came out before the end of the stream", id, kind.c_str(), k().so.size(), rd[1].size()); if (kind == "gen" || kind == "mix") SIM_CHECK(rd[2] == k().se, "lost-data", "program %zu wrote %zu bytes to its error output, %zu came out", id, k().se.size(), rd[2].size()); }
            probe("popen.drained");
        }
        if (wl(4) == 0) { int f = 1 + (int)wl(2); if (!closed[f] && (kind == "sleep" || wl(2))) { /* the user is not interested in a stream: the program's writes fail from now on */ M_popen_closefd(mp, f == 1 ? M_POPEN_FD_READ : M_POPEN_FD_ERR); closed[f] = true; } }
        int how = (int)wl(4); if (kind == "hang" && how != 2) how = 2; if (how == 3) how = 0; char *ob = (char *)1, *eb = (char *)1; size_t ol = 9, el = 9; uint64_t tmo = how == 1 ? M_TIMEOUT_INF : wl(3) ? wl(500) : wl(20); bool bufs = how && wl(3); static const M_popen_err_t none = M_POPEN_ERR_INVALIDUSE; M_popen_err_t ce = none; uint64_t t0 = now(); bool quiet = !any_fault_enabled(); uint64_t kills0 = proc_stats().kills; (void)kills0;
        int rc = how == 0 ? M_popen_close(mp, &ce) : M_popen_close_ex(mp, bufs ? &ob : NULL, bufs ? &ol : NULL, bufs ? &eb : NULL, bufs ? &el : NULL, wl(9) ? &ce : NULL, tmo);
        uint64_t took = now() - t0; bool ended = k().ended || k().killed;
        if (rc == -2) {
            SIM_CHECK(how == 2, "killed", "program %zu (%s): closing without a timeout killed it", id, kind.c_str()); SIM_CHECK(took + 15 * MS >= tmo * MS, "killed-early", "killed after %.3f s, the timeout is %llu ms", took / 1e9, (unsigned long long)tmo); if (ce != none) SIM_CHECK(ce == M_POPEN_ERR_KILLSIGNAL, "error-code", "killed after the timeout, error code %d", ce); if (bufs) SIM_CHECK(!ob && !eb && !ol && !el, "buffers", "buffers returned for a program that was killed"); probe("popen.timeout");
        } else {
            SIM_CHECK(ended || !k().started, "close-early", "program %zu (%s): closing returned %d while the program still runs", id, kind.c_str(), rc);
            SIM_CHECK(k().started, "not-started", "program %zu never ran, result %d", id, rc); SIM_CHECK(!k().killed, "killed", "program %zu (%s) was killed and closing says %d", id, kind.c_str(), rc);
            int x = k().rc; int wrc = x < 0 || (x >= 124 && x <= 127) ? -1 : x; M_popen_err_t we = x < 0 ? M_POPEN_ERR_KILLSIGNAL : x == 127 ? M_POPEN_ERR_CMDNOTFOUND : x == 126 ? M_POPEN_ERR_PERM : x == 125 || x == 124 ? M_POPEN_ERR_NOEXEC : M_POPEN_ERR_NONE;
            SIM_CHECK(rc == wrc, "exit-code", "program %zu ended with %d, closing says %d", id, x, rc); if (ce != none) SIM_CHECK(ce == we, "error-code", "program %zu ended with %d, error code %d", id, x, ce);
            if (bufs && rc >= 0) {
                auto chk = [&](int fd, char *p, size_t l) { const std::string &w = fd == 2 ? k().se : kind == "cat" ? sent : k().so; if (closed[fd]) { SIM_CHECK(!p && !l, "buffers", "a buffer for a stream that was closed before"); return; } if (kind == "sleep") return; std::string all = rd[fd] + std::string(p ? p : "", l); SIM_CHECK(all == w, "lost-data", "program %zu (%s) wrote %zu bytes to stream %d, %zu were read before closing and %zu came with it", id, kind.c_str(), w.size(), fd, rd[fd].size(), l); };
                chk(1, ob, ol); chk(2, eb, el); probe("popen.bufs");
            } else if (bufs) SIM_CHECK(!ob && !eb, "buffers", "buffers returned for a failed program");
            if (kind == "cat" || kind == "sink") { if (!closed[0] || k().eof) SIM_CHECK(k().got == sent || (closed[1]), "lost-input", "%zu bytes were written to the program, it got %zu", sent.size(), k().got.size()); }
            probe("popen.done");
        }
        if (quiet && how == 2) SIM_CHECK(took <= tmo * MS + 3000 * MS, "close-late", "closing with a timeout of %llu ms took %.3f s", (unsigned long long)tmo, took / 1e9);
        if (bufs) { M_free(ob); M_free(eb); }
    }
}
static void popen_world()
{
    world_begin(); allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_FORK_FAIL, F_PIPE_FAIL });
    net_swarm(); program_register("/bin/sh", sh_prog);
    std::vector<Kid> k; k.reserve(64); K = &k; deadline(now() + 3600 * SEC, "stuck", "programs and their users do not come to an end");
    int nt = 1 + (int)wl(3); JoinAll j; for (int t = 0; t < nt; t++) j.go([t] { popen_user(t); }); j.join();
    deadline_clear();
    SIM_CHECK(wait_until([] { return proc_stats().zombies == 0; }, SEC, "reaped"), "zombie", "programs that ended were never waited for");
    world_end();
}
SIM_WORLD(T07, popen_world, "thread/m_popen.c, thread layer, M_thread_poll", "fork/exec/waitpid/kill, pipes, /bin/sh and the programs it starts", 1);
