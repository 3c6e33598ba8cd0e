/* L03: log files: every accepted line once and in order over the current and the rotated files */
#include "w_common.h"
#include <mstdlib/mstdlib_log.h>

namespace l03 {
struct Line { std::string id; int inc, thr; uint64_t b, e; bool crashed; };       /* e: NEVER while the call runs */
struct W { std::vector<Line> l; uint64_t seq = 0; size_t keep = 0, asize = 0, atime = 0; std::string ext, dir, name; bool dirty = false; size_t ext_moves = 0, maxline = 0, archived = 0, arch_failed = 0; bool arch_running = false, suspended = false; bool arch_may_fail = false; };
static W *L; static M_log_t *g_log;
static const char *CMD = "zip -9";
static void put(std::string &s, const std::string &v) { uint64_t n = v.size(); s.append((char *)&n, 8); s += v; }
static std::string take(const std::string &s, size_t &o) { uint64_t n; memcpy(&n, s.data() + o, 8); std::string r = s.substr(o + 8, n); o += 8 + n; return r; }
static std::string save() { std::string s; W &w = *L; put(s, std::to_string(w.seq)); put(s, std::to_string(w.keep)); put(s, std::to_string(w.asize)); put(s, std::to_string(w.atime)); put(s, w.ext); put(s, w.name); put(s, std::to_string(w.ext_moves)); put(s, std::to_string(w.maxline)); put(s, std::to_string(w.l.size())); for (auto &l : w.l) { put(s, l.id); put(s, std::to_string(l.inc)); put(s, std::to_string(l.thr)); put(s, std::to_string(l.b)); put(s, std::to_string(l.e)); } return s; }
static void load(const std::string &s) { size_t o = 0; W &w = *L; w.seq = std::stoull(take(s, o)); w.keep = std::stoul(take(s, o)); w.asize = std::stoul(take(s, o)); w.atime = std::stoul(take(s, o)); w.ext = take(s, o); w.name = take(s, o); w.ext_moves = std::stoul(take(s, o)); w.maxline = std::stoul(take(s, o)); size_t n = std::stoul(take(s, o)); while (n--) { Line l; l.id = take(s, o); l.inc = std::stoi(take(s, o)); l.thr = std::stoi(take(s, o)); l.b = std::stoull(take(s, o)); l.e = std::stoull(take(s, o)); l.crashed = true; w.l.push_back(l); } w.dirty = true; }
/* the archive command: turns "path" into "path<ext>" */
static int zip(ProcCtx &c)
{
    W &w = *L; std::string pre = std::string("exec ") + CMD + " \"";
    SIM_CHECK(c.argv.size() == 3 && c.argv[1] == "-c" && c.argv[2].compare(0, pre.size(), pre) == 0 && c.argv[2].back() == '"', "archive-command", "the shell was told to run '%s'", c.argv.size() > 2 ? c.argv[2].c_str() : "?");
    std::string p = c.argv[2].substr(pre.size()); p.pop_back(); SIM_CHECK(p == w.dir + "/" + w.name + ".1", "archive-command", "asked to archive '%s'", p.c_str());
    SIM_CHECK(!w.arch_running, "two-archivers", "a second archive command is started while the first still runs"); w.arch_running = true;
    std::string before; bool had = fs_read_file(p, &before); SIM_CHECK(had, "archive-gone", "the file to archive does not exist");
    for (uint64_t n = choose(SCHED, 6); n; n--) { if (choose(SCHED, 2)) point("zip"); else sleep_ns(choose(SCHED, 60) * MS); if (c.killed()) break; }
    std::string after; w.arch_running = false; if (c.killed()) { probe("logfile.archiver_killed"); return 1; }
    if (w.arch_may_fail && choose(FAULT, 3) == 0) { w.arch_failed++; probe("logfile.archiver_failed"); return 1; }
    SIM_CHECK(fs_read_file(p, &after) && after == before, "archive-moved", "the file was changed or moved while it was being archived");
    if (!fs_rename(p, p + w.ext)) fail("archive-moved", "cannot rename"); w.archived++; probe("logfile.archived");
    return 0;
}
static std::string longest_name(size_t k) { return L->dir + "/moved." + std::to_string(k); }
struct Seg { std::string name, data; size_t num; };
static void check(bool flushed)
{
    W &w = *L; std::vector<Seg> segs; std::set<size_t> nums; std::map<std::string, size_t> want; for (size_t i = 0; i < w.l.size(); i++) want[w.l[i].id] = i;
    for (size_t k = 0; k < w.ext_moves; k++) { Seg s; s.name = longest_name(k); s.num = 0; if (fs_read_file(s.name, &s.data)) segs.push_back(s); }
    std::vector<Seg> rot;
    for (auto &f : fs_list(w.dir)) {
        if (f.compare(0, w.name.size() + 1, w.name + ".")) continue; std::string r = f.substr(w.name.size() + 1); size_t d = r.find_first_not_of("0123456789"); std::string tail = d == std::string::npos ? "" : r.substr(d); if (d == 0 || (!tail.empty() && tail != w.ext)) continue;
        Seg s; s.name = f; s.num = std::stoul(r.substr(0, d)); fs_read_file(w.dir + "/" + f, &s.data); SIM_CHECK(!nums.count(s.num) , "two-files", "two rotated files have the number %zu", s.num); nums.insert(s.num); rot.push_back(s);
        SIM_CHECK(s.num >= 1 && s.num <= w.keep, "too-many-files", "%s exists, %zu rotated files are to be kept", f.c_str(), w.keep);
        if (!w.dirty && !w.ext.empty() && !w.arch_may_fail && flushed) SIM_CHECK(!tail.empty(), "not-archived", "%s was not archived", f.c_str());
    }
    std::sort(rot.begin(), rot.end(), [](const Seg &a, const Seg &b) { return a.num > b.num; }); for (auto &s : rot) segs.push_back(s);
    if (!w.dirty) for (size_t k = 1; k <= nums.size(); k++) SIM_CHECK(nums.count(k), "gap", "%zu rotated files, none has the number %zu", nums.size(), k);
    Seg head; head.name = w.name; head.num = 0; bool hh = fs_read_file(w.dir + "/" + w.name, &head.data); if (hh) segs.push_back(head); else SIM_CHECK(w.dirty || w.keep == 0 || true, "head-gone", "no current log file");
    std::vector<size_t> P; std::map<size_t, std::string> where;
    for (auto &s : segs) {
        size_t o = 0; bool is_head = &s == &segs.back() && hh;
        if (!w.dirty && w.asize) SIM_CHECK(s.data.size() <= w.asize + w.maxline, "file-size", "%s has %zu bytes, files are rotated at %zu", s.name.c_str(), s.data.size(), w.asize);
        if (!w.dirty && w.asize && s.num && !w.atime && !w.ext_moves) SIM_CHECK(s.data.size() > w.asize || w.seq == 0 || true, "rotated-early", "%s was rotated with %zu bytes", s.name.c_str(), s.data.size());
        int64_t t0 = 0, t1 = 0;
        while (o < s.data.size()) {
            size_t e = s.data.find('\n', o); std::string ln = s.data.substr(o, e == std::string::npos ? e : e - o); o = e == std::string::npos ? s.data.size() : e + 1;
            size_t p = ln.rfind('<'); bool good = e != std::string::npos && p != std::string::npos && ln.back() == '>' && want.count(ln.substr(p));
            static const std::string note = "Log file stream reopened due to I/O error.";
            if (!good) { SIM_CHECK(w.dirty, "garbled-line", "%s contains \"%.80s\"", s.name.c_str(), ln.c_str()); if (ln.size() >= note.size() && ln.compare(ln.size() - note.size(), std::string::npos, note) == 0) probe("logfile.note"); else probe("logfile.partial_line"); continue; }
            std::string pre = ln.substr(0, p); size_t d = pre.find_first_not_of("0123456789"); if (pre.substr(d == std::string::npos ? 0 : d) != ": ") SIM_CHECK(w.dirty && pre.size() >= 2 && pre.compare(pre.size() - 2, 2, ": ") == 0, "garbled-line", "%s contains \"%.80s\"", s.name.c_str(), ln.c_str());
            int64_t t = strtoll(pre.c_str(), NULL, 10); if (!t0) t0 = t; t1 = t;
            size_t id = want[ln.substr(p)]; SIM_CHECK(!where.count(id), "duplicate-line", "%s is in %s and in %s", w.l[id].id.c_str(), where[id].c_str(), s.name.c_str()); where[id] = s.name; P.push_back(id);
        }
        if (!w.dirty && w.atime && !fault_enabled_ever(F_WALL_JUMP) && !w.suspended) SIM_CHECK(t1 - t0 <= (int64_t)w.atime + (any_fault_enabled() ? 60 : 5), "file-age", "%s has lines of %lld and %lld, files are rotated after %zu s", s.name.c_str(), (long long)t0, (long long)t1, w.atime);
        (void)is_head;
    }
    uint64_t maxb = 0; size_t mi = 0;
    for (auto i : P) { SIM_CHECK(w.l[i].e >= maxb, "order", "%s comes after %s, which was logged later", w.l[i].id.c_str(), w.l[mi].id.c_str()); if (w.l[i].b > maxb) { maxb = w.l[i].b; mi = i; } }
    /* what may be missing: the oldest lines when rotation had to delete files, the last ones of a process that died */
    bool full = w.keep == 0 ? true : nums.size() + (w.dirty ? 1 : 0) >= w.keep;
    if (w.keep == 0 && !w.asize && !w.atime && !w.dirty && flushed) full = true;
    
    for (size_t i = 0; i < w.l.size(); i++) {
        if (where.count(i)) continue; Line &y = w.l[i]; if (y.e == NEVER) continue;
        bool old = full && (P.empty() || !(w.l[P[0]].e < y.b)); bool tail = y.crashed || !flushed;
        if (!old && tail) for (auto k : P) if (w.l[k].inc == y.inc && w.l[k].b > y.e) { tail = false; break; }
        SIM_CHECK(old || tail, "line-lost", "%s was logged and is in none of the files (%zu rotated files of %zu, %zu of %zu lines there)", y.id.c_str(), nums.size(), w.keep, P.size(), w.l.size());
        probe(old ? "logfile.rotated_away" : "logfile.lost_at_crash");
    }
    if (nums.size()) probe("logfile.rotated"); probe("logfile.checked");
}
static const char *DECOY[] = { ".bak", ".1x", "x.1", ".7.old", ".-1", "1", ".1.gzip", ".2.gz.tmp" };
/* starting the thread again has no error path */
static void resume() { sim::thread_fail_exempt() = true; M_log_resume(g_log, NULL); sim::thread_fail_exempt() = false; }
static void log_file()
{
    world_begin(); sim::thread_fail_exempt() = false; allow({ F_STALL, F_SPURIOUS_WAKE, F_EINTR, F_SHORT_WRITE, F_DISK_EIO_WRITE, F_DISK_FULL, F_DISK_OPEN_FAIL, F_DISK_RENAME_FAIL, F_DISK_UNLINK_FAIL, F_CRASH, F_FORK_FAIL, F_PIPE_FAIL, F_WALL_JUMP, F_THREAD_CREATE_FAIL });
    W w; L = &w; w.dir = "/logs"; fs_cfg().power_loss = false; fs_cfg().no_exdev = true; fs_mkdirs(w.dir); program_register("/bin/sh", zip); opts().max_steps = 1000000;
    bool again = incarnation() && !carried().empty();
    size_t keep = choose(CFG, 6) ? choose(CFG, 5) : 9 + choose(CFG, 5), asize = choose(CFG, 2) ? 100 + choose(CFG, 900) : 0, at = choose(CFG, 3) == 0 ? 1 + choose(CFG, 5) : 0; bool ar = choose(CFG, 2), odd = choose(CFG, 6) == 0; w.arch_may_fail = ar && choose(CFG, 3) == 0;
    bool af = w.arch_may_fail;
    if (again) load(carried()); else { w.keep = keep; w.asize = asize; w.atime = at; w.ext = ar ? (choose(CFG, 3) ? ".gz" : ".7") : ""; w.name = odd ? "app[1]*.log" : "app.log"; for (auto d : DECOY) fs_write_file(w.dir + "/" + w.name + d, d); }
    w.arch_may_fail = af; bool disk = false; for (auto f : { F_DISK_EIO_WRITE, F_DISK_FULL, F_DISK_OPEN_FAIL, F_DISK_RENAME_FAIL, F_DISK_UNLINK_FAIL, F_SHORT_WRITE }) disk |= fault_enabled(f);
    if (disk || fault_enabled(F_FORK_FAIL) || fault_enabled(F_PIPE_FAIL) || fault_enabled(F_WALL_JUMP)) w.dirty = true;
    if (af) w.dirty = true;
    fs_on_crash([] { return save(); });
    deadline(now() + 20000 * SEC, "stuck", "logging does not come to an end");
    bool mv = !w.asize && !w.atime && w.ext.empty() && choose(CFG, 2); if (again) mv = w.ext_moves > 0;
    for (size_t session = 0, sessions = 1 + (wl(3) ? 0 : wl(3)); session < sessions; session++) { bool last_session = session + 1 == sessions;      /* each opens the files anew */
    g_log = M_log_create(M_LOG_LINE_END_UNIX, M_TRUE, NULL); M_log_set_time_format(g_log, "%t"); M_log_module_t *mod = NULL; std::string path = w.dir + "/" + w.name;
    if (fault_enabled(F_CRASH) || wl(3)) { faults_hold_disk(true); }
    M_log_error_t r;
    for (int k = 0; ; k++) { r = M_log_module_add_file(g_log, path.c_str(), w.keep, w.asize, w.atime, 10000000, w.ext.empty() ? NULL : CMD, w.ext.empty() ? NULL : w.ext.c_str(), &mod); if (r == M_LOG_SUCCESS) break; SIM_CHECK((disk && r == M_LOG_UNREACHABLE) || (fault_enabled(F_THREAD_CREATE_FAIL) && r == M_LOG_GENERIC_FAIL), "add-failed", "adding the file failed: %s", M_log_err_to_str(r)); probe("logfile.add_failed"); SIM_CHECK(!mod, "add-failed", "a module was returned together with an error"); if (k == 2) { faults_hold_disk(true); sim::thread_fail_exempt() = true; } SIM_CHECK(k < 20, "add-failed", "%s", M_log_err_to_str(r)); }
    faults_hold_disk(false);  sim::thread_fail_exempt() = false;
    M_log_module_set_accepted_tags(g_log, mod, 1);
    size_t np = 1 + wl(3), nm = 1 + wl(wl(3) ? 12 : 40), running = np; int inc = incarnation(); bool slow = wl(2);
    JoinAll j;
    for (size_t p = 0; p < np; p++) j.go([&w, p, nm, inc, slow, session, &running] {
        for (size_t i = 0; i < nm; i++) {
            Line l; char b[64]; snprintf(b, sizeof b, "<%d.%zu.%zu.%zu:", inc, session, p, i); l.id = b; for (size_t k = wl(5) ? wl(30) : wl(300); k; k--) l.id += (char)('a' + k % 26); l.id += ">"; l.inc = inc; l.thr = (int)p; l.crashed = false; l.e = NEVER; l.b = ++w.seq; w.maxline = std::max(w.maxline, l.id.size() + 16);
            size_t at2 = w.l.size(); w.l.push_back(l); std::string t = l.id;
            M_log_error_t r2 = M_log_write(g_log, 1, NULL, t.c_str()); SIM_CHECK(r2 == M_LOG_SUCCESS, "write-failed", "logging failed: %s", M_log_err_to_str(r2)); w.l[at2].e = ++w.seq;
            if (wl(3) == 0) jitter(); if (slow && wl(4) == 0) sleep_ns(wl(1500) * MS); if (slow && wl(40) == 0) sleep_ns(wl(100) * SEC);
        }
        running--;
    });
    bool susp = false, moves = mv; 
    for (size_t n = wl(10); n; n--) {
        jitter(); if (wl(5) == 0) sleep_ns(wl(2000) * MS);
        switch (wl(5)) {
        case 0: case 1: if (!moves && !susp) { SIM_CHECK(M_log_module_file_rotate(g_log, mod) == M_LOG_SUCCESS, "rotate-failed", "rotate refused"); } break;
        case 2: if (moves && !susp) { if (fs_rename(path, longest_name(w.ext_moves))) { w.ext_moves++; probe("logfile.moved"); } M_log_reopen_all(g_log); } break;
        case 3: if (!susp) { M_log_suspend(g_log); susp = w.suspended = true; std::string a, c; fs_read_file(path, &a); SIM_CHECK(fs_open_handles() == 0, "suspend", "the log file is open although logging is suspended"); sleep_ns(wl(1000) * MS); fs_read_file(path, &c); SIM_CHECK(a == c, "suspend", "the log file changed while logging is suspended"); probe("logfile.suspend"); } break;
        default: if (susp) { resume(); susp = false; } break;
        }
    }
    if (susp && wl(4)) { resume(); susp = false; }
    j.join();
    bool quiet = wl(3) == 0 && !susp;
    if (!quiet && wl(2) && !fault_enabled(F_CRASH)) sleep_ns(wl(3000) * MS);
    if (last_session) faults_stop();
    if (susp) { resume(); susp = false; }
    if (quiet && !w.dirty && w.keep && !moves) {
        /* nothing else going on: rotating moves the current file to number 1 */
        std::string last = "<last" + std::to_string(session) + ".0.0:>"; Line l; l.id = last; l.inc = inc; l.thr = 0; l.crashed = false; l.b = ++w.seq; M_log_write(g_log, 1, NULL, last.c_str()); l.e = ++w.seq; w.l.push_back(l);
        auto head = [&] { std::string s; fs_read_file(path, &s); return s; };
        SIM_CHECK(wait_until([&] { return head().find(last) != std::string::npos; }, 3600 * SEC, "line written"), "not-written", "a line never reaches the file");
        std::string h = head(); M_log_module_file_rotate(g_log, mod);
        SIM_CHECK(wait_until([&] { std::string a; return (fs_read_file(path + ".1", &a) || fs_read_file(path + ".1" + w.ext, &a)) && a == h && fs_exists(path) && head().empty(); }, 3600 * SEC, "rotated"), "not-rotated", "a rotation that was asked for never happened"); probe("logfile.rotated_on_request");
    }
    if (wl(4) == 0) { SIM_CHECK(M_log_module_remove(g_log, mod) == M_LOG_SUCCESS, "remove-failed", "remove"); r = M_log_module_file_rotate(g_log, mod); SIM_CHECK(r == M_LOG_MODULE_NOT_FOUND, "removed-module", "using a removed module says %s", M_log_err_to_str(r)); }
    if (wl(2)) M_log_destroy_blocking(g_log, 0); else M_log_destroy(g_log);
    SIM_CHECK(wait_until([] { return live_fibers() <= base_fibers(); }, 3600 * SEC, "writer ends"), "thread-leak", "the log's thread does not end");
    check(true); w.suspended |= !last_session; if (session) probe("logfile.reopened"); SIM_CHECK(fs_open_handles() == 0, "file-leak", "%zu files left open", fs_open_handles());
    for (auto d : DECOY) { std::string s; SIM_CHECK(fs_read_file(w.dir + "/" + w.name + d, &s) && s == d, "foreign-file", "%s%s, which is not one of the log's files, was touched", w.name.c_str(), d); }
    SIM_CHECK(proc_stats().zombies == 0, "zombie", "archive commands that ended were never waited for");
    }
    deadline_clear(); world_end();
}
}
using l03::log_file;
SIM_WORLD(L03, log_file, "log/m_log_file.c, m_log.c, m_async_writer.c, base/fs, thread/m_popen.c, threads", "disk, clock, fork/exec and the archive command, threads", 1);
