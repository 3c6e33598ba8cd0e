/* S04: the pool, statement code, the SQLite driver and SQLite itself on the simulated disk: what was reported committed survives
   crashes, what was reported failed leaves nothing behind, transactions are all or nothing and isolated from each other */
#include "w_common.h"
#include <mstdlib/mstdlib_sql.h>

namespace {
struct Tx { int id; char state; int rows; int from, to, amt; int mode; };      /* state A attempted, C reported committed, F reported failed; rows x<id>a.. */
struct W { M_sql_connpool_t *pool; std::vector<Tx> tx; int nacct = 3; int next = 1; bool lossy = false; M_uint32 flags = 0; };
W *w;
struct Arg { Tx t; bool user_fail; };
}
#define INIT 1000
static std::string save()
{
    std::string s = std::to_string(w->next) + "\n"; char b[128];
    for (auto &t : w->tx) { snprintf(b, sizeof b, "%d %c %d %d %d %d\n", t.id, t.state, t.rows, t.from, t.to, t.amt); s += b; }
    return s;
}
static void load(const std::string &s)
{
    const char *p = s.c_str(); w->next = atoi(p); p = strchr(p, '\n') + 1;
    while (*p) { Tx t; int n; sscanf(p, "%d %c %d %d %d %d\n%n", &t.id, &t.state, &t.rows, &t.from, &t.to, &t.amt, &n); w->tx.push_back(t); p += n; }
}
static M_sql_stmt_t *mk(const char *q) { M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_error_t e = M_sql_stmt_prepare(s, q); SIM_CHECK(e == M_SQL_ERROR_SUCCESS, "prepare", "%s: %s", q, M_sql_stmt_get_error_string(s)); return s; }
static std::string rk(int id, int i) { char b[32]; snprintf(b, sizeof b, "x%05d%c", id, 'a' + i); return b; }
static std::string ak(int i) { return "acct" + std::to_string(i); }
static M_sql_error_t ins(M_sql_trans_t *tx, const Tx &t)
{
    M_sql_stmt_t *s = mk("INSERT INTO t (k, v) VALUES (?, ?)");
    for (int i = 0; i < t.rows; i++) { if (i) M_sql_stmt_bind_new_row(s); M_sql_stmt_bind_text_dup(s, rk(t.id, i).c_str(), 0); M_sql_stmt_bind_int64(s, t.id * 10 + i); }
    M_sql_error_t e = tx ? M_sql_trans_execute(tx, s) : M_sql_stmt_execute(w->pool, s);
    if (!M_sql_error_is_error(e)) SIM_CHECK(M_sql_stmt_result_affected_rows(s) == (size_t)t.rows, "bad-result", "affected rows %zu of %d", M_sql_stmt_result_affected_rows(s), t.rows);
    M_sql_stmt_destroy(s); return e;
}
/* a consistent look at the accounts: money is never created or lost */
static M_sql_error_t audit(M_sql_trans_t *tx, bool chunks)
{
    M_sql_stmt_t *s = mk("SELECT k, v FROM t WHERE k LIKE ? ORDER BY k"); M_sql_stmt_bind_text_const(s, "acct%", 0); if (chunks) M_sql_stmt_set_max_fetch_rows(s, 1 + wl(2));
    int64_t sum = 0; int n = 0; M_sql_error_t e = tx ? M_sql_trans_execute(tx, s) : M_sql_stmt_execute(w->pool, s);
    auto take = [&] { for (size_t i = 0; i < M_sql_stmt_result_num_rows(s); i++) { const char *k = M_sql_stmt_result_text_direct(s, i, 0); SIM_CHECK(k && ak(n) == k, "bad-result", "row %d of the accounts is %s", n, k ? k : "(null)"); sum += M_sql_stmt_result_int64_direct(s, i, 1); n++; } };
    if (!chunks) { if (!M_sql_error_is_error(e)) take(); }
    else while (e == M_SQL_ERROR_SUCCESS_ROW) { e = M_sql_stmt_fetch(s); if (!M_sql_error_is_error(e)) take(); if (wl(4) == 0) jitter(); }
    M_sql_stmt_destroy(s);
    if (M_sql_error_is_error(e)) return e;
    SIM_CHECK(n == w->nacct && sum == (int64_t)w->nacct * INIT, "not-isolated", "a reader saw %d accounts holding %lld, there are %d holding %d", n, (long long)sum, w->nacct, w->nacct * INIT);
    probe("sqlite.audit");
    return e;
}
static M_sql_error_t cmd(M_sql_trans_t *tx, void *arg, char *error, size_t n)
{
    Arg *a = (Arg *)arg; const Tx &t = a->t; M_sql_error_t e;
    for (int step = 0; step < 2; step++) {
        if ((step == 0) == (t.mode & 1)) { e = ins(tx, t); if (M_sql_error_is_error(e)) return e; }
        else if (t.amt) {
            for (int i = 0; i < 2; i++) {
                M_sql_stmt_t *s = mk("UPDATE t SET v = v + ? WHERE k = ?"); M_sql_stmt_bind_int64(s, i ? t.amt : -t.amt); M_sql_stmt_bind_text_dup(s, ak(i ? t.to : t.from).c_str(), 0);
                e = M_sql_trans_execute(tx, s); if (!M_sql_error_is_error(e)) SIM_CHECK(M_sql_stmt_result_affected_rows(s) == 1, "bad-result", "update affected %zu rows", M_sql_stmt_result_affected_rows(s));
                M_sql_stmt_destroy(s); if (M_sql_error_is_error(e)) return e;
                if (wl(4) == 0) jitter();
            }
        }
    }
    if (t.mode & 2) { e = audit(tx, t.mode & 4); if (M_sql_error_is_error(e)) return e; }
    if (a->user_fail) { snprintf(error, n, "no"); return M_SQL_ERROR_USER_FAILURE; }
    return M_SQL_ERROR_SUCCESS;
}
static void outcome(int id, M_sql_error_t e, bool user_fail, const char *msg)
{
    bool bad = M_sql_error_is_error(e); for (auto &t : w->tx) if (t.id == id) t.state = bad ? (w->lossy ? 'A' : 'F') : 'C';      /* with a disk that fails, what was reported failed may still be there */
    if (M_sql_error_is_error(e)) {
        probe("sqlite.failed");
        if (user_fail && e == M_SQL_ERROR_USER_FAILURE) return;
        SIM_CHECK(w->lossy, "spurious-error", "work failed with %d (%s: %s) though the disk never did", e, M_sql_error_string(e), msg);
    } else { SIM_CHECK(!user_fail, "failed-transaction-committed", "a transaction its user failed was reported committed"); probe("sqlite.committed"); }
}
static void op(void)
{
    if (wl(6) == 0) { M_sql_error_t e = audit(NULL, wl(2)); if (M_sql_error_is_error(e)) SIM_CHECK(w->lossy || M_sql_error_is_rollback(e), "spurious-error", "select failed with %d (%s)", e, M_sql_error_string(e)); return; }
    Tx t; t.id = w->next++; t.state = 'A'; t.rows = 1 + (int)wl(4); t.from = (int)wl(w->nacct); t.to = (int)wl(w->nacct); t.amt = wl(2) ? 1 + (int)wl(50) : 0; t.mode = (int)wl(8);
    int kind = (int)wl(5);
    if (kind >= 3) t.amt = 0;
    if (kind == 4) t.rows = 1;
    w->tx.push_back(t);
    if (kind <= 2) { Arg a = { t, wl(7) == 0 }; char err[256]; M_sql_error_t e = M_sql_trans_process(w->pool, wl(2) ? M_SQL_ISOLATION_SERIALIZABLE : M_SQL_ISOLATION_READCOMMITTED, cmd, &a, err, sizeof err); outcome(t.id, e, a.user_fail, err); }
    else if (kind == 3) outcome(t.id, ins(NULL, t), false, "insert");
    else {
        M_sql_stmt_t *s = M_sql_stmt_groupinsert_prepare(w->pool, "INSERT INTO t (k, v) VALUES (?, ?)"); M_sql_stmt_bind_text_dup(s, rk(t.id, 0).c_str(), 0); M_sql_stmt_bind_int64(s, t.id * 10);
        M_sql_error_t e = M_sql_stmt_execute(w->pool, s); outcome(t.id, e, false, M_sql_stmt_get_error_string(s)); M_sql_stmt_destroy(s);
    }
    if (wl(3) == 0) jitter();
}
static void verify(void)
{
    std::map<std::string, int64_t> db;
    for (int tries = 0; ; tries++) {
        db.clear(); M_sql_stmt_t *s = mk("SELECT k, v FROM t"); M_sql_error_t e = M_sql_stmt_execute(w->pool, s);
        if (!M_sql_error_is_error(e)) for (size_t i = 0; i < M_sql_stmt_result_num_rows(s); i++) { std::string k = M_sql_stmt_result_text_direct(s, i, 0); SIM_CHECK(!db.count(k), "duplicate-row", "row %s twice", k.c_str()); db[k] = M_sql_stmt_result_int64_direct(s, i, 1); }
        std::string m = M_sql_stmt_get_error_string(s); M_sql_stmt_destroy(s);
        if (!M_sql_error_is_error(e)) break;
        SIM_CHECK(w->lossy && tries < 30, "not-recovered", "reading the table fails: %s", m.c_str());
        if (tries > 3) faults_stop();
    }
    std::vector<int64_t> bal(w->nacct, INIT); size_t want = w->nacct;
    for (auto &t : w->tx) {
        int n = 0; for (int i = 0; i < t.rows; i++) { auto d = db.find(rk(t.id, i)); if (d != db.end()) { n++; SIM_CHECK(d->second == t.id * 10 + i, "wrong-value", "row %s holds %lld", d->first.c_str(), (long long)d->second); } }
        SIM_CHECK(n == 0 || n == t.rows, "not-atomic", "%d of the %d rows of transaction %d are in the database", n, t.rows, t.id);
        if (t.state == 'C') SIM_CHECK(n, "committed-lost", "transaction %d was reported committed and is gone (incarnation %d)", t.id, incarnation());
        if (t.state == 'F') SIM_CHECK(!n, "failed-applied", "transaction %d was reported failed and is in the database", t.id);
        if (n) { want += n; bal[t.from] -= t.amt; bal[t.to] += t.amt; }
    }
    SIM_CHECK(db.size() == want, "invented-row", "%zu rows, %zu expected", db.size(), want);
    for (int i = 0; i < w->nacct; i++) SIM_CHECK(db.count(ak(i)) && db[ak(i)] == bal[i], "not-atomic", "account %d holds %lld, the transactions in the database make it %lld", i, (long long)db[ak(i)], (long long)bal[i]);
}
static void tr(M_sql_trace_t t, const M_sql_trace_data_t *d, void *)
{
    const char *q = M_sql_trace_get_query_prepared(d), *e = M_sql_trace_get_error_string(d);
    logf("trace %d conn %zu rows %zu/%zu err %d %s | %s", (int)t, M_sql_trace_get_conn_id(d), M_sql_trace_get_bind_rows(d), M_sql_trace_get_affected_rows(d), (int)M_sql_trace_get_error(d), q ? q : "", e ? e : "");
}
static void sql_sqlite()
{
    world_begin(); allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_DISK_EIO_READ, F_DISK_EIO_WRITE, F_DISK_FULL, F_DISK_FSYNC_FAIL, F_CRASH });
    fs_cfg().track_durability = true; opts().max_steps = 1500000;
    W ww; w = &ww; w->lossy = fault_enabled(F_DISK_EIO_READ) || fault_enabled(F_DISK_EIO_WRITE) || fault_enabled(F_DISK_FULL) || fault_enabled(F_DISK_FSYNC_FAIL);
    fs_cfg().power_loss = !w->lossy;      /* SQLite itself does not promise to survive a power loss right after I/O errors */
    static const char *jm[] = { "", ";journal_mode=WAL", ";journal_mode=TRUNCATE", ";journal_mode=PERSIST", ";journal_mode=DELETE" };
    int mode = (int)choose(CFG, 5); if (mode == 4 && fault_enabled(F_CRASH)) mode = 0;
    if (w->lossy && mode < 2) mode = 2 + (int)choose(CFG, 2);      /* SQLite's WAL index may need every connection closed after I/O errors */
    size_t maxc = 1 + choose(CFG, 4); bool shared = choose(CFG, 2), first = incarnation() == 0 || carried().empty();
    if (choose(CFG, 3) == 1) w->flags |= M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL;
    char cs[256], err[256] = ""; snprintf(cs, sizeof cs, "path=/data/db.sqlite%s;shared_cache=%s;analyze=%s;integrity_check=%s", jm[mode], shared ? "yes" : "no", choose(CFG, 2) ? "yes" : "no", incarnation() ? "yes" : "no");
    if (!first) load(carried());
    SIM_CHECK(M_sql_connpool_create(&w->pool, "sqlite", cs, "u", "p", maxc, w->flags, err, sizeof err) == M_SQL_ERROR_SUCCESS, "pool-create", "%s", err);
    M_sql_connpool_add_trace(w->pool, tr, NULL);
    bool ready = !first; fs_on_crash([&] { return ready ? save() : std::string(); });
    deadline(now() + 100000 * SEC, "stuck", "database work does not come to an end");
    bool stop = false; Fiber *stopper = spawn("stopper", [&] { for (int i = 0; i < 10 && !stop; i++) sleep_ns(SEC); faults_stop(); });
    if (first) faults_hold_disk(true);      /* nor I/O errors while the very first page is written */
    for (int tries = 0; M_sql_error_is_error(M_sql_connpool_start(w->pool, err, sizeof err)); tries++) { SIM_CHECK(w->lossy, "start-failed", "the database does not open (incarnation %d): %s", incarnation(), err); probe("sqlite.start_failed"); if (tries > 3) faults_stop(); SIM_CHECK(tries < 40, "start-failed", "the database does not open: %s", err); sleep_ns(SEC); }
    if (first) {
        for (int tries = 0; ; tries++) {
            M_sql_stmt_t *s = mk("CREATE TABLE IF NOT EXISTS t (k TEXT PRIMARY KEY, v BIGINT)"); M_sql_error_t e = M_sql_stmt_execute(w->pool, s); std::string m = M_sql_stmt_get_error_string(s); M_sql_stmt_destroy(s);
            if (!M_sql_error_is_error(e)) {
                s = mk("INSERT OR IGNORE INTO t (k, v) VALUES (?, ?)"); for (int i = 0; i < w->nacct; i++) { M_sql_stmt_bind_new_row(s); M_sql_stmt_bind_text_dup(s, ak(i).c_str(), 0); M_sql_stmt_bind_int64(s, INIT); }
                e = M_sql_stmt_execute(w->pool, s); m = M_sql_stmt_get_error_string(s); M_sql_stmt_destroy(s);
            }
            if (!M_sql_error_is_error(e)) break;
            SIM_CHECK(w->lossy && tries < 30, "spurious-error", "setting up failed: %d %s", e, m.c_str()); if (tries > 3) faults_stop();
        }
        ready = true; faults_hold_disk(false);
    }
    verify();
    size_t nth = 1 + wl(4), nops = 1 + wl(8);
    JoinAll j; for (size_t i = 0; i < nth; i++) j.go([nops] { for (size_t k = 0; k < nops; k++) op(); });
    j.join(); stop = true; join(stopper);
    faults_stop();
    verify();
    { Tx t = { w->next++, 'A', 2, 0, 1, 1, 0 }; w->tx.push_back(t); Arg a = { t, false }; M_sql_error_t e = M_sql_trans_process(w->pool, M_SQL_ISOLATION_SERIALIZABLE, cmd, &a, err, sizeof err); SIM_CHECK(!M_sql_error_is_error(e), "not-recovered", "with the disk working again a transaction fails: %s", err); outcome(t.id, e, false, err); }
    verify();
    SIM_CHECK(M_sql_connpool_destroy(w->pool) == M_SQL_ERROR_SUCCESS, "destroy-refused", "the idle pool can not be destroyed");
    deadline_clear(); world_end();
}
SIM_WORLD(S04, sql_sqlite, "sql/*, SQLite driver, SQLite", "disk with a durability model, clock, threads", 3);
