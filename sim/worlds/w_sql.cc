/* S01 connection pool, S02 transactions and statements, S03 grouped inserts: the pool, statement and transaction code runs
   against a driver whose server is this file: a table of integers with real transactions, row locks and outages */
#include "w_common.h"
#include <mstdlib/mstdlib_sql.h>
#include <mstdlib/sql/m_sql_driver.h>
#include "sim_dl.h"

namespace {
struct Row { bool del; int64_t v; };
struct OpCtx { int fatal = 0, rollback = 0; bool in_op = false, once = false; int failed_exec = 0; };
struct Srv {
    std::map<std::string, int64_t> db; std::map<std::string, M_sql_driver_conn *> locks;
    std::set<M_sql_driver_conn *> conns; std::map<int, OpCtx> ctx; std::vector<char> up; size_t open[2] = { 0, 0 }, max[2] = { 0, 0 }, peak[2] = { 0, 0 }; size_t pools = 0;
    uint64_t opens = 0; int nhosts = 1; bool delays = false; size_t maxrows = 1; bool timing = false; bool slowdisc = false; std::vector<uint64_t> opened_on; std::vector<uint64_t> down_at, last_fail; bool lb = false;
    M_time_t t_idle = 0, t_reconn = 0, t_fallback = 0; bool cross = false; uint64_t conn_attempts = 0; bool ids = true; std::set<size_t> used_ids[2]; std::vector<int> order; bool runonce_first[2] = { false, false }; bool started = false; M_sql_error_t (*destroy_try)() = NULL;
};
Srv *SV;
}
struct M_sql_driver_connpool { int x; };
struct M_sql_driver_stmt { M_sql_driver_conn *c; std::string q; std::vector<std::pair<std::string, int64_t>> rows; size_t pos; };
struct M_sql_driver_conn {
    int host; bool ro; int user = -1; const char *what = ""; bool in_tx = false, aborted = false, dead = false; int owner = -1; bool cursor = false; M_sql_driver_stmt *cur = NULL; std::map<std::string, Row> ws; size_t nst = 0;
    uint64_t t_open, t_last = 0; size_t id = (size_t)-1; bool used = false;
};
static OpCtx &octx() { return SV->ctx[self_id()]; }
static void srv_delay() { if (SV->delays) { switch (choose(SCHED, 6)) { case 0: case 1: return; case 2: case 3: point("srv"); return; case 4: sleep_ns((1 + choose(SCHED, 900)) * US); return; default: sleep_ns((1 + choose(SCHED, 30)) * MS); } } else point("srv"); if (fault(F_SQL_DELAY)) sleep_ns((100 + choose(FAULT, 3000)) * MS); }
static void tx_end(M_sql_driver_conn *c) { c->in_tx = false; c->aborted = false; c->ws.clear(); for (auto i = SV->locks.begin(); i != SV->locks.end(); ) if (i->second == c) i = SV->locks.erase(i); else ++i; }
struct Use {
    M_sql_driver_conn *c;
    Use(M_sql_driver_conn *cc, const char *what) : c(cc)
    {
        SIM_CHECK(SV->conns.count(c), "use-after-disconnect", "%s on a connection that was disconnected", what);
        SIM_CHECK(c->user < 0, "connection-shared", "%s: connection %zu is already in use by thread %d in %s", what, c->id, c->user, c->what);
        c->user = self_id(); c->what = what;
        if (c->in_tx || c->cursor) SIM_CHECK(c->owner == self_id(), "connection-shared", "%s by thread %d: connection %zu is inside the %s of thread %d", what, self_id(), c->id, c->in_tx ? "transaction" : "open result", c->owner);
        srv_delay();
    }
    ~Use() { c->user = -1; c->t_last = now(); }
};
/* the first call of a new use of the connection: begin, or a statement outside a transaction */
static void use_start(M_sql_driver_conn *c, const char *what)
{
    SIM_CHECK(!c->in_tx, "transaction-leaked", "%s on connection %zu while a transaction of thread %d is still open on it", what, c->id, c->owner);
    SIM_CHECK(!c->dead, "failed-connection-reused", "%s on connection %zu after it reported a connection failure", what, c->id);
    SIM_CHECK(!c->cursor, "connection-shared", "%s on connection %zu while a result of thread %d is still being fetched from it", what, c->id, c->owner);
    if (SV->timing && c->used && c->t_last) {
        if (SV->t_idle) SIM_CHECK(now() - c->t_last <= (uint64_t)(SV->t_idle + 1) * SEC + 2 * SEC, "idle-connection-used", "connection used after %.1f s idle, limit %d s", (now() - c->t_last) / 1e9, (int)SV->t_idle);
        if (SV->t_reconn) SIM_CHECK(c->t_last - c->t_open <= (uint64_t)(SV->t_reconn + 1) * SEC + 2 * SEC, "old-connection-used", "connection returned at age %.1f s was used again, limit %d s", (c->t_last - c->t_open) / 1e9, (int)SV->t_reconn);
    }
    c->owner = self_id(); c->used = true;
}
static bool host_down(M_sql_driver_conn *c) { return !SV->up[c->host]; }
static M_sql_error_t conn_lost(M_sql_driver_conn *c, char *error, size_t n) { tx_end(c); c->dead = true; c->cursor = false; octx().rollback++; snprintf(error, n, "connection lost"); probe("sql.conn_lost"); return M_SQL_ERROR_CONN_LOST; }
static bool lost(M_sql_driver_conn *c) { return c->dead || host_down(c) || fault(F_SQL_DISCONNECT); }

/* ---- driver callbacks --------------------------------------------------------------------------- */
static M_bool d_init(char *, size_t) { return M_TRUE; }
static void d_destroy(void) {}
static M_bool d_createpool(M_sql_driver_connpool_t **dp, M_sql_connpool_t *, M_bool ro, const M_hash_dict_t *d, size_t *nh, char *error, size_t n)
{
    std::string h = M_hash_dict_get_direct(d, "hosts") ? M_hash_dict_get_direct(d, "hosts") : "";
    if (h.empty()) { snprintf(error, n, "no hosts"); return M_FALSE; }
    *nh = (size_t)atoi(h.c_str()); if (!*dp) { *dp = new M_sql_driver_connpool(); SV->pools++; } (void)ro;
    return M_TRUE;
}
static void d_destroypool(M_sql_driver_connpool_t *dp) { SV->pools--; delete dp; }
static M_sql_error_t d_connect(M_sql_driver_conn_t **out, M_sql_connpool_t *, M_bool ro, size_t host, char *error, size_t n)
{
    Srv *s = SV; s->conn_attempts++;
    SIM_CHECK(host < (size_t)s->nhosts, "bad-host", "host index %zu of %d", host, s->nhosts);
    s->open[ro]++; s->peak[ro] = std::max(s->peak[ro], s->open[ro]);
    SIM_CHECK(s->open[ro] <= s->max[ro], "pool-overflow", "%zu connections open or being opened, limit %zu", s->open[ro], s->max[ro]);
    s->order.push_back((int)host);
    srv_delay();
    if (s->started && wl(8) == 0) { SIM_CHECK(s->destroy_try() == M_SQL_ERROR_INUSE, "destroyed-in-use", "the pool was destroyed while a connection was being opened for a caller"); probe("sql.destroy_while_connecting"); }
    if (!s->up[host] || fault(F_SQL_CONNECT_FAIL)) { sleep_ns(choose(SCHED, 4) * 100 * MS); s->open[ro]--; octx().rollback++; snprintf(error, n, "host %zu down", host); probe("sql.connect_failed"); s->last_fail[host] = now(); return M_SQL_ERROR_CONN_FAILED; }
    M_sql_driver_conn *c = new M_sql_driver_conn(); c->host = (int)host; c->ro = ro; c->t_open = now(); s->conns.insert(c); s->opens++; s->opened_on[host]++;
    *out = c; sim::ev("sqlconn", (int64_t)host, ro);
    return M_SQL_ERROR_SUCCESS;
}
static const char *d_ver(M_sql_driver_conn_t *) { return "simdb 1"; }
static M_sql_error_t d_runonce(M_sql_conn_t *conn, M_sql_driver_connpool_t *, M_bool first, M_bool ro, char *error, size_t n)
{
    M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "runonce"); c->id = M_sql_driver_conn_get_id(conn);
    SIM_CHECK(c->id < SV->max[ro], "bad-id", "connection id %zu of %zu", c->id, SV->max[ro]);
    for (auto o : SV->conns) SIM_CHECK(o == c || o->ro != c->ro || o->id != c->id, "duplicate-id", "two open connections have the id %zu", c->id);
    SIM_CHECK(M_sql_driver_conn_is_readonly(conn) == c->ro, "wrong-pool", "connection opened for the other sub-pool");
    SIM_CHECK(M_str_eq(M_sql_driver_conn_get_username(conn), "user") , "credentials", "username is %s", M_sql_driver_conn_get_username(conn));
    SIM_CHECK(M_str_eq(M_sql_driver_conn_get_password(conn), "secret"), "credentials", "password is %s", M_sql_driver_conn_get_password(conn));
    if (first) { SIM_CHECK(!SV->runonce_first[ro], "first-twice", "two connections were told to be the first of the pool"); }
    if (lost(c)) return conn_lost(c, error, n);
    if (first) SV->runonce_first[ro] = true;
    return M_SQL_ERROR_SUCCESS;
}
static void d_disconnect(M_sql_driver_conn_t *c)
{
    Srv *s = SV;
    SIM_CHECK(s->conns.count(c), "double-disconnect", "connection disconnected twice");
    SIM_CHECK(c->user < 0, "connection-shared", "connection %zu disconnected while thread %d is in %s", c->id, c->user, c->what);
    SIM_CHECK(c->nst == 0, "statement-leak", "%zu prepared statements left when the connection is closed", c->nst);
    if (c->in_tx && !c->dead) fail("transaction-leaked", "connection %zu closed with a transaction of thread %d still open on it", c->id, c->owner);
    if (c->cursor && !c->dead) fail("connection-shared", "connection %zu closed while a result of thread %d is being fetched from it", c->id, c->owner);
    if (s->timing && s->started && !c->dead) SIM_CHECK((s->t_idle && now() - c->t_last + SEC >= (uint64_t)s->t_idle * SEC) || (s->t_reconn && now() - c->t_open + SEC >= (uint64_t)s->t_reconn * SEC), "closed-needlessly", "a working connection was closed %.1f s after it was opened and %.1f s after its last use (limits %d s and %d s)", (now() - c->t_open) / 1e9, (now() - c->t_last) / 1e9, (int)s->t_reconn, (int)s->t_idle);
    tx_end(c); s->conns.erase(c);
    if (s->slowdisc) { NoPreempt *np = NULL; (void)np; point("disc"); }
    s->open[c->ro]--; delete c;
}
static char *d_queryformat(M_sql_conn_t *conn, const char *q, size_t np, size_t nr, char *error, size_t n) { return M_sql_driver_queryformat(q, M_SQL_DRIVER_QUERYFORMAT_NORMAL, np, std::min(nr, SV->maxrows), error, n); (void)conn; }
static size_t d_queryrowcnt(M_sql_conn_t *, size_t, size_t nr) { return std::min(nr, SV->maxrows); }
static void d_prepare_destroy(M_sql_driver_stmt_t *st) { if (!st) return; SIM_CHECK(SV->conns.count(st->c), "use-after-disconnect", "statement destroyed after its connection"); st->c->nst--; if (st->c->cur == st) { st->c->cur = NULL; } delete st; }
static M_sql_error_t d_prepare(M_sql_driver_stmt_t **st, M_sql_conn_t *conn, M_sql_stmt_t *stmt, char *error, size_t n)
{
    M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "prepare"); const char *q = M_sql_driver_stmt_get_query(stmt);
    if (!M_sql_driver_conn_in_trans(conn)) use_start(c, "prepare"); else SIM_CHECK(c->in_tx || c->dead, "not-in-transaction", "statement sent inside a transaction that is not open on connection %zu", c->id);
    SIM_CHECK(!c->cursor || c->in_tx, "connection-shared", "statement sent while a result is open");
    if (lost(c)) { *st = NULL; return conn_lost(c, error, n); }
    if (*st) { SIM_CHECK((*st)->c == c && (*st)->q == q, "statement-mixup", "cached statement of another connection or query handed in"); if (choose(SCHED, 12) == 0) *st = NULL; }
    if (!*st) { if (fault(F_SQL_ERROR)) { octx().fatal++; snprintf(error, n, "prepare failed"); return M_SQL_ERROR_QUERY_PREPARE; } *st = new M_sql_driver_stmt(); (*st)->c = c; (*st)->q = q; c->nst++; }
    (*st)->pos = 0; (*st)->rows.clear();
    return M_SQL_ERROR_SUCCESS;
}
static bool vis(M_sql_driver_conn *c, const std::string &k, int64_t *v) { auto w = c->ws.find(k); if (w != c->ws.end()) { if (w->second.del) return false; *v = w->second.v; return true; } auto d = SV->db.find(k); if (d == SV->db.end()) return false; *v = d->second; return true; }
static M_sql_error_t d_execute(M_sql_conn_t *conn, M_sql_stmt_t *stmt, size_t *rows, char *error, size_t n)
{
    Srv *s = SV; M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "execute"); M_sql_driver_stmt *st = M_sql_driver_stmt_get_stmt(stmt);
    SIM_CHECK(st && st->c == c, "statement-mixup", "statement of another connection executed");
    bool intx = M_sql_driver_conn_in_trans(conn);
    if (intx) { SIM_CHECK(c->in_tx || c->dead, "not-in-transaction", "statement executed inside a transaction that is not open"); SIM_CHECK(!c->aborted, "statement-after-rollback-condition", "a statement was sent in a transaction that must be rolled back"); }
    else SIM_CHECK(!c->in_tx, "transaction-leaked", "statement outside a transaction on a connection with an open transaction");
    OpCtx &oc = octx();
    if (oc.once) SIM_CHECK(!oc.failed_exec, "repeated", "a statement was executed again after a roll-back though the pool was told not to repeat statements");
    if (lost(c)) return conn_lost(c, error, n);
    if (fault(F_SQL_DEADLOCK)) { oc.failed_exec++; octx().rollback++; if (c->in_tx) { tx_end(c); c->in_tx = true; c->aborted = true; } snprintf(error, n, "deadlock"); probe("sql.deadlock"); return M_SQL_ERROR_QUERY_DEADLOCK; }
    if (fault(F_SQL_ERROR)) { octx().fatal++; snprintf(error, n, "statement failed"); return M_SQL_ERROR_QUERY_FAILURE; }
    size_t nb = M_sql_driver_stmt_bind_rows(stmt); *rows = nb > 1 ? std::min(nb, s->maxrows) : 1;
    std::map<std::string, Row> w; size_t aff = 0;
    auto conflict = [&](const std::string &k) { auto l = s->locks.find(k); return l != s->locks.end() && l->second != c; };
    if (st->q.compare(0, 6, "SELECT") == 0) {
        SIM_CHECK(!c->ro || !intx, "wrong-pool", "transaction on the read-only pool");
        std::string pre = M_sql_driver_stmt_bind_get_text(stmt, 0, 0);
        std::set<std::string> ks; for (auto &d : s->db) if (d.first.compare(0, pre.size(), pre) == 0) ks.insert(d.first); for (auto &d : c->ws) if (d.first.compare(0, pre.size(), pre) == 0) ks.insert(d.first);
        int64_t v; for (auto &k : ks) if (vis(c, k, &v)) st->rows.push_back({ k, v });
        M_sql_driver_stmt_result_set_num_cols(stmt, 2); M_sql_driver_stmt_result_set_col_name(stmt, 0, "k"); M_sql_driver_stmt_result_set_col_name(stmt, 1, "v");
        M_sql_driver_stmt_result_set_col_type(stmt, 0, M_SQL_DATA_TYPE_TEXT, 64); M_sql_driver_stmt_result_set_col_type(stmt, 1, M_SQL_DATA_TYPE_INT64, 0);
        if (st->rows.empty()) return M_SQL_ERROR_SUCCESS;
        c->cursor = true; c->cur = st; c->owner = self_id();
        return M_SQL_ERROR_SUCCESS_ROW;
    }
    SIM_CHECK(!c->ro, "wrong-pool", "a write was sent to the read-only pool: %s", st->q.c_str());
    auto bump = [&](M_sql_error_t e) { if (e == M_SQL_ERROR_QUERY_DEADLOCK) { octx().failed_exec++; octx().rollback++; if (c->in_tx) { tx_end(c); c->in_tx = true; c->aborted = true; } snprintf(error, n, "lock conflict"); probe("sql.conflict"); } else { octx().fatal++; snprintf(error, n, "duplicate key"); } return e; };
    for (size_t r = 0; r < *rows; r++) {
        std::string k = M_sql_driver_stmt_bind_get_text(stmt, r, 0); int64_t v = 0, b = 0; bool have;
        if (st->q.compare(0, 6, "DELETE") != 0) { b = M_sql_driver_stmt_bind_get_int64(stmt, r, 1); }
        if (conflict(k)) return bump(M_SQL_ERROR_QUERY_DEADLOCK);
        auto i = w.find(k); if (i != w.end()) { have = !i->second.del; v = i->second.v; } else have = vis(c, k, &v);
        if (st->q.compare(0, 6, "INSERT") == 0) { if (have) return bump(M_SQL_ERROR_QUERY_CONSTRAINT); w[k] = { false, b }; aff++; }
        else if (st->q.compare(0, 6, "UPDATE") == 0) { if (have) { w[k] = { false, v + b }; aff++; } }
        else if (st->q.compare(0, 6, "DELETE") == 0) { if (have) { w[k] = { true, 0 }; aff++; } }
        else fail("bad-query", "query %s", st->q.c_str());
    }
    for (auto &x : w) { if (c->in_tx) { c->ws[x.first] = x.second; s->locks[x.first] = c; } else if (x.second.del) s->db.erase(x.first); else s->db[x.first] = x.second.v; }
    M_sql_driver_stmt_result_set_affected_rows(stmt, aff);
    return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t d_fetch(M_sql_conn_t *conn, M_sql_stmt_t *stmt, char *error, size_t n)
{
    M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "fetch"); M_sql_driver_stmt *st = M_sql_driver_stmt_get_stmt(stmt);
    SIM_CHECK(st && st->c == c && c->cursor && c->cur == st, "fetch-without-result", "fetch without an open result");
    if (lost(c)) return conn_lost(c, error, n);
    size_t k = 1 + choose(SCHED, 3);
    for (; k && st->pos < st->rows.size(); k--, st->pos++) {
        M_buf_t *b = M_sql_driver_stmt_result_col_start(stmt); M_buf_add_str(b, st->rows[st->pos].first.c_str()); M_buf_add_byte(b, 0);
        b = M_sql_driver_stmt_result_col_start(stmt); M_buf_add_int(b, st->rows[st->pos].second); M_buf_add_byte(b, 0);
        M_sql_driver_stmt_result_row_finish(stmt);
    }
    if (st->pos < st->rows.size() || choose(SCHED, 4) == 1) { if (fault(F_SQL_DEADLOCK)) { octx().rollback++; c->cursor = false; if (c->in_tx) { tx_end(c); c->in_tx = true; c->aborted = true; } snprintf(error, n, "deadlock in fetch"); return M_SQL_ERROR_QUERY_DEADLOCK; } if (st->pos < st->rows.size() ) return M_SQL_ERROR_SUCCESS_ROW; }
    c->cursor = false; c->cur = NULL;
    return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t d_begin(M_sql_conn_t *conn, M_sql_isolation_t, char *error, size_t n)
{
    M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "begin"); use_start(c, "begin");
    SIM_CHECK(M_sql_driver_conn_in_trans(conn), "not-in-transaction", "begin on a connection not marked as in a transaction");
    SIM_CHECK(!c->ro, "wrong-pool", "transaction begun on the read-only pool");
    if (lost(c)) return conn_lost(c, error, n);
    if (fault(F_SQL_DEADLOCK)) { octx().rollback++; snprintf(error, n, "begin deadlock"); return M_SQL_ERROR_QUERY_DEADLOCK; }
    if (fault(F_SQL_ERROR)) { octx().fatal++; snprintf(error, n, "begin failed"); return M_SQL_ERROR_QUERY_FAILURE; }
    c->in_tx = true; c->aborted = false;
    return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t d_rollback(M_sql_conn_t *conn)
{
    M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "rollback"); char t[64];
    SIM_CHECK(c->in_tx, "not-in-transaction", "rollback without a transaction");
    if (lost(c)) return conn_lost(c, t, sizeof t);
    c->cursor = false; tx_end(c);
    return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t d_commit(M_sql_conn_t *conn, char *error, size_t n)
{
    Srv *s = SV; M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); Use u(c, "commit");
    SIM_CHECK(c->in_tx, "not-in-transaction", "commit without a transaction");
    SIM_CHECK(!c->aborted, "statement-after-rollback-condition", "commit of a transaction that must be rolled back");
    if (lost(c)) return conn_lost(c, error, n);
    if (fault(F_SQL_DEADLOCK)) { octx().rollback++; tx_end(c); snprintf(error, n, "commit deadlock"); return M_SQL_ERROR_QUERY_DEADLOCK; }
    if (fault(F_SQL_ERROR)) { octx().fatal++; tx_end(c); snprintf(error, n, "commit failed"); return M_SQL_ERROR_QUERY_FAILURE; }
    for (auto &x : c->ws) if (x.second.del) s->db.erase(x.first); else s->db[x.first] = x.second.v;
    tx_end(c);
    return M_SQL_ERROR_SUCCESS;
}
static M_bool d_datatype(M_sql_connpool_t *, M_buf_t *b, M_sql_data_type_t, size_t, M_bool) { M_buf_add_str(b, "INT"); return M_TRUE; }
static M_bool d_bitop(M_sql_connpool_t *p, M_buf_t *q, M_sql_query_bitop_t op, const char *a, const char *b) { (void)p; return M_sql_driver_append_bitop(M_SQL_DRIVER_BITOP_CAP_OP, q, op, a, b); }
static M_sql_driver_t simdrv = { M_SQL_DRIVER_VERSION, "simdb", "Simulated database", "1", NULL, d_init, d_destroy, d_createpool, d_destroypool, d_connect, d_ver, d_runonce, d_disconnect, d_queryformat, d_queryrowcnt, d_prepare, d_prepare_destroy, d_execute, d_fetch, d_begin, d_rollback, d_commit, d_datatype, NULL, NULL, d_bitop, NULL, NULL };
static M_sql_driver_t *get_simdrv(void) { return &simdrv; }

/* ---- workload -------------------------------------------------------------------------------------- */
namespace {
struct SqlWorld {
    M_sql_connpool_t *pool = NULL; M_uint32 flags = 0; bool ro = false; std::map<std::string, int64_t> model; int nctr = 2; std::map<std::string, int64_t> ctr; size_t ops = 0; int uniq = 0; bool traced = false; int tr_depth = 0;
    size_t gi_ok = 0, gi_fail = 0; bool err_on = false; bool noretry() { return flags & M_SQL_CONNPOOL_FLAG_NO_AUTORETRY_QUERY; }
};
SqlWorld *QW;
struct Op { OpCtx &c; Op() : c(octx()) { c.fatal = c.rollback = c.failed_exec = 0; c.in_op = true; c.once = false; } ~Op() { c.in_op = c.once = false; } };
struct TxArg { SqlWorld *w; int mode; int attempts = 0; std::vector<std::pair<std::string, int64_t>> ins; std::vector<std::pair<std::string, int64_t>> add; bool user_fail = false; int user_retry = 0; bool sel = false; int max_fetch = 0; bool dup = false; bool isfatal = false; bool leftover = false; };
}
static std::string nkey(const char *p) { char b[64]; snprintf(b, sizeof b, "%s%06d", p, ++QW->uniq); return b; }
static void tr_sql(M_sql_trace_t t, const M_sql_trace_data_t *d, void *)
{
    const char *e = M_sql_trace_get_error_string(d); if (e) (void)M_str_len(e); M_sql_trace_get_error(d); M_sql_trace_get_duration_ms(d); M_sql_trace_get_total_duration_ms(d); M_sql_trace_get_conntype(d); M_sql_trace_get_conn_id(d);
    const char *q = M_sql_trace_get_query_user(d); if (q) (void)M_str_len(q); q = M_sql_trace_get_query_prepared(d); if (q) (void)M_str_len(q); if (t == M_SQL_TRACE_EXECUTE_FINISH) { char *f = M_sql_trace_get_query_formatted(d); M_free(f); }
    M_sql_trace_get_bind_cols(d); M_sql_trace_get_bind_rows(d); M_sql_trace_get_bind_rows_current(d); M_sql_trace_get_bind_rows_processed(d); M_sql_trace_get_has_result_rows(d); M_sql_trace_get_affected_rows(d); M_sql_trace_get_result_row_count(d);
    probe("sql.trace");
}
static void explain(M_sql_error_t err, Op &op, const char *what, bool userfail = false)
{
    if (!M_sql_error_is_error(err)) return;
    if (userfail && err == M_SQL_ERROR_USER_FAILURE) return;
    if (op.c.fatal && M_sql_error_is_fatal(err)) return;
    fail("spurious-error", "%s returned %d (%s) though the server never failed it for good (%d retryable conditions)", what, (int)err, M_sql_error_string(err), op.c.rollback);
}
/* outside M_sql_trans_process(): retryable conditions may be returned */
static void explain_noretry(M_sql_error_t err, Op &op, const char *what)
{
    if (!M_sql_error_is_error(err)) return;
    if (op.c.fatal && M_sql_error_is_fatal(err)) return;
    if (op.c.rollback && M_sql_error_is_rollback(err)) return;
    fail("spurious-error", "%s returned %d (%s) without a cause on the server", what, (int)err, M_sql_error_string(err));
}
static void check_rows(M_sql_stmt_t *st, size_t *seen, std::string *last, const std::string &pre)
{
    for (size_t i = 0; i < M_sql_stmt_result_num_rows(st); i++) {
        const char *k = M_sql_stmt_result_text_direct(st, i, 0); M_int64 v = 0;
        SIM_CHECK(k && M_sql_stmt_result_int64(st, i, 1, &v) == M_SQL_ERROR_SUCCESS, "bad-result", "row %zu unreadable", i);
        SIM_CHECK(std::string(k).compare(0, pre.size(), pre) == 0 && (last->empty() || *last < k), "bad-result", "row %s after %s", k, last->c_str());
        SIM_CHECK(M_sql_stmt_result_int64_byname_direct(st, i, "v") == v, "bad-result", "by name differs");
        *last = k; (*seen)++;
    }
}
static M_sql_stmt_t *mk(const char *q) { M_sql_stmt_t *s = M_sql_stmt_create(); SIM_CHECK(M_sql_stmt_prepare(s, q) == M_SQL_ERROR_SUCCESS, "prepare", "prepare of %s", q); return s; }
#define Q_INS "INSERT INTO t (k, v) VALUES (?, ?)"
#define Q_UPD "UPDATE t SET v = v + ? WHERE k = ?"
#define Q_DEL "DELETE FROM t WHERE k = ?"
#define Q_SEL "SELECT k, v FROM t WHERE k LIKE ?"
static void bindkv(M_sql_stmt_t *s, const std::string &k, int64_t v) { M_sql_stmt_bind_text_dup(s, k.c_str(), 0); M_sql_stmt_bind_int64(s, v); }
/* select; partial fetching; possibly abandoned half way */
static M_sql_error_t do_select(SqlWorld *w, M_sql_trans_t *tx, const std::string &pre, bool master, size_t expect_min, size_t expect_max)
{
    M_sql_stmt_t *s = mk(Q_SEL); M_sql_stmt_bind_text_dup(s, pre.c_str(), 0); size_t mf = wl(3) ? 1 + wl(4) : 0; if (mf) M_sql_stmt_set_max_fetch_rows(s, mf); if (master) M_sql_stmt_set_master_only(s);
    M_sql_error_t err = tx ? M_sql_trans_execute(tx, s) : M_sql_stmt_execute(w->pool, s);
    size_t seen = 0; std::string last; bool abandoned = false;
    if (!M_sql_error_is_error(err)) {
        if (!mf) { SIM_CHECK(err != M_SQL_ERROR_SUCCESS_ROW, "bad-result", "rows left over after everything was fetched"); check_rows(s, &seen, &last, pre); }
        else {
            while (err == M_SQL_ERROR_SUCCESS_ROW) {
                if (wl(12) == 0) { abandoned = true; break; }
                err = M_sql_stmt_fetch(s);
                if (M_sql_error_is_error(err)) break;
                check_rows(s, &seen, &last, pre); if (wl(3) == 0) jitter();
            }
            if (!abandoned && !M_sql_error_is_error(err)) SIM_CHECK(!M_sql_stmt_has_remaining_rows(s), "bad-result", "rows remain after the last one");
        }
        if (!M_sql_error_is_error(err) && !abandoned) SIM_CHECK(seen >= expect_min && seen <= expect_max, "bad-result", "select returned %zu rows, expected %zu to %zu", seen, expect_min, expect_max);
        probe("sql.rows", seen);
    }
    M_sql_stmt_destroy(s);
    if (abandoned) { probe("sql.abandoned"); return M_SQL_ERROR_SUCCESS; }
    return err == M_SQL_ERROR_SUCCESS_ROW ? M_SQL_ERROR_SUCCESS : err;
}
static M_sql_error_t tx_cmd(M_sql_trans_t *tx, void *arg, char *error, size_t error_size)
{
    TxArg *a = (TxArg *)arg; a->attempts++; a->isfatal = false; M_sql_error_t err = M_SQL_ERROR_SUCCESS;
    SIM_CHECK(M_sql_trans_get_pool(tx) == a->w->pool, "wrong-pool", "the transaction belongs to another pool");
    for (size_t i = 0; i < a->ins.size(); ) {
        M_sql_stmt_t *s = mk(Q_INS); size_t nb = 1 + wl(3);
        for (; nb && i < a->ins.size(); nb--, i++) { M_sql_stmt_bind_new_row(s); bindkv(s, a->ins[i].first, a->ins[i].second); }
        err = M_sql_trans_execute(tx, s); SIM_CHECK(err == M_sql_stmt_get_error(s) , "error-mismatch", "trans_execute %d, stmt %d", err, M_sql_stmt_get_error(s));
        M_sql_stmt_destroy(s);
        if (M_sql_error_is_error(err)) { if (wl(4) == 0) { s = mk(Q_DEL); M_sql_stmt_bind_text_dup(s, "none", 0); if (M_sql_error_is_rollback(err)) SIM_CHECK(M_sql_error_is_error(M_sql_trans_execute(tx, s)), "statement-after-rollback-condition", "a statement succeeded in a transaction that must be rolled back"); M_sql_stmt_destroy(s); } return err; }
        if (wl(3) == 0) jitter();
    }
    for (auto &c : a->add) { M_sql_stmt_t *s = mk(Q_UPD); bindkv(s, c.first, c.second); err = M_sql_trans_execute(tx, s); if (!M_sql_error_is_error(err)) SIM_CHECK(M_sql_stmt_result_affected_rows(s) == 1, "bad-result", "affected rows %zu", M_sql_stmt_result_affected_rows(s)); M_sql_stmt_destroy(s); if (M_sql_error_is_error(err)) return err; }
    if (a->sel && a->ins.size()) {
        err = do_select(a->w, tx, a->ins[0].first, true, 1, 1); if (M_sql_error_is_error(err)) return err;
        err = do_select(a->w, tx, "c", true, (size_t)a->w->nctr, (size_t)a->w->nctr); if (M_sql_error_is_error(err)) return err;
    }
    if (a->user_retry) { a->user_retry--; snprintf(error, error_size, "again"); return M_SQL_ERROR_USER_RETRY; }
    if (a->user_fail) { snprintf(error, error_size, "no"); return M_SQL_ERROR_USER_FAILURE; }
    if (a->leftover) return M_SQL_ERROR_SUCCESS_ROW;     /* as after a query whose rows were not all fetched */
    return a->mode ? M_SQL_ERROR_USER_SUCCESS : M_SQL_ERROR_SUCCESS;
}
static void op_tx(SqlWorld *w)
{
    Op op; TxArg a; a.w = w; a.mode = (int)wl(2); std::string p = nkey("x"); size_t ni = wl(4);
    for (size_t i = 0; i < ni; i++) a.ins.push_back({ p + (char)('a' + i), (int64_t)wl(1000) });
    if (wl(10) == 0 && ni > 1) { a.ins[ni - 1].first = a.ins[0].first; a.dup = true; }
    for (size_t i = wl(3); i; i--) a.add.push_back({ "c" + std::to_string(wl(w->nctr)), (int64_t)(1 + wl(5)) });
    a.user_fail = wl(6) == 0; a.user_retry = wl(6) == 0 ? 1 + (int)wl(2) : 0; a.sel = wl(3) == 0; a.leftover = wl(12) == 0;
    char err[256]; M_sql_error_t e = M_sql_trans_process(w->pool, wl(2) ? M_SQL_ISOLATION_SERIALIZABLE : M_SQL_ISOLATION_READCOMMITTED, tx_cmd, &a, err, sizeof err);
    if (!(a.leftover && e == M_SQL_ERROR_QUERY_FAILURE)) explain(e, op, "M_sql_trans_process", a.user_fail);
    if (!M_sql_error_is_error(e)) {
        SIM_CHECK(!a.user_fail && !a.dup && !a.leftover, "failed-transaction-committed", "a transaction that failed was reported successful");
        SIM_CHECK(e == (a.mode ? M_SQL_ERROR_USER_SUCCESS : M_SQL_ERROR_SUCCESS), "wrong-result", "user result %d lost", e);
        for (auto &i : a.ins) w->model[i.first] = i.second;
        for (auto &c : a.add) w->ctr[c.first] += c.second;
        probe("sql.tx_ok");
    } else { probe("sql.tx_fail"); SIM_CHECK(*err || e != M_SQL_ERROR_USER_FAILURE, "no-message", "failed transaction without a message"); }
}
static void op_manual(SqlWorld *w)
{
    Op op; M_sql_trans_t *tx = NULL; char err[256]; std::string k = nkey("m");
    M_sql_error_t e = M_sql_trans_begin(&tx, w->pool, M_SQL_ISOLATION_READCOMMITTED, err, sizeof err);
    if (M_sql_error_is_error(e)) { SIM_CHECK(!tx, "begin-result", "failed begin left a handle"); if (w->noretry()) explain_noretry(e, op, "M_sql_trans_begin"); else explain(e, op, "M_sql_trans_begin"); return; }
    SIM_CHECK(M_sql_connpool_destroy(w->pool) == M_SQL_ERROR_INUSE, "destroyed-in-use", "the pool was destroyed under an open transaction");
    M_sql_stmt_t *s = mk(Q_INS); bindkv(s, k, 7); e = M_sql_trans_execute(tx, s); explain_noretry(e, op, "M_sql_trans_execute"); M_sql_stmt_destroy(s);
    if (wl(3) == 0) jitter();
    if (wl(5) == 0) sleep_ns(wl(3000) * MS);
    if (M_sql_error_is_error(e) && wl(2)) { M_sql_trans_rollback(tx); return; }
    if (wl(4) == 0) { M_sql_trans_rollback(tx); return; }
    bool bad = M_sql_error_is_rollback(e), failed = M_sql_error_is_error(e);
    M_sql_error_t ce = M_sql_trans_commit(tx, err, sizeof err);
    if (bad) SIM_CHECK(M_sql_error_is_error(ce) && M_sql_error_is_rollback(ce), "failed-transaction-committed", "commit after a rollback condition returned %d", ce);
    explain_noretry(ce, op, "M_sql_trans_commit");
    if (!M_sql_error_is_error(ce) && !failed) w->model[k] = 7;
}
static void op_single(SqlWorld *w)
{
    Op op; std::string k = nkey("s"); size_t n = wl(4) ? 1 : 2 + wl(6); M_sql_stmt_t *s = mk(Q_INS); bool extra = wl(4) == 0; op.c.once = w->noretry() && n == 1 && !extra; bool dup = n > 1 && wl(6) == 0; std::vector<std::pair<std::string, int64_t>> r;
    for (size_t i = 0; i < n; i++) { M_sql_stmt_bind_new_row(s); r.push_back({ k + (char)('a' + i), (int64_t)wl(100) }); if (dup && i == n - 1) r[i].first = r[0].first; bindkv(s, r[i].first, r[i].second); }
    if (extra) M_sql_stmt_bind_new_row(s);
    M_sql_error_t e = M_sql_stmt_execute(w->pool, s);
    if (n == 1 && w->noretry()) explain_noretry(e, op, "M_sql_stmt_execute"); else if (w->noretry()) explain_noretry(e, op, "M_sql_stmt_execute"); else explain(e, op, "M_sql_stmt_execute");
    if (!M_sql_error_is_error(e)) { SIM_CHECK(!dup, "failed-transaction-committed", "duplicate rows accepted"); for (auto &x : r) w->model[x.first] = x.second; SIM_CHECK(M_sql_stmt_result_affected_rows(s) == n, "bad-result", "affected rows %zu of %zu", M_sql_stmt_result_affected_rows(s), n); }
    else SIM_CHECK(*M_sql_stmt_get_error_string(s), "no-message", "failed statement without a message");
    if (!M_sql_error_is_error(e) && wl(4) == 0 && n == 1) {
        op.c.failed_exec = 0; M_sql_stmt_t *d = mk(Q_DEL); M_sql_stmt_bind_text_dup(d, r[0].first.c_str(), 0); e = M_sql_stmt_execute(w->pool, d);
        if (w->noretry()) explain_noretry(e, op, "M_sql_stmt_execute"); else explain(e, op, "M_sql_stmt_execute");
        if (!M_sql_error_is_error(e)) w->model.erase(r[0].first);
        M_sql_stmt_destroy(d);
    }
    M_sql_stmt_destroy(s);
}
static void op_select(SqlWorld *w)
{
    Op op; M_sql_error_t e = do_select(w, NULL, wl(2) ? "c" : "s", wl(4) == 0, 0, 1000000);
    if (M_sql_error_is_error(e)) explain_noretry(e, op, "select");    /* a failing fetch is the caller's to retry */
}
static void op_group(SqlWorld *w, const char *tab)
{
    if (wl(12) == 0) {      /* a query that can not be prepared: every user gets an error, and none sees another's remains */
        M_sql_stmt_t *s = M_sql_stmt_groupinsert_prepare(w->pool, "INSERT INTO t (k, v) VALUES ('x', ?)"); SIM_CHECK(s, "group-prepare", "no handle");
        M_sql_stmt_bind_int64(s, 1); M_sql_error_t e = M_sql_stmt_execute(w->pool, s); SIM_CHECK(M_sql_error_is_error(e), "group-prepare", "a query with an embedded string was accepted: %d", e);
        M_sql_stmt_destroy(s); return;
    }
    Op op; char q[128]; snprintf(q, sizeof q, "INSERT INTO %s (k, v) VALUES (?, ?)", tab); std::string k = nkey("g"); int64_t v = (int64_t)wl(1000);
    M_sql_stmt_t *s = M_sql_stmt_groupinsert_prepare(w->pool, q); SIM_CHECK(s, "group-prepare", "no handle");
    bindkv(s, k, v); bool two = wl(5) == 0; if (two) { M_sql_stmt_bind_new_row(s); bindkv(s, k + "b", v + 1); }
    M_sql_error_t e = M_sql_stmt_execute(w->pool, s);
    if (!M_sql_error_is_error(e)) { w->model[k] = v; if (two) w->model[k + "b"] = v + 1; probe("sql.group_ok"); w->gi_ok++; } else { probe("sql.group_fail"); w->gi_fail++; SIM_CHECK(M_sql_error_is_fatal(e) || w->noretry(), "spurious-error", "grouped insert returned %d (%s)", e, M_sql_error_string(e)); SIM_CHECK(w->err_on || w->noretry(), "spurious-error", "grouped insert returned %d (%s) though no statement failed", e, M_sql_error_string(e)); }
    if (wl(3) == 0) jitter();
    SIM_CHECK(M_sql_stmt_get_error(s) == e, "error-mismatch", "result of the grouped insert changed from %d to %d", e, M_sql_stmt_get_error(s));
    M_sql_stmt_destroy(s);
}
static bool start_pool(SqlWorld &w, bool must)
{
    char err[256] = ""; M_sql_error_t e;
    for (int tries = 0; ; tries++) {
        e = M_sql_connpool_start(w.pool, err, sizeof err);
        if (!M_sql_error_is_error(e)) return true;
        SIM_CHECK(fault_enabled(F_SQL_CONNECT_FAIL) || fault_enabled(F_SQL_DISCONNECT) || std::count(SV->up.begin(), SV->up.end(), 1) < SV->nhosts, "start-failed", "start failed without a fault: %s", err);
        SIM_CHECK(SV->conns.empty(), "start-leak", "%zu connections left open after a failed start", SV->conns.size());
        probe("sql.start_failed"); if (!must && tries > 2) return false;
        if (tries > 3) faults_stop();
        SIM_CHECK(tries < 50, "start-failed", "the pool does not start: %s", err);
        sleep_ns(500 * MS);
    }
}
static void run_sql(int mix)
{
    Srv srv; SV = &srv; SqlWorld w; QW = &w; dl_register("mstdlib_sql_simdb.so", { { "M_sql_get_driver_simdb", (void *)get_simdrv } });
    srv.nhosts = 1 + (int)choose(CFG, 3); srv.up.assign(srv.nhosts, 1); srv.opened_on.assign(srv.nhosts, 0); srv.down_at.assign(srv.nhosts, 0); srv.last_fail.assign(srv.nhosts, 0); srv.delays = choose(CFG, 3); srv.maxrows = 1 + choose(CFG, 4); srv.slowdisc = choose(CFG, 2);
    if (choose(CFG, 2)) w.flags |= M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL;
    if (choose(CFG, 4) == 1) w.flags |= M_SQL_CONNPOOL_FLAG_NO_AUTORETRY_QUERY;
    if (choose(CFG, 3) == 1) { w.flags |= M_SQL_CONNPOOL_FLAG_LOAD_BALANCE; srv.lb = true; }
    srv.max[0] = 1 + choose(CFG, 4); w.ro = choose(CFG, 3) == 1; srv.max[1] = w.ro ? 1 + choose(CFG, 3) : 0;
    char err[256], cs[64]; snprintf(cs, sizeof cs, "hosts=%d", srv.nhosts);
    SIM_CHECK(M_sql_connpool_create(&w.pool, "SimDB", cs, "user", "secret", srv.max[0], w.flags, err, sizeof err) == M_SQL_ERROR_SUCCESS, "pool-create", "%s", err);
    if (w.ro) SIM_CHECK(M_sql_connpool_add_readonly_pool(w.pool, cs, srv.max[1], err, sizeof err) == M_SQL_ERROR_SUCCESS, "pool-create", "%s", err);
    if (choose(CFG, 3) == 1) { M_sql_connpool_add_trace(w.pool, tr_sql, NULL); w.traced = true; }
    if (choose(CFG, 2)) { srv.t_idle = choose(CFG, 3) ? 1 + choose(CFG, 20) : 0; srv.t_reconn = choose(CFG, 3) ? 1 + choose(CFG, 30) : 0; srv.t_fallback = choose(CFG, 2) ? 1 + choose(CFG, 20) : 0; }
    if (mix == 3) { srv.t_idle = srv.t_reconn = 0; }
    M_sql_connpool_set_timeouts(w.pool, srv.t_reconn, srv.t_idle, srv.t_fallback);
    srv.timing = !any_fault_enabled(); w.err_on = fault_enabled(F_SQL_ERROR);
    for (int i = 0; i < w.nctr; i++) { srv.db["c" + std::to_string(i)] = 0; w.ctr["c" + std::to_string(i)] = 0; }
    M_sql_stmt_t *st = mk(Q_INS); bindkv(st, "early", 1); SIM_CHECK(M_sql_stmt_execute(w.pool, st) == M_SQL_ERROR_INVALID_USE, "use-before-start", "statement ran before the pool was started"); M_sql_stmt_destroy(st);
    deadline(now() + 100000 * SEC, "stuck", "database work does not come to an end");
    start_pool(w, true); srv.started = true; srv.destroy_try = [] { return M_sql_connpool_destroy(QW->pool); };
    SIM_CHECK(M_str_eq(M_sql_connpool_server_version(w.pool), "simdb 1"), "server-version", "%s", M_sql_connpool_server_version(w.pool));
    if (!any_fault_enabled() && (w.flags & M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL)) SIM_CHECK(M_sql_connpool_active_conns(w.pool, M_FALSE) == srv.max[0] && srv.open[0] == srv.max[0], "prespawn", "%zu of %zu connections after start", srv.open[0], srv.max[0]);
    if (!any_fault_enabled() && srv.lb && (w.flags & M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL) && !w.ro) { uint64_t lo = ~0ull, hi = 0; for (auto x : srv.opened_on) { lo = std::min(lo, x); hi = std::max(hi, x); } SIM_CHECK(hi - lo <= 1, "load-balance", "hosts got between %llu and %llu of the connections", (unsigned long long)lo, (unsigned long long)hi); }
    size_t nth = 1 + wl(6), nops = 1 + wl(10); bool outages = fault_enabled(F_SQL_CONNECT_FAIL) && wl(2); bool stop = false;
    JoinAll j;
    for (size_t t = 0; t < nth; t++) j.go([&w, nops, mix] {
        for (size_t i = 0; i < nops; i++) {
            if (wl(3) == 0) jitter();
            if (wl(30) == 0) sleep_ns(wl(30) * SEC);
            switch (mix == 3 ? (wl(5) ? 6 : wl(6)) : mix == 1 ? wl(8) : wl(6)) {
            case 0: case 1: op_tx(&w); break;
            case 2: op_single(&w); break;
            case 3: op_select(&w); break;
            case 4: op_manual(&w); break;
            case 5: if (wl(2)) op_single(&w); else op_tx(&w); break;
            case 6: op_group(&w, wl(3) ? "t" : "u"); break;
            default: SIM_CHECK(M_sql_connpool_active_conns(w.pool, M_FALSE) <= SV->max[0] && M_sql_connpool_active_conns(w.pool, M_TRUE) <= SV->max[1], "pool-overflow", "more active connections than allowed"); M_sql_connpool_trace_stalls(w.pool, 1, 1, 1); break;
            }
        }
    });
    Fiber *out = outages ? spawn("outage", [&] { for (uint64_t n = 1 + wl(4); n && !stop && !faults_stopped(); n--) { sleep_ns(wl(4000) * MS); size_t h = wl(srv.nhosts); srv.up[h] = 0; probe("sql.outage"); sim::ev("outage", (int64_t)h); fault_count(F_SQL_CONNECT_FAIL); sleep_ns(wl(8000) * MS); srv.up[h] = 1; } }) : NULL;
    Fiber *stopper = spawn("stopper", [&] { for (int i = 0; i < 60 && !stop; i++) sleep_ns(SEC); faults_stop(); for (size_t h = 0; h < srv.up.size(); h++) srv.up[h] = 1; });
    j.join(); stop = true;
    if (out) join(out);
    for (size_t h = 0; h < srv.up.size(); h++) srv.up[h] = 1;
    join(stopper);
    /* after the last fault the pool works */
    { Op op; M_sql_stmt_t *s = mk(Q_INS); bindkv(s, "last", 1); M_sql_error_t e = M_sql_stmt_execute(w.pool, s); if (w.noretry() && op.c.rollback) probe("sql.stale_conn"); else { SIM_CHECK(e == M_SQL_ERROR_SUCCESS, "not-recovered", "after the faults stopped a statement fails: %s", M_sql_stmt_get_error_string(s)); } if (e == M_SQL_ERROR_SUCCESS) w.model["last"] = 1; M_sql_stmt_destroy(s); }
    for (auto &c : w.ctr) w.model[c.first] = c.second;
    for (auto &m : w.model) { auto i = srv.db.find(m.first); SIM_CHECK(i != srv.db.end(), "committed-lost", "row %s was reported committed and is not in the database", m.first.c_str()); SIM_CHECK(i->second == m.second, "wrong-value", "row %s is %lld, committed operations make it %lld", m.first.c_str(), (long long)i->second, (long long)m.second); }
    for (auto &d : srv.db) SIM_CHECK(w.model.count(d.first), "failed-applied", "row %s is in the database though its operation was reported failed", d.first.c_str());
    SIM_CHECK(srv.locks.empty(), "transaction-leaked", "row locks are still held");
    probe("sql.conns", srv.opens);
    srv.started = false;
    SIM_CHECK(M_sql_connpool_destroy(w.pool) == M_SQL_ERROR_SUCCESS, "destroy-refused", "the idle pool can not be destroyed");
    SIM_CHECK(srv.conns.empty() && srv.open[0] == 0 && srv.open[1] == 0 && srv.pools == 0, "connection-leak", "%zu connections and %zu pools left after destroy", srv.conns.size(), srv.pools);
    deadline_clear();
}
/* one client, several servers that go down and come back: where new connections are made, and that the client never notices */
static void sql_failover()
{
    world_begin(); allow({ F_STALL, F_SQL_DELAY });
    Srv srv; SV = &srv; SqlWorld w; QW = &w; dl_register("mstdlib_sql_simdb.so", { { "M_sql_get_driver_simdb", (void *)get_simdrv } });
    int nh = srv.nhosts = 2 + (int)choose(CFG, 3); srv.up.assign(nh, 1); srv.opened_on.assign(nh, 0); srv.down_at.assign(nh, 0); srv.last_fail.assign(nh, 0);
    srv.lb = choose(CFG, 4) == 1; if (srv.lb) w.flags |= M_SQL_CONNPOOL_FLAG_LOAD_BALANCE; if (choose(CFG, 3) == 1) w.flags |= M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL;
    srv.max[0] = 1 + choose(CFG, 3); srv.maxrows = 2; srv.t_fallback = choose(CFG, 3) ? 5 + choose(CFG, 60) : 0; srv.t_reconn = 1 + choose(CFG, 4);
    bool exact = !any_fault_enabled();
    char err[256] = "", cs[64]; snprintf(cs, sizeof cs, "hosts=%d", nh);
    SIM_CHECK(M_sql_connpool_create(&w.pool, "simdb", cs, "user", "secret", srv.max[0], w.flags, err, sizeof err) == M_SQL_ERROR_SUCCESS, "pool-create", "%s", err);
    M_sql_connpool_set_timeouts(w.pool, srv.t_reconn, 0, srv.t_fallback);
    int ndown = (int)wl(nh); for (int i = 0; i < ndown; i++) srv.up[i] = 0;
    deadline(now() + 100000 * SEC, "stuck", "database work does not come to an end");
    SIM_CHECK(M_sql_connpool_start(w.pool, err, sizeof err) == M_SQL_ERROR_SUCCESS, "no-failover", "the pool does not start though host %d of %d is up: %s", ndown, nh, err);
    std::map<int, uint64_t> failed;      /* when each host was last seen failing (latest possible) */
    auto note = [&] { for (int i = 0; i < nh; i++) if (!srv.up[i]) failed[i] = now(); };
    note();
    for (uint64_t n = 3 + wl(8); n; n--) {
        /* connections are replaced after t_reconn, so an operation or two after that wait opens a new one */
        sleep_ns((srv.t_reconn + 2) * SEC + wl(3) * wl(20) * SEC);
        int cur_up = 0; for (auto u : srv.up) cur_up += u;
        if (wl(3) == 0) { int h = (int)wl(nh); if (srv.up[h] && cur_up > 1) { srv.up[h] = 0; probe("sql.outage"); sim::ev("outage", h); } else if (!srv.up[h]) { srv.up[h] = 1; failed[h] = now(); } }
        for (int k = 0; k < 4; k++) {
            size_t before = srv.order.size(); std::vector<uint64_t> lf = srv.last_fail; std::map<int, uint64_t> f0 = failed; uint64_t t0 = now();
            Op op; std::string key = nkey("f"); M_sql_stmt_t *s = mk(Q_INS); bindkv(s, key, 1); M_sql_error_t e = M_sql_stmt_execute(w.pool, s);
            SIM_CHECK(e == M_SQL_ERROR_SUCCESS, "no-failover", "a statement failed though a host is up: %s", M_sql_stmt_get_error_string(s)); M_sql_stmt_destroy(s); w.model[key] = 1;
            if (exact) SIM_CHECK(now() - t0 < 20 * SEC, "no-failover", "a statement took %.1f s though a host is up", (now() - t0) / 1e9);
            if (srv.order.size() > before && !srv.lb && srv.t_fallback) {
                int h = srv.order[before]; int want = -1;
                for (int i = 0; i < nh && want < 0; i++) { bool eligible = !f0.count(i) || t0 > f0[i] + (uint64_t)(srv.t_fallback + 2) * SEC; if (eligible && srv.up[i]) want = i; else if (!(f0.count(i) && t0 + SEC < f0[i] + (uint64_t)srv.t_fallback * SEC)) break; }
                /* all hosts before `want` are known to be in their penalty time, `want` is not */
                if (want >= 0 && exact) { SIM_CHECK(h <= want, "no-fallback", "new connection to host %d, host %d is up and its %d s have passed", h, want, (int)srv.t_fallback); if (h == want) probe("sql.fallback_ok"); }
            }
            note();
            for (int i = 0; i < nh; i++) if (srv.last_fail[i] > lf[i]) failed[i] = now();
        }
        /* every connection that could notice a host going down has been used up by now or will be noticed later */
        for (auto c : srv.conns) if (!srv.up[c->host]) failed[c->host] = now();
    }
    if (exact && srv.lb) { /* a balanced pool uses every host that is up */ }
    for (auto &m : w.model) SIM_CHECK(srv.db.count(m.first), "committed-lost", "row %s was reported committed and is not in the database", m.first.c_str());
    SIM_CHECK(srv.db.size() == w.model.size(), "failed-applied", "%zu rows, %zu operations", srv.db.size(), w.model.size());
    SIM_CHECK(M_sql_connpool_destroy(w.pool) == M_SQL_ERROR_SUCCESS, "destroy-refused", "the idle pool can not be destroyed");
    SIM_CHECK(srv.conns.empty() && srv.pools == 0, "connection-leak", "%zu connections left after destroy", srv.conns.size());
    deadline_clear(); world_end();
}
static void sql_pool() { world_begin(); allow({ F_STALL, F_SPURIOUS_WAKE, F_SQL_DISCONNECT, F_SQL_DEADLOCK, F_SQL_ERROR, F_SQL_CONNECT_FAIL, F_SQL_DELAY }); run_sql(1); world_end(); }
static void sql_trans() { world_begin(); allow({ F_STALL, F_SQL_DISCONNECT, F_SQL_DEADLOCK, F_SQL_ERROR, F_SQL_CONNECT_FAIL, F_SQL_DELAY }); run_sql(2); world_end(); }
static void sql_group() { world_begin(); allow({ F_STALL, F_SPURIOUS_WAKE, F_SQL_DISCONNECT, F_SQL_DEADLOCK, F_SQL_ERROR, F_SQL_CONNECT_FAIL, F_SQL_DELAY }); run_sql(3); world_end(); }
SIM_WORLD(S01, sql_pool, "sql/* pool, statements, transactions, results; threads", "database driver and server (transactions, row locks, outages), clock, threads", 3);
SIM_WORLD(S02, sql_trans, "sql/* pool, statements, transactions, results; threads", "database driver and server (transactions, row locks, outages), clock, threads", 3);
SIM_WORLD(S03, sql_group, "sql/* pool, grouped statements, transactions; threads", "database driver and server (transactions, row locks, outages), clock, threads", 3);
SIM_WORLD(S01, sql_failover, "sql/* pool, statements; threads", "database driver and servers that go down and come back, clock", 1);
