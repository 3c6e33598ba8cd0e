/* N04: the SMTP queue against scripted mail servers */
#include "w_common.h"
#include <mstdlib/mstdlib_net.h>
#include <mstdlib/mstdlib_formats.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include <deque>

namespace n04 {
enum Stage { GREET, EHLO, AUTH, MAIL, RCPT, DATA, PAYLOAD, RSET, QUIT };
static const char *sname[] = { "greeting", "EHLO", "AUTH", "MAIL", "RCPT", "DATA", "payload", "RSET", "QUIT" };
enum Verdict { OK, DROP, DROP_MID, SILENT, CODE, MALFORMED, SLOW, REJECT, RETRY_SOON, KEEP_DROP };
struct Msg {
    int id; std::string raw, from, dom, body; std::vector<std::string> rcpt; bool bad = false, bcc = false, held = false, out = false;
    bool queued = false; int started = 0 /* MAIL commands written */, accepted = 0, last_accepted = 0; int attempts = 0; uint64_t not_before = 0; bool sent = false, failed = false, dumped = false, soon = false; uint64_t t_final = 0;
    bool final() const { return sent || failed || dumped; }
};
struct W; struct SC;
struct Srv { W *w; int id; M_io_t *lst = NULL; unsigned port = 0; unsigned bad = 0; std::string user, pass; bool removed = false; size_t maxc = 1; int used = 0, got = 0; uint64_t t_fail = 0, timeout = 0; };
/* server side of a connection */
struct SC { Srv *s; M_io_t *io; std::string in; std::string out; size_t off = 0, piece = 0; bool hang = false, close_after = false, dead = false, busy = false, delayed = false; M_event_timer_t *t = NULL; Stage want = GREET; int nrcpt = 0, okrcpt = 0; bool in_data = false, hard = false, auth_wait = false; int auth_step = 0; std::string from; std::vector<std::string> rcpt, okr; Msg *m = NULL; bool mailed = false, txn = false; std::string chal; };
/* the client's side of a connection, seen by a trace layer */
struct CC { W *w; std::string line; bool data = false; Msg *m = NULL; bool greeted = false; };
struct W {
    M_event_t *ev = NULL, *sev = NULL; M_dns_t *dns = NULL; M_net_smtp_t *sp = NULL; std::vector<Srv *> srv; std::vector<SC *> sc; std::vector<CC *> cc; std::vector<Msg *> msgs; std::vector<unsigned> dead_ports;
    bool healed = false, stopped = true, noep = true, ending = false; uint64_t halt_delay = 0, t_halt = 0, restart_at = 0; size_t max_attempts = 3; unsigned mode_halt = 0; uint64_t conn_ms, stall_ms, idle_ms; unsigned requeue_pct = 100; int conns = 0; bool calm = false; bool can_remove = false; uint64_t last_ep_until = 0; int sent_calls = 0; bool resume_pending = false; bool ext = false, rr = false; std::deque<Msg *> q; bool allow504 = true; bool late_bcc = true;
};
static W *G;

static void sc_end(SC *c) { if (c->dead) return; c->dead = true; M_event_timer_remove(c->t); c->t = NULL; M_io_destroy(c->io); c->io = NULL; }
static void sc_flush(SC *c);
static void sc_process(SC *c);
static void sc_timer(M_event_t *, M_event_type_t, M_io_t *, void *a) { SC *c = (SC *)a; if (c->dead) return; c->delayed = false; M_event_timer_stop(c->t); sc_flush(c); }
static void sc_delay(SC *c, uint64_t ms) { c->delayed = true; if (!c->t) c->t = M_event_timer_add(G->sev, sc_timer, c); M_event_timer_reset(c->t, ms); }
static void sc_flush(SC *c)
{
    while (!c->dead && !c->delayed && c->off < c->out.size()) {
        size_t n = 0, k = c->out.size() - c->off; if (c->piece) k = std::min(k, c->piece);
        M_io_error_t e = M_io_write(c->io, (const unsigned char *)c->out.data() + c->off, k, &n);
        if (e != M_IO_ERROR_SUCCESS) return;
        c->off += n; if (c->piece && c->off < c->out.size()) { sc_delay(c, 1 + wl(40)); return; }
    }
    if (c->dead || c->delayed || c->off < c->out.size()) return;
    if (c->close_after) { M_io_disconnect(c->io); c->hang = true; return; }
    if (c->hang) return;
    if (c->busy) { c->busy = false; sc_process(c); }
}
static Verdict judge(SC *c, Stage st)
{
    W *w = G;
    if (w->healed || wl(100) >= c->s->bad) { if (!c->s->bad && w->allow504 && st == RCPT && !w->calm && wl(8) == 0) return REJECT; return wl(6) == 0 ? (st == GREET || !w->calm ? SLOW : OK) : OK; }
    static const Verdict any[] = { DROP, DROP_MID, SILENT, CODE, CODE, MALFORMED, SLOW, SLOW, OK };
    Verdict v = any[wl(9)];
    if (st == RCPT && wl(3) == 0) v = REJECT;
    if (st == PAYLOAD && wl(3) == 0) v = wl(2) ? RETRY_SOON : KEEP_DROP;
    if ((st == PAYLOAD || st == DATA) && wl(3) == 0) v = CODE;
    return v;
}
/* answer a command; returns true when the answer means yes */
static bool answer(SC *c, Stage st, int good, Verdict v)
{
    char t[160]; static const int bad[] = { 421, 450, 451, 452, 500, 502, 550, 552, 554 }; static const char *mal[] = { "what\r\n", "25\r\n", "2500 OK\r\n", "250-a\r\n251 b\r\n", "999 x\r\n", "\r\n" };
    sim::ev("answer", c->s->id, st, v);
    c->busy = true; c->off = 0; c->out.clear(); c->piece = wl(5) == 0 ? 1 + wl(6) : 0; bool yes = true;
    snprintf(t, sizeof t, "%d%s\r\n", good, wl(6) ? " fine with me" : "");
    std::string ok = t; if (wl(6) == 0 && st != EHLO) { snprintf(t, sizeof t, "%d-first\r\n", good); ok = t + ok; }
    if (st == EHLO) { ok = "250-hello\r\n"; if (wl(2)) ok += "250-SIZE 100000\r\n"; if (!c->s->user.empty()) ok += wl(3) == 0 ? "250-AUTH PLAIN CRAM-MD5\r\n" : wl(2) ? "250-AUTH LOGIN PLAIN\r\n" : wl(2) ? "250-AUTH PLAIN\r\n" : "250-AUTH LOGIN\r\n"; ok += "250 8BITMIME\r\n"; }
    switch (v) {
    case OK: case RETRY_SOON: case REJECT: case KEEP_DROP: break;
    case SLOW: sc_delay(c, 1 + wl(G->healed || G->calm ? 100 : 2 * G->stall_ms)); break;
    case DROP: c->close_after = true; ok.clear(); yes = false; break;
    case DROP_MID: c->close_after = true; ok = ok.substr(0, wl(ok.size() - 1)); yes = false; break;
    case SILENT: c->hang = true; ok = ok.substr(0, wl(2) ? 0 : wl(ok.size() - 1)); yes = false; break;
    case CODE: snprintf(t, sizeof t, "%d no\r\n", bad[wl(9)]); ok = t; yes = false; break;
    case MALFORMED: ok = mal[wl(6)]; yes = false; break;
    }
    if (v == REJECT) { ok = "504 nobody here\r\n"; yes = false; }
    if (v == RETRY_SOON) { ok = "457 later\r\n"; yes = false; }
    if (v == KEEP_DROP) { ok = ok.substr(0, wl(ok.size() - 1)); c->close_after = true; }
    c->out = ok; if (c->piece && ok.size() > 30) c->piece = std::max<size_t>(c->piece, ok.size() / 6);
    return yes;
}
static std::string between(const std::string &l) { size_t a = l.find('<'), b = l.rfind('>'); if (a == std::string::npos || b == std::string::npos || b < a) fail("command-malformed", "command '%s'", l.c_str()); return l.substr(a + 1, b - a - 1); }
static std::string b64(const std::string &s) { char *o = M_bincodec_encode_alloc((const unsigned char *)s.data(), s.size(), 0, M_BINCODEC_BASE64); std::string r = o ? o : ""; M_free(o); return r; }
static void payload(SC *c, const std::string &raw)
{
    /* undo the dot stuffing */
    std::string s; size_t p = 0; bool bol = true;
    for (; p < raw.size(); p++) { if (bol && raw[p] == '.') { SIM_CHECK(p + 1 < raw.size() && raw[p + 1] == '.', "not-stuffed", "a line of the message begins with a single dot"); p++; } s += raw[p]; bol = raw[p] == '\n' && p && raw[p - 1] == '\r'; }
    size_t k = s.find("X-Id: "); SIM_CHECK(k != std::string::npos, "payload", "a message without its X-Id header arrived (%zu bytes)", s.size());
    int id = atoi(s.c_str() + k + 6); SIM_CHECK(id >= 0 && id < (int)G->msgs.size(), "payload", "message %d unknown", id); Msg *m = G->msgs[id]; c->m = m;
    logf("server %d: message %d", c->s->id, id); sim::ev("payload", c->s->id, id); c->s->got++;
    SIM_CHECK(s.find(m->body) != std::string::npos, "payload", "message %d arrived changed:\n%s", id, s.c_str());
    size_t he = s.find("\r\n\r\n"); std::string hd = s.substr(0, he); for (auto &x : hd) x = (char)tolower(x);
    SIM_CHECK(hd.find("bcc:") == std::string::npos, "bcc-shown", "message %d shows its blind copies", id);
    SIM_CHECK(hd.find("subject: about " ) != std::string::npos, "payload", "message %d lost its subject", id);
    SIM_CHECK(c->from == m->from, "envelope", "message %d sent as from '%s'", id, c->from.c_str());
    auto a = c->rcpt, b = m->rcpt; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    SIM_CHECK(a == b, "envelope", "message %d: %zu recipients named, %zu expected", id, a.size(), b.size());
    SIM_CHECK(!m->sent, "sent-again", "message %d arrived again after it was reported sent", id);
}
static void sc_process(SC *c)
{
    while (!c->dead && !c->hang && !c->close_after) {
        if (c->busy) { SIM_CHECK(c->in.empty(), "spoke-early", "%zu bytes ('%.20s') arrived before the answer to the previous command was given", c->in.size(), c->in.c_str()); return; }
        if (c->in.empty()) return;
        if (c->in_data) {
            size_t e = c->in.compare(0, 3, ".\r\n") == 0 ? 0 : c->in.find("\r\n.\r\n");
            if (e == std::string::npos) return;
            std::string body = c->in.substr(0, e + 2); c->in.erase(0, e + 5); c->in_data = false;
            payload(c, body); c->txn = false;
            Verdict v = judge(c, PAYLOAD); c->from.clear(); c->rcpt.clear(); c->nrcpt = c->okrcpt = 0;
            if (answer(c, PAYLOAD, 250, v)) { c->m->accepted++; }
            c->want = MAIL; sc_flush(c); continue;
        }
        size_t e = c->in.find("\r\n"); if (e == std::string::npos) return;
        std::string l = c->in.substr(0, e); c->in.erase(0, e + 2); std::string cmd = l.substr(0, 4);
        logf("server %d: <- %s", c->s->id, l.c_str());
        if (c->auth_wait) {
            if (c->auth_step == 2) {
                unsigned char d[EVP_MAX_MD_SIZE]; unsigned n = 0; HMAC(EVP_md5(), c->s->pass.data(), (int)c->s->pass.size(), (const unsigned char *)c->chal.data(), c->chal.size(), d, &n);
                std::string h; char t[4]; for (unsigned i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", d[i]); h += t; }
                SIM_CHECK(l == b64(c->s->user + " " + h), "credentials", "wrong credentials: '%s'", l.c_str());
                c->auth_wait = false; if (answer(c, AUTH, 235, judge(c, AUTH))) c->want = MAIL; sc_flush(c); continue;
            }
            SIM_CHECK(c->auth_step == 0 ? l == b64(c->s->user) : l == b64(c->s->pass), "credentials", "wrong credentials: '%s'", l.c_str());
            if (c->auth_step++ == 0) answer(c, AUTH, 334, OK), c->out = "334 UGFzc3dvcmQ6\r\n"; else { c->auth_wait = false; if (answer(c, AUTH, 235, judge(c, AUTH))) c->want = MAIL; }
        } else if (cmd == "EHLO") {
            SIM_CHECK(c->want == EHLO, "protocol", "EHLO when %s was expected", sname[c->want]);
            bool known = false; for (auto m : G->msgs) known = known || l.substr(5) == m->dom; SIM_CHECK(known, "protocol", "'%s' names no sender's domain", l.c_str());
            if (answer(c, EHLO, 250, judge(c, EHLO))) c->want = c->s->user.empty() ? MAIL : AUTH;
        } else if (cmd == "AUTH") {
            SIM_CHECK(c->want == AUTH, "protocol", "AUTH when %s was expected", sname[c->want]);
            if (l.substr(5) == "LOGIN") { c->auth_wait = true; c->auth_step = 0; answer(c, AUTH, 334, OK); c->out = "334 VXNlcm5hbWU6\r\n"; }
            else if (l.substr(5) == "CRAM-MD5") { c->auth_wait = true; c->auth_step = 2; answer(c, AUTH, 334, OK); c->chal = "<" + std::to_string(wl(100000)) + ".1@there.example>"; c->out = "334 " + b64(c->chal) + "\r\n"; }
            else { std::string want = "PLAIN " + b64(std::string(1, 0) + c->s->user + std::string(1, 0) + c->s->pass); SIM_CHECK(l.substr(5) == want, "credentials", "wrong credentials: '%s', expected '%s'", l.c_str(), want.c_str()); if (answer(c, AUTH, 235, judge(c, AUTH))) c->want = MAIL; }
        } else if (cmd == "MAIL") {
            SIM_CHECK(c->want == MAIL, "protocol", "MAIL when %s was expected", sname[c->want]); c->from = between(l); c->hard = false; c->mailed = c->txn = true; { size_t n = 0; for (auto x : G->sc) if (x->s == c->s && !x->dead && x->txn) n++; c->s->used++; if (G->calm) SIM_CHECK(n <= c->s->maxc, "too-many", "%zu messages at once to a server that may have %zu connections", n, c->s->maxc); } c->rcpt.clear(); c->nrcpt = c->okrcpt = 0;
            if (answer(c, MAIL, 250, judge(c, MAIL))) c->want = RCPT;
        } else if (cmd == "RCPT") {
            SIM_CHECK(c->want == RCPT, "protocol", "RCPT when %s was expected", sname[c->want]); c->rcpt.push_back(between(l)); c->nrcpt++;
            { Verdict v = judge(c, RCPT); SIM_CHECK(!c->hard, "protocol", "another recipient named although the one before was refused for good"); if (answer(c, RCPT, 250, v)) c->okrcpt++; else if (v != REJECT) c->hard = true; }
        } else if (cmd == "DATA") {
            SIM_CHECK(!c->hard, "protocol", "DATA although a recipient was refused for good");
            SIM_CHECK(c->want == RCPT && c->okrcpt > 0, "protocol", "DATA with %d of %d recipients accepted", c->okrcpt, c->nrcpt);
            if (answer(c, DATA, 354, judge(c, DATA))) c->in_data = true;
        } else if (cmd == "RSET") { SIM_CHECK(c->want == RCPT && c->okrcpt == 0, "protocol", "RSET without need"); if (answer(c, RSET, 250, judge(c, RSET))) c->want = MAIL; c->from.clear(); c->rcpt.clear(); }
        else if (cmd == "QUIT") { answer(c, QUIT, 221, judge(c, QUIT)); c->close_after = c->close_after || wl(2); c->want = QUIT; }
        else fail("protocol", "unknown command '%s'", l.c_str());
        sc_flush(c);
    }
}
static void sc_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    SC *c = (SC *)arg; if (c->dead) return;
    switch (type) {
    case M_EVENT_TYPE_CONNECTED: answer(c, GREET, 220, judge(c, GREET)); c->want = EHLO; sc_flush(c); break;
    case M_EVENT_TYPE_READ: { unsigned char b[4096]; size_t n; while (M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS) c->in.append((char *)b, n); sc_process(c); break; }
    case M_EVENT_TYPE_WRITE: sc_flush(c); break;
    case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: sc_end(c); break;
    default: break;
    }
}
static void lst_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    if (type != M_EVENT_TYPE_ACCEPT) return;
    M_io_t *n = NULL;
    while (M_io_accept(&n, io) == M_IO_ERROR_SUCCESS) { SC *c = new SC(); c->s = (Srv *)arg; c->io = n; G->sc.push_back(c); M_event_add(G->sev, n, sc_cb, c); n = NULL; }
}
/* ---- the client's side ---- */
static void tr_cb(void *a, M_io_trace_type_t t, M_event_type_t, const unsigned char *data, size_t len)
{
    CC *c = (CC *)a; W *w = c->w;
    if (t != M_IO_TRACE_TYPE_WRITE) return;
    for (size_t i = 0; i < len; i++) {
        c->line += (char)data[i]; if (data[i] != '\n') continue;
        std::string l = c->line; c->line.clear();
        if (c->data) { if (l == ".\r\n") c->data = false; continue; }
        if (l == "DATA\r\n") c->data = true;       /* content follows only after a yes; a no ends the connection */
        if (l.compare(0, 10, "MAIL FROM:") == 0) {
            c->data = false; int id = -1; sscanf(l.c_str() + 10, "<u%d@", &id); SIM_CHECK(id >= 0 && id < (int)w->msgs.size(), "envelope", "unknown sender %s", l.c_str()); Msg *m = w->msgs[id];
            m->started++; sim::ev("mail", id); logf("client: transaction for message %d begins", id);
            SIM_CHECK(!m->bad, "sent-bad", "message %d is sent although nobody can be the sender or recipient", id); SIM_CHECK(!m->final(), "sent-again", "message %d is sent although it was already %s", id, m->sent ? "sent" : m->failed ? "given up" : "handed back");
            SIM_CHECK(now() >= m->not_before, "retry-early", "message %d is sent again %llu ms before its time", id, (unsigned long long)((m->not_before - now()) / MS));
            SIM_CHECK(!w->stopped, "sent-paused", "message %d is sent while processing is stopped", id);
            SIM_CHECK(now() + 20 * MS >= w->restart_at, "sent-paused", "message %d is sent %llu ms before processing was to be taken up again", id, (unsigned long long)((w->restart_at - now()) / MS));
        }
    }
}
static M_bool ioc_cb(M_io_t *io, char *, size_t, void *) { size_t id; CC *c = new CC(); c->w = G; G->cc.push_back(c); SIM_CHECK(M_io_add_trace(io, &id, tr_cb, c, NULL, NULL) == M_IO_ERROR_SUCCESS, "layer-add", "trace layer refused"); return M_TRUE; }
static Srv *by_port(unsigned p) { for (auto s : G->srv) if (s->port == p) return s; return NULL; }
static void connect_cb(const char *, M_uint16 port, void *)
{
    sim::ev("conn", port); G->conns++; Srv *s = by_port(port);
    /* begun after the failure (it took at most the connect timeout) and established before the time to wait is over (M_time has whole seconds) */
    if (s && s->timeout && !s->removed) SIM_CHECK(now() <= s->t_fail + (G->conn_ms + 4000) * MS || now() + 1100 * MS >= s->t_fail + s->timeout * SEC, "endpoint-early", "port %u connected %.1f s after it failed, it was to be left alone for %llu s", port, (now() - s->t_fail) / 1e9, (unsigned long long)s->timeout);
}
static void disconnect_cb(const char *, M_uint16 port, void *) { sim::ev("disc", port); }
static M_uint64 connect_fail_cb(const char *, M_uint16 port, M_net_error_t e, const char *err, void *)
{
    W *w = G; Srv *s = by_port(port); sim::ev("cfail", port, e); logf("connect_fail port %u: %s '%s'", port, M_net_errcode_to_str(e), err ? err : "");
    if (w->calm && s) fail("false-failure", "endpoint reported failed without a reason: %s", err);
    uint64_t r = 1 + wl(20); if (w->can_remove && !w->healed && s && s != w->srv.back() && wl(3) == 0) r = 0;
    if (s) { s->timeout = r; s->t_fail = now(); if (!r) s->removed = true; }
    w->last_ep_until = std::max(w->last_ep_until, now() + r * SEC); probe("n04.endpoint_failed");
    return r;
}
static void do_resume(M_event_t *, M_event_type_t, M_io_t *, void *) { W *w = G; if (w->ending) return; w->resume_pending = false; w->stopped = false; w->restart_at = 0; logf("resume"); sim::ev("resume"); M_net_smtp_resume(w->sp); }
static void add_endpoint(Srv *s) { G->stopped = false; G->noep = false; G->restart_at = 0; SIM_CHECK(M_net_smtp_add_endpoint_tcp(G->sp, "127.0.0.1", (M_uint16)s->port, M_FALSE, s->user.empty() ? NULL : s->user.c_str(), s->user.empty() ? NULL : s->pass.c_str(), s->maxc), "endpoint", "endpoint refused"); }
static Srv *fresh;
static void add_fresh(M_event_t *, M_event_type_t, M_io_t *, void *) { if (G->ending || !fresh) return; Srv *s = fresh; fresh = NULL; logf("adding a fresh endpoint"); add_endpoint(s); }
static M_uint64 halted_cb(M_bool none, void *)
{
    W *w = G; sim::ev("halted", none); logf("processing halted%s", none ? " (no endpoints)" : ""); probe("n04.halted");
    w->stopped = true; w->t_halt = now(); w->noep = none; uint64_t d = 0;
    if (w->mode_halt) d = 1 + wl(w->mode_halt);
    w->halt_delay = d;
    if (none) { M_event_timer_oneshot(w->ev, 1 + wl(5000), M_TRUE, add_fresh, w); return d; }
    if (d) w->stopped = false, w->restart_at = now() + d * SEC;      /* the library restarts by itself; checked through restart_at */
    else if (!w->resume_pending) { w->resume_pending = true; uint64_t at = now() + (1 + wl(5)) * SEC; if (wl(2)) at = std::max(w->last_ep_until + 2 * SEC, at); M_event_timer_oneshot(w->ev, (at - now()) / MS, M_TRUE, do_resume, w); }
    return d;
}
static Msg *of(const M_hash_dict_t *h) { const char *v = h ? M_hash_dict_get_direct(h, "X-Id") : NULL; if (!v) return NULL; int id = atoi(v); return id >= 0 && id < (int)G->msgs.size() ? G->msgs[id] : NULL; }
static void sent_cb(const M_hash_dict_t *h, void *)
{
    W *w = G; Msg *m = of(h); SIM_CHECK(m, "headers", "sent callback without the message's headers"); sim::ev("sent", m->id); logf("message %d reported sent", m->id);
    SIM_CHECK(!m->final(), "reported-twice", "message %d reported sent although it was already %s", m->id, m->sent ? "reported sent" : m->failed ? "given up" : "handed back");
    SIM_CHECK(m->accepted > m->last_accepted, "false-sent", "message %d reported sent although no server accepted it%s", m->id, m->last_accepted ? " in this attempt" : "");
    SIM_CHECK(!w->ext || m->out, "false-sent", "message %d reported sent although it is not out", m->id); m->out = false; m->sent = true; m->t_final = now(); w->sent_calls++; probe("n04.sent");
}
static M_bool send_failed_cb(const M_hash_dict_t *h, const char *err, size_t attempt, M_bool can, void *)
{
    W *w = G; Msg *m = of(h);
    if (!m) { for (auto x : w->msgs) if (x->bad && !x->final() && err == x->raw) { m = x; break; } }
    SIM_CHECK(m, "headers", "failure callback without the message's headers (%s)", err ? err : "");
    sim::ev("failed", m->id, attempt, can); logf("message %d failed, attempt %zu%s: %s", m->id, attempt, can ? "" : " (last)", err ? err : "");
    SIM_CHECK(!m->final(), "reported-twice", "message %d reported failed although it was already %s", m->id, m->sent ? "reported sent" : m->failed ? "given up" : "handed back");
    SIM_CHECK(!(w->calm && !m->bad && !w->ending), "false-failure", "message %d failed without a reason: %s", m->id, err ? err : "");
    m->last_accepted = m->accepted;
    if (w->ext) {
        SIM_CHECK(attempt == 0 && !can, "attempt-number", "attempt %zu%s reported with an external queue", attempt, can ? " and another" : "");
        SIM_CHECK(m->bad == m->out, "reported-twice", "message %d reported failed %s", m->id, m->bad ? "twice" : "before it was given back");
        if (m->bad) { m->failed = true; m->out = false; m->t_final = now(); }
        return M_FALSE;
    }
    m->attempts++;
    SIM_CHECK(attempt == (size_t)m->attempts, "attempt-number", "message %d: attempt %zu reported, it is number %d", m->id, attempt, m->attempts);
    SIM_CHECK((can != 0) == (!m->bad && attempt < w->max_attempts), "attempt-limit", "message %d: attempt %zu of %zu, another one is %s", m->id, attempt, w->max_attempts, can ? "offered" : "not offered");
    bool again = can && wl(100) < w->requeue_pct;
    if (!again) { m->failed = true; m->t_final = now(); probe("n04.given_up"); }
    else { m->not_before = now() + (strstr(err, "457") ? 3000 : 900000) * MS - 20 * MS; probe("n04.requeued"); }
    return again ? M_TRUE : M_FALSE;
}
/* the external queue */
static char *ext_get()
{
    W *w = G; if (w->q.empty()) return NULL;
    Msg *m = w->q.front(); w->q.pop_front(); SIM_CHECK(!m->out && !m->final(), "external", "message %d taken twice", m->id); m->out = true; sim::ev("take", m->id); logf("message %d taken from the queue", m->id);
    return M_strdup(m->raw.c_str());
}
struct Hold { Msg *m; };
static void ext_back(M_event_t *, M_event_type_t, M_io_t *, void *a) { Msg *m = (Msg *)a; if (G->ending) return; m->held = false; G->q.push_back(m); M_net_smtp_external_queue_have_messages(G->sp); }
static void resched_cb(const char *msg, M_uint64 wait, void *)
{
    W *w = G; Msg *m = NULL; for (auto x : w->msgs) if (x->raw == msg) m = x;
    SIM_CHECK(w->ext, "reschedule", "reschedule callback without an external queue"); SIM_CHECK(m, "reschedule", "an unknown message was given back");
    sim::ev("resched", m->id, wait); logf("message %d given back, wait %llu s", m->id, (unsigned long long)wait);
    SIM_CHECK(m->out && !m->final(), "reported-twice", "message %d given back although it is not out", m->id);
    SIM_CHECK(!(w->calm && !w->ending), "false-failure", "message %d given back without a reason", m->id);
    SIM_CHECK(wait == 0 || wait == 3 || wait == 900, "reschedule", "wait of %llu s", (unsigned long long)wait);
    m->out = false; m->held = true; m->not_before = now() + wait * SEC; m->last_accepted = m->accepted; probe("n04.given_back");
    if (!w->ending) M_event_timer_oneshot(w->ev, wait * 1000 + 1, M_TRUE, ext_back, m);
}
static bool have_pending() { for (auto m : G->msgs) if (m->queued && !m->final()) return true; return false; }
static void queue_msg(Msg *m)
{
    m->queued = true; sim::ev("queue", m->id); logf("queueing message %d", m->id);
    if (G->ext) { G->q.push_back(m); SIM_CHECK(!M_net_smtp_queue_message(G->sp, m->raw.c_str()), "external", "the internal queue took a message although an external one is set"); M_net_smtp_external_queue_have_messages(G->sp); return; }
    SIM_CHECK(M_net_smtp_queue_message(G->sp, m->raw.c_str()), "queue", "message refused");
}
static void queue_task(M_event_t *, M_event_type_t, M_io_t *, void *a) { queue_msg((Msg *)a); }
static void pause_task(M_event_t *, M_event_type_t, M_io_t *, void *) { if (G->ending) return; logf("pause"); sim::ev("pause"); M_net_smtp_pause(G->sp); }
static Msg *build(int id)
{
    Msg *m = new Msg(); m->id = id; char t[400]; snprintf(t, sizeof t, "dom%d.example", (int)wl(3)); m->dom = t; snprintf(t, sizeof t, "u%d@%s", id, m->dom.c_str()); m->from = t;
    std::string to, cc, bcc; size_t nt = 1 + wl(3), nc = wl(3) ? 0 : 1 + wl(2), nb = wl(3) ? 0 : 1 + wl(2); size_t n = 0;
    auto addr = [&](std::string &l) { snprintf(t, sizeof t, "r%dx%zu@there.example", id, n++); m->rcpt.push_back(t); l += (l.empty() ? "" : ", ") + std::string(wl(2) ? "<" : "Some One <") + t + ">"; };
    while (nt--) addr(to); while (nc--) addr(cc); while (nb--) { addr(bcc); m->bcc = true; }
    size_t lines = 1 + (wl(4) ? wl(6) : wl(60)); if (net().bufcap < 1000) lines = std::min<size_t>(lines, 6);
    m->body = "begin";
    for (size_t i = 0; i < lines; i++) { m->body += "\r\n"; switch (wl(6)) { case 0: m->body += "."; break; case 1: m->body += ".."; break; case 2: m->body += ".dot first"; break; case 3: break; default: snprintf(t, sizeof t, "line %zu of message %d . end.", i, id); m->body += t; } }
    m->body += "\r\nlast line";
    snprintf(t, sizeof t, "X-Id: %d\r\n", id);
    m->raw = "From: <" + m->from + ">\r\nTo: " + to + "\r\n" + (cc.empty() ? "" : "Cc: " + cc + "\r\n") + (bcc.empty() ? "" : "Bcc: " + bcc + "\r\n") + "Subject: about " + (wl(2) ? "this" : "that and more") + "\r\n" + t + "MIME-Version: 1.0\r\nContent-Type: text/plain\r\n\r\n" + m->body + "\r\n";
    if (wl(10) == 0) { m->bad = true; switch (wl(3)) { case 0: m->raw = "this is message " + std::to_string(id) + " and no mail at all"; break; case 1: m->raw = "From: <" + m->from + ">\r\nSubject: x\r\n" + t + "MIME-Version: 1.0\r\nContent-Type: text/plain\r\n\r\n" + m->body + "\r\n"; break; default: m->raw = "To: <a@b.example>\r\nSubject: x\r\n" + std::string(t) + "MIME-Version: 1.0\r\nContent-Type: text/plain\r\n\r\n" + m->body + "\r\n"; } }
    return m;
}
}
using namespace n04;
static void smtp_queue()
{
    world_begin(); W w; G = &w; fresh = NULL;
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_NET_RESET, F_NET_CONN_REFUSED, F_NET_CONN_TIMEOUT, F_SOCKET_FAIL });
    net_swarm();
    w.ev = M_event_create(M_EVENT_FLAG_NONE); bool two = choose(CFG, 2); w.sev = two ? M_event_create(M_EVENT_FLAG_NONE) : w.ev; w.dns = M_dns_create(w.ev);
    struct M_net_smtp_callbacks cbs; memset(&cbs, 0, sizeof cbs); cbs.connect_cb = connect_cb; cbs.connect_fail_cb = connect_fail_cb; cbs.disconnect_cb = disconnect_cb; cbs.processing_halted_cb = halted_cb; cbs.sent_cb = sent_cb; cbs.send_failed_cb = send_failed_cb; cbs.iocreate_cb = ioc_cb; cbs.reschedule_cb = resched_cb;
    w.sp = M_net_smtp_create(w.ev, &cbs, NULL); M_net_smtp_setup_tcp(w.sp, w.dns, NULL);
    size_t nsrv = 1 + wl(3), nmsg = 1 + wl(6); bool badness = wl(3) != 0; w.can_remove = wl(3) == 0; w.mode_halt = wl(2) ? 1 + (unsigned)wl(10) : 0;
    w.conn_ms = 500 + wl(4000) + 4 * (net().latency + net().jitter) / MS; w.stall_ms = 500 + wl(4000) + 80 * (net().latency + net().jitter) / MS; w.idle_ms = wl(3) == 0 ? 0 : wl(4) == 0 ? 100000000 : 1 + wl(2000);
    if (!badness) { w.conn_ms += 20000; w.stall_ms += 100000; }
    M_net_smtp_setup_tcp_timeouts(w.sp, w.conn_ms, w.stall_ms, w.idle_ms);
    w.max_attempts = 1 + wl(4); if (w.max_attempts == 3 && wl(2)) {} else M_net_smtp_set_num_attempts(w.sp, w.max_attempts);
    if (wl(2)) M_net_smtp_set_stall_retries(w.sp, wl(4));
    if (wl(3) == 0) w.requeue_pct = (unsigned)wl(100);
    w.rr = wl(2); if (wl(5) == 0) { w.ext = true; SIM_CHECK(M_net_smtp_use_external_queue(w.sp, ext_get), "external", "external queue refused"); }
    M_net_smtp_load_balance(w.sp, w.rr ? M_NET_SMTP_LOAD_BALANCE_ROUNDROBIN : M_NET_SMTP_LOAD_BALANCE_FAILOVER);
    w.calm = !any_fault_enabled() && !badness;
    for (size_t i = 0; i < nsrv + 1; i++) {
        Srv *s = new Srv(); s->w = &w; s->id = (int)i; s->maxc = 1 + wl(3); if (badness) s->bad = wl(3) ? (unsigned)wl(40) : 5; if (wl(3) == 0) { s->user = "user"; s->pass = "pass word"; }
        for (int k = 0; k < 50 && M_io_net_server_create(&s->lst, 0, "127.0.0.1", M_IO_NET_IPV4) != M_IO_ERROR_SUCCESS; k++) s->lst = NULL; if (!s->lst) inconclusive("no listener"); s->port = M_io_net_get_port(s->lst); M_event_add(w.sev, s->lst, n04::lst_cb, s);
        if (i == nsrv) fresh = s; w.srv.push_back(s);
    }
    for (size_t i = 0; i < nmsg; i++) w.msgs.push_back(build((int)i));
    bool outside = wl(3) == 0; size_t before = wl(nmsg + 1); size_t qi = 0;
    for (; qi < before && wl(2); qi++) queue_msg(w.msgs[qi]);
    for (size_t i = 0; i < nsrv; i++) add_endpoint(w.srv[i]);
    for (; qi < before; qi++) queue_msg(w.msgs[qi]);
    std::vector<Fiber *> loops; loops.push_back(spawn("loop", [&] { M_event_loop(w.ev, M_TIMEOUT_INF); })); if (two) loops.push_back(spawn("srvloop", [&] { M_event_loop(w.sev, M_TIMEOUT_INF); }));
    for (; qi < nmsg; qi++) { jitter(); if (wl(3) == 0) sleep_ns(wl(3000) * MS); if (wl(2)) queue_msg(w.msgs[qi]); else M_event_queue_task(w.ev, queue_task, w.msgs[qi]); if (wl(8) == 0) { if (outside) pause_task(NULL, M_EVENT_TYPE_OTHER, NULL, NULL); else M_event_queue_task(w.ev, pause_task, NULL); } }
    if (wl(4) == 0) { sleep_ns(wl(3000) * MS); if (outside) pause_task(NULL, M_EVENT_TYPE_OTHER, NULL, NULL); else M_event_queue_task(w.ev, pause_task, NULL); }
    deadline(now() + 200000 * SEC, "never-settles", "messages neither sent nor given up");
    auto settled = [&] { for (auto m : w.msgs) if (!m->queued || !m->final()) return false; return true; };
    bool dump = wl(5) == 0;
    wait_until(settled, (wl(2) ? 20 + wl(100) : 1000 + wl(1000)) * SEC, "messages settle");
    faults_stop(); w.healed = true; logf("healed");
    if (dump && !w.calm) {
        /* stop, wait until stopped, take the queue: every message is accounted for */
        w.mode_halt = 0; w.resume_pending = true;
        for (int k = 0; k < 40 && !(w.stopped && (M_net_smtp_status(w.sp) == M_NET_SMTP_STATUS_STOPPED || M_net_smtp_status(w.sp) == M_NET_SMTP_STATUS_NOENDPOINTS)); k++) { if (k % 10 == 0) M_event_queue_task(w.ev, pause_task, NULL); sleep_ns(10 * SEC); fresh = NULL; }
        SIM_CHECK(w.stopped, "never-stops", "paused, and still running after 400 s (status %d)", (int)M_net_smtp_status(w.sp));
        M_list_str_t *l = M_net_smtp_dump_queue(w.sp);
        for (size_t i = 0; i < M_list_str_len(l); i++) { std::string s = M_list_str_at(l, i); Msg *m = NULL; for (auto x : w.msgs) if (x->raw == s) m = x; SIM_CHECK(m, "dump", "an unknown message was handed back"); m->out = false; SIM_CHECK(!m->final(), "dump", "message %d handed back although already %s", m->id, m->sent ? "sent" : m->failed ? "given up" : "handed back"); m->dumped = true; probe("n04.dumped"); }
        M_list_str_destroy(l);
        for (auto m : w.msgs) SIM_CHECK(!m->queued || m->final() || m->held, "lost", "message %d was queued, is not sent, not given up, and not in the queue", m->id);
    } else {
        wait_until(settled, (w.max_attempts * 1000 + 2000) * SEC, "messages settle");
        for (auto m : w.msgs) if (!m->final()) fail("never-settles", "message %d (%d attempts, accepted %d times) neither sent nor given up; status %d", m->id, m->attempts, m->accepted, (int)M_net_smtp_status(w.sp));
        if (w.calm) for (auto m : w.msgs) SIM_CHECK(m->bad || (m->sent && m->accepted == 1), "not-exactly-once", "message %d: sent %d, accepted %d times", m->id, m->sent, m->accepted);
        if (wl(2)) { wait_until([&] { auto s = M_net_smtp_status(w.sp); return s != M_NET_SMTP_STATUS_PROCESSING && s != M_NET_SMTP_STATUS_STOPPING; }, 300 * SEC, "idle"); auto s = M_net_smtp_status(w.sp); SIM_CHECK(s != M_NET_SMTP_STATUS_PROCESSING && s != M_NET_SMTP_STATUS_STOPPING, "status", "status %d although nothing is left to do", (int)s); }
    }
    if (w.calm && nsrv > 1) {
        int used = 0; for (size_t i = 0; i < nsrv; i++) used += w.srv[i]->used > 0; 
        if (!w.rr) SIM_CHECK(used <= 1, "balance", "%d servers used although the first one never failed", used);
        if (w.rr && wl(2)) {
            /* one message after the other: they go round */
            for (size_t i = 0; i < nsrv; i++) w.srv[i]->got = 0;
            bool gap = wl(2);
            for (size_t i = 0; i < 3 * nsrv; i++) {
                Msg *m = build((int)w.msgs.size()); while (m->bad) { delete m; m = build((int)w.msgs.size()); }
                w.msgs.push_back(m); queue_msg(m); wait_until([m] { return m->final(); }, 5000 * SEC, "message settles");
                if (gap) sleep_ns((w.idle_ms < 100000 ? w.idle_ms : 0) * MS + 1000 * MS);
            }
            for (size_t i = 0; i < nsrv; i++) SIM_CHECK(w.srv[i]->got > 0, "balance", "server %zu of %zu got none of %zu messages sent in turn", i, nsrv, 3 * nsrv);
            probe("n04.rotation");
        }
    }
    if (w.idle_ms < 100000 && wl(3) == 0) {
        auto closed = [&] { for (auto c : w.sc) if (!c->dead) return false; return true; };
        wait_until(closed, 300 * SEC, "connections close"); SIM_CHECK(closed(), "not-closed", "a connection is still open long after the last message");
    }
    deadline_clear(); if (wl(2)) sleep_ns(wl(5000) * MS);
    M_event_done(w.ev); if (two) M_event_done(w.sev);
    for (auto f : loops) join(f);
    w.ending = true;
    for (auto c : w.sc) { sc_end(c); delete c; }
    for (auto s : w.srv) M_io_destroy(s->lst);
    M_net_smtp_destroy(w.sp);
    M_dns_destroy(w.dns); M_event_destroy(w.ev); if (two) M_event_destroy(w.sev);
    for (auto s : w.srv) delete s; for (auto c : w.cc) delete c; for (auto m : w.msgs) delete m;
    world_end();
}
SIM_WORLD(N04, smtp_queue, "net/smtp/*, e-mail reader and writer, io/*, event loop", "kernel sockets/epoll, clock, threads; scripted mail servers", 2);

/* ---- mail handed to programs (sendmail) instead of servers ---- */
namespace n04p {
struct PM { int id; std::string raw; bool dot = false, sent = false, failed = false; int good = 0, last_good = 0, starts = 0, attempts = 0; uint64_t not_before = 0; bool final() const { return sent || failed; } };
struct PE { std::string path; size_t maxp = 1; unsigned bad = 0; int running = 0; uint64_t tmo = 0; std::vector<std::string> args; bool env = false; };
struct PW { M_net_smtp_t *sp = NULL; M_event_t *ev = NULL; std::vector<PM *> m; std::vector<PE *> e; bool calm = false, healed = false, ending = false, resume_pending = false; size_t max_attempts = 3; unsigned chunk = 4096; };
static PW *P;
static int prog(ProcCtx &c)
{
    PE *e = NULL; for (auto x : P->e) if (x->path == c.path) e = x; SIM_CHECK(e, "command", "an unknown program is run: %s", c.path.c_str());
    SIM_CHECK(c.argv.size() == e->args.size() + 1 && std::equal(e->args.begin(), e->args.end(), c.argv.begin() + 1), "command", "the program got %zu arguments", c.argv.size());
    if (e->env) SIM_CHECK(std::find(c.env.begin(), c.env.end(), "MAILER=mstd") != c.env.end(), "command", "the program's environment is missing");
    e->running++; SIM_CHECK(!P->calm || e->running <= (int)e->maxp, "too-many", "%d programs at once where %zu are allowed", e->running, e->maxp);
    bool bad = !P->healed && wl(100) < e->bad; unsigned how = bad ? (unsigned)wl(7) : 0; size_t chunk = 1 + wl(P->chunk); int rc = 0; char b[4096]; std::string got; bool eof = false, rd = true;
    if (how == 1) { rc = 1 + (int)wl(100); rd = wl(2); if (!rd) sleep_ns(wl(20) * MS); }
    if (how == 2) chunk = 1 + wl(5);
    size_t cut = how == 3 ? wl(300) : how == 6 ? 20 + wl(300) : (size_t)-1; size_t reads = 0;
    while (rd && got.size() < cut) {
        ssize_t r = c.in(b, std::min<size_t>(++reads > 100 ? sizeof b : chunk, sizeof b)); if (r <= 0) { eof = r == 0; break; } got.append(b, (size_t)r);
        if (how == 4 && got.find("\r\n.\r\n") != std::string::npos) { probe("n04.dot_end"); break; } if (wl(8) == 0) sleep_ns(wl(3) * MS);
    }
    if (how == 3) { rc = 1 + (int)wl(100); if (wl(2)) c.out(2, "no way\n", 7); if (wl(2)) c.out(1, "output", 6); }
    if (how == 1 && rd && wl(2)) c.out(1 + (int)wl(2), "later\n", 6);
    if (how == 5 && e->tmo) { while (!c.killed()) sleep_ns(10 * MS); rc = -9; }
    PM *m = NULL; size_t k = got.find("X-Id: "); if (k != std::string::npos && got.find("\r\n", k) != std::string::npos) { int id = atoi(got.c_str() + k + 6); if (id >= 0 && id < (int)P->m.size()) m = P->m[id]; }
    sim::ev("program", m ? m->id : -1, rc, c.killed()); logf("program %s: message %d, %zu bytes%s, exit %d%s (%u)", c.path.c_str(), m ? m->id : -1, got.size(), eof ? "" : " and more", rc, c.killed() ? ", killed" : "", how);
    if (m && !c.killed()) {
        SIM_CHECK(m->raw.compare(0, got.size(), got) == 0, "payload", "message %d was handed over changed", m->id);
        SIM_CHECK(!m->final(), "sent-again", "message %d is handed over although it was already %s", m->id, m->sent ? "sent" : "given up"); SIM_CHECK(now() >= m->not_before, "retry-early", "message %d is handed over again %llu ms before its time", m->id, (unsigned long long)((m->not_before - now()) / MS));
    }
    if (m && how == 6 && !eof && !c.killed() && got.size() + net().bufcap + 64 >= m->raw.size()) m->good++; /* finds it fine without looking at all of it; what is left may be in the pipe */
    if (eof && rc == 0 && !c.killed() && !P->ending) {
        /* a program that reads to the end and finds everything fine sends what it got */
        SIM_CHECK(m && got.size() == m->raw.size(), "cut-short", "%zu bytes of message %d were handed over as if they were all", got.size(), m ? m->id : -1);
        if (m && got == m->raw) m->good++;
    }
    e->running--;
    return rc;
}
static PM *pof(const M_hash_dict_t *h) { const char *v = h ? M_hash_dict_get_direct(h, "X-Id") : NULL; int id = v ? atoi(v) : -1; SIM_CHECK(id >= 0 && id < (int)P->m.size(), "headers", "callback without the message's headers"); return P->m[id]; }
static void p_sent(const M_hash_dict_t *h, void *)
{
    PM *m = pof(h); sim::ev("sent", m->id); logf("message %d reported sent", m->id); probe("n04.p_sent");
    SIM_CHECK(!m->final(), "reported-twice", "message %d reported sent although it was already %s", m->id, m->sent ? "reported sent" : "given up"); SIM_CHECK(m->good > m->last_good, "false-sent", "message %d reported sent, no program took it", m->id); m->sent = true;
}
static M_bool p_failed(const M_hash_dict_t *h, const char *err, size_t attempt, M_bool can, void *)
{
    PM *m = pof(h); sim::ev("failed", m->id, attempt, can); logf("message %d failed, attempt %zu%s: %s", m->id, attempt, can ? "" : " (last)", err ? err : ""); probe("n04.p_failed");
    SIM_CHECK(!m->final(), "reported-twice", "message %d reported failed although it was already %s", m->id, m->sent ? "reported sent" : "given up"); SIM_CHECK(!P->calm || P->ending, "false-failure", "message %d failed without a reason: %s", m->id, err);
    m->attempts++; m->last_good = m->good; SIM_CHECK(attempt == (size_t)m->attempts, "attempt-number", "message %d: attempt %zu reported, it is number %d", m->id, attempt, m->attempts); SIM_CHECK((can != 0) == (attempt < P->max_attempts), "attempt-limit", "message %d: attempt %zu of %zu, another one is %s", m->id, attempt, P->max_attempts, can ? "offered" : "not offered");
    if (!can || wl(4) == 0) { m->failed = true; return M_FALSE; }
    m->not_before = now() + 900000 * MS - 20 * MS; return M_TRUE;
}
static M_uint64 p_fail(const char *cmd, int rc, const char *, const char *err, void *)
{
    PE *e = NULL; for (auto x : P->e) if (x->path == cmd) e = x; SIM_CHECK(e, "endpoint", "unknown program '%s' reported", cmd); sim::ev("pfail", rc); logf("%s reported failing, result %d: %s", cmd, rc, err ? err : ""); SIM_CHECK(!P->calm || P->ending, "false-failure", "a program was reported failing without a reason: %d %s", rc, err); SIM_CHECK(rc != 0, "result", "a program is reported failing with result 0");
    return 1 + wl(20);
}
static void p_resume(M_event_t *, M_event_type_t, M_io_t *, void *) { P->resume_pending = false; if (!P->ending) M_net_smtp_resume(P->sp); }
static M_uint64 p_halted(M_bool none, void *)
{
    sim::ev("halted", none); logf("processing halted"); if (none || wl(2)) return 1 + wl(20);
    if (!P->resume_pending) { P->resume_pending = true; M_event_timer_oneshot(P->ev, 1000 + wl(20000), M_TRUE, p_resume, NULL); } return 0;
}
}
static void smtp_process()
{
    using namespace n04p;
    setenv("PATH", "/nowhere:/usr/bin:/bin", 1);
    world_begin(); PW w; P = &w; w.ev = M_event_create(M_EVENT_FLAG_NONE); allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_FORK_FAIL, F_THREAD_CREATE_FAIL, F_PIPE_FAIL }); net_swarm(); fs_mkdirs("/usr/bin");
    bool badness = wl(3) != 0; w.calm = !badness && !any_fault_enabled(); w.chunk = net().bufcap < 1000 ? 4096 : 1 + (unsigned)wl(4096);
    struct M_net_smtp_callbacks cbs; memset(&cbs, 0, sizeof cbs); cbs.process_fail_cb = p_fail; cbs.processing_halted_cb = p_halted; cbs.sent_cb = p_sent; cbs.send_failed_cb = p_failed;
    w.sp = M_net_smtp_create(w.ev, &cbs, NULL); w.max_attempts = 1 + wl(4); M_net_smtp_set_num_attempts(w.sp, w.max_attempts); M_net_smtp_load_balance(w.sp, wl(2) ? M_NET_SMTP_LOAD_BALANCE_ROUNDROBIN : M_NET_SMTP_LOAD_BALANCE_FAILOVER);
    size_t ne = 1 + wl(2), nm = 1 + wl(5);
    for (size_t i = 0; i < nm; i++) {
        PM *m = new PM(); m->id = (int)i; char t[200]; snprintf(t, sizeof t, "X-Id: %zu\r\nFrom: <u%zu@dom.example>\r\nTo: <r@there.example>\r\nSubject: about\r\nMIME-Version: 1.0\r\nContent-Type: text/plain\r\n\r\nbegin", i, i); m->raw = t; size_t lines = 1 + (wl(4) ? wl(6) : wl(60)); if (net().bufcap < 1000) lines = std::min<size_t>(lines, 6);
        for (size_t l = 0; l < lines; l++) { m->raw += "\r\n"; switch (wl(8)) { case 0: m->raw += "."; break; case 1: m->raw += ".."; break; case 2: m->raw += ".x"; break; default: m->raw += "a line of it"; } } if (net().bufcap >= 65536 && wl(4) == 0) { size_t big = 65000 + wl(30000); while (m->raw.size() < big) m->raw += "\r\n" + std::string(500, 'a' + (char)wl(26)); } m->raw += "\r\nlast line\r\n"; m->dot = m->raw.find("\r\n.\r\n") != std::string::npos; w.m.push_back(m);
    }
    for (size_t i = 0; i < ne; i++) {
        PE *e = new PE(); e->path = "/usr/bin/mailer" + std::to_string(i); e->maxp = 1 + wl(3); e->bad = badness ? (unsigned)wl(60) : 0; e->env = wl(2); if (wl(2)) e->args.push_back("-t"); e->args.push_back("with space"); if (wl(3) == 0) e->tmo = 60000 + wl(60000); program_register(e->path, prog); w.e.push_back(e);
        M_list_str_t *a = M_list_str_create(M_LIST_STR_NONE); for (auto &s : e->args) M_list_str_insert(a, s.c_str()); M_hash_dict_t *env = NULL; if (e->env) { env = M_hash_dict_create(8, 75, M_HASH_DICT_NONE); M_hash_dict_insert(env, "MAILER", "mstd"); }
        SIM_CHECK(M_net_smtp_add_endpoint_process(w.sp, e->path.c_str(), a, env, e->tmo, e->maxp), "endpoint", "program refused"); M_list_str_destroy(a); M_hash_dict_destroy(env);
    }
    deadline(now() + 200000 * SEC, "never-settles", "messages neither sent nor given up");
    JoinAll l; l.go([&w] { M_event_loop(w.ev, M_TIMEOUT_INF); });
    for (auto m : w.m) { SIM_CHECK(M_net_smtp_queue_message(w.sp, m->raw.c_str()), "queue", "message refused"); if (wl(3) == 0) sleep_ns(wl(3000) * MS); }
    auto settled = [&] { for (auto m : w.m) if (!m->final()) return false; return true; };
    wait_until(settled, (50 + wl(1500)) * SEC, "messages settle"); faults_stop(); w.healed = true; logf("healed");
    wait_until(settled, (w.max_attempts * 1100 + 3000) * SEC, "messages settle");
    for (auto m : w.m) if (!m->final()) fail("never-settles", "message %d (%d attempts) neither sent nor given up; status %d", m->id, m->attempts, (int)M_net_smtp_status(w.sp));
    if (w.calm) for (auto m : w.m) SIM_CHECK(m->sent && m->good == 1, "not-exactly-once", "message %d: sent %d, taken %d times", m->id, m->sent, m->good);
    wait_until([&] { auto s = M_net_smtp_status(w.sp); return s != M_NET_SMTP_STATUS_PROCESSING && s != M_NET_SMTP_STATUS_STOPPING; }, 300 * SEC, "idle"); auto s = M_net_smtp_status(w.sp); SIM_CHECK(s != M_NET_SMTP_STATUS_PROCESSING && s != M_NET_SMTP_STATUS_STOPPING, "status", "status %d although nothing is left", (int)s);
    M_event_done(w.ev); l.join(); w.ending = true; M_net_smtp_destroy(w.sp); M_event_destroy(w.ev);
    wait_until([] { return proc_stats().forks == proc_stats().exits; }, SEC, "exits"); deadline_clear();
    for (auto m : w.m) delete m; for (auto e : w.e) delete e; world_end();
}
SIM_WORLD(N04, smtp_process, "net/smtp/* with program endpoints, io/m_io_process.c, event loop", "fork/exec, pipes, clock, threads; simulated mailer programs", 1);
