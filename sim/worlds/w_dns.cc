/* N01: names resolve to what the servers say, and connecting by name finds a working address if there is one */
#include "w_common.h"

namespace n01 {
enum Mode { M_OK, M_NX, M_NODATA, M_SERVFAIL, M_SILENT };
static const char *mname[] = { "ok", "nx", "nodata", "servfail", "silent" };
struct Ver { uint64_t from; Mode m; std::vector<std::string> v4, v6; uint32_t ttl; };
struct Host { std::string name; std::vector<Ver> vers; };
struct Query { int id, host; M_io_net_type_t type; int called = 0; uint64_t t0 = 0, t1 = 0, qto = 0; int ev = -1; bool quiet = false; std::vector<std::string> expect_status; M_dns_result_t res; };
enum AMode { A_GOOD, A_REFUSE, A_BLACK, A_UNREACH, A_SLOW };
struct Target { std::string ip; AMode m; uint64_t lat = 0; M_io_t *lst = NULL; size_t accepted = 0; bool v6; };
struct Cli;
struct Srv { M_io_t *io; Target *t; size_t got = 0; bool wrote = false, over = false; unsigned char b[8]; };
struct Cli { int id, host; M_io_net_type_t type; M_io_t *io = NULL; bool connected = false, term = false, closed = false, moved = false, incb = false; M_event_type_t tt = M_EVENT_TYPE_OTHER; uint64_t t0 = 0, tend = 0, cto = 0, fo = 0, gen = 0; size_t got = 0; unsigned char b[8]; std::string ip; int ev = 0; bool disc = false; int fate = 0; };
struct Wd { M_dns_t *dns = NULL; M_event_t *ev[3] = { NULL, NULL, NULL }; int nev = 1; Fiber *loop[3]; int fib[3]; std::vector<Host> hosts; std::vector<Query *> q; std::vector<Target *> targets; std::vector<Srv *> srv; std::vector<Cli *> cli; size_t done = 0; uint64_t qto = 5000, cmax = 3600; bool dnsbad = false, walljump = false; M_thread_mutex_t *mtx = NULL; std::map<std::string, M_dns_happyeb_status_t> he; bool chaos = false; unsigned port = 0; uint64_t dnsdelay = 0; bool private_loop = false, destroyed = false; size_t nserver_silent = 0; };
static Wd *G;
static void put16(std::string &s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
static void put32(std::string &s, uint32_t v) { put16(s, v >> 16); put16(s, v & 0xffff); }
static Ver &ver_at(Host &h, uint64_t t) { size_t i = h.vers.size() - 1; while (i && h.vers[i].from > t) i--; return h.vers[i]; }
}
using namespace n01;

/* ---- the name server ------------------------------------------------------------------------------ */
static void dns_server(const std::string &, uint16_t, const std::string &to, uint16_t port, const std::string &d, std::function<void(std::string)> reply)
{
    if (port != 53 || d.size() < 17) return;
    if (to == "10.0.0.54" && G->nserver_silent) return;                /* a dead first server */
    size_t p = 12; std::string nm; while (p < d.size() && d[p]) { size_t n = (unsigned char)d[p]; if (p + 1 + n >= d.size()) return; if (!nm.empty()) nm += "."; nm += d.substr(p + 1, n); p += n + 1; }
    if (p + 5 > d.size()) return;
    size_t qend = p + 5; unsigned qt = (unsigned char)d[p + 1] << 8 | (unsigned char)d[p + 2];
    std::string low; for (char ch : nm) low += (char)tolower(ch);
    Host *h = NULL; for (auto &x : G->hosts) if (x.name == low) h = &x;
    sim::ev("dnsq", h ? h - &G->hosts[0] : -1, qt); logf("dns server %s: query %s type %u", to.c_str(), nm.c_str(), qt);
    Mode m = M_NX; const Ver *v = NULL; if (h) { v = &ver_at(*h, now()); m = v->m; }
    if (m == M_SILENT) return;
    if (fault(F_DNS_SERVFAIL)) m = M_SERVFAIL;
    std::string r = d.substr(0, 2); r += (char)0x81; r += (char)(0x80 | (m == M_NX ? 3 : m == M_SERVFAIL ? 2 : 0));
    std::string an; unsigned n = 0;
    if (m == M_OK) for (auto &ip : qt == 1 ? v->v4 : qt == 28 ? v->v6 : std::vector<std::string>()) { unsigned char b[16]; M_dns_pton(qt == 1 ? AF_INET : AF_INET6, ip.c_str(), b); size_t l = qt == 1 ? 4 : 16; an += "\xc0\x0c"; put16(an, qt); put16(an, 1); put32(an, v->ttl); put16(an, (unsigned)l); an.append((char *)b, l); n++; }
    put16(r, 1); put16(r, n); put16(r, 0); put16(r, 0); r += d.substr(12, qend - 12); r += an;
    if (G->dnsdelay) { at(now() + G->dnsdelay, [reply, r] { reply(r); }); } else reply(r);
}

/* ---- plain lookups ---------------------------------------------------------------------------------- */
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : " ") + x; return s; }
static void q_cb(const M_list_str_t *ips, void *arg, M_dns_result_t res)
{
    Query *q = (Query *)arg; Wd *w = G; Host &h = w->hosts[q->host]; uint64_t t = now();
    sim::ev("dnscb", q->id, res, (int64_t)M_list_str_len(ips));
    std::vector<std::string> got; for (size_t i = 0; i < M_list_str_len(ips); i++) got.push_back(M_list_str_at(ips, i));
    logf("query %d host %d (%s) result %d after %.3f s: %s", q->id, q->host, mname[ver_at(h, t).m], res, (t - q->t0) / 1e9, join(got).c_str());
    SIM_CHECK(++q->called == 1, "called-twice", "query %d: callback called %d times", q->id, q->called);
    q->res = res; q->t1 = t; w->done++;
    if (q->ev >= 0 && !q->quiet) SIM_CHECK(self_id() == w->fib[q->ev] || res == M_DNS_RESULT_SUCCESS_CACHE || res == M_DNS_RESULT_INVALID, "wrong-thread", "query %d: callback outside of its event loop", q->id);
    bool ok = res == M_DNS_RESULT_SUCCESS || res == M_DNS_RESULT_SUCCESS_CACHE || res == M_DNS_RESULT_SUCCESS_CACHE_EVICT;
    auto window = [&](uint64_t back, std::function<bool(const Ver &)> f) { uint64_t a = q->t0 > back ? q->t0 - back : 0; for (size_t i = 0; i < h.vers.size(); i++) { uint64_t e = i + 1 < h.vers.size() ? h.vers[i + 1].from : NEVER; if (h.vers[i].from <= t && e >= a && f(h.vers[i])) return true; } return false; };
    if (ok) {
        SIM_CHECK(!got.empty(), "empty-success", "query %d succeeded without addresses", q->id);
        uint64_t back = 0; if (res == M_DNS_RESULT_SUCCESS_CACHE) back = w->walljump ? NEVER : (w->cmax + 2) * SEC;
        auto match = [&](const Ver &v) { if (v.m != M_OK) return false; std::multiset<std::string> a, b(got.begin(), got.end()); std::vector<std::string> all; if (q->type != M_IO_NET_IPV6) { a.insert(v.v4.begin(), v.v4.end()); } if (q->type != M_IO_NET_IPV4) a.insert(v.v6.begin(), v.v6.end());
            if (a == b) return true; if (!w->dnsbad) return false; for (auto &x : b) if (!a.count(x)) return false; return true; /* one of the two questions may have failed */ };
        SIM_CHECK(window(back, match), "wrong-addresses", "query %d for %s (type %d, result %d): %s was never the answer in that time", q->id, h.name.c_str(), q->type, res, join(got).c_str());
        if (res == M_DNS_RESULT_SUCCESS_CACHE && !w->walljump) {
            /* older than its time to live: only when the servers do not answer */
            auto fresh = [&](const Ver &v) { if (!match(v)) return false; uint64_t e = NEVER; for (auto &x : h.vers) if (x.from > v.from) { e = x.from; break; } uint64_t b = (v.ttl + 2) * SEC; return e >= (q->t0 > b ? q->t0 - b : 0); };
            bool failing = w->dnsbad || w->destroyed || window(0, [](const Ver &v) { return v.m == M_SERVFAIL || v.m == M_SILENT; });
            SIM_CHECK(failing || window(NEVER, fresh), "stale", "query %d for %s: %s is older than its time to live although the servers answer", q->id, h.name.c_str(), join(got).c_str());
            probe("n01.cached");
        }
        /* alternate between families in the order of the status of earlier connections */
        if (q->quiet) {
            int last = -1; bool prev6 = false; size_t n4 = 0, n6 = 0, k4 = 0, k6 = 0; for (auto &x : got) (x.find(':') != std::string::npos ? n6 : n4)++;
            auto st = [&](const std::string &x) { auto it = w->he.find(x); return it == w->he.end() ? (int)M_HAPPYEB_STATUS_UNKNOWN : (int)it->second; };
            bool plain = true; for (auto &x : got) if (st(x) != st(got[0])) plain = false;
            for (size_t i = 0; i < got.size(); i++) {
                int s = st(got[i]); bool is6 = got[i].find(':') != std::string::npos;
                SIM_CHECK(s >= last, "order", "query %d: %s (status %d) comes after a worse one", q->id, got[i].c_str(), s); last = s;
                if (plain) { bool want6 = k6 < n6 && (k4 >= n4 || !(i && prev6)); SIM_CHECK(is6 == want6, "order", "query %d: families do not alternate: %s", q->id, join(got).c_str()); (is6 ? k6 : k4)++; prev6 = is6; }
            }
            probe("n01.order");
        }
    } else if (res == M_DNS_RESULT_NOTFOUND) {
        auto none = [&](const Ver &v) { return v.m == M_NX || v.m == M_NODATA || (v.m == M_OK && ((q->type == M_IO_NET_IPV4 && v.v4.empty()) || (q->type == M_IO_NET_IPV6 && v.v6.empty()) || (v.v4.empty() && v.v6.empty()))); };
        SIM_CHECK(window(0, none) || (w->dnsbad && window(0, [](const Ver &v) { return v.v4.empty() || v.v6.empty(); })), "not-found", "query %d for %s: reported not found although it exists", q->id, h.name.c_str());
    } else {
        SIM_CHECK(res != M_DNS_RESULT_INVALID, "invalid", "query %d for %s was refused", q->id, h.name.c_str());
        SIM_CHECK(w->dnsbad || w->destroyed || window(0, [](const Ver &v) { return v.m == M_SERVFAIL || v.m == M_SILENT; }), "failed", "query %d for %s: result %d although the servers answered", q->id, h.name.c_str(), res);
    }
}
static void ask(int host, int evi, bool quiet = false)
{
    Wd *w = G; Query *q = new Query(); q->id = (int)w->q.size(); q->host = host; static const M_io_net_type_t ty[3] = { M_IO_NET_ANY, M_IO_NET_IPV4, M_IO_NET_IPV6 }; q->type = ty[wl(2) ? 0 : wl(3)]; q->ev = evi; q->quiet = quiet; q->t0 = now(); q->qto = w->qto; w->q.push_back(q);
    sim::ev("ask", q->id, host);
    M_dns_gethostbyname(w->dns, evi < 0 ? NULL : w->ev[evi], w->hosts[host].name.c_str(), q->type, q_cb, q);
}
struct Lit { std::string ip; bool want; int called = 0; };
static void lit_cb(const M_list_str_t *ips, void *arg, M_dns_result_t res)
{
    Lit *l = (Lit *)arg; l->called++;
    if (l->want) SIM_CHECK(res == M_DNS_RESULT_SUCCESS && M_list_str_len(ips) == 1 && l->ip == M_list_str_at(ips, 0), "literal", "looking up the address %s gave result %d with %zu addresses", l->ip.c_str(), res, M_list_str_len(ips));
    else SIM_CHECK(res == M_DNS_RESULT_INVALID, "literal", "looking up the address %s as the other family gave result %d", l->ip.c_str(), res);
}
static void ask_literal(int evi)
{
    static const char *s[6] = { "10.1.0.3", "fd00::3", "127.0.0.1", "::1", "255.255.255.255", "fe80::1:2" }; int k = (int)wl(6); Lit l; l.ip = s[k]; M_io_net_type_t ty = wl(2) ? M_IO_NET_ANY : wl(2) ? M_IO_NET_IPV4 : M_IO_NET_IPV6;
    l.want = ty == M_IO_NET_ANY || (ty == M_IO_NET_IPV6) == (l.ip.find(':') != std::string::npos);
    M_dns_gethostbyname(wl(3) ? G->dns : NULL, evi < 0 ? NULL : G->ev[evi], s[k], ty, lit_cb, &l);
    SIM_CHECK(l.called == 1, "literal", "looking up the address %s called back %d times", s[k], l.called); probe("n01.literal");
}
static bool q_wait(uint64_t extra)
{
    Wd *w = G; auto all = [w] { for (auto q : w->q) if (!q->called) return false; return true; };
    return wait_until(all, (w->qto * 12 + 10000 + extra) * MS, "lookups end");
}

/* ---- connecting by name ------------------------------------------------------------------------------- */
static void s_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    Srv *s = (Srv *)arg; if (s->over) return; sim::ev("srv", type);
    size_t n = 0; unsigned char b[64];
    switch (type) {
    case M_EVENT_TYPE_READ: while (M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS) { for (size_t i = 0; i < n && s->got < 8; i++) s->b[s->got++] = b[i]; } if (s->got == 8 && !s->wrote) { s->wrote = true; M_io_write(io, s->b, 8, &n); } break;
    case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: s->over = true; M_io_destroy(io); s->io = NULL; break;
    default: break;
    }
}
static void l_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg)
{
    if (type != M_EVENT_TYPE_ACCEPT) return; M_io_t *n = NULL; Target *t = (Target *)arg;
    while (M_io_accept(&n, io) == M_IO_ERROR_SUCCESS) { Srv *s = new Srv(); s->io = n; s->t = t; t->accepted++; sim::ev("accepted"); G->srv.push_back(s); if (!M_event_add(ev, n, s_cb, s)) { s->over = true; M_io_destroy(n); s->io = NULL; } }
}
static void c_close(Cli *c) { M_thread_mutex_lock(G->mtx); M_io_t *io = c->io; c->io = NULL; bool was = c->closed; c->closed = true; if (!was) { c->tend = now(); G->done++; } M_thread_mutex_unlock(G->mtx); if (io) M_io_destroy(io); }
static void c_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg)
{
    Cli *c = (Cli *)arg; Wd *w = G; sim::ev("cli", c->id, type); logf("client %d event %d", c->id, type);
    if (c->closed) { SIM_CHECK(c->fate == 1 || w->chaos, "event-after-destroy", "client %d: event %d after it was destroyed", c->id, type); return; }
    SIM_CHECK(!c->incb, "callback-overlap", "client %d: callbacks overlap", c->id); c->incb = true;
    SIM_CHECK(self_id() == w->fib[c->ev] || c->fate == 1, "loop-thread", "client %d: callback on another thread", c->id);
    size_t n = 0; unsigned char b[64];
    (void)M_io_net_time_dns_ms(io); (void)M_io_net_time_connect_ms(io);
    switch (type) {
    case M_EVENT_TYPE_CONNECTED: {
        SIM_CHECK(!c->connected || c->moved, "connected-twice", "client %d: CONNECTED twice", c->id);
        bool first = !c->connected; c->connected = true; if (!first) break; c->tend = now();
        const char *ip = M_io_net_get_ipaddr(io); SIM_CHECK(ip || c->fate == 1, "address", "client %d: connected but has no address", c->id); if (!ip) break; c->ip = ip;
        Target *t = NULL; for (auto x : w->targets) if (x->ip == c->ip) t = x;
        SIM_CHECK(t && (t->m == A_GOOD || t->m == A_SLOW), "connected-to-nothing", "client %d: connected to %s", c->id, ip);
        SIM_CHECK(c->type == M_IO_NET_ANY || t->v6 == (c->type == M_IO_NET_IPV6), "family", "client %d: connected to %s", c->id, ip);
        for (int i = 0; i < 8; i++) c->b[i] = (unsigned char)mix(c->id + 1, i);
        M_io_error_t e = M_io_write(io, c->b, 8, &n); SIM_CHECK((e == M_IO_ERROR_SUCCESS && n == 8) || net_stats().resets || any_fault_enabled() || net().bufcap < 8 || c->fate == 1, "write", "client %d: writing right after connecting: %d", c->id, e);
        if (e != M_IO_ERROR_SUCCESS || n != 8) { c_close(c); break; }
        break; }
    case M_EVENT_TYPE_READ: {
        SIM_CHECK(c->connected, "read-before-connected", "client %d: READ before CONNECTED", c->id);
        while (M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS) for (size_t i = 0; i < n; i++) { SIM_CHECK(c->got < 8 && b[i] == c->b[c->got], "data", "client %d: byte %zu of the echo is wrong", c->id, c->got); c->got++; }
        if (c->got == 8 && !c->disc) { c->disc = true; if (wl(2)) M_io_disconnect(io); else c_close(c); }
        break; }
    case M_EVENT_TYPE_ERROR: case M_EVENT_TYPE_DISCONNECTED:
        SIM_CHECK(!c->term, "event-after-end", "client %d: second terminal event", c->id);
        c->term = true; c->tt = type;
        { char es[256] = ""; M_io_get_error_string(io, es, sizeof es); logf("client %d ended: %s", c->id, es); }
        if (!c->connected && c->fate != 1) SIM_CHECK(type == M_EVENT_TYPE_ERROR, "wrong-terminal-event", "client %d: failed connection attempt ended with event %d", c->id, type);
        c_close(c); break;
    default: break;
    }
    c->incb = false; (void)ev;
}
static void c_start(int host)
{
    Wd *w = G; Cli *c = new Cli(); c->id = (int)w->cli.size(); c->host = host; static const M_io_net_type_t ty[3] = { M_IO_NET_ANY, M_IO_NET_IPV4, M_IO_NET_IPV6 }; c->type = ty[wl(2) ? 0 : wl(3)]; w->cli.push_back(c);
    SIM_CHECK(M_io_net_client_create(&c->io, w->dns, w->hosts[host].name.c_str(), (unsigned short)w->port, c->type) == M_IO_ERROR_SUCCESS, "client", "no client");
    c->cto = wl(3) ? 10000 : 1500 + wl(4000); c->fo = wl(3) ? 100 : 20 + wl(1500);
    c->fo = 100; M_io_net_set_connect_timeout_ms(c->io, c->cto);
    c->ev = (int)wl(w->nev); c->fate = w->chaos ? (int)wl(4) : 0; c->t0 = now();
    logf("client %d host %d type %d cto %llu fo %llu fate %d", c->id, host, c->type, (unsigned long long)c->cto, (unsigned long long)c->fo, c->fate);
    M_thread_mutex_lock(w->mtx);
    SIM_CHECK(M_event_add(w->ev[c->ev], c->io, c_cb, c), "add", "client refused");
    M_thread_mutex_unlock(w->mtx);
}
static void c_move(M_event_t *, M_event_type_t, M_io_t *, void *arg)
{
    Cli *c = (Cli *)arg; Wd *w = G; if (c->closed || !c->io || c->disc || c->term) return;
    M_io_t *io = c->io; M_io_state_t st = M_io_get_state(io); if (st == M_IO_STATE_ERROR || st == M_IO_STATE_DISCONNECTED) return;
    c->moved = true; probe("n01.moved"); sim::ev("move", c->id, st);
    M_event_remove(io); SIM_CHECK(M_io_get_event(io) == NULL, "still-registered", "client %d has an event after M_event_remove", c->id);
    c->ev = (int)wl(w->nev); st = M_io_get_state(io); c->t0 = now();
    bool ok = M_event_add(w->ev[c->ev], io, c_cb, c);
    if (!ok) { SIM_CHECK(st == M_IO_STATE_ERROR || st == M_IO_STATE_DISCONNECTED, "add", "client %d refused when moved (state %d)", c->id, st); c->fate = 1; c_close(c); return; }
}

/* an answer that takes longer than one try may not count as one */
static void slow_servers(Wd &w) { if (w.nserver_silent || 2 * (net().latency + net().jitter) + w.dnsdelay + 60 * MS > w.qto * MS / 6) w.dnsbad = true; }
static void dns_common(Wd &w, bool connects)
{
    G = &w; w.mtx = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
    allow({ F_STALL, F_EINTR, F_NET_DELAY, F_DNS_LOSS, F_DNS_DUP, F_DNS_DELAY, F_DNS_SERVFAIL, F_WALL_JUMP });
    if (connects) allow({ F_NET_RESET, F_NET_CONN_REFUSED, F_SHORT_READ, F_EAGAIN_SPUR });
    w.dnsbad = fault_enabled(F_DNS_LOSS) || fault_enabled(F_DNS_DELAY) || fault_enabled(F_DNS_SERVFAIL) || fault_enabled(F_NET_DELAY) || fault_enabled(F_STALL);
    w.walljump = fault_enabled(F_WALL_JUMP);
    net_swarm(); net().udp = dns_server; if (net().bufcap < 256) net().bufcap = 256;
    bool two = choose(CFG, 3) == 0; w.nserver_silent = two && choose(CFG, 2);
    fs_write_file("/etc/resolv.conf", std::string(two ? "nameserver 10.0.0.54\n" : "") + "nameserver 10.0.0.53\n");
    if (choose(CFG, 3) == 0) w.dnsdelay = choose(CFG, 400) * MS;
    w.nev = 1 + (int)choose(CFG, 3);
    for (int i = 0; i < w.nev; i++) w.ev[i] = M_event_create(choose(CFG, 2) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE);
    w.private_loop = choose(CFG, 2);
    sim::thread_fail_exempt() = true; w.dns = M_dns_create(w.private_loop ? NULL : w.ev[choose(CFG, w.nev)]); sim::thread_fail_exempt() = false;
    SIM_CHECK(w.dns, "create", "no dns");
    if (choose(CFG, 3) == 0) { w.qto = 500 + choose(CFG, 4000); M_dns_set_query_timeout(w.dns, w.qto); }
    slow_servers(w);
    if (choose(CFG, 3) == 0) { w.cmax = 1 + choose(CFG, 60); M_dns_set_cache_timeout(w.dns, w.cmax); }
    for (int i = 0; i < w.nev; i++) { w.fib[i] = -1; w.loop[i] = spawn("loop", [&w, i] { w.fib[i] = self_id(); M_event_loop(w.ev[i], M_TIMEOUT_INF); }); }
    for (int i = 0; i < w.nev; i++) wait_until([&w, i] { return M_event_get_status(w.ev[i]) == M_EVENT_STATUS_RUNNING; }, 100 * SEC, "loop runs");
    w.port = 2000 + (unsigned)choose(CFG, 1000);
}
static void mark_cb(M_event_t *, M_event_type_t, M_io_t *, void *arg) { *(bool *)arg = true; }
static void dns_end(Wd &w)
{
    bool early = choose(CFG, 2) || w.chaos;    /* the resolver may go first or last; while lookups are outstanding it has to be first, as their event loop must stay */
    auto loops = [&] { for (int i = 0; i < w.nev; i++) { M_event_done(w.ev[i]); join(w.loop[i]); } };
    auto settle = [](Wd &w) { for (int i = 0; i < 2 * w.nev; i++) { bool *m = new bool(false); M_event_queue_task(w.ev[i % w.nev], mark_cb, m); if (!wait_until([m] { return *m; }, 100 * SEC, "marker")) fail("task", "a queued task did not run"); delete m; } };
    if (early) {
        settle(w);   /* destroying an io object from another thread is finished by its loop */
        w.destroyed = true; SIM_CHECK(M_dns_destroy(w.dns), "destroy", "M_dns_destroy refused"); w.dns = NULL;
        if (!q_wait(0)) fail("lost", "a lookup was never answered though the resolver was destroyed");
        settle(w);
        loops(); for (int i = 0; i < w.nev; i++) M_event_destroy(w.ev[i]); }
    else { loops(); for (int i = 0; i < w.nev; i++) M_event_destroy(w.ev[i]); SIM_CHECK(M_dns_destroy(w.dns), "destroy", "M_dns_destroy refused"); }
    M_thread_mutex_destroy(w.mtx);
}
static void pick_addrs(Ver &v, const std::vector<std::string> &p4, const std::vector<std::string> &p6)
{
    size_t n4 = wl(4), n6 = wl(3) ? wl(4) : 0; if (wl(6) == 0) { n4 = wl(8); n6 = wl(8); }
    std::vector<std::string> a = p4, b = p6;
    while (n4-- && !a.empty()) { size_t k = wl(a.size()); v.v4.push_back(a[k]); a.erase(a.begin() + k); }
    while (n6-- && !b.empty()) { size_t k = wl(b.size()); v.v6.push_back(b[k]); b.erase(b.begin() + k); }
    static const uint32_t tt[5] = { 1, 3, 20, 300, 5000 }; v.ttl = tt[wl(5)];
}
static void lookup_world()
{
    world_begin(); Wd w; dns_common(w, false);
    std::vector<std::string> p4, p6; for (int i = 1; i <= 8; i++) { p4.push_back("10.1.0." + std::to_string(i)); char b[40]; snprintf(b, sizeof b, "fd00::%d", i); p6.push_back(b); }
    int nh = 1 + (int)wl(3);
    for (int i = 0; i < nh; i++) { Host h; h.name = "h" + std::to_string(i) + ".test"; Ver v; v.from = 0; v.m = wl(3) ? M_OK : (Mode)wl(5); pick_addrs(v, p4, p6); if (v.m == M_OK && v.v4.empty() && v.v6.empty()) v.m = M_NODATA; h.vers.push_back(v); w.hosts.push_back(h); }
    logf("nev %d private %d delay %llu ms silent1 %zu qto %llu cmax %llu dnsbad %d", w.nev, w.private_loop, (unsigned long long)(w.dnsdelay / MS), w.nserver_silent, (unsigned long long)w.qto, (unsigned long long)w.cmax, w.dnsbad);
    for (auto &h : w.hosts) logf("host %s %s v4 %s v6 %s ttl %u", h.name.c_str(), mname[h.vers[0].m], join(h.vers[0].v4).c_str(), join(h.vers[0].v6).c_str(), h.vers[0].ttl);
    int rounds = 1 + (int)wl(4);
    for (int r = 0; r < rounds; r++) {
        JoinAll th; int nt = 1 + (int)wl(3);
        for (int t = 0; t < nt; t++) th.go([&w, nh] { int n = 1 + (int)wl(3); while (n--) { ask((int)wl(nh), wl(4) ? (int)wl(w.nev) : -1); if (wl(8) == 0) ask_literal(wl(4) ? (int)wl(w.nev) : -1); jitter(); } });
        th.join();
        if (!q_wait(0)) { for (auto q : w.q) if (!q->called) fail("lost", "query %d for %s (%s) was never answered: %.1f s", q->id, w.hosts[q->host].name.c_str(), mname[ver_at(w.hosts[q->host], now()).m], (now() - q->t0) / 1e9); }
        if (!any_fault_enabled()) for (auto q : w.q) SIM_CHECK(q->t1 - q->t0 <= (q->qto * 4 + 3000) * MS, "late", "query %d took %.1f s, timeout %.1f s", q->id, (q->t1 - q->t0) / 1e9, q->qto / 1e3);
        /* in a quiet moment: status of connections, then order */
        if (wl(2)) { int n = (int)wl(5); while (n--) { std::string ip = wl(2) ? p4[wl(8)] : p6[wl(8)]; M_dns_happyeb_status_t s = (M_dns_happyeb_status_t)wl(4); M_dns_happyeyeballs_update(w.dns, ip.c_str(), s); w.he[ip] = s; } }
        int n = (int)wl(3); while (n--) { ask((int)wl(nh), wl(4) ? (int)wl(w.nev) : -1, !w.walljump && w.he.size() <= 64); if (!q_wait(0)) fail("lost", "query was never answered"); }
        /* the world changes, time passes */
        if (wl(2)) for (auto &h : w.hosts) if (wl(2)) { Ver v; v.from = now(); v.m = wl(3) ? M_OK : (Mode)wl(5); pick_addrs(v, p4, p6); if (v.m == M_OK && v.v4.empty() && v.v6.empty()) v.m = M_NODATA; h.vers.push_back(v); }
        static const uint64_t ps[6] = { 0, 1, 4, 30, 130, 900 }; uint64_t z = ps[wl(6)]; if (w.cmax < 100 && wl(3) == 0) z = w.cmax + 3 + wl(w.cmax); sleep_ns(z * SEC + wl(1000) * MS); if (z >= 130) w.he.clear(), w.walljump = true; /* statuses age, no order checks any more */
        if (wl(5) == 0) { w.qto = 500 + wl(4000); M_dns_set_query_timeout(w.dns, w.qto); slow_servers(w); }
    }
    faults_stop();
    if (wl(3) == 0) { int n = 1 + (int)wl(3); while (n--) ask((int)wl(nh), (int)wl(w.nev)); if (wl(2)) jitter(); if (wl(2)) w.chaos = true, probe("n01.destroy_pending"); }
    if (!w.chaos && !q_wait(0)) fail("lost", "a query was never answered");
    dns_end(w);
    for (auto q : w.q) delete q;
    world_end(true);
}
SIM_WORLD(N01, lookup_world, "DNS resolver with cache and happy eyeballs ranking, c-ares, event loops, threads", "name servers, UDP, clock, system files", 1);

static void connect_world()
{
    world_begin(); Wd w; dns_common(w, true);
    w.chaos = choose(CFG, 3) == 0;
    int nt = 1 + (int)wl(6); std::vector<std::string> p4, p6;
    for (int i = 0; i < nt; i++) {
        Target *t = new Target(); t->v6 = wl(3) == 0; char b[40]; snprintf(b, sizeof b, t->v6 ? "fd00::%d" : "10.1.0.%d", i + 1); t->ip = b; t->m = wl(3) ? (AMode)wl(5) : A_GOOD; (t->v6 ? p6 : p4).push_back(t->ip);
        HostCfg hc; if (t->m == A_REFUSE) { hc.refuse = true; if (wl(3) == 0) hc.refuse_delay = wl(1000) * MS; } if (t->m == A_BLACK) hc.blackhole = true; if (t->m == A_UNREACH) hc.unreachable = true; if (t->m == A_SLOW) hc.latency = t->lat = wl(1200) * MS; net().hosts[t->ip] = hc;
        w.targets.push_back(t); logf("target %s mode %d", t->ip.c_str(), t->m);
        SIM_CHECK(M_io_net_server_create(&t->lst, (unsigned short)w.port, t->ip.c_str(), t->v6 ? M_IO_NET_IPV6 : M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "listen", "no listener on %s", t->ip.c_str());
        SIM_CHECK(M_event_add(w.ev[0], t->lst, l_cb, t), "add", "listener refused");
    }
    int nh = 1 + (int)wl(2);
    for (int i = 0; i < nh; i++) { Host h; h.name = "c" + std::to_string(i) + ".test"; Ver v; v.from = 0; v.m = wl(8) ? M_OK : (Mode)wl(5); for (auto &x : p4) if (wl(4)) v.v4.push_back(x); for (auto &x : p6) if (wl(4)) v.v6.push_back(x); v.ttl = wl(2) ? 2 : 300; if (v.v4.empty() && v.v6.empty() && v.m == M_OK) v.m = M_NODATA; h.vers.push_back(v); w.hosts.push_back(h); }
    int rounds = 1 + (int)wl(3);
    for (int r = 0; r < rounds; r++) {
        size_t first = w.cli.size(); int n = 1 + (int)wl(3); JoinAll th;
        size_t acc0 = 0; for (auto t : w.targets) acc0 += t->accepted;
        for (int i = 0; i < n; i++) {
            c_start((int)wl(nh)); Cli *c = w.cli.back();
            if (c->fate == 1) th.go([c] { sleep_ns(wl(wl(2) ? 3000 : 50) * MS / 2); probe("n01.destroyed"); c_close(c); });
            if (c->fate == 2) M_event_timer_oneshot(w.ev[c->ev], wl(wl(2) ? 1500 : 60), M_TRUE, c_move, c);
            if (wl(2)) jitter();
        }
        auto all = [&] { for (size_t i = first; i < w.cli.size(); i++) if (!w.cli[i]->closed) return false; return true; };
        bool ended = wait_until(all, (w.qto * 12 + 60000) * MS + (any_fault_enabled() ? 60 * SEC : 0), "clients end");
        th.join();
        for (size_t i = first; i < w.cli.size(); i++) {
            Cli *c = w.cli[i]; Ver &v = w.hosts[c->host].vers[0];
            SIM_CHECK(c->closed, "stuck", "client %d for %s: no outcome after %.1f s (connected %d, got %zu, moved %d)", c->id, w.hosts[c->host].name.c_str(), (now() - c->t0) / 1e9, c->connected, c->got, c->moved);
            if (any_fault_enabled() || c->fate == 1) continue;
            size_t n_addr = 0; uint64_t best = NEVER; bool can = false, maybe = false; uint64_t rtt = 2 * (net().latency + net().jitter) + 5 * MS;
            std::vector<std::string> ad; if (v.m == M_OK) { if (c->type != M_IO_NET_IPV6) ad.insert(ad.end(), v.v4.begin(), v.v4.end()); if (c->type != M_IO_NET_IPV4) ad.insert(ad.end(), v.v6.begin(), v.v6.end()); }
            for (auto &x : ad) for (auto t : w.targets) if (t->ip == x) { n_addr++; if (t->m == A_GOOD || t->m == A_SLOW) { uint64_t l = t->lat + rtt; maybe = true; if (l < c->cto * MS) { can = true; best = std::min(best, l); } } }
            uint64_t dnst = w.dnsdelay * 2 + rtt * 2 + (w.nserver_silent ? w.qto * 2 * MS : 0); if (v.m != M_OK || w.dnsdelay) dnst = (w.qto * 4) * MS;
            if (c->moved) { if (v.m == M_OK && can) SIM_CHECK(c->connected, "not-connected", "client %d for %s: an address accepts connections, but it ended with event %d", c->id, w.hosts[c->host].name.c_str(), c->tt); continue; }
            if (can && !w.dnsbad) {
                SIM_CHECK(c->connected, "not-connected", "client %d for %s: an address accepts connections, but it ended with event %d", c->id, w.hosts[c->host].name.c_str(), c->tt);
                SIM_CHECK(c->got == 8 || !c->term, "data", "client %d: only %zu bytes came back", c->id, c->got); probe("n01.connected");
            }
            if (!maybe) SIM_CHECK(!c->connected && c->term, "outcome", "client %d for %s: no address accepts, connected %d, ended %d", c->id, w.hosts[c->host].name.c_str(), c->connected, c->term);
            uint64_t lim = dnst + n_addr * c->fo * MS + (can ? c->cto * MS : c->cto * MS) + 3 * SEC;
            SIM_CHECK(c->tend - c->t0 <= lim + (c->connected ? 12 * SEC : 0), "late", "client %d: outcome after %.1f s, limit %.1f s", c->id, (c->tend - c->t0) / 1e9, lim / 1e9);
            /* every address answers at once: a single attempt must do */
            bool alone = w.cli.size() - first == 1 && c->connected && net().latency + net().jitter < (c->fo - 10) * MS / 3; for (auto t : w.targets) if (t->m != A_GOOD) alone = false;
            if (alone && tick_ns() < 20000) { size_t acc1 = 0; for (auto t : w.targets) acc1 += t->accepted; SIM_CHECK(acc1 - acc0 == 1, "attempts", "client %d: %zu connections were made though the first address answers", c->id, acc1 - acc0); probe("n01.single"); }
        }
        (void)ended;
        /* the other attempts must have been closed */
        if (!wait_until([&] { for (auto s : w.srv) if (!s->over) return false; return true; }, 30 * SEC + (any_fault_enabled() ? 60 * SEC : 0), "attempts closed")) fail("attempt-open", "a connection attempt was left open after its client ended");
        if (wl(3) == 0) sleep_ns(wl(4) * SEC);
    }
    faults_stop(); w.chaos = true;
    for (auto c : w.cli) c_close(c);
    for (auto t : w.targets) M_io_destroy(t->lst);
    dns_end(w);
    for (auto s : w.srv) { if (s->io) M_io_destroy(s->io); delete s; }
    for (auto c : w.cli) delete c; for (auto t : w.targets) delete t;
    world_end(true);
}
SIM_WORLD(N01, connect_world, "connect by name: DNS layer, happy eyeballs, net layer, resolver, c-ares, event loops", "name servers, kernel sockets, clock", 2);
