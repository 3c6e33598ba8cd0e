#define OPENSSL_SUPPRESS_DEPRECATED
/* N02: TLS connections only come up with the peers they should, keep data private, unaltered and complete, and always end */
#include "w_common.h"
#include <mstdlib/mstdlib_tls.h>
#include <mstdlib/io/m_io_layer.h>
#include <openssl/rand.h>
#include "tls_certs.h"

struct M_io_handle { struct TTamper *t; };
struct TTamper { size_t at = (size_t)-1, seen = 0; unsigned char mask = 1; bool done = false; };

namespace tlsw {
struct Side; struct TConn;
struct Tap { std::string tail[2]; };
struct TWorld {
    M_event_t *ev = NULL; M_dns_t *dns = NULL; std::vector<TConn *> conns; std::vector<Side *> sides; std::vector<Tap *> taps; std::vector<TTamper *> tampers;
    M_tls_clientctx_t *cctx = NULL; M_tls_serverctx_t *sctx = NULL; M_io_t *lst = NULL; unsigned port = 0;
    int nfile = 0, interloc = 0, cert, verify, trust, cproto, sproto, ccert; bool child, sreq, crl, cses, sses, slow; uint64_t cto, sto; std::vector<std::string> calpn, salpn, childalpn;
    size_t est = 0; bool strict = false; M_thread_mutex_t *mtx = NULL; bool chaos = false, over = false; M_io_t *rawl = NULL; unsigned rawport = 0;
};
struct Side {
    TWorld *w; TConn *c; int id; bool client; M_io_t *io = NULL; size_t lid = 0; bool connected = false, disc = false, term = false, closed = false, eof = false, raw = false; M_event_type_t termtype = M_EVENT_TYPE_OTHER;
    size_t sent = 0, tosend = 0, got = 0, expect = 0, chunk = 100; uint64_t key = 0, pkey = 0, t_start = 0; size_t hdr = 0; std::string alpn; bool once = false; uint64_t dto = 0;
};
struct TConn { int id; std::string host; int hidx = 0; Side *a = NULL, *b = NULL; int kind = 0, closer = 0, fate = 0; bool reused = false, tampered = false, started = false, chaos = false; uint64_t negotiated = 0; int refs = 0; };
}
using namespace tlsw;
static TWorld *TW;
static const char MARK[] = "PLAINTEXT-MARKER";         /* 16 bytes */
static unsigned char t_at(uint64_t key, size_t i) { if (i % 48 < 16) return (unsigned char)MARK[i % 48]; uint64_t x = mix(key, i >> 3); return (unsigned char)(x >> (8 * (i & 7))); }

/* ---- deterministic randomness for OpenSSL ---- */
static uint64_t trnd_n;
static int trnd_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { uint64_t x = mix(seed() ^ 0x5eedULL, ++trnd_n); b[i] = (unsigned char)(x >> 24); } return 1; }
static int trnd_status() { return 1; }
static RAND_METHOD trnd = { NULL, trnd_bytes, NULL, NULL, trnd_bytes, trnd_status };

/* ---- layers below TLS ---- */
static void tap_cb(void *arg, M_io_trace_type_t t, M_event_type_t, const unsigned char *d, size_t n)
{
    Tap *tp = (Tap *)arg; if (t != M_IO_TRACE_TYPE_READ && t != M_IO_TRACE_TYPE_WRITE) return;
    std::string &s = tp->tail[t == M_IO_TRACE_TYPE_READ]; s.append((const char *)d, n);
    SIM_CHECK(s.find(MARK) == std::string::npos, "plaintext", "application data crossed the wire unencrypted");
    if (s.size() > 15) s.erase(0, s.size() - 15);
}
static void *tap_dup(void *) { Tap *t = new Tap(); TW->taps.push_back(t); return t; }
static void tap_free(void *) {}
static M_io_error_t tam_read(M_io_layer_t *l, unsigned char *b, size_t *n, M_io_meta_t *m)
{
    TTamper *t = M_io_layer_get_handle(l)->t; M_io_error_t e = M_io_layer_read(M_io_layer_get_io(l), M_io_layer_get_index(l) - 1, b, n, m);
    if (e != M_IO_ERROR_SUCCESS) return e;
    if (!t->done && t->at >= t->seen && t->at < t->seen + *n) { b[t->at - t->seen] ^= t->mask; t->done = true; probe("n02.tampered"); sim::ev("tamper", (int64_t)t->at); }
    t->seen += *n; return e;
}
static M_io_error_t tam_write(M_io_layer_t *l, const unsigned char *b, size_t *n, M_io_meta_t *m) { return M_io_layer_write(M_io_layer_get_io(l), M_io_layer_get_index(l) - 1, b, n, m); }
static M_bool tam_init(M_io_layer_t *) { return M_TRUE; }
static M_bool tam_event(M_io_layer_t *, M_event_type_t *) { return M_FALSE; }
static M_bool tam_reset(M_io_layer_t *) { return M_TRUE; }
static void tam_destroy(M_io_layer_t *l) { M_free(M_io_layer_get_handle(l)); }
static void add_tamper(M_io_t *io, TTamper *t)
{
    M_io_handle_t *h = (M_io_handle_t *)M_malloc_zero(sizeof *h); h->t = t;
    M_io_callbacks_t *cb = M_io_callbacks_create();
    M_io_callbacks_reg_init(cb, tam_init); M_io_callbacks_reg_read(cb, tam_read); M_io_callbacks_reg_write(cb, tam_write); M_io_callbacks_reg_processevent(cb, tam_event); M_io_callbacks_reg_reset(cb, tam_reset); M_io_callbacks_reg_destroy(cb, tam_destroy);
    M_io_layer_add(io, "TAMPER", h, cb); M_io_callbacks_destroy(cb);
}

/* ---- what should happen ---- */
enum { H_A, H_AUP, H_B, H_WILD, H_WILD2, H_SUB, H_IP, H_NONE, H_ZZ, NHOST };
static const char *hosts[NHOST] = { "a.sim.test", "A.Sim.TEST", "b.sim.test", "x.wild.sim.test", "y.x.wild.sim.test", "c.sim.test", "10.0.0.7", "", "other.example.com" };
enum { C_A, C_CN, C_EXPIRED, C_FUTURE, C_OTHER, C_WRONG, NCERT };
static const char *certs[NCERT] = { pem_srv_a, pem_srv_cn, pem_srv_expired, pem_srv_future, pem_srv_other, pem_srv_wrong };
/* names in each certificate: exact host match (strict) */
static bool cert_matches(int cert, bool child, int h)
{
    if (child) return h == H_B;
    switch (h) {
    case H_A: case H_AUP: return cert != C_WRONG;
    case H_WILD: return cert == C_A || cert == C_EXPIRED || cert == C_OTHER;
    case H_IP: return cert == C_A;
    default: return false;
    }
}
static bool cert_matches_fuzzy(int cert, bool child, int h)
{
    if (cert_matches(cert, child, h)) return true;
    if (h == H_ZZ || h == H_NONE || h == H_IP) return false;
    return child || cert != C_WRONG;                   /* base domain sim.test */
}
static bool uses_child(TWorld &w, int h) { return w.child && h == H_B; }
static bool verify_ok(TWorld &w, int h)
{
    if (w.verify == M_TLS_VERIFY_NONE) return true;
    bool child = uses_child(w, h); int cert = w.cert;
    if (w.trust == 0) return false;
    if (child || cert == C_A || cert == C_CN || cert == C_WRONG) { if (w.trust != 1 || (child && w.interloc == 2)) return false; }
    else if (cert == C_OTHER) { if (w.trust != 2) return false; }
    else return false;                                  /* outside its validity */
    const char *hn = hosts[h];
    if (w.verify == M_TLS_VERIFY_CERT_ONLY) return true;
    int hh = h; if (!*hn) return false;                 /* literal address of the network layer: no certificate names it */
    return w.verify == M_TLS_VERIFY_FULL ? cert_matches(cert, child, hh) : cert_matches_fuzzy(cert, child, hh);
}
static bool client_ok(TWorld &w) { if (!w.sreq) return true; if (w.ccert == 1) return true; if (w.ccert == 4) return !w.crl; return false; }
static int proto_both(TWorld &w) { if ((w.cproto & w.sproto) & M_TLS_PROTOCOL_TLSv1_3) return M_TLS_PROTOCOL_TLSv1_3; if ((w.cproto & w.sproto) & M_TLS_PROTOCOL_TLSv1_2) return M_TLS_PROTOCOL_TLSv1_2; return 0; }
static std::string alpn_of(TWorld &w, int h) { const std::vector<std::string> &s = uses_child(w, h) ? w.childalpn : w.salpn; for (auto &x : s) for (auto &y : w.calpn) if (x == y) return x; return ""; }

static void t_connected(Side *s)
{
    TWorld &w = *s->w; TConn *c = s->c; M_io_t *io = s->io;
    SIM_CHECK(!s->connected, "connected-twice", "conn %d side %d was told twice that it is connected", c->id, s->id);
    SIM_CHECK(!s->disc || s->w->chaos, "connected-late", "conn %d side %d connected after its disconnect", c->id, s->id);
    s->connected = true; probe(s->client ? "n02.client_up" : "n02.server_up");
    SIM_CHECK(c->kind != 2 && c->kind != 1, "connected-nonsense", "conn %d side %d connected although the peer never spoke TLS", c->id, s->id);
    int p = proto_both(w), got = M_tls_get_protocol(io, s->lid);
    SIM_CHECK(p && got == p, "protocol", "conn %d side %d uses protocol %d, both sides allow %d", c->id, s->id, got, p);
    SIM_CHECK(M_tls_get_cipher(io, s->lid) != NULL, "cipher", "no cipher on an established connection");
    char *app = M_tls_get_application(io, s->lid); std::string ea = s->client ? alpn_of(w, c->hidx) : "", ga = app ? app : ""; M_free(app); s->alpn = ga;
    if (s->client) SIM_CHECK(ea == ga, "alpn", "conn %d side %d negotiated application '%s', expected '%s'", c->id, s->id, ga.c_str(), ea.c_str());
    uint64_t nt = M_tls_get_negotiation_time_ms(io, s->lid);
    SIM_CHECK(nt <= (now() - s->t_start) / MS + 1, "negotiation-time", "conn %d side %d: negotiation took %llu ms, it exists for %llu", c->id, s->id, (unsigned long long)nt, (unsigned long long)((now() - s->t_start) / MS));
    char *pc = M_tls_get_peer_cert(io, s->lid);
    if (s->client) {
        SIM_CHECK(verify_ok(w, c->hidx), "bad-peer-accepted", "conn %d: the client accepted a server it must reject (cert %d child %d verify %d trust %d host '%s')", c->id, w.cert, uses_child(w, c->hidx), w.verify, w.trust, c->host.c_str());
        if (p == M_TLS_PROTOCOL_TLSv1_2) SIM_CHECK(client_ok(w), "bad-client-accepted", "conn %d: connected although the server must reject the client's certificate", c->id);
        const char *want = uses_child(w, c->hidx) ? pem_srv_b : certs[w.cert];
        SIM_CHECK(pc && !strcmp(pc, want), "peer-cert", "conn %d: the client saw the wrong server certificate (child expected %d)", c->id, uses_child(w, c->hidx));
        c->reused = M_tls_get_sessionreused(io, s->lid);
        if (c->reused) { probe("n02.resumed"); SIM_CHECK(w.cses && w.sses && w.est > 0 && !c->host.empty(), "resumed", "conn %d resumed a session that cannot exist", c->id); }
    } else {
        SIM_CHECK(client_ok(w), "bad-client-accepted", "conn %d: the server accepted a client certificate it must reject (kind %d crl %d)", c->id, w.ccert, w.crl);
        const char *hn = M_tls_server_get_hostname(io, s->lid);
        if (s->c->id >= 0) SIM_CHECK(M_str_eq(hn ? hn : "", s->c->host.c_str()) || s->c->id >= 1000, "sni", "server saw host name '%s', client sent '%s'", hn ? hn : "", s->c->host.c_str());
        static const char *cc[5] = { NULL, pem_cli_good, pem_cli_other, pem_cli_expired, pem_cli_revoked };
        if (w.sreq) SIM_CHECK(pc && cc[w.ccert] && !strcmp(pc, cc[w.ccert]), "peer-cert", "the server saw the wrong client certificate");
    }
    M_free(pc);
}
static void t_close(Side *s, bool lock = true)
{
    M_io_t *io;
    if (lock) M_thread_mutex_lock(s->w->mtx);
    io = s->io; s->io = NULL; bool was = s->closed; s->closed = true;
    if (lock) M_thread_mutex_unlock(s->w->mtx);
    if (!was && s->connected) s->w->est++;
    if (io) { sim::ev("tclose", s->id); M_io_destroy(io); }
}
static void t_write(Side *s)
{
    unsigned char b[40000];
    while (s->io && s->connected && !s->disc && !s->eof && s->sent < s->tosend) {
        size_t k = std::min({ s->tosend - s->sent, s->chunk, sizeof b }), n = 0, s0 = s->sent;
        for (size_t i = 0; i < k; i++) b[i] = !s->client ? t_at(s->key, s0 + i) : s0 + i == 0 ? (unsigned char)('A' + s->c->id) : t_at(s->key, s0 + i - 1);
        s->sent += k; M_io_error_t e = M_io_write(s->io, b, k, &n); s->sent = s0 + (e == M_IO_ERROR_SUCCESS ? n : 0);
        if (e != M_IO_ERROR_SUCCESS) break;
        SIM_CHECK(n > 0 && n <= k, "write-count", "side %d: wrote %zu of %zu", s->id, n, k);
        sim::ev("ttx", s->id, (int64_t)n);
        if (s->once) break;
    }
}
static void t_bind(Side *s, unsigned char b0);
static bool t_read(Side *s)
{
    unsigned char b[40000]; M_io_error_t e = M_IO_ERROR_SUCCESS;
    while (s->io && !s->disc) {
        size_t k = std::min<size_t>(1 + (wl(3) ? s->chunk : wl(s->chunk * 3)), sizeof b), n = 0;
        if (!s->client && s->hdr == 0) k = 1;
        e = M_io_read(s->io, b, k, &n);
        if (e != M_IO_ERROR_SUCCESS) break;
        SIM_CHECK(n > 0 && n <= k, "read-count", "side %d: read %zu of %zu", s->id, n, k);
        size_t o = 0;
        SIM_CHECK(s->connected, "data-early", "side %d: data before it is connected", s->id);
        if (!s->client && s->hdr == 0) { t_bind(s, b[0]); o = 1; s->hdr = 1; }
        Side *p = s->client ? s->c->b : s->c->a;
        for (size_t i = o; i < n; i++) SIM_CHECK(t_at(s->pkey, s->got + i - o) == b[i], "data", "side %d: byte %zu differs from what was written", s->id, s->got + i - o);
        s->got += n - o; sim::ev("trx", s->id, (int64_t)n);
        SIM_CHECK(p && s->got <= (p->client && p->sent ? p->sent - 1 : p->sent), "data-extra", "side %d: more bytes than the peer wrote", s->id);
        if (s->once && wl(2)) { e = M_IO_ERROR_SUCCESS; }
    }
    if (e != M_IO_ERROR_SUCCESS && e != M_IO_ERROR_WOULDBLOCK) s->eof = true;
    return !s->eof;
}
/* the first byte on a connection says which one it is */
static void t_bind(Side *s, unsigned char b0)
{
    TConn *c = NULL; for (auto x : s->w->conns) if (x->id == (int)b0 - 'A' + 0) c = x;
    SIM_CHECK(c && c->kind == 0 && c->a->sent > 0, "data", "server side %d received a first byte nobody sent (%u)", s->id, b0);
    SIM_CHECK(!c->b, "data", "two server connections claim to be connection %d", c->id);
    TConn *tmp = s->c; s->c = c; c->b = s; delete tmp;
    s->key = mix(c->a->key, 5); s->pkey = c->a->key; s->tosend = c->a->expect; s->expect = c->a->tosend - 1; s->chunk = c->a->chunk;
    const char *hn = M_tls_server_get_hostname(s->io, s->lid); const char *want = c->host.c_str();
    SIM_CHECK(s->alpn == alpn_of(*s->w, c->hidx), "alpn", "conn %d server negotiated application '%s', expected '%s'", c->id, s->alpn.c_str(), alpn_of(*s->w, c->hidx).c_str());
    SIM_CHECK(!s->io || M_str_eq(hn ? hn : "", want), "sni", "server saw host name '%s', client sent '%s'", hn ? hn : "", want);
}
static bool t_all(Side *s) { return s->connected && s->sent == s->tosend && s->got == s->expect && (s->client || s->hdr); }
static void t_progress(Side *s)
{
    TConn *c = s->c; if (!s->io || s->disc || !s->connected || !c || c->kind) return;
    if (!t_all(s)) return;
    bool me = s->client ? c->closer == 0 : c->closer == 1;
    if (me) { s->disc = true; sim::ev("tdisc", s->id); M_io_disconnect(s->io); }
}
static void t_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    Side *s = (Side *)arg; sim::ev("tev", s->id, type);
    if (s->raw) {               /* a peer that speaks no TLS */
        if (type == M_EVENT_TYPE_CONNECTED && s->tosend) { unsigned char b[600]; for (auto &x : b) x = (unsigned char)wl(256); if (wl(2)) { b[0] = 0x16; b[1] = 3; b[2] = 1; b[3] = 0; } size_t n = 0; M_io_write(io, b, std::min<size_t>(s->tosend, sizeof b), &n); }
        if (type == M_EVENT_TYPE_READ) { unsigned char b[1000]; size_t n; while (M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS); }
        if (type == M_EVENT_TYPE_DISCONNECTED || type == M_EVENT_TYPE_ERROR) t_close(s);
        return;
    }
    if (!s->io) { SIM_CHECK(s->w->chaos, "event-after-destroy", "side %d: event after it was destroyed", s->id); return; }
    SIM_CHECK(!s->term, "event-after-end", "side %d: event %d after the terminal one", s->id, type);
    if (type == M_EVENT_TYPE_CONNECTED) { s->io = io; t_connected(s); t_write(s); t_progress(s); return; }
    if (type == M_EVENT_TYPE_READ || type == M_EVENT_TYPE_WRITE) SIM_CHECK(s->connected, "event-early", "side %d: event %d before it was connected", s->id, type);
    if (type == M_EVENT_TYPE_READ) t_read(s);
    if (type == M_EVENT_TYPE_WRITE || (type == M_EVENT_TYPE_READ && !s->client)) t_write(s);
    if (type == M_EVENT_TYPE_DISCONNECTED || type == M_EVENT_TYPE_ERROR) {
        s->term = true; s->termtype = type;
        if (s->connected && !s->disc) t_read(s);
        char msg[256] = ""; M_io_get_error_string(io, msg, sizeof msg); logf("side %d conn %d term %d err %d %s", s->id, s->c->id, type, (int)M_io_get_error(io), msg);
        t_close(s); return;
    }
    t_progress(s);
}
static void t_accept(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    TWorld *w = (TWorld *)arg; if (type != M_EVENT_TYPE_ACCEPT) return;
    M_io_t *n = NULL; uint64_t t0 = now(); if (M_io_accept(&n, io) != M_IO_ERROR_SUCCESS) return;
    Side *s = new Side(); s->w = w; s->id = 500 + (int)w->sides.size(); s->client = false; s->t_start = t0; s->c = new TConn(); s->c->id = 1000; s->c->hidx = -1; w->sides.push_back(s);
    s->raw = io == w->rawl; if (!s->raw) s->lid = 3; s->once = wl(4) == 0;
    size_t L = 0; for (size_t i = 0; i < M_io_layer_count(n); i++) { char *nm = M_io_layer_name(n, i) ? M_strdup(M_io_layer_name(n, i)) : NULL; if (M_str_caseeq(nm, "TLS")) L = i; M_free(nm); }
    s->lid = L;
    M_thread_mutex_lock(w->mtx);        /* nobody destroys it while it is being added */
    s->io = n; bool ok = M_event_add(w->ev, n, t_cb, s);
    M_thread_mutex_unlock(w->mtx);
    SIM_CHECK(ok, "add", "accepted object refused");
}
/* the accepted side does not know its connection before the first byte: what it may conclude at CONNECTED is host independent */
static void tls_world();

static std::vector<std::string> pick_alpn() { static const char *n[4] = { "h2", "http/1.1", "spdy/3", "x" }; std::vector<std::string> v; size_t k = wl(4); size_t o = wl(4); for (size_t i = 0; i < k; i++) v.push_back(n[(o + i * (1 + 2 * (k & 1))) % 4]); return v; }
static M_list_str_t *alpn_list(const std::vector<std::string> &v) { M_list_str_t *l = M_list_str_create(M_LIST_STR_NONE); for (auto &s : v) M_list_str_insert(l, s.c_str()); return l; }
static const unsigned char *U(const char *s) { return (const unsigned char *)s; }
static int pick_proto() { switch (wl(4)) { case 0: return M_TLS_PROTOCOL_TLSv1_2; case 1: return M_TLS_PROTOCOL_TLSv1_3; default: return M_TLS_PROTOCOL_TLSv1_2 | M_TLS_PROTOCOL_TLSv1_3; } }

/* the same material may come from memory, from files or from a directory */
static std::string tfile(const char *pem) { std::string f = "/pki/f" + std::to_string(TW->nfile++) + ".pem"; SIM_CHECK(fs_write_file(f, pem), "setup", "no file"); return f; }
static std::string tdir(const char *pem, const char *extra)
{
    std::string d = "/pki/d" + std::to_string(TW->nfile++); fs_mkdirs(d + "/sub"); fs_write_file(d + (wl(2) ? "/x.pem" : "/sub/X.PEM"), pem); fs_write_file(d + "/README.txt", pem_other); if (wl(2)) fs_write_file(d + "/a.pem", "no certificate\n"); if (extra) fs_write_file(d + "/z.pem", extra); return d;
}
template <class C> static void add_trust(C *ctx, const char *pem, M_bool (*mem)(C *, const unsigned char *, size_t), M_bool (*file)(C *, const char *), M_bool (*dir)(C *, const char *), M_bool (*cert)(C *, const unsigned char *, size_t), M_bool (*certfile)(C *, const char *), bool any)
{
    bool ok; switch (any ? wl(6) : 0) { case 1: ok = file(ctx, tfile(pem).c_str()); break; case 2: ok = dir(ctx, tdir(pem, NULL).c_str()); break; case 3: ok = cert(ctx, (const unsigned char *)(pem), strlen(pem)); break; case 4: ok = certfile(ctx, tfile(pem).c_str()); break; case 5: ok = mem(ctx, (const unsigned char *)(pem), strlen(pem)) && mem(ctx, (const unsigned char *)(pem), strlen(pem)); break; default: ok = mem(ctx, (const unsigned char *)(pem), strlen(pem)); }
    SIM_CHECK(ok, "ctx", "trust refused");
    if (any) { SIM_CHECK(!file(ctx, "/pki/nothing.pem") && !dir(ctx, "/pki/nothing") && !mem(ctx, (const unsigned char *)"junk", 4) && !certfile(ctx, "/pki/nothing.pem"), "ctx", "trust loaded from nothing"); probe("n02.trust_variant"); }
}
static void tls_world()
{
    world_begin();
    trnd_n = 0; RAND_set_rand_method(&trnd);
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_NET_RESET, F_WALL_JUMP });
    TWorld w; TW = &w; net_swarm(); if (net().bufcap < 256) net().bufcap = 256;
    w.ev = choose(CFG, 3) == 0 ? M_event_pool_create(2) : M_event_create(choose(CFG, 2) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE);
    w.dns = M_dns_create(w.ev); w.mtx = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
    bool easy = choose(CFG, 2);
    w.cert = easy ? C_A : (int)wl(NCERT); w.child = wl(2); w.verify = easy && wl(2) ? M_TLS_VERIFY_FULL : (int)wl(4); w.trust = easy ? 1 : (int)wl(3); w.cproto = easy ? M_TLS_PROTOCOL_TLSv1_2 | M_TLS_PROTOCOL_TLSv1_3 : pick_proto(); w.sproto = pick_proto();
    w.sreq = wl(3) == 0; w.ccert = easy ? 1 : (int)wl(5); w.crl = w.sreq && wl(3) == 0; w.cses = wl(4) != 0; w.sses = wl(4) != 0;
    w.calpn = pick_alpn(); w.salpn = pick_alpn(); w.childalpn = pick_alpn();
    w.cto = wl(3) ? 0 : 1 + wl(wl(2) ? 4000 : 30000); w.sto = wl(3) ? 0 : 1 + wl(wl(2) ? 4000 : 30000);
    w.chaos = choose(CFG, 4) == 0;
    /* contexts */
    bool any = wl(3) == 0 && !fault_enabled(F_EINTR) /* nor do reads of files get interrupted */; fs_mkdirs("/pki"); w.interloc = any ? (int)wl(3) : 0;
    w.sctx = any && wl(2) ? M_tls_serverctx_create_from_files(tfile(pem_key).c_str(), tfile(certs[w.cert]).c_str(), NULL) : M_tls_serverctx_create(U(pem_key), strlen(pem_key), U(certs[w.cert]), strlen(certs[w.cert]), NULL, 0);
    SIM_CHECK(w.sctx, "ctx", "no server context");
    auto setup = [&](M_tls_serverctx_t *c, const std::vector<std::string> &al) {
        SIM_CHECK(M_tls_serverctx_set_protocols(c, w.sproto), "ctx", "set_protocols");
        M_list_str_t *l = alpn_list(al); M_tls_serverctx_set_applications(c, l); M_list_str_destroy(l);
        if (w.sreq) add_trust(c, pem_ca, M_tls_serverctx_set_trust_ca, M_tls_serverctx_set_trust_ca_file, M_tls_serverctx_set_trust_ca_dir, M_tls_serverctx_set_trust_cert, M_tls_serverctx_set_trust_cert_file, any);
        if (w.crl) SIM_CHECK(any && wl(2) ? M_tls_serverctx_add_trust_crl_file(c, tfile(pem_crl).c_str()) : M_tls_serverctx_add_trust_crl(c, U(pem_crl), strlen(pem_crl)), "ctx", "add_crl");
        M_tls_serverctx_set_session_resumption(c, w.sses ? M_TRUE : M_FALSE);
    };
    setup(w.sctx, w.salpn); M_tls_serverctx_set_negotiation_timeout_ms(w.sctx, w.sto);
    if (w.child) {
        M_tls_serverctx_t *ch = any && wl(2) ? M_tls_serverctx_create_from_files(tfile(pem_key).c_str(), tfile(pem_srv_b).c_str(), w.interloc == 0 ? tfile(pem_inter).c_str() : NULL) : M_tls_serverctx_create(U(pem_key), strlen(pem_key), U(pem_srv_b), strlen(pem_srv_b), w.interloc == 0 ? U(pem_inter) : NULL, w.interloc == 0 ? strlen(pem_inter) : 0);
        SIM_CHECK(ch, "ctx", "no child context"); setup(ch, w.childalpn); SIM_CHECK(M_tls_serverctx_SNI_ctx_add(w.sctx, ch), "ctx", "SNI_ctx_add"); SIM_CHECK(M_tls_serverctx_SNI_count(w.sctx) == 1 && M_tls_serverctx_SNI_at(w.sctx, 0) == ch && M_tls_serverctx_SNI_lookup(w.sctx, "B.sim.test") == ch && M_tls_serverctx_SNI_lookup(w.sctx, "bb.sim.test") == ch && !M_tls_serverctx_SNI_at(w.sctx, 1), "sni", "the child context is not found by its names");
    }
    w.cctx = M_tls_clientctx_create(); SIM_CHECK(w.cctx, "ctx", "no client context");
    SIM_CHECK(M_tls_clientctx_set_protocols(w.cctx, w.cproto), "ctx", "set_protocols");
    M_tls_clientctx_set_verify_level(w.cctx, (M_tls_verify_level_t)w.verify); M_tls_clientctx_set_session_resumption(w.cctx, w.cses ? M_TRUE : M_FALSE); M_tls_clientctx_set_negotiation_timeout_ms(w.cctx, w.cto);
    if (w.trust) { const char *ca = w.trust == 1 ? pem_ca : pem_other; add_trust(w.cctx, ca, M_tls_clientctx_set_trust_ca, M_tls_clientctx_set_trust_ca_file, M_tls_clientctx_set_trust_ca_dir, M_tls_clientctx_set_trust_cert, M_tls_clientctx_set_trust_cert_file, any); if (w.interloc == 1) add_trust(w.cctx, pem_inter, M_tls_clientctx_set_trust_ca, M_tls_clientctx_set_trust_ca_file, M_tls_clientctx_set_trust_ca_dir, M_tls_clientctx_set_trust_cert, M_tls_clientctx_set_trust_cert_file, any); }
    static const char *cc[5] = { NULL, pem_cli_good, pem_cli_other, pem_cli_expired, pem_cli_revoked };
    if (w.ccert) SIM_CHECK(any && wl(2) ? M_tls_clientctx_set_cert_files(w.cctx, tfile(pem_key).c_str(), tfile(cc[w.ccert]).c_str(), NULL) : M_tls_clientctx_set_cert(w.cctx, U(pem_key), strlen(pem_key), U(cc[w.ccert]), strlen(cc[w.ccert]), NULL, 0), "ctx", "set_cert");
    { M_list_str_t *l = alpn_list(w.calpn); M_tls_clientctx_set_applications(w.cctx, l); M_list_str_destroy(l); }
    uint64_t cto = w.cto ? w.cto : 10000, sto = w.sto ? w.sto : 10000;
    uint64_t rtt = 2 * (net().latency + net().jitter) + 3 * MS; uint64_t worst = (8 + 12000 / std::min<size_t>(net().bufcap, 1460)) * rtt * 2;
    w.slow = worst > std::min<uint64_t>(std::min(cto, sto), 5000) * MS / 2 || std::min(cto, sto) < 10000 || tick_ns() > 20000; /* computing takes simulated time too; a graceful end gets 5 s */
    /* servers */
    SIM_CHECK(M_io_net_server_create(&w.lst, 0, "127.0.0.1", M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "listen", "no server");
    w.port = M_io_net_get_port(w.lst);
    { Tap *t = new Tap(); w.taps.push_back(t); size_t x; M_io_add_trace(w.lst, &x, tap_cb, t, tap_dup, tap_free); }
    { size_t x; SIM_CHECK(M_io_tls_server_add(w.lst, w.sctx, &x) == M_IO_ERROR_SUCCESS, "layer", "TLS server layer refused"); }
    SIM_CHECK(M_io_net_server_create(&w.rawl, 0, "127.0.0.1", M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "listen", "no server");
    w.rawport = M_io_net_get_port(w.rawl);
    SIM_CHECK(M_event_add(w.ev, w.lst, t_accept, &w) && M_event_add(w.ev, w.rawl, t_accept, &w), "add", "listener refused");
    bool early_drop = wl(3) == 0; if (early_drop) { M_tls_serverctx_destroy(w.sctx); w.sctx = NULL; }
    logf("cert %d child %d verify %d trust %d cproto %d sproto %d sreq %d ccert %d crl %d cses %d sses %d cto %llu sto %llu slow %d chaos %d bufcap %zu", w.cert, w.child, w.verify, w.trust, w.cproto, w.sproto, w.sreq, w.ccert, w.crl, w.cses, w.sses, (unsigned long long)cto, (unsigned long long)sto, w.slow, w.chaos, net().bufcap);
    Fiber *f = spawn("loop", [&] { M_event_loop(w.ev, M_TIMEOUT_INF); });
    wait_until([&] { return M_event_get_status(w.ev) == M_EVENT_STATUS_RUNNING; }, 100 * SEC, "loop runs");
    int n = 1 + (int)wl(4); bool seq = wl(3) != 0; uint64_t key = wl(1u << 30); int same = wl(2) ? (int)wl(NHOST) : -1; if (easy && same >= 0) same = (int)wl(4);
    JoinAll th; bool exact = !any_fault_enabled() && !w.chaos && !w.slow; w.strict = exact;
    auto start = [&](int i) {
        TConn *c = new TConn(); c->id = i; w.conns.push_back(c); c->kind = wl(8) == 0 ? 1 + (int)wl(2) : 0;      /* 1: client to a silent server, 2: silent client to the TLS server */
        c->hidx = same >= 0 ? same : easy && wl(3) ? (int)wl(4) : (int)wl(NHOST); c->host = hosts[c->hidx]; c->closer = (int)wl(2); c->fate = w.chaos ? (int)wl(4) : 0;
        Side *a = new Side(); a->w = &w; a->c = c; a->id = i; a->client = true; c->a = a; w.sides.push_back(a);
        static const size_t cs[5] = { 1, 50, 1000, 9000, 40000 }; a->chunk = cs[wl(5)]; a->once = wl(4) == 0;
        size_t lim = std::min<size_t>(60 * std::min<size_t>(a->chunk, net().bufcap) + 10, 150000); if (any_fault_enabled()) lim = 1 + lim / 10;
        a->key = mix(key, i); a->pkey = mix(a->key, 5); a->tosend = 1 + wl(wl(2) ? lim : 200); a->expect = wl(3) ? wl(lim) : 0;
        a->raw = c->kind == 2; if (a->raw) a->tosend = wl(2) ? 1 + wl(600) : 0;
        SIM_CHECK(M_io_net_client_create(&a->io, w.dns, "127.0.0.1", (unsigned short)(c->kind == 1 ? w.rawport : w.port), M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "client", "no client");
        M_io_net_set_connect_timeout_ms(a->io, 100000);
        a->t_start = now();
        if (!a->raw) {
            Tap *t = new Tap(); w.taps.push_back(t); size_t x; M_io_add_trace(a->io, &x, tap_cb, t, tap_dup, tap_free);
            if (!exact && wl(4) == 0) { TTamper *tm = new TTamper(); tm->at = wl(wl(2) ? 6000 : 200); tm->mask = (unsigned char)(1u << wl(8)); w.tampers.push_back(tm); add_tamper(a->io, tm); c->tampered = true; }
            SIM_CHECK(M_io_tls_client_add(a->io, w.cctx, c->host.empty() ? NULL : c->host.c_str(), &a->lid) == M_IO_ERROR_SUCCESS, "layer", "TLS client layer refused");
            if (c->host.empty()) c->host = "127.0.0.1";
        }
        logf("conn %d kind %d host '%s' closer %d fate %d send %zu expect %zu chunk %zu tampered %d", i, c->kind, c->host.c_str(), c->closer, c->fate, a->tosend, a->expect, a->chunk, c->tampered);
        SIM_CHECK(M_event_add(w.ev, a->io, t_cb, a), "add", "client refused");
        if (c->fate) th.go([&w, a, c] {
            sleep_ns(wl(wl(2) ? 5000 : 100) * MS / 10);
            M_thread_mutex_lock(w.mtx); M_io_t *io = a->io;
            if (c->fate == 1 || !io) { a->io = NULL; if (!a->closed && a->connected) w.est++; a->closed = true; M_thread_mutex_unlock(w.mtx); if (io) { probe("n02.destroyed"); M_io_destroy(io); } return; }
            if (c->fate == 2 && !a->disc) { a->disc = true; probe("n02.cut"); M_io_disconnect(io); }
            M_thread_mutex_unlock(w.mtx);
        });
    };
    auto over = [&](TConn *c) { return c->a->closed; };
    auto limit = [&](TConn *c) -> uint64_t { if (c->kind == 2) return 200; return 100 + cto / 1000; };
    for (int i = 0; i < n; i++) {
        start(i); TConn *c = w.conns.back();
        if (!seq) { jitter(); continue; }
        if (!wait_until([&] { return over(c); }, (c->kind == 2 || c->tampered ? sto + 20000 : 400000) * MS, "connection ends")) { if (c->kind != 2 && !c->tampered) { } break; }
        if (wl(3)) sleep_ns(wl(3000) * MS);
    }
    (void)limit;
    faults_stop();
    /* everything that speaks TLS or has a timeout must end by itself */
    bool need_stop = false; for (auto c : w.conns) if (c->tampered) need_stop = true;
    auto pending = [&] { for (auto s : w.sides) if (!s->closed && !(s->client && s->c->kind == 2) && !(need_stop && s->connected)) return true; return false; };
    uint64_t t0 = now();
    if (!wait_until([&] { return !pending(); }, (cto + sto + 120000) * MS + worst * 40, "all connections end")) {
        std::string d; for (auto s : w.sides) if (!s->closed) d += " side " + std::to_string(s->id) + (s->client ? " client" : " server") + (s->connected ? " connected" : " negotiating") + " sent " + std::to_string(s->sent) + "/" + std::to_string(s->tosend) + " got " + std::to_string(s->got) + "/" + std::to_string(s->expect) + (s->disc ? " disconnecting" : "");
        fail("stuck", "%.1f s later connections are still open:%s", (now() - t0) / 1e9, d.c_str());
    }
    th.join();
    M_thread_mutex_lock(w.mtx); w.chaos = true; M_thread_mutex_unlock(w.mtx);
    for (size_t i = 0; i < w.sides.size(); i++) t_close(w.sides[i]);
    /* outcomes */
    if (exact) for (auto c : w.conns) {
        Side *a = c->a, *b = c->b;
        if (c->kind == 1) { SIM_CHECK(a->term && a->termtype == M_EVENT_TYPE_ERROR, "no-timeout", "conn %d: a silent server did not lead to an error", c->id); continue; }
        if (c->kind == 2) continue;
        bool ok = proto_both(w) && verify_ok(w, c->hidx) && client_ok(w);
        if (ok) {
            SIM_CHECK(a->connected && b && b->connected, "refused", "conn %d: both sides agree, yet it was not established", c->id);
            SIM_CHECK(a->sent == a->tosend && b->got == b->expect, "lost", "conn %d: the server got %zu of %zu bytes", c->id, b->got, b->expect);
            SIM_CHECK(b->sent == b->tosend && a->got == a->expect, "lost", "conn %d: the client got %zu of %zu bytes", c->id, a->got, a->expect);
            SIM_CHECK(a->termtype == M_EVENT_TYPE_DISCONNECTED && b->termtype == M_EVENT_TYPE_DISCONNECTED, "end", "conn %d: ended with %d/%d instead of a disconnect", c->id, a->termtype, b->termtype);
            probe("n02.complete");
        } else { SIM_CHECK(a->term, "no-error", "conn %d: must be refused but the client ended with %d (connected %d)", c->id, a->termtype, a->connected); probe("n02.refused"); }
    }
    M_io_destroy(w.lst); M_io_destroy(w.rawl);
    M_tls_clientctx_destroy(w.cctx); M_tls_serverctx_destroy(w.sctx);
    M_event_done(w.ev); join(f); for (size_t i = 0; i < w.sides.size(); i++) t_close(w.sides[i]); /* accepted meanwhile */
    M_dns_destroy(w.dns); M_event_destroy(w.ev); M_thread_mutex_destroy(w.mtx);
    for (auto s : w.sides) { if (s->c->id >= 1000) delete s->c; delete s; }
    for (auto c : w.conns) delete c; for (auto t : w.taps) delete t; for (auto t : w.tampers) delete t;
    world_end(false);
}
SIM_WORLD(N02, tls_world, "TLS client and server layers, contexts, session cache, host validation, OpenSSL, net, buffer and trace layers, event loop", "kernel sockets/epoll/poll, clock, threads, entropy", 1);
