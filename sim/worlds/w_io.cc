/* I01 stream integrity and progress, I02 event lifecycle, I03 destruction at any moment */
#include "w_common.h"

namespace {
struct Ep; struct StreamWorld;
struct Flow { uint64_t key; size_t total = 0, sent = 0, rcvd = 0; unsigned char at(size_t i) const { uint64_t x = mix(key, i >> 3); return (unsigned char)(x >> (8 * (i & 7))); } };
struct TraceArg { Ep *ep; size_t rd = 0, wr = 0; };
struct LayerSpec { int kind; size_t a, b; };          /* 1 trace, 2 buffer, 3 bwshaping */
struct Conn { int id; std::string desc; M_io_t *lst = NULL; unsigned port = 0; int transport; std::vector<LayerSpec> layers; bool wbuffered = false, tiny = false, shaped = false; int closemode; Ep *a = NULL, *b = NULL; Flow ab, ba; bool aborted = false, done = false; int target = 0; uint64_t cto = 0, dto = 0; };
struct Ep {
    StreamWorld *w; Conn *c; int id; M_io_t *io = NULL; Flow *out = NULL, *in = NULL; bool client = false;
    bool later = false, connected = false, term = false, disc = false, destroyed = false, in_cb = false, reading_paused = false, write_idle = true;
    M_event_type_t termtype = M_EVENT_TYPE_OTHER; int rmode, wmode; size_t chunk; int fiber = -1; M_buf_t *wb = NULL; size_t wb_gen = 0; uint64_t t_disc = 0; int aux = 0;
    size_t late = 0;       /* events that may still arrive after a cross thread destroy */
    bool moved = false, deaf = false, removed = false; int fate = 0; M_thread_mutex_t *mtx = NULL; uint64_t t_start = 0;
    M_event_type_t last = M_EVENT_TYPE_OTHER; bool eof_read = false;
};
struct StreamWorld {
    M_event_t *ev[2] = { NULL, NULL }; int nev = 1; bool pool[2]; M_dns_t *dns = NULL; std::vector<Conn *> conns; std::vector<Ep *> eps;
    std::vector<TraceArg *> targs; size_t finished = 0; bool chaos = false, quiet = false, lossy = false, moves = false, over = false;
    M_event_t *evfor(int i) { return ev[i % nev]; }
    bool exact() { return !lossy; }
};
StreamWorld *SW;
}
static void ep_io(Ep *e);
static void ep_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg);
static bool resets() { return net_stats().resets != 0; }

/* ---- layers ----------------------------------------------------------------------------------- */
static void tr_cb(void *arg, M_io_trace_type_t t, M_event_type_t, const unsigned char *, size_t n) { TraceArg *a = (TraceArg *)arg; if (t == M_IO_TRACE_TYPE_READ) a->rd += n; if (t == M_IO_TRACE_TYPE_WRITE) a->wr += n; }
static void *tr_dup(void *) { TraceArg *a = new TraceArg(); SW->targs.push_back(a); return a; }
static void tr_free(void *) {}
static void add_layers(M_io_t *io, Conn *c)
{
    for (auto &l : c->layers) {
        size_t id = 0; M_io_error_t e = M_IO_ERROR_SUCCESS;
        switch (l.kind) {
        case 1: { TraceArg *a = new TraceArg(); SW->targs.push_back(a); e = M_io_add_trace(io, &id, tr_cb, a, tr_dup, tr_free); break; }
        case 2: e = M_io_add_buffer(io, &id, l.a, l.b); break;
        case 3:
            e = M_io_add_bwshaping(io, &id);
            if (l.a) { M_io_bwshaping_set_throttle(io, id, M_IO_BWSHAPING_DIRECTION_OUT, l.a); if (l.a & 1) M_io_bwshaping_set_throttle_mode(io, id, M_IO_BWSHAPING_DIRECTION_OUT, M_IO_BWSHAPING_MODE_TRICKLE); }
            if (l.b) { M_io_bwshaping_set_latency(io, id, (l.b & 1) ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT, l.b); }
            break;
        }
        SIM_CHECK(e == M_IO_ERROR_SUCCESS, "layer-add", "adding layer kind %d failed: %d", l.kind, (int)e);
    }
}
static std::vector<LayerSpec> pick_layers(Conn *c)
{
    std::vector<LayerSpec> v; size_t n = wl(4);
    static const size_t bs[6] = { 0, 1, 64, 1000, 20000, 65536 };
    for (size_t i = 0; i < n; i++) {
        LayerSpec l; l.kind = 1 + (int)wl(3); l.a = l.b = 0;
        if (l.kind == 2) { l.a = bs[wl(6)]; l.b = bs[wl(6)]; if (l.b) c->wbuffered = true; if ((l.a && l.a < 100) || (l.b && l.b < 100)) c->tiny = true; }
        if (l.kind == 3) { if (wl(2)) l.a = 2000 + wl(50000); if (wl(3) == 0) l.b = 1 + wl(60); c->shaped = true; }
        v.push_back(l);
    }
    return v;
}

/* ---- endpoint behaviour ------------------------------------------------------------------------- */
static void ep_close_check(Ep *e);
static void ep_disconnect(Ep *e);
static void ep_move(Ep *e);
static void ep_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg);
static bool ep_claim(Ep *e, M_io_t **io)
{
    if (e->mtx) M_thread_mutex_lock(e->mtx);
    *io = e->io; e->io = NULL; bool ok = *io != NULL; if (ok) e->destroyed = true;
    if (e->mtx) M_thread_mutex_unlock(e->mtx);
    return ok;
}
static void ep_destroy(Ep *e) { M_io_t *io = NULL; if (!ep_claim(e, &io)) return; sim::ev("destroy", e->id); M_io_destroy(io); e->w->finished++; Ep *b = e->c->b; if (e->fate == 4 && e->client && b && !b->destroyed) { if (b->io) ep_destroy(b); else { b->destroyed = true; e->w->finished++; } } }
static void ep_check_in(Ep *e, const unsigned char *p, size_t n)
{
    Flow *f = e->in;
    SIM_CHECK(f, "data-from-nowhere", "endpoint %d received %zu bytes but nothing writes to it", e->id, n);
    SIM_CHECK(f->rcvd + n <= f->sent, "data-invented", "endpoint %d received %zu bytes, only %zu were written", e->id, f->rcvd + n, f->sent);
    for (size_t i = 0; i < n; i++)
        SIM_CHECK(p[i] == f->at(f->rcvd + i), "data-corrupted", "endpoint %d byte %zu differs (transport %d)", e->id, f->rcvd + i, e->c->transport);
    f->rcvd += n;
    sim::ev("rx", e->id, (int64_t)n);
}
/* returns false when the stream is over */
static void ep_read(Ep *e)
{
    unsigned char buf[70000]; M_io_error_t err = M_IO_ERROR_SUCCESS; size_t n = 0;
    if (!e->io || e->disc) return;
    switch (e->rmode) {
    case 0: do { n = 0; err = M_io_read(e->io, buf, e->chunk, &n); if (err == M_IO_ERROR_SUCCESS) { SIM_CHECK(n && n <= e->chunk, "read-length", "read reported %zu of %zu bytes", n, e->chunk); ep_check_in(e, buf, n); } } while (err == M_IO_ERROR_SUCCESS); break;
    case 1: err = M_io_read(e->io, buf, e->chunk, &n); if (err == M_IO_ERROR_SUCCESS) { SIM_CHECK(n && n <= e->chunk, "read-length", "read reported %zu of %zu bytes", n, e->chunk); ep_check_in(e, buf, n); } break;
    case 2: { M_buf_t *b = M_buf_create(); err = M_io_read_into_buf(e->io, b); if (err == M_IO_ERROR_SUCCESS) SIM_CHECK(M_buf_len(b) > 0, "read-length", "read_into_buf succeeded with no data"); if (M_buf_len(b)) ep_check_in(e, (const unsigned char *)M_buf_peek(b), M_buf_len(b)); M_buf_cancel(b); break; }
    default: { M_parser_t *b = M_parser_create(M_PARSER_FLAG_NONE); err = M_io_read_into_parser(e->io, b); if (M_parser_len(b)) ep_check_in(e, (const unsigned char *)M_parser_peek(b), M_parser_len(b)); M_parser_destroy(b); break; }
    }
    if (err != M_IO_ERROR_SUCCESS && err != M_IO_ERROR_WOULDBLOCK) e->eof_read = true;
    /* events may be lost when an object is taken from its loop, so a failing read ends it */
    if (e->eof_read && e->moved && !e->term) { e->c->aborted = true; ep_destroy(e); }
}
static void ep_fill(Ep *e, unsigned char *b, size_t off, size_t n) { for (size_t i = 0; i < n; i++) b[i] = e->out->at(off + i); }
static void ep_write(Ep *e)
{
    if (!e->out || !e->io || e->disc || e->eof_read) return;
    Flow *f = e->out; M_io_error_t err;
    unsigned char b[70000];
    for (;;) {
        size_t left = f->total - f->sent; size_t n = 0;
        if (!left) break;
        if (e->wmode == 2) {            /* through a buffer object */
            if (!e->wb) e->wb = M_buf_create();
            if (M_buf_len(e->wb) == 0) { size_t k = std::min(left, e->chunk * 2); ep_fill(e, b, f->sent, std::min(k, sizeof b)); M_buf_add_bytes(e->wb, b, std::min(k, sizeof b)); }
            size_t before = M_buf_len(e->wb), s0 = f->sent;
            f->sent += before;          /* in flight while the call runs: the peer may already see it */
            err = M_io_write_from_buf(e->io, e->wb);
            n = before - M_buf_len(e->wb); f->sent = s0 + n;
            if (err == M_IO_ERROR_SUCCESS) SIM_CHECK(n > 0, "write-length", "write_from_buf succeeded without writing");
            else SIM_CHECK(n == 0, "write-length", "failed write consumed %zu bytes", n);
        } else {
            size_t k = std::min(std::min(left, e->chunk), sizeof b), s0 = f->sent;
            ep_fill(e, b, f->sent, k);
            f->sent += k;
            err = M_io_write(e->io, b, k, &n);
            SIM_CHECK(n <= k, "write-length", "write reported %zu of %zu bytes", n, k);
            if (err == M_IO_ERROR_SUCCESS) SIM_CHECK(n > 0, "write-length", "write succeeded with no data");
            else SIM_CHECK(n == 0, "write-length", "failed write reports %zu bytes", n);
            f->sent = s0 + n;
        }
        sim::ev("tx", e->id, (int64_t)n, err);
        if (err != M_IO_ERROR_SUCCESS) break;
        if (e->wmode == 1) break;       /* one write per event */
    }
}
static void ep_later(M_event_t *, M_event_type_t, M_io_t *, void *arg)
{
    Ep *e = (Ep *)arg;
    e->later = false;
    if (!e->io || e->term || !e->connected) return;
    e->reading_paused = false;
    if (e->fate == 4) { ep_disconnect(e); if (e->io && e->w->moves && wl(3) == 0) ep_move(e); return; }
    if (e->in) ep_read(e);
    if (e->io) ep_write(e);
    if (e->io) ep_close_check(e);
}
static void ep_later_in(Ep *e, uint64_t ms) { if (e->io && !e->later && M_io_get_event(e->io)) { e->later = true; M_event_timer_oneshot(M_io_get_event(e->io), ms, M_TRUE, ep_later, e); } }
static void ep_disconnect(Ep *e) { if (e->disc || !e->io || e->term) return; e->disc = true; e->t_disc = now(); sim::ev("disc", e->id); M_io_disconnect(e->io); }
static void ep_close_check(Ep *e)
{
    Conn *c = e->c;
    if (!e->io || e->disc || e->term || c->aborted || e->w->chaos) return;
    if (c->target == 4 && e->client) { if (!e->out || e->out->sent == e->out->total) ep_disconnect(e); return; }
    bool alldone = c->ab.rcvd == c->ab.total && c->ba.rcvd == c->ba.total;
    bool mine = !e->out || e->out->sent == e->out->total, got = !e->in || e->in->rcvd == e->in->total;
    switch (c->closemode) {
    case 0: if (e->client && got && mine && (!c->wbuffered || alldone)) ep_disconnect(e); else if (e->client && got && mine) ep_later_in(e, 20); break;
    case 1: if (!e->client && got && mine && (!c->wbuffered || alldone)) ep_disconnect(e); else if (!e->client && got && mine) ep_later_in(e, 20); break;
    case 2: if (alldone) ep_disconnect(e); else if (got && mine) ep_later_in(e, 20); break;
    default: if (e->aux && got && mine) { c->aborted = true; probe("i01.abort"); ep_destroy(e); } break;
    }
}
static void ep_event(Ep *e, M_event_type_t type)
{
    Conn *c = e->c; StreamWorld *w = e->w;
    switch (type) {
    case M_EVENT_TYPE_CONNECTED:
        SIM_CHECK(!e->connected, "connected-twice", "endpoint %d got CONNECTED twice", e->id);
        e->connected = true;
        SIM_CHECK(w->chaos || M_io_get_state(e->io) == M_IO_STATE_CONNECTED || resets() || any_fault_enabled() || c->aborted, "state-mismatch", "state %d at CONNECTED", (int)M_io_get_state(e->io));
        if (e->moved && e->in) { ep_read(e); if (!e->io) break; }
        if (e->fate == 4) { ep_later_in(e, 200 + wl(1500)); }
        if (e->out) { if (wl(4) == 0) ep_later_in(e, wl(100)); else ep_write(e); }
        break;
    case M_EVENT_TYPE_READ:
        SIM_CHECK(e->connected || e->moved, "read-before-connected", "endpoint %d got READ before CONNECTED", e->id);
        if (wl(12) == 0 && !e->reading_paused) { e->reading_paused = true; ep_later_in(e, wl(300)); break; }
        ep_read(e);
        break;
    case M_EVENT_TYPE_WRITE:
        SIM_CHECK(e->connected, "write-before-connected", "endpoint %d got WRITE before CONNECTED", e->id);
        ep_write(e);
        break;
    case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR:
        e->term = true; e->termtype = type;
        if (e->fate >= 1 && e->fate <= 3) {
            SIM_CHECK(!e->connected, "connected-to-nothing", "endpoint %d was connected although nothing listens", e->id);
            SIM_CHECK(type == M_EVENT_TYPE_ERROR, "wrong-terminal-event", "failed connection attempt ended with event %d", (int)type);
            uint64_t took = (now() - e->t_start) / MS, to = c->cto ? c->cto : 10000;
            if (e->fate == 2) { SIM_CHECK(took + 1 >= to, "timeout-early", "connect timeout of %llu ms fired after %llu ms", (unsigned long long)to, (unsigned long long)took); probe("i02.connect_timeout"); }
            if (!any_fault_enabled()) SIM_CHECK(took <= to + 3000, "timeout-late", "connection attempt ended after %llu ms, timeout %llu ms", (unsigned long long)took, (unsigned long long)to);
            ep_destroy(e); break;
        }
        if (e->fate == 4) {
            uint64_t took = e->disc ? (now() - e->t_disc) / MS : 0;
            if (e->disc && !any_fault_enabled()) SIM_CHECK(took <= 10100, "timeout-late", "disconnect ended after %llu ms", (unsigned long long)took);
            if (e->disc && took >= 9000) probe("i02.disconnect_timeout");
            ep_destroy(e); break;
        }
        /* drain what the system still holds; a reader that reads all on every event needs not */
        if (e->in && !e->disc && (e->rmode != 0 || e->reading_paused || e->later)) { int rm = e->rmode; e->rmode = 0; e->eof_read = false; ep_read(e); e->rmode = rm; }
        if (c->transport == 0 && !w->chaos) { M_io_state_t st = M_io_get_state(e->io); SIM_CHECK(st == M_IO_STATE_DISCONNECTED || st == M_IO_STATE_ERROR, "state-mismatch", "state %d after the terminal event %d (transport %d)", (int)st, (int)type, c->transport); }
        if (!w->chaos && type == M_EVENT_TYPE_ERROR && !(c->transport == 1 && e->client)) {    /* a pipe without reader is an error for its writer */
            char es[256] = ""; M_io_get_error_string(e->io, es, sizeof es);
            SIM_CHECK(resets() || c->aborted || w->lossy, "error-without-cause", "endpoint %d got ERROR (%s) although nothing went wrong", e->id, es);
        }
        if (!w->chaos && !resets() && !c->aborted && !w->lossy) {
            if (e->in && !e->disc) SIM_CHECK(e->in->rcvd == e->in->sent, "data-lost-at-close", "endpoint %d saw the end of the stream after %zu of %zu bytes (transport %d, close mode %d)", e->id, e->in->rcvd, e->in->sent, c->transport, c->closemode);
        }
        ep_destroy(e);
        break;
    default: fail("unexpected-event", "endpoint %d got event %d", e->id, (int)type);
    }
    if (e->io && e->connected) ep_close_check(e);
    if (c->closemode == 3 && e->io && e->connected && e->aux && --e->aux == 0) { c->aborted = true; sim::ev("abort", e->id); probe("i01.abort"); ep_destroy(e); }
}
static void ep_move(Ep *e)
{
    M_event_t *to = e->w->ev[wl(e->w->nev)]; M_io_t *n = e->io; probe("i02.moved"); sim::ev("move", e->id);
    if (e->reading_paused) return;
    e->moved = true; if (!e->disc) e->connected = false; e->fiber = -1; if (e->disc) { e->t_disc = now(); probe("i02.moved_disconnecting"); }
    M_event_remove(n);
    SIM_CHECK(M_io_get_event(n) == NULL, "still-registered", "the object has an event after M_event_remove");
    M_io_state_t st = M_io_get_state(n);    /* events may be lost, a dead one is ended here */
    bool dead = st == M_IO_STATE_ERROR || st == M_IO_STATE_DISCONNECTED;
    if (dead && wl(2)) { e->c->aborted = true; ep_destroy(e); return; }
    bool ok = M_event_add(to, n, ep_cb, e);
    SIM_CHECK(ok || dead || e->eof_read, "event-add", "adding a moved object failed, state %d", (int)st);
    if (!ok) { probe("i02.add_failed"); SIM_CHECK(M_io_get_event(n) == NULL, "still-registered", "the object has an event after M_event_add failed"); }
    if (!ok) { e->c->aborted = true; ep_destroy(e); }
}
static void ep_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg)
{
    Ep *e = (Ep *)arg; (void)ev;
    sim::ev("ioev", e->id, type);
    if (e->destroyed && e->late) { e->late--; return; }
    SIM_CHECK(!e->destroyed, "event-after-destroy", "endpoint %d got event %d after it was destroyed", e->id, (int)type);
    SIM_CHECK(!e->term, "event-after-end", "endpoint %d got event %d after its terminal event", e->id, (int)type);
    SIM_CHECK(e->io == io, "wrong-io", "event carries a different io object");
    SIM_CHECK(!e->in_cb, "callback-overlap", "endpoint %d: callbacks overlap", e->id);
    if (e->fiber < 0) e->fiber = self_id();
    SIM_CHECK(e->fiber == self_id(), "loop-thread", "endpoint %d: callback on another thread", e->id);
    e->in_cb = true;
    ep_event(e, type);
    e->in_cb = false;
    if (e->w->moves && e->io && e->connected && !e->term && (!e->disc || e->c->transport == 0) && !e->later && !e->c->aborted && e->c->transport != 2 && wl(10) == 0) {
        ep_move(e);
    }
}
static void ep_move_early(M_event_t *, M_event_type_t, M_io_t *, void *arg)
{
    Ep *e = (Ep *)arg; if (!e->io || e->connected || e->term || e->disc || e->moved) return;
    M_io_t *n = e->io; M_event_t *to = e->w->ev[wl(e->w->nev)]; probe("i02.moved_early"); sim::ev("move", e->id);
    e->moved = true; e->fiber = -1;
    M_event_remove(n);
    SIM_CHECK(M_io_get_event(n) == NULL, "still-registered", "the object has an event after M_event_remove");
    e->t_start = now();
    SIM_CHECK(M_event_add(to, n, ep_cb, e), "event-add", "adding a connecting object failed");
}
static void lst_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    Conn *c = (Conn *)arg; StreamWorld *w = SW;
    sim::ev("lev", c->id, type);
    if (w->quiet) return;
    SIM_CHECK(type == M_EVENT_TYPE_ACCEPT, "unexpected-event", "listener got event %d", (int)type);
    bool loop = wl(2);
    do {
        M_io_t *n = NULL; M_io_error_t err = M_io_accept(&n, io);
        if (err != M_IO_ERROR_SUCCESS) { SIM_CHECK(!n, "accept-result", "accept failed but returned an object"); break; }
        SIM_CHECK(n, "accept-result", "accept succeeded without an object");
        if (c->b->deaf && c->b->destroyed) { M_io_destroy(n); continue; }      /* the client gave up before */
        SIM_CHECK(!c->b->io && !c->b->destroyed, "accepted-twice", "connection %d accepted twice", c->id);
        Ep *e = c->b; e->io = n;
        if (e->deaf) { probe("i02.deaf_peer"); continue; }
        SIM_CHECK(M_event_add(w->evfor(e->id), n, ep_cb, e), "event-add", "M_event_add failed");
    } while (loop);
}

static Ep *ep_new(StreamWorld *w, Conn *c, bool client)
{
    Ep *e = new Ep(); e->w = w; e->c = c; e->id = (int)w->eps.size(); e->client = client; w->eps.push_back(e);
    e->rmode = (int)wl(4); e->wmode = (int)wl(3);
    static const size_t cs[6] = { 1024, 1, 7, 100, 5000, 65536 };
    e->chunk = cs[wl(6)]; if (e->chunk < 100 && (c->ab.total > 3000 || c->ba.total > 3000)) e->chunk = 100;
    return e;
}
static size_t pick_total() { switch (wl(8)) { case 0: return 0; case 1: return 1; case 2: case 3: return 1 + wl(200); case 4: case 5: return 1 + wl(5000); case 6: return 1 + wl(40000); default: return 1 + wl(120000); } }

static void run_streams(bool chaos, bool lossy)
{
    StreamWorld w; SW = &w; w.chaos = chaos; w.lossy = lossy;
    net_swarm();
    w.nev = 1 + (int)choose(CFG, 2);
    for (int i = 0; i < w.nev; i++) {
        w.pool[i] = choose(CFG, 3) == 2;
        w.ev[i] = w.pool[i] ? M_event_pool_create((M_uint32)(1 + choose(CFG, 3))) : M_event_create(choose(CFG, 2) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE);
        SIM_CHECK(w.ev[i], "event-create", "event creation failed");
    }
    w.moves = lossy && choose(CFG, 2);
    w.dns = M_dns_create(w.ev[0]);
    int ncon = 1 + (int)wl(3); size_t sum = 0;
    for (int i = 0; i < ncon; i++) {
        Conn *c = new Conn(); c->id = i; w.conns.push_back(c);
        c->transport = (int)wl(4); if (c->transport == 3) c->transport = 0;      /* 0 tcp, 1 pipe, 2 loopback */
        c->closemode = (int)wl(4);
        if (w.lossy && c->transport == 0) { c->target = (int)wl(8); if (c->target > 4) c->target = 0; if (wl(2)) c->cto = 20 + wl(5000); }     /* 1 refused 2 silent 3 unreachable 4 deaf peer */
        c->layers = pick_layers(c);
        { std::string d; char t[64]; for (auto &l : c->layers) { snprintf(t, sizeof t, " %s(%zu,%zu)", l.kind == 1 ? "trace" : l.kind == 2 ? "buffer" : "shape", l.a, l.b); d += t; } logf("conn %d transport %d close %d layers%s", i, c->transport, c->closemode, d.c_str()); c->desc = d; }
        c->ab.key = mix(seed(), 2 * i + 1); c->ba.key = mix(seed(), 2 * i + 2);
        c->ab.total = pick_total(); if (c->transport == 0) c->ba.total = pick_total();
        if (c->tiny) { c->ab.total = std::min<size_t>(c->ab.total, 700); c->ba.total = std::min<size_t>(c->ba.total, 700); }
        if (net().bufcap < 1000) { c->ab.total = std::min<size_t>(c->ab.total, 3000); c->ba.total = std::min<size_t>(c->ba.total, 3000); }
        if (c->shaped) { c->ab.total = std::min<size_t>(c->ab.total, 20000); c->ba.total = std::min<size_t>(c->ba.total, 20000); }
        if (c->target) { c->ab.total = c->target == 4 ? wl(200) : 0; c->ba.total = 0; c->closemode = 0; }
        sum += c->ab.total + c->ba.total;
        c->a = ep_new(&w, c, true); c->a->out = &c->ab;
        if (c->transport == 2) { c->a->in = &c->ab; if (c->closemode == 1) c->closemode = 0; }
        if (c->transport != 2 && (c->target == 0 || c->target == 4)) { c->b = ep_new(&w, c, false); c->b->deaf = c->target == 4; c->b->in = &c->ab; if (c->transport == 0) { c->b->out = &c->ba; c->a->in = &c->ba; } }
        if (c->target) c->a->in = NULL, c->a->fate = c->target;
        if (c->closemode == 3) { Ep *x = c->b && wl(2) ? c->b : c->a; x->aux = 1 + (int)wl(12); }
    }
    /* loops */
    std::vector<Fiber *> loops; 
    for (int i = 0; i < w.nev; i++) loops.push_back(spawn("loop", [&w, i] { M_event_loop(w.ev[i], M_TIMEOUT_INF); }));
    auto add_client = [&](Conn *c) {
        int k = c->a->id % w.nev; bool early = w.moves && c->transport == 0 && !w.pool[k] && wl(3) == 0;      /* timer and object on one loop, so that it can not run in between */
        uint64_t after = wl(30);
        SIM_CHECK(M_event_add(w.evfor(c->a->id), c->a->io, ep_cb, c->a), "event-add", "M_event_add failed");
        if (early) M_event_timer_oneshot(w.ev[k], after, M_TRUE, ep_move_early, c->a);
    };
    std::function<void()> start = [&] {
        for (auto c : w.conns) {
            if (wl(2)) jitter();
            if (c->transport == 0) {
                c->a->t_start = now();
                if (c->target >= 1 && c->target <= 3) {
                    const char *ip = c->target == 1 ? "10.9.0.1" : c->target == 2 ? "10.9.0.2" : "10.9.0.3";
                    HostCfg h; h.refuse = c->target == 1; h.blackhole = c->target == 2; h.unreachable = c->target == 3; h.refuse_delay = wl(2) * wl(300) * MS; net().hosts[ip] = h;
                    SIM_CHECK(M_io_net_client_create(&c->a->io, w.dns, ip, (unsigned short)(1 + wl(65535)), M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "client-create", "client creation failed");
                    if (c->cto) SIM_CHECK(M_io_net_set_connect_timeout_ms(c->a->io, c->cto), "client-create", "connect timeout refused");
                    add_layers(c->a->io, c);
                    add_client(c);
                    continue;
                }
                SIM_CHECK(M_io_net_server_create(&c->lst, 0, wl(2) ? "127.0.0.1" : NULL, M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "server-create", "server creation failed");
                c->port = M_io_net_get_port(c->lst); SIM_CHECK(c->port, "server-port", "no port assigned");
                add_layers(c->lst, c);
                SIM_CHECK(M_event_add(w.evfor((int)wl(2)), c->lst, lst_cb, c), "event-add", "adding the listener failed");
                SIM_CHECK(M_io_net_client_create(&c->a->io, w.dns, "127.0.0.1", (unsigned short)c->port, M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "client-create", "client creation failed");
                if (!w.lossy) M_io_net_set_connect_timeout_ms(c->a->io, 1000000000);     /* a stalled loop must not run into it; timeouts are I08's */
                else if (c->cto) M_io_net_set_connect_timeout_ms(c->a->io, c->cto);
            } else if (c->transport == 1) {
                SIM_CHECK(M_io_pipe_create(M_IO_PIPE_NONE, &c->b->io, &c->a->io) == M_IO_ERROR_SUCCESS, "pipe-create", "pipe creation failed");
                add_layers(c->b->io, c);
            } else SIM_CHECK(M_io_loopback_create(&c->a->io) == M_IO_ERROR_SUCCESS, "loopback-create", "loopback creation failed");
            add_layers(c->a->io, c);
            if (c->transport == 1) SIM_CHECK(M_event_add(w.evfor(c->b->id), c->b->io, ep_cb, c->b), "event-add", "M_event_add failed");
            add_client(c);
        }
    };
    (void)start;
    start();
    size_t expect = w.eps.size();
    deadline(now() + 40000 * SEC, "stream-stalled", "a stream makes no progress");
    auto alldone = [&] { for (auto e : w.eps) if (!e->destroyed && !(lossy && !e->client && !e->io && e->c->a->destroyed)) return false; return true; };
    if (lossy) { sleep_ns((30 + wl(60)) * SEC); faults_stop(); }
    wait_until(alldone, 3000 * SEC, "streams finish");
    if (lossy) { sleep_ns(60 * SEC); wait_until(alldone, 3000 * SEC, "streams finish"); for (auto e : w.eps) if (!e->client && !e->io && e->c->a->destroyed && !e->destroyed) { e->destroyed = true; w.finished++; } }
    if (w.finished < expect) for (auto e : w.eps) if (!e->destroyed) fail("stream-stalled", "endpoint %d (transport %d, layers%s, close mode %d): connected %d disconnecting %d, sent %zu/%zu, received %zu/%zu", e->id, e->c->transport, e->c->desc.c_str(), e->c->closemode, e->connected, e->disc, e->out ? e->out->sent : 0, e->out ? e->out->total : 0, e->in ? e->in->rcvd : 0, e->in ? e->in->total : 0);
    deadline_clear();
    w.quiet = true;
    for (auto c : w.conns) if (c->lst) M_io_destroy(c->lst);
    M_dns_destroy(w.dns);
    for (int i = 0; i < w.nev; i++) { M_event_done(w.ev[i]); }
    for (auto f : loops) join(f);
    for (int i = 0; i < w.nev; i++) M_event_destroy(w.ev[i]);
    for (auto c : w.conns) {
        if (!resets() && !c->aborted && !lossy) {
            SIM_CHECK(c->ab.rcvd == c->ab.total, "data-lost", "connection %d delivered %zu of %zu bytes", c->id, c->ab.rcvd, c->ab.total);
            SIM_CHECK(c->ba.rcvd == c->ba.total, "data-lost", "connection %d delivered %zu of %zu bytes back", c->id, c->ba.rcvd, c->ba.total);
        }
        delete c;
    }
    for (auto e : w.eps) { if (e->wb) M_buf_cancel(e->wb); if (e->mtx) M_thread_mutex_destroy(e->mtx); }
    for (auto e : w.eps) delete e;
    for (auto t : w.targs) delete t;
    probe("i01.bytes", sum);
}
static void streams()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_NET_RESET });
    run_streams(false, false);
    world_end();
}
SIM_WORLD(I01, streams, "io/*, event loop, timers, net, pipes, loopback, buffer, trace and bandwidth layers", "kernel sockets/pipes/epoll/poll, clock, threads", 3);
static void lifecycle()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_NET_RESET, F_NET_CONN_REFUSED, F_NET_CONN_TIMEOUT, F_ACCEPT_FAIL });
    run_streams(false, true);
    world_end();
}
SIM_WORLD(I02, lifecycle, "io/*, event loop, timers, net client/server, pipes, loopback, layers", "kernel sockets/pipes/epoll/poll, clock, threads", 3);

/* ---- I03 chaos: anything may be destroyed, removed or disconnected at any moment ------------------ */
namespace {
struct CW;
struct CE { CW *w; int id; M_io_t *io = NULL; Conn *c = NULL; bool claimed = false, destroyed = false, removed = false, disc = false, term = false, alt = false; int late = 0, in_cb = 0; int ver = 0; bool listener = false; int evi = 0; size_t todo = 0; };
struct CW { M_thread_mutex_t *mtx; M_event_t *ev[2] = { NULL, NULL }; int nev = 1; bool pool[2] = { false, false }; M_dns_t *dns = NULL; std::vector<CE *> e; size_t max = 0; bool over = false; };
CW *KW;
}
static void k_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg);
static void k_cb2(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg);
static bool k_claim(CE *e)
{
    M_thread_mutex_lock(e->w->mtx);
    bool ok = e->io && !e->claimed; if (ok) e->claimed = true;
    M_thread_mutex_unlock(e->w->mtx);
    return ok;
}
static CE *k_new(CW *w, Conn *c, bool lst) { CE *e = new CE(); e->w = w; e->c = c; e->listener = lst; e->todo = wl(3) ? wl(3000) : wl(60000); e->todo = std::min<size_t>(e->todo, net().bufcap < 64 ? 200 : net().bufcap < 1000 ? 3000 : 60000); M_thread_mutex_lock(w->mtx); e->id = (int)w->e.size(); e->evi = (int)wl(w->nev); w->e.push_back(e); M_thread_mutex_unlock(w->mtx); return e; }
static CE *k_pick(CW *w) { M_thread_mutex_lock(w->mtx); CE *e = w->e.empty() ? NULL : w->e[wl(w->e.size())]; M_thread_mutex_unlock(w->mtx); return e; }
/* from another thread, or from some other object's callback */
static void k_outside(CE *e)
{
    switch (wl(8)) {
    case 0: if (k_claim(e)) { sim::ev("kremove", e->id); e->removed = true; M_event_remove(e->io); probe("i03.removed"); } break;   /* destroyed once the loops ended */
    case 1: if (k_claim(e)) { sim::ev("kdisc", e->id); M_io_disconnect(e->io); jitter(); sim::ev("kdestroy", e->id); e->destroyed = true; e->late = 1 << 30; probe("i03.destroy_other"); M_io_destroy(e->io); e->late = 8; } break;
    case 2: if (k_claim(e)) { M_io_get_event(e->io); M_io_get_state(e->io); M_io_get_error(e->io); jitter(); e->destroyed = true; e->late = 1 << 30; probe("i03.destroy_other"); M_io_destroy(e->io); e->late = 8; } break;
    default: if (k_claim(e)) { sim::ev("kdestroy", e->id); e->destroyed = true; e->late = 1 << 30; probe("i03.destroy_other"); M_io_destroy(e->io); e->late = 8; } break;
    }
}
static void k_destroy_own(CE *e, bool rm) { if (!k_claim(e)) return; M_io_t *io = e->io; e->destroyed = true; sim::ev("kown", e->id, rm); probe("i03.destroy_self"); if (rm) M_event_remove(io); M_io_destroy(io); }
/* the end of the connection may have been signalled while it was still being added */
static void k_unclaim(CE *e) { e->claimed = false; if (e->term && k_claim(e)) { e->removed = true; M_event_remove(e->io); } }
static void k_any(CE *e, M_event_t *ev, M_event_type_t type, M_io_t *io, bool alt)
{
    CW *w = e->w; unsigned char b[3000]; size_t n;
    sim::ev("kev", e->id, type, alt);
    if (e->destroyed) { SIM_CHECK(e->late > 0, "event-after-destroy", "object %d got event %d after it was destroyed", e->id, (int)type); e->late--; return; }
    SIM_CHECK(e->in_cb == 0, "callback-overlap", "object %d: callbacks overlap", e->id);
    SIM_CHECK(e->io == io, "wrong-io", "event carries a different object");
    if (!e->removed && !e->claimed) SIM_CHECK(alt == e->alt || e->ver > 0, "wrong-callback", "object %d: event delivered to the callback that was replaced", e->id);
    e->in_cb++;
    uint64_t act = wl(30); sim::ev("kact", e->id, act, e->claimed);
    if (act == 0) { k_destroy_own(e, false); e->in_cb--; return; }
    if (act == 1) { k_destroy_own(e, true); e->in_cb--; return; }
    if (act == 2) { CE *o = k_pick(w); if (o && o != e) k_outside(o); }
    if (act == 3 && !e->claimed) { bool was = e->alt; e->alt = !was; M_event_edit_io_cb(io, was ? k_cb : k_cb2, e); void *d = NULL; M_event_callback_t g = M_event_get_io_cb(io, &d); SIM_CHECK(e->claimed || g == (was ? k_cb : k_cb2), "edit-cb", "the edited callback is not reported"); probe("i03.edit_cb"); }
    if (act == 4 && wl(8) == 0) { if (w->pool[e->evi] || wl(2)) M_event_done(w->ev[e->evi]); else M_event_done_with_disconnect(w->ev[e->evi], wl(50), wl(500)); probe("i03.early_end"); }
    if (act == 5 && !e->listener) { e->disc = true; M_io_disconnect(io); }
    if (act == 6 && type != M_EVENT_TYPE_ACCEPT) { if (k_claim(e)) { e->removed = true; M_event_remove(io); if (wl(2)) { e->in_cb--; e->alt = false; e->ver++; if (M_event_add(w->ev[e->evi], io, k_cb, e)) { e->removed = false; probe("i03.readded"); k_unclaim(e); } return; } } e->in_cb--; return; }
    if (e->listener) {
        if (type == M_EVENT_TYPE_ACCEPT) {
            M_io_t *nio = NULL;
            while (w->e.size() < w->max && M_io_accept(&nio, io) == M_IO_ERROR_SUCCESS) {
                CE *o = k_new(w, e->c, false); 
                if (wl(6) == 0) { M_io_destroy(nio); nio = NULL; continue; }
                o->claimed = true; o->io = nio; if (M_event_add(w->ev[o->evi], nio, k_cb, o)) k_unclaim(o); else o->removed = true;
                nio = NULL; if (wl(2)) break;
            }
            if (w->e.size() >= w->max) k_destroy_own(e, false);
        }
        e->in_cb--; return;
    }
    if (type == M_EVENT_TYPE_DISCONNECTED || type == M_EVENT_TYPE_ERROR) { if (e->claimed) e->term = true; if (wl(3)) k_destroy_own(e, wl(2)); else if (k_claim(e)) { sim::ev("kremove", e->id); e->removed = true; M_event_remove(io); } e->in_cb--; return; }
    if (!e->disc) {
        if (type == M_EVENT_TYPE_READ) for (uint64_t k = wl(4); k && M_io_read(io, b, 1 + wl(sizeof b), &n) == M_IO_ERROR_SUCCESS; k--) ;
        if (type == M_EVENT_TYPE_CONNECTED || type == M_EVENT_TYPE_WRITE || wl(4) == 0)
            for (uint64_t k = wl(4); k && e->todo; k--) { memset(b, 'x', sizeof b); if (M_io_write(io, b, std::min(1 + (size_t)wl(sizeof b), e->todo), &n) != M_IO_ERROR_SUCCESS) break; e->todo -= n; }
        if (!e->todo && wl(3) == 0) { e->disc = true; M_io_disconnect(io); }
    }
    e->in_cb--; (void)ev;
}
static void k_cb(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg) { k_any((CE *)arg, ev, type, io, false); }
static void k_cb2(M_event_t *ev, M_event_type_t type, M_io_t *io, void *arg) { k_any((CE *)arg, ev, type, io, true); }
static void destroy_any()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_NET_RESET, F_NET_CONN_REFUSED, F_NET_CONN_TIMEOUT, F_ACCEPT_FAIL });
    CW w; KW = &w; StreamWorld sw; SW = &sw; net_swarm();
    w.mtx = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
    w.nev = 1 + (int)choose(CFG, 2);
    for (int i = 0; i < w.nev; i++) { w.pool[i] = choose(CFG, 3) == 2; w.ev[i] = w.pool[i] ? M_event_pool_create((M_uint32)(1 + choose(CFG, 3))) : M_event_create(choose(CFG, 2) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE); }
    w.dns = M_dns_create(w.ev[0]);
    w.max = 4 + wl(12);
    std::vector<Conn *> conns;
    std::vector<Fiber *> loops, ch;
    for (int i = 0; i < w.nev; i++) loops.push_back(spawn("loop", [&w, i] { M_event_loop(w.ev[i], M_TIMEOUT_INF); }));
    int nch = 1 + (int)wl(2); bool stop = false;
    for (int i = 0; i < nch; i++) ch.push_back(spawn("chaos", [&] { uint64_t n = 1 + wl(8); while (n-- && !stop) { sleep_ns(wl(20) * MS + wl(400) * US); CE *e = k_pick(&w); if (e) k_outside(e); } }));
    int ncon = 1 + (int)wl(4);
    for (int i = 0; i < ncon; i++) {
        Conn *c = new Conn(); conns.push_back(c); c->id = i; c->transport = (int)wl(4); if (c->transport == 3) c->transport = 0;
        c->layers = pick_layers(c); jitter();
        auto add = [&](CE *e, M_io_t *io) { M_thread_mutex_lock(w.mtx); e->io = io; e->claimed = true; M_thread_mutex_unlock(w.mtx); bool ok = M_event_add(w.ev[e->evi], io, k_cb, e); if (ok) k_unclaim(e); else e->removed = true; };
        M_io_t *x = NULL, *y = NULL;
        if (c->transport == 0) {
            if (M_io_net_server_create(&x, 0, "127.0.0.1", M_IO_NET_IPV4) != M_IO_ERROR_SUCCESS) continue;
            add_layers(x, c); unsigned port = M_io_net_get_port(x);
            CE *l = k_new(&w, c, true); add(l, x);
            for (uint64_t k = 1 + wl(3); k; k--) {
                const char *ip = "127.0.0.1"; if (wl(5) == 0) { ip = "10.9.0.2"; HostCfg h; h.blackhole = true; net().hosts[ip] = h; }
                if (M_io_net_client_create(&y, w.dns, ip, (unsigned short)port, M_IO_NET_IPV4) != M_IO_ERROR_SUCCESS) continue;
                if (wl(2)) M_io_net_set_connect_timeout_ms(y, 20 + wl(3000));
                if (wl(3) == 0) M_io_net_set_keepalives(y, 10, 10, 3);
                add_layers(y, c); add(k_new(&w, c, false), y); if (wl(2)) jitter();
            }
        } else if (c->transport == 1) {
            if (M_io_pipe_create(M_IO_PIPE_NONE, &x, &y) != M_IO_ERROR_SUCCESS) continue;
            add_layers(x, c); add_layers(y, c); add(k_new(&w, c, false), x); add(k_new(&w, c, false), y);
        } else { M_io_loopback_create(&x); add_layers(x, c); add(k_new(&w, c, false), x); }
    }
    deadline(now() + 40000 * SEC, "stuck", "destroying objects does not come to an end");
    sleep_ns(wl(3) ? wl(300) * MS : wl(4000) * MS);
    stop = true;
    if (wl(2)) for (auto f : ch) join(f);
    for (int i = 0; i < w.nev; i++) M_event_done(w.ev[i]);
    for (auto f : loops) join(f);
    for (auto f : ch) if (!finished(f)) join(f);
    /* the loops ended with objects attached: half go before their loop, half after it */
    for (size_t i = 0; i < w.e.size(); i++) { CE *e = w.e[i]; if (e->io && !e->destroyed && wl(2)) { e->destroyed = true; M_io_destroy(e->io); } }
    bool dns_first = wl(2); if (dns_first) M_dns_destroy(w.dns);
    for (int i = 0; i < w.nev; i++) M_event_destroy(w.ev[i]);
    if (!dns_first) M_dns_destroy(w.dns);
    for (auto e : w.e) if (e->io && !e->destroyed) { e->destroyed = true; SIM_CHECK(M_io_get_event(e->io) == NULL, "still-registered", "object %d refers to a destroyed event loop", e->id); M_io_destroy(e->io); }
    deadline_clear();
    for (auto e : w.e) delete e;
    for (auto c : conns) delete c;
    for (auto t : sw.targs) delete t;
    M_thread_mutex_destroy(w.mtx);
    world_end();
}
SIM_WORLD(I03, destroy_any, "io/*, event loop, timers, net client/server, pipes, loopback, layers", "kernel sockets/pipes/epoll/poll, clock, threads", 2);
