/* I05: bandwidth shaping keeps its limits, and loses or stalls nothing */
#include "w_common.h"

namespace bws {
struct Dir { bool on = false; uint64_t Bps = 0, period = 15, freq = 100, lat = 0; M_io_bwshaping_mode_t mode = M_IO_BWSHAPING_MODE_BURST; };
struct Xfer { uint64_t t; size_t n; int epoch; bool gap; };
struct Side;
struct BWorld { M_event_t *ev = NULL; M_dns_t *dns = NULL; std::vector<Side *> sides; std::vector<void *> targs; size_t open = 0; bool changes = false; };
struct Side {
    BWorld *w; int id; M_io_t *io = NULL; Side *peer = NULL; bool client = false, shaped = false, buffered = false, down = false, disc = false, closed = false, listener = false, reset = false;
    Dir in, out; size_t lid = 0, tosend = 0, sent = 0, expect = 0, got = 0, chunk = 1; uint64_t key = 0, pkey = 0, t_start = 0, t_done = 0; double need = 0; size_t last_req = 0; int epoch = 0;
    std::vector<Xfer> xin, xout;
};
struct TArg { Side *s; };
}
using namespace bws;

static unsigned char bw_at(uint64_t key, size_t i) { uint64_t x = mix(key, i >> 3); return (unsigned char)(x >> (8 * (i & 7))); }
static const char *bw_d(M_io_bwshaping_direction_t d) { return d == M_IO_BWSHAPING_DIRECTION_IN ? "in" : "out"; }

static void bw_record(Side *s, bool in, size_t n)
{
    Dir &d = in ? s->in : s->out; std::vector<Xfer> &v = in ? s->xin : s->xout;
    if (!s->shaped) return;
    const char *dn = bw_d(in ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT);
    if (in && s->down) return;
    uint64_t t = now();
    sim::ev("xfer", s->id, in, n);
    if (d.lat && !v.empty() && v.back().epoch == s->epoch) {
        bool exempt = in && (v.back().gap || s->buffered);
        if (!exempt) SIM_CHECK(t + 1 * MS >= v.back().t + d.lat * MS, "latency", "side %d %s: a transfer %.3f ms after the previous one, latency is %llu ms", s->id, dn, (t - v.back().t) / 1e6, (unsigned long long)d.lat);
        probe("i05.latency");
    }
    v.push_back({ t, n, s->epoch, in && n == s->last_req });
    if (!d.Bps) return;
    if (d.mode == M_IO_BWSHAPING_MODE_BURST) {
        /* accounting is done in samples: a sample is forgotten one period after it began */
        uint64_t win = (d.period * 1000 - d.freq - 3) * MS, sum = 0;
        for (size_t i = v.size(); i-- > 0;) { if (v[i].epoch != s->epoch || v[i].t + win < t) break; sum += v[i].n; }
        SIM_CHECK(sum <= d.Bps * d.period, "burst-limit", "side %d %s: %llu bytes within %.3f s, the limit is %llu B/s over %llu s (sample %llu ms)", s->id, dn, (unsigned long long)sum, win / 1e9, (unsigned long long)d.Bps, (unsigned long long)d.period, (unsigned long long)d.freq);
        if (sum == d.Bps * d.period) probe("i05.burst_full");
    } else {
        uint64_t per = d.Bps * d.period / (d.period * 1000 / d.freq), sum = 0; if (!per) per = 1;
        for (size_t i = v.size(); i-- > 0;) {
            if (v[i].epoch != s->epoch) break;
            sum += v[i].n;
            uint64_t slots = (t - v[i].t) / (d.freq * MS) + 2;
            SIM_CHECK(sum <= per * slots, "trickle-limit", "side %d %s: %llu bytes within %.3f ms, a sample of %llu ms may carry %llu", s->id, dn, (unsigned long long)sum, (t - v[i].t) / 1e6, (unsigned long long)d.freq, (unsigned long long)per);
            if (t - v[i].t > 40 * d.freq * MS) break;
        }
        probe("i05.trickle");
    }
}
static void bw_trace(void *arg, M_io_trace_type_t t, M_event_type_t et, const unsigned char *, size_t n)
{
    Side *s = ((TArg *)arg)->s; if (!s) return;
    if (t == M_IO_TRACE_TYPE_READ) { bw_record(s, true, n); }
    if (t == M_IO_TRACE_TYPE_WRITE) bw_record(s, false, n);
    if (t == M_IO_TRACE_TYPE_EVENT && (et == M_EVENT_TYPE_DISCONNECTED || et == M_EVENT_TYPE_ERROR)) s->down = true;
}
static BWorld *BW;
static TArg *bw_lastdup;
static void *bw_dup(void *) { TArg *a = new TArg(); a->s = NULL; BW->targs.push_back(a); bw_lastdup = a; return a; }
static void bw_tfree(void *) {}

static Dir bw_dir()
{
    Dir d; if (wl(4) == 0) return d;
    d.on = true;
    if (wl(4)) { uint64_t r = wl(4); d.Bps = r == 0 ? 1 + wl(20) : r == 1 ? 100 + wl(2000) : 1000 + wl(100000); }
    if (wl(3) == 0) d.lat = 1 + wl(wl(2) ? 20 : 3000);
    if (wl(2)) { d.period = 1 + wl(wl(2) ? 3 : 60); d.freq = 15 + wl(wl(2) ? 10 : d.period * 1000 - 15); if (d.freq >= d.period * 1000) d.freq = d.period * 1000 - 1; if (wl(5) == 0) d.freq = d.period * 1000 - 1; }
    if (wl(2)) d.mode = M_IO_BWSHAPING_MODE_TRICKLE;
    return d;
}
static void bw_apply(M_io_t *io, size_t id, M_io_bwshaping_direction_t dir, const Dir &d, bool all)
{
    bool ok = true; int order = (int)wl(3);
    for (int k = 0; k < 3; k++) switch ((k + order) % 3) {
        case 0: if (d.Bps || all) ok = ok && M_io_bwshaping_set_throttle(io, id, dir, d.Bps); break;
        case 1: if (all || d.mode != M_IO_BWSHAPING_MODE_BURST) ok = ok && M_io_bwshaping_set_throttle_mode(io, id, dir, d.mode); break;
        case 2: ok = ok && M_io_bwshaping_set_throttle_period(io, id, dir, d.period, d.freq); break;
    }
    if (d.lat || all) ok = ok && M_io_bwshaping_set_latency(io, id, dir, d.lat);
    SIM_CHECK(ok, "set", "a valid setting was refused");
    SIM_CHECK(!M_io_bwshaping_set_throttle_period(io, id, dir, 0, 100) && !M_io_bwshaping_set_throttle_period(io, id, dir, 1, 1000) && !M_io_bwshaping_set_throttle_period(io, id, dir, 1, 14), "set-bad", "an invalid period was accepted");
}
/* total number of seconds a transfer of n bytes may need under d */
static double bw_need(const Dir &d, size_t n, size_t piece)
{
    double t = 0;
    if (d.Bps) {
        double per = d.mode == M_IO_BWSHAPING_MODE_BURST ? (double)d.Bps * d.period : std::max<double>(1, (double)(d.Bps * d.period / (d.period * 1000 / d.freq)));
        double unit = d.mode == M_IO_BWSHAPING_MODE_BURST ? (double)d.period : d.freq / 1000.0;
        t += (n / per + 1) * (unit + 0.02);
        piece = (size_t)std::min<double>((double)piece, per);
    }
    if (d.lat) t += ((double)n / std::max<size_t>(1, piece) + 2) * (d.lat / 1000.0 + 0.01);
    return t;
}
static size_t bw_limit(const Dir &d, size_t piece)
{
    /* bytes worth about 60 transfers */
    double per = 1e9;
    if (d.Bps) per = d.mode == M_IO_BWSHAPING_MODE_BURST ? (double)d.Bps * d.period : std::max<double>(1, (double)(d.Bps * d.period / (d.period * 1000 / d.freq)));
    return (size_t)std::min(60.0 * std::min<double>(per, (double)piece), 200000.0);
}
static void bw_check(Side *s, const char *when)
{
    if (!s->shaped) return;
    uint64_t ti = M_io_bwshaping_get_totalbytes(s->io, s->lid, M_IO_BWSHAPING_DIRECTION_IN), to = M_io_bwshaping_get_totalbytes(s->io, s->lid, M_IO_BWSHAPING_DIRECTION_OUT);
    if (!s->buffered) {
        if (!s->down) SIM_CHECK(ti == s->got, "total-in", "side %d %s: %llu bytes were read, the layer says %llu", s->id, when, (unsigned long long)s->got, (unsigned long long)ti);
        SIM_CHECK(to == s->sent, "total-out", "side %d %s: %llu bytes were accepted, the layer says %llu", s->id, when, (unsigned long long)s->sent, (unsigned long long)to);
    }
    M_io_bwshaping_get_Bps(s->io, s->lid, wl(2) ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT);
    uint64_t ms = M_io_bwshaping_get_totalms(s->io, s->lid), el = (now() - s->t_start) / MS;
    SIM_CHECK(ms <= el + 2, "total-ms", "side %d: layer says %llu ms, it exists for %llu ms", s->id, (unsigned long long)ms, (unsigned long long)el);
}
static void bw_close(Side *s) { M_io_t *io = s->io; s->io = NULL; s->closed = true; M_io_destroy(io); if (--s->w->open == 0) M_event_done(s->w->ev); }
static void bw_write(Side *s)
{
    unsigned char b[70000];
    while (s->io && !s->disc && s->sent < s->tosend) {
        size_t k = std::min({ s->tosend - s->sent, s->chunk, sizeof b }), n = 0;
        for (size_t i = 0; i < k; i++) b[i] = bw_at(s->key, s->sent + i);
        M_io_error_t e = M_io_write(s->io, b, k, &n);
        if (e != M_IO_ERROR_SUCCESS) break;
        SIM_CHECK(n > 0 && n <= k, "write-count", "side %d: wrote %zu of %zu", s->id, n, k);
        s->sent += n;
        if (s->chunk < 100 && wl(2)) break;      /* writable events are level or edge like: see below */
    }
}
static void bw_read(Side *s)
{
    unsigned char b[70000];
    for (;;) {
        size_t k = std::min<size_t>(1 + (wl(3) ? s->chunk : wl(s->chunk * 2)), sizeof b), n = 0;
        s->last_req = k;
        M_io_error_t e = M_io_read(s->io, b, k, &n);
        if (e != M_IO_ERROR_SUCCESS) break;
        SIM_CHECK(n > 0 && n <= k, "read-count", "side %d: read %zu of %zu", s->id, n, k);
        for (size_t i = 0; i < n; i++) SIM_CHECK(bw_at(s->pkey, s->got + i) == b[i], "data", "side %d: byte %zu differs from what was written", s->id, s->got + i);
        s->got += n;
        SIM_CHECK(s->got <= s->expect, "data-extra", "side %d: more bytes than the peer wrote", s->id);
    }
}
static void bw_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    Side *s = (Side *)arg;
    sim::ev("bev", s->id, type);
    if (s->listener) {
        if (type != M_EVENT_TYPE_ACCEPT) return;
        M_io_t *nio = NULL; bw_lastdup = NULL; uint64_t t0 = now();
        if (M_io_accept(&nio, io) != M_IO_ERROR_SUCCESS) return;
        Side *n = s->peer;              /* the side prepared for the accepted connection */
        SIM_CHECK(n && !n->io && !n->closed, "extra-accept", "a second connection appeared");
        n->io = nio; n->t_start = t0;
        if (bw_lastdup) bw_lastdup->s = n;
        SIM_CHECK(M_event_add(s->w->ev, nio, bw_cb, n), "add", "accepted object refused");
        bw_close(s);
        return;
    }
    if (type == M_EVENT_TYPE_READ) { bw_read(s); if (s->got == s->expect && !s->t_done) s->t_done = now(); }
    if (type == M_EVENT_TYPE_CONNECTED || type == M_EVENT_TYPE_WRITE || type == M_EVENT_TYPE_OTHER) bw_write(s);
    if (wl(6) == 0) bw_check(s, "meanwhile");
    if (s->w->changes && wl(12) == 0 && s->shaped && !s->disc) {
        bool in = wl(2); Dir d = bw_dir(); Dir &o = in ? s->in : s->out;
        /* stay within the amounts this run was planned for */
        if (d.Bps && d.Bps < o.Bps) d.Bps = o.Bps; if (d.lat > 50) d.lat = 50; if (!o.Bps) d.Bps = d.Bps ? d.Bps + 100000 : 0; if (d.mode == M_IO_BWSHAPING_MODE_TRICKLE && d.freq < 1000) { d.freq = 900; }
        if (wl(3) == 0) d = Dir();
        bw_apply(s->io, s->lid, in ? M_IO_BWSHAPING_DIRECTION_IN : M_IO_BWSHAPING_DIRECTION_OUT, d, true);
        o = d; s->epoch++; probe("i05.changed");
    }
    if (type == M_EVENT_TYPE_DISCONNECTED || type == M_EVENT_TYPE_ERROR) {
        if (net_stats().resets == 0 && !s->disc) {
            SIM_CHECK(type == M_EVENT_TYPE_DISCONNECTED, "error", "side %d: connection error %d without a fault", s->id, (int)M_io_get_error(io));
            SIM_CHECK(s->got == s->expect, "lost", "side %d: the end was signalled after %zu of %zu bytes", s->id, s->got, s->expect);
        }
        bw_check(s, "at the end");
        bw_close(s); return;
    }
    /* the client ends it once it has everything and the peer has everything */
    if (!s->disc && s->sent == s->tosend && s->got == s->expect && s->client && (s->peer->got == s->tosend)) { s->disc = true; bw_check(s, "when done"); M_io_disconnect(io); }
    if (s->got == s->expect && s->peer && s->peer->client && !s->client && s->peer->io && !s->peer->disc && s->peer->sent == s->peer->tosend && s->peer->got == s->peer->expect) { s->peer->disc = true; bw_check(s->peer, "when done"); M_io_disconnect(s->peer->io); }
}
static void bw_world()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_WALL_JUMP });
    BWorld w; BW = &w; net_swarm();
    if (net().bufcap < 64) net().bufcap = 64;
    w.ev = M_event_create(choose(CFG, 2) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE);
    w.dns = M_dns_create(w.ev);
    w.changes = choose(CFG, 3) == 0;
    uint64_t key = wl(1u << 30); double need = 5; int npairs = 1 + (int)wl(2);
    std::vector<Side *> starters;
    auto shape = [&](Side *s, M_io_t *io) { s->t_start = now();
        TArg *ta = new TArg(); ta->s = s; w.targs.push_back(ta); size_t x = 0;
        SIM_CHECK(M_io_add_trace(io, &x, bw_trace, ta, bw_dup, bw_tfree) == M_IO_ERROR_SUCCESS, "layer", "trace layer refused");
        SIM_CHECK(M_io_add_bwshaping(io, &s->lid) == M_IO_ERROR_SUCCESS, "layer", "shaping layer refused");
        if (s->in.on) bw_apply(io, s->lid, M_IO_BWSHAPING_DIRECTION_IN, s->in, wl(2));
        if (s->out.on) bw_apply(io, s->lid, M_IO_BWSHAPING_DIRECTION_OUT, s->out, wl(2));
        if (s->buffered) SIM_CHECK(M_io_add_buffer(io, &x, 1 + wl(5000), 0) == M_IO_ERROR_SUCCESS, "layer", "buffer layer refused");
        s->shaped = true;
    };
    for (int i = 0; i < npairs; i++) {
        Side *a = new Side(), *b = new Side(); a->w = b->w = &w; a->id = 2 * i; b->id = 2 * i + 1; a->peer = b; b->peer = a; w.sides.push_back(a); w.sides.push_back(b);
        bool pipe = choose(CFG, 3) == 0;
        a->client = true; a->key = b->pkey = mix(key, a->id); b->key = a->pkey = mix(key, b->id);
        static const size_t cs[5] = { 1, 7, 100, 1500, 60000 };
        a->chunk = cs[wl(5)]; b->chunk = cs[wl(5)];
        bool sa = wl(4) != 0, sb = !sa || wl(2);
        if (sa) { a->in = bw_dir(); a->out = bw_dir(); a->buffered = wl(4) == 0; }
        if (sb) { b->in = bw_dir(); b->out = bw_dir(); b->buffered = wl(4) == 0; }
        size_t piece = std::min({ a->chunk, b->chunk, net().bufcap }); if (sim::any_fault_enabled()) piece = 1 + piece / 50;
        size_t ab = std::min({ bw_limit(a->out, piece), bw_limit(b->in, piece), piece * 60 }), ba = std::min({ bw_limit(b->out, piece), bw_limit(a->in, piece), piece * 60 });
        a->tosend = b->expect = 1 + wl(ab); b->tosend = a->expect = pipe ? 0 : wl(ba + 1);
        need = std::max(need, 2 * (bw_need(a->out, a->tosend, piece) + bw_need(b->in, a->tosend, piece) + bw_need(b->out, b->tosend, piece) + bw_need(a->in, b->tosend, piece)));
        b->need = bw_need(a->out, a->tosend, piece) + bw_need(b->in, a->tosend, piece); a->need = bw_need(b->out, b->tosend, piece) + bw_need(a->in, b->tosend, piece);
        logf("pair %d pipe %d ab %zu ba %zu piece %zu", i, pipe, a->tosend, b->tosend, piece);
        for (Side *s : { a, b }) logf(" side %d chunk %zu buf %d in: Bps %llu P %llu F %llu L %llu m %d out: Bps %llu P %llu F %llu L %llu m %d", s->id, s->chunk, s->buffered, (unsigned long long)s->in.Bps, (unsigned long long)s->in.period, (unsigned long long)s->in.freq, (unsigned long long)s->in.lat, s->in.mode, (unsigned long long)s->out.Bps, (unsigned long long)s->out.period, (unsigned long long)s->out.freq, (unsigned long long)s->out.lat, s->out.mode);
        if (pipe) {
            M_io_t *r = NULL, *wr = NULL;
            SIM_CHECK(M_io_pipe_create(M_IO_PIPE_NONE, &r, &wr) == M_IO_ERROR_SUCCESS, "pipe", "pipe creation failed");
            a->io = wr; b->io = r; a->t_start = b->t_start = now();
            if (sa) shape(a, wr); if (sb) shape(b, r);
            w.open += 2; starters.push_back(b); starters.push_back(a);
        } else {
            Side *l = new Side(); l->w = &w; l->id = 100 + i; l->listener = true; l->peer = b; w.sides.push_back(l);
            SIM_CHECK(M_io_net_server_create(&l->io, 0, "127.0.0.1", M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "listen", "no server");
            unsigned port = M_io_net_get_port(l->io);
            if (sb) { shape(b, l->io); ((TArg *)w.targs.back())->s = NULL; }
            SIM_CHECK(M_io_net_client_create(&a->io, w.dns, "127.0.0.1", (unsigned short)port, M_IO_NET_IPV4) == M_IO_ERROR_SUCCESS, "client", "no client");
            M_io_net_set_connect_timeout_ms(a->io, 3600 * 1000);
            a->t_start = now(); if (sa) shape(a, a->io);
            w.open += 3; starters.push_back(l); starters.push_back(a);
        }
    }
    for (Side *s : starters) SIM_CHECK(M_event_add(w.ev, s->io, bw_cb, s), "add", "object refused");
    uint64_t t0 = now();
    bool strict = !any_fault_enabled() && !w.changes;
    deadline(now() + (strict ? (uint64_t)((need + 10) * SEC) : 400000 * SEC), "stuck", "data is still outstanding long after it could have been transferred");
    Fiber *f = spawn("loop", [&] { M_event_loop(w.ev, M_TIMEOUT_INF); });
    join(f); deadline_clear();
    if (strict) for (Side *s : w.sides) if (s->expect && s->t_done) SIM_CHECK(s->t_done <= t0 + (uint64_t)((2 * s->need + 60 + (double)s->expect / (double)net().bufcap) * SEC), "slow", "side %d got its %zu bytes after %.3f s, its limits allow them within %.3f s", s->id, s->expect, (s->t_done - t0) / 1e9, s->need);
    M_dns_destroy(w.dns); M_event_destroy(w.ev);
    for (Side *s : w.sides) if (!s->listener) SIM_CHECK(s->got == s->expect, "lost", "side %d got %zu of %zu bytes", s->id, s->got, s->expect);
    for (auto s : w.sides) { if (s->io) M_io_destroy(s->io); delete s; }
    for (auto t : w.targs) delete (TArg *)t;
    world_end();
}
SIM_WORLD(I05, bw_world, "bandwidth shaping, buffer and trace layers, net, pipes, event loop, timers", "kernel sockets/pipes/epoll/poll, clock, threads", 1);
