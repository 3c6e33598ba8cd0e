/* I04: blocking I/O: calls carry the data exactly once and in order, and return in time with what really happened */
#include "w_common.h"

namespace i04 {
struct Ep;
struct Conn { int id; size_t len[2]; /* bytes sent by side 0 (client), 1 */ size_t sent[2] = { 0, 0 }, got[2] = { 0, 0 }; std::vector<std::pair<uint64_t, size_t>> when[2]; int closer; bool ended[2] = { false, false }, broken[2] = { false, false }, closed[2] = { false, false }, disc_ok[2] = { false, false }; uint64_t closed_at[2] = { 0, 0 }; bool connected = false, accepted = false, shaped = false; };
struct Wd { std::vector<Conn *> c; std::vector<M_io_t *> lst; unsigned port = 0; bool quiet = false, stop = false; size_t active = 0; uint64_t lat = 0; bool lshaped = false, drop = false; M_event_t *other = NULL; };
static Wd *G;
static unsigned char key(int id, int side, size_t i) { return (unsigned char)mix(id * 2 + side + 77, i); }
/* a layer which holds data back with timers of its own */
static void shape(M_io_t *io)
{
    size_t id = 0; SIM_CHECK(M_io_add_bwshaping(io, &id) == M_IO_ERROR_SUCCESS, "shape", "no layer"); probe("i04.shaped");
    for (auto d : { M_IO_BWSHAPING_DIRECTION_IN, M_IO_BWSHAPING_DIRECTION_OUT }) { if (wl(2)) M_io_bwshaping_set_throttle(io, id, d, 2000 + wl(60000)); if (wl(2)) M_io_bwshaping_set_throttle_period(io, id, d, 1, 20 + wl(400)); if (wl(2)) M_io_bwshaping_set_throttle_mode(io, id, d, M_IO_BWSHAPING_MODE_TRICKLE); if (wl(3) == 0) M_io_bwshaping_set_latency(io, id, d, 1 + wl(100)); }
}
static uint64_t tmo() { switch (wl(6)) { case 0: return 1 + wl(5); case 1: return 10 + wl(100); case 2: return 200 + wl(1000); case 3: return 2; default: return 3000 + wl(3000); } }
}
using namespace i04;

/* one end of a connection, with its own thread */
static void endpoint(Conn *c, int side, M_io_t *rd, M_io_t *wr, size_t rlen, size_t wlen)
{
    Wd *w = G; int o = 1 - side; bool duplex = rd == wr; std::vector<unsigned char> b(4096); bool dead = false; size_t maxw = 1 + wl(wl(2) ? 4000 : 200), maxr = 1 + wl(wl(2) ? 4000 : 200); maxw = std::max(maxw, wlen / 800 + 1); maxr = std::max(maxr, rlen / 800 + 1); size_t loops = 0;
    auto ended = [&](M_io_error_t e, const char *op) { dead = true; c->broken[side] = true; sim::ev("end", c->id * 2 + side, e); logf("conn %d side %d: %s says %d after %zu/%zu sent %zu/%zu received", c->id, side, op, e, c->sent[side], wlen, c->got[o], rlen); };
    while (!dead && (c->sent[side] < wlen || c->got[o] < rlen)) {
        if (++loops > 20000) fail("no-progress", "conn %d side %d: no progress", c->id, side);
        bool wants_w = wr && c->sent[side] < wlen, wants_r = rd && c->got[o] < rlen; bool wrt = wants_w && (!wants_r || wl(2)); uint64_t T = tmo(), t0 = now();
        if (wrt) {
            size_t n = std::min(std::min(wlen - c->sent[side], maxw), b.size()), done = 0; for (size_t i = 0; i < n; i++) b[i] = key(c->id, side, c->sent[side] + i);
            M_io_error_t e; bool viabuf = wl(3) == 0;
            if (viabuf) { M_buf_t *bf = M_buf_create(); M_buf_add_bytes(bf, b.data(), n); e = M_io_block_write_from_buf(wr, bf, T); size_t left = M_buf_len(bf); done = n - left; M_buf_cancel(bf); SIM_CHECK(e == M_IO_ERROR_SUCCESS || done == 0 || e == M_IO_ERROR_DISCONNECT || e == M_IO_ERROR_ERROR || e != M_IO_ERROR_WOULDBLOCK, "written-with-error", "conn %d side %d: %zu bytes were taken but the call says %d", c->id, side, done, e); if (e != M_IO_ERROR_SUCCESS) done = 0; }
            else { done = 12345678; e = M_io_block_write(wr, b.data(), n, &done, T); if (e == M_IO_ERROR_SUCCESS) SIM_CHECK(done <= n, "write-length", "conn %d side %d: %zu of %zu bytes written", c->id, side, done, n); else done = 0; }
            sim::ev("bw", c->id * 2 + side, e, (int64_t)done);
            if (e == M_IO_ERROR_SUCCESS) { SIM_CHECK(done > 0 || viabuf, "write-nothing", "conn %d side %d: write reported success without writing", c->id, side); c->sent[side] += done; c->when[side].push_back({ now(), c->sent[side] }); }
            else if (e == M_IO_ERROR_WOULDBLOCK) { probe("i04.write_timeout"); SIM_CHECK(now() - t0 + 2 * MS >= T * MS, "early", "conn %d side %d: write gave up after %.3f ms, timeout %llu ms", c->id, side, (now() - t0) / 1e6, (unsigned long long)T); }
            else ended(e, "write");
        } else {
            size_t n = 0; M_io_error_t e; int how = (int)wl(3); size_t had = c->got[o];
            if (how == 0) { size_t l = 12345678; e = M_io_block_read(rd, b.data(), std::min(maxr, b.size()), &l, T); if (e == M_IO_ERROR_SUCCESS) { n = l; SIM_CHECK(n > 0 && n <= maxr, "read-length", "conn %d side %d: read of up to %zu bytes says %zu", c->id, side, maxr, n); } for (size_t i = 0; i < n; i++) SIM_CHECK(had + i < rlen && b[i] == key(c->id, o, had + i), "data", "conn %d side %d: byte %zu is wrong", c->id, side, had + i); }
            else if (how == 1) { M_buf_t *bf = M_buf_create(); e = M_io_block_read_into_buf(rd, bf, T); n = M_buf_len(bf); for (size_t i = 0; i < n; i++) SIM_CHECK(had + i < rlen && (unsigned char)M_buf_peek(bf)[i] == key(c->id, o, had + i), "data", "conn %d side %d: byte %zu is wrong", c->id, side, had + i); M_buf_cancel(bf); }
            else { M_parser_t *pa = M_parser_create(M_PARSER_FLAG_NONE); e = M_io_block_read_into_parser(rd, pa, T); n = M_parser_len(pa); for (size_t i = 0; i < n; i++) SIM_CHECK(had + i < rlen && M_parser_peek(pa)[i] == key(c->id, o, had + i), "data", "conn %d side %d: byte %zu is wrong", c->id, side, had + i); M_parser_destroy(pa); }
            sim::ev("br", c->id * 2 + side, e, (int64_t)n); c->got[o] += n;
            if (e == M_IO_ERROR_SUCCESS) SIM_CHECK(n > 0, "read-nothing", "conn %d side %d: read reported success without data", c->id, side);
            else {
                SIM_CHECK(n == 0 || e != M_IO_ERROR_WOULDBLOCK, "data-with-timeout", "conn %d side %d: %zu bytes came with a timeout", c->id, side, n);
                if (e == M_IO_ERROR_WOULDBLOCK) {
                    probe("i04.read_timeout"); SIM_CHECK(now() - t0 + 2 * MS >= T * MS, "early", "conn %d side %d: read gave up after %.3f ms, timeout %llu ms", c->id, side, (now() - t0) / 1e6, (unsigned long long)T);
                    if (w->quiet && !c->shaped && !w->lshaped) { uint64_t lim = t0 - std::min(t0, w->lat); size_t avail = 0; for (auto &x : c->when[o]) if (x.first < lim) avail = x.second; SIM_CHECK(avail <= had, "missed-data", "conn %d side %d: read timed out although %zu bytes had arrived and %zu were read", c->id, side, avail, had); }
                } else ended(e, "read");
            }
        }
        if (w->quiet) SIM_CHECK(now() - t0 <= (T + 3000) * MS, "late", "conn %d side %d: %s took %.1f ms, timeout %llu ms", c->id, side, wrt ? "write" : "read", (now() - t0) / 1e6, (unsigned long long)T);
        if (wl(6) == 0) jitter();
    }
    c->ended[side] = true;
    if (dead && w->quiet) fail("broken", "conn %d side %d: ended though nothing broke it: sent %zu/%zu received %zu/%zu", c->id, side, c->sent[side], wlen, c->got[o], rlen);
    if (c->closer == side || !duplex) {
        if (duplex && wl(2)) { uint64_t t0 = now(); M_io_error_t e = M_io_block_disconnect(wr); sim::ev("bd", e); logf("conn %d side %d: disconnect %d", c->id, side, e); SIM_CHECK(e == M_IO_ERROR_DISCONNECT || dead || !w->quiet, "disconnect", "conn %d side %d: disconnect says %d", c->id, side, e); if (w->quiet) SIM_CHECK(now() - t0 < 40 * SEC, "late", "conn %d side %d: disconnect took %.1f s", c->id, side, (now() - t0) / 1e9); }
        else if (duplex) { M_io_disconnect(wr); /* the peer is answered when the object goes */ }
        c->closed[side] = true; c->closed_at[side] = now();
    } else if (!dead) {
        /* the other side ends it: must be noticed */
        uint64_t t0 = now(); M_io_error_t e; int n = 0;
        do { size_t l = 0; e = M_io_block_read(rd, b.data(), b.size(), &l, 2000 + wl(5000)); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "extra-data", "conn %d side %d: %zu bytes too many", c->id, side, l); if (e == M_IO_ERROR_WOULDBLOCK && c->closed[o] && c->closed_at[o] + 20 * SEC < now()) fail("end-missed", "conn %d side %d: the peer's disconnect was not noticed", c->id, side); if (++n > 5000) fail("no-progress", "waiting for the end"); } while (e == M_IO_ERROR_WOULDBLOCK);
        sim::ev("bend", e); SIM_CHECK(e == M_IO_ERROR_DISCONNECT || !w->quiet, "end", "conn %d side %d: end of connection reported as %d after %.1f s", c->id, side, e, (now() - t0) / 1e9);
        size_t l = 0; e = M_io_block_read(rd, b.data(), b.size(), &l, 100); SIM_CHECK(e == M_IO_ERROR_DISCONNECT || e == M_IO_ERROR_ERROR || (e != M_IO_ERROR_SUCCESS && e != M_IO_ERROR_WOULDBLOCK), "read-after-end", "conn %d side %d: read after the end says %d", c->id, side, e);
        if (wl(2)) { e = M_io_block_write(wr, b.data(), 10, &l, 100); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "write-after-end", "conn %d side %d: write after the end succeeds", c->id, side); e = M_io_block_disconnect(wr); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "disconnect-after-end", "says success"); }
        probe("i04.end");
    }
    if (rd) M_io_destroy(rd); if (wr && wr != rd) M_io_destroy(wr);
    c->closed[side] = true; if (!c->closed_at[side]) c->closed_at[side] = now();
    w->active--;
}
/* what is written to a loopback object comes back */
static void loopback(Conn *c)
{
    Wd *w = G; M_io_t *io = NULL; SIM_CHECK(M_io_loopback_create(&io) == M_IO_ERROR_SUCCESS, "loopback", "no object"); size_t len = c->len[0]; std::vector<unsigned char> b(4096); probe("i04.loopback");
    if (wl(4) == 0) { c->shaped = true; shape(io); }
    M_io_error_t e = M_io_block_connect(io); SIM_CHECK(e == M_IO_ERROR_SUCCESS, "connect", "loopback: connect says %d", e); size_t mx = 1 + wl(500) + len / 400; int loops = 0; if (mx > b.size()) mx = b.size();
    while (c->got[0] < len) {
        uint64_t T = tmo(), t0 = now(); size_t l = 0; if (++loops > 20000) fail("no-progress", "loopback %d: no progress: %zu sent, %zu received of %zu", c->id, c->sent[0], c->got[0], len);
        if (c->sent[0] < len && wl(2)) { size_t n = std::min(mx, len - c->sent[0]); for (size_t i = 0; i < n; i++) b[i] = key(c->id, 0, c->sent[0] + i); e = M_io_block_write(io, b.data(), n, &l, T); if (e == M_IO_ERROR_SUCCESS) { SIM_CHECK(l > 0 && l <= n, "write-length", "loopback: %zu of %zu", l, n); c->sent[0] += l; } }
        else { e = M_io_block_read(io, b.data(), mx, &l, T); if (e == M_IO_ERROR_SUCCESS) { SIM_CHECK(l > 0 && l <= mx && c->got[0] + l <= c->sent[0], "read-length", "loopback: %zu of %zu, %zu sent %zu received", l, mx, c->sent[0], c->got[0]); for (size_t i = 0; i < l; i++) SIM_CHECK(b[i] == key(c->id, 0, c->got[0] + i), "data", "loopback %d: byte %zu is wrong", c->id, c->got[0] + i); c->got[0] += l; } else SIM_CHECK(c->shaped || c->got[0] == c->sent[0] || e != M_IO_ERROR_WOULDBLOCK || T < 5 || !w->quiet, "missed-data", "loopback %d: read timed out after %llu ms with %zu bytes unread", c->id, (unsigned long long)T, c->sent[0] - c->got[0]); }
        SIM_CHECK(e == M_IO_ERROR_SUCCESS || e == M_IO_ERROR_WOULDBLOCK, "broken", "loopback %d: error %d", c->id, e); sim::ev("lb", e, (int64_t)l);
        if (e == M_IO_ERROR_WOULDBLOCK) SIM_CHECK(now() - t0 + 2 * MS >= T * MS, "early", "loopback gave up after %.1f ms, timeout %llu ms", (now() - t0) / 1e6, (unsigned long long)T);
        if (w->quiet) SIM_CHECK(now() - t0 <= (T + 3000) * MS, "late", "loopback: call took %.1f ms, timeout %llu ms", (now() - t0) / 1e6, (unsigned long long)T);
    }
    if (wl(2)) { uint64_t t0 = now(); e = M_io_block_disconnect(io); SIM_CHECK(e == M_IO_ERROR_DISCONNECT || e == M_IO_ERROR_SUCCESS, "disconnect", "loopback %d: disconnect says %d", c->id, e); if (w->quiet) SIM_CHECK(now() - t0 < 20 * SEC, "late", "loopback: disconnect took %.1f s", (now() - t0) / 1e9); }
    M_io_destroy(io); w->active--;
}
static void server(M_io_t *l, JoinAll *th)
{
    Wd *w = G;
    while (!w->stop) {
        M_io_t *n = (M_io_t *)1; uint64_t T = tmo() / 2 + 1, t0 = now(); M_io_error_t e = M_io_block_accept(&n, l, T); sim::ev("ba", e);
        if (e == M_IO_ERROR_SUCCESS) {
            SIM_CHECK(n != NULL && n != (M_io_t *)1, "accept", "no connection returned"); unsigned short p = M_io_net_get_ephemeral_port(n); (void)p; w->active++;
            if (w->drop) { th->go([w, n] { /* the first thing done with it is to end it */
                uint64_t t0 = now(); M_io_error_t e = M_io_block_disconnect(n); sim::ev("drop", e); SIM_CHECK(e == M_IO_ERROR_DISCONNECT || !w->quiet, "disconnect", "disconnecting an accepted connection says %d", e); if (w->quiet) SIM_CHECK(now() - t0 < 40 * SEC, "late", "disconnect took %.1f s", (now() - t0) / 1e9);
                M_io_destroy(n); w->active--; probe("i04.drop"); }); continue; }
            if (w->other) { unsigned char b[4]; size_t l; SIM_CHECK(M_event_add(w->other, n, [](M_event_t *, M_event_type_t, M_io_t *, void *) {}, NULL), "add", "not added"); uint64_t t1 = now(); M_io_error_t e = M_io_block_read(n, b, 4, &l, 1000); SIM_CHECK(e != M_IO_ERROR_SUCCESS || l, "other", "read success of nothing"); if (e == M_IO_ERROR_SUCCESS) { SIM_CHECK(!w->quiet || l <= 4, "other", "len"); } else SIM_CHECK(!w->quiet || now() - t1 < 500 * MS, "other", "blocking read on an object with an event loop of its own took %.1f ms", (now() - t1) / 1e6); probe("i04.other"); M_io_destroy(n); w->active--; continue; }
            th->go([w, n] { unsigned char h[4]; size_t have = 0; int tries = 0; while (have < 4) { size_t l2 = 0; M_io_error_t e = M_io_block_read(n, h + have, 4 - have, &l2, 3000); if (e == M_IO_ERROR_SUCCESS) have += l2; else if (e != M_IO_ERROR_WOULDBLOCK || ++tries > 30) break; }
                if (have < 4) { SIM_CHECK(!w->quiet, "header", "connection ended before any data came"); M_io_destroy(n); w->active--; return; }
                unsigned id = h[0] | h[1] << 8; SIM_CHECK(id < w->c.size() && h[2] == key((int)id, 0, 0) && !w->c[id]->accepted, "header", "bad first bytes: id %u", id); Conn *c = w->c[id]; c->accepted = true; sim::ev("header", id);
                endpoint(c, 1, n, n, c->len[0], c->len[1]); });
        } else {
            SIM_CHECK(e == M_IO_ERROR_WOULDBLOCK || !w->quiet, "accept", "accept says %d after %.1f ms, timeout %llu ms", e, (now() - t0) / 1e6, (unsigned long long)T);
            SIM_CHECK(e != M_IO_ERROR_WOULDBLOCK || now() - t0 + 2 * MS >= T * MS, "early", "accept gave up after %.1f ms, timeout %llu ms", (now() - t0) / 1e6, (unsigned long long)T); probe("i04.accept_timeout");
        }
        if (w->quiet) SIM_CHECK(now() - t0 <= (T + 3000) * MS, "late", "accept took %.1f ms, timeout %llu ms", (now() - t0) / 1e6, (unsigned long long)T);
    }
    M_io_destroy(l);
}
static void block_world()
{
    world_begin(); Wd w; G = &w; allow({ F_STALL, F_EINTR, F_NET_RESET, F_SHORT_READ, F_SHORT_WRITE, F_NET_DELAY, F_EAGAIN_SPUR, F_SOCKET_FAIL, F_ACCEPT_FAIL, F_NET_CONN_REFUSED }); net_swarm(); if (net().bufcap < 64) net().bufcap = 64;
    w.quiet = !any_fault_enabled(); w.lat = 2 * (net().latency + net().jitter) + 50 * MS; w.port = 1500 + (unsigned)choose(CFG, 1000);
    if (wl(8) == 0) w.drop = true; else if (wl(8) == 0) w.other = M_event_create(M_EVENT_FLAG_NONE);
    JoinAll th, cl; int nl = 1; for (int i = 0; i < nl; i++) { M_io_t *l = NULL; for (int t = 0; !l && t < 100; t++) { M_io_error_t e = M_io_net_server_create(&l, (unsigned short)w.port, NULL, M_IO_NET_IPV4); SIM_CHECK(e == M_IO_ERROR_SUCCESS || (!w.quiet && !l), "listen", "no listener: %d", e); } SIM_CHECK(l, "listen", "no listener"); if (wl(5) == 0) { w.lshaped = true; shape(l); } cl.go([l, &th] { server(l, &th); }); }
    int n = 1 + (int)wl(4); std::vector<Conn *> pc;
    for (int i = 0; i < n; i++) { Conn *c = new Conn(); c->id = i; size_t cap = std::min<size_t>(net().bufcap * 6, 40000); for (int s = 0; s < 2; s++) c->len[s] = wl(4) ? wl(cap) : 0; c->closer = (int)wl(2); w.c.push_back(c); }
    for (int i = 0; i < n; i++) {
        Conn *c = w.c[i]; bool ispipe = wl(4) == 0; w.active++;
        if (!ispipe && wl(5) == 0) { c->len[1] = 0; th.go([c] { loopback(c); }); continue; }
        if (ispipe) {
            M_io_t *r = NULL, *x = NULL; SIM_CHECK(M_io_pipe_create(0, &r, &x) == M_IO_ERROR_SUCCESS, "pipe", "no pipe"); c->len[1] = 0; c->connected = c->accepted = true; w.active++; probe("i04.pipe"); pc.push_back(c);
            th.go([c, x] { endpoint(c, 0, NULL, x, 0, c->len[0]); }); th.go([c, r] { endpoint(c, 1, r, NULL, c->len[0], 0); });
            continue;
        }
        th.go([c, &w] {
            jitter(); M_io_t *io = NULL; bool black = wl(6) == 0; if (black) { HostCfg h; if (wl(2)) h.refuse = true; else h.blackhole = true; net().hosts["10.0.7.7"] = h; }
            SIM_CHECK(M_io_net_client_create(&io, NULL, black ? "10.0.7.7" : "127.0.0.1", (unsigned short)w.port, M_IO_NET_ANY) == M_IO_ERROR_SUCCESS, "client", "no client"); uint64_t cto = 4000 + wl(4000), t0 = now(); M_io_net_set_connect_timeout_ms(io, cto); if (wl(4) == 0) { c->shaped = true; shape(io); } if (wl(6) == 0) { size_t id; M_io_add_buffer(io, &id, 1 + wl(2000), 0); probe("i04.buffered"); }
            unsigned char h[4] = { (unsigned char)c->id, (unsigned char)(c->id >> 8), key(c->id, 0, 0), 0 }; size_t l = 0; if (wl(4) == 0) { M_io_error_t e = M_io_block_write(io, h, 4, &l, 10); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "write-unconnected", "writing before connecting succeeds"); e = M_io_block_read(io, h, 4, &l, 10); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "read-unconnected", "reading before connecting succeeds"); }
            M_io_error_t e = M_io_block_connect(io); sim::ev("bc", e); logf("conn %d: connect %d after %.1f ms", c->id, e, (now() - t0) / 1e6);
            if (w.quiet) SIM_CHECK((e == M_IO_ERROR_SUCCESS) == !black, "connect", "conn %d: connect says %d", c->id, e); SIM_CHECK(e != M_IO_ERROR_SUCCESS || !black, "connect", "conn %d: connect to nothing succeeds", c->id);
            if (w.quiet) SIM_CHECK(now() - t0 <= (cto + 3000) * MS, "late", "connect took %.1f ms, timeout %llu ms", (now() - t0) / 1e6, (unsigned long long)cto);
            if (e != M_IO_ERROR_SUCCESS) { e = M_io_block_connect(io); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "connect-again", "connecting a failed object succeeds"); M_io_destroy(io); w.active--; return; }
            c->connected = true; if (wl(4) == 0) SIM_CHECK(M_io_block_connect(io) == M_IO_ERROR_SUCCESS || !w.quiet, "connect-again", "connecting a connected object fails");
            if (w.drop || w.other) { int n = 0; do { size_t l; e = M_io_block_read(io, h, 4, &l, 1000 + wl(5000)); SIM_CHECK(e != M_IO_ERROR_SUCCESS, "drop", "data from nowhere"); if (++n > 30) fail("end-missed", "conn %d: the peer's disconnect was not noticed", c->id); } while (e == M_IO_ERROR_WOULDBLOCK); SIM_CHECK(e == M_IO_ERROR_DISCONNECT || !w.quiet, "end", "conn %d: the peer's disconnect is reported as %d", c->id, e); c->len[0] = c->len[1] = 0; M_io_destroy(io); w.active--; return; }
            size_t have = 0; int tries = 0; while (have < 4) { e = M_io_block_write(io, h + have, 4 - have, &l, 3000); if (e == M_IO_ERROR_SUCCESS) have += l; else if (e != M_IO_ERROR_WOULDBLOCK || ++tries > 30) break; }
            if (have < 4) { SIM_CHECK(!w.quiet, "header", "conn %d: the first bytes could not be written: %d", c->id, e); M_io_destroy(io); w.active--; return; }
            endpoint(c, 0, io, io, c->len[1], c->len[0]);
        });
        if (wl(2)) jitter();
    }
    if (!wait_until([&] { return w.active == 0; }, 1800 * SEC, "connections end")) { for (auto c : w.c) logf("conn %d sent %zu/%zu %zu/%zu got %zu %zu ended %d %d", c->id, c->sent[0], c->len[0], c->sent[1], c->len[1], c->got[0], c->got[1], c->ended[0], c->ended[1]); fail("stuck", "connections did not end"); }
    faults_stop(); w.stop = true; cl.join(); th.join();
    for (auto c : w.c) { if (w.quiet && c->connected) for (int s = 0; s < 2; s++) SIM_CHECK(c->sent[s] == c->len[s] && c->got[s] == c->len[s], "incomplete", "conn %d: %zu of %zu bytes sent by side %d, %zu received", c->id, c->sent[s], c->len[s], s, c->got[s]); delete c; }
    if (w.other) M_event_destroy(w.other);
    world_end(true);
}
SIM_WORLD(I04, block_world, "blocking calls, event loops, net and pipe objects", "kernel sockets and pipes, clock", 1);
